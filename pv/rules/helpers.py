"""Rules about the stateless helpers."""
from ..harness import *

PHRASED = [100, 101] + list(range(200, 207)) + [300, 301, 302, 303, 304, 305, 307] + [400, 401] + list(range(403, 418)) + list(range(500, 506))

def literal_of(v):
    if v[0] == 'cl' and isconst(v[2]): return v[1][v[2][1]:]
    if v[0] == 'n': return None
    return False

def status_table(c, P):
    """the status lookup, evaluated abstractly for each code 0..999 and for the two unbounded ranges outside"""
    fn = P.find('Pillow::HttpProtocol::StatusCodes::getStatusCodeAndMessage'); fm = P.find('Pillow::HttpProtocol::StatusCodes::getStatusMessage')
    h = Harness(P)
    def at(f, lo, hi):
        st = h.state(); a = con(lo) if lo == hi else sym(('status', lo, hi), lo, hi)
        return [literal_of(v) for _, v in h.run(f, st, [a], this=False)]
    n = 0; known = 0
    for lo, hi in [(-2**31, -1)] + [(k, k) for k in range(0, 1000)] + [(1000, 2**31 - 1)]:
        texts = at(fn, lo, hi); msgs = at(fm, lo, hi)
        n += 1
        if False in texts or False in msgs: raise AnalysisBroken('status lookup of %d is not a literal' % lo)
        if lo == hi and lo in PHRASED and (None in texts or None in msgs):
            c.violation('unknown:%d' % lo, P.loc(fn, fn.line), 'status code %d has no status line text' % lo); continue
        for t, m in zip(texts, msgs):
            if t is None: continue
            t = t.split(b'\0')[0]
            known += 1
            want = b'%03d ' % lo
            if lo != hi or not t.startswith(want): c.violation('code:%d' % lo, P.loc(fn, fn.line), 'status code %d yields the status line text %r' % (lo, t))
            elif len(t) < 6 or any(b < 32 or b > 126 for b in t): c.violation('phrase:%d' % lo, P.loc(fn, fn.line), 'status code %d has the malformed reason phrase %r' % (lo, t))
            elif m is None or m.split(b'\0')[0] != t[4:]: c.violation('msg:%d' % lo, P.loc(fm, fm.line), 'status message of %d is %r, not the reason phrase %r' % (lo, m, t[4:]))
    c.need('code_values', n, 1000); c.need('known_codes', known, 35 if not c.found else 0)
    c.cov['exhaustive'] = True
