"""The file handler: containment of what it opens (C17), and what it sends for a file (C18)."""
from ..harness import *
from .. import models
from ..check import path_of
from .handlers import sealed, CONN

PUB = 'Pillow::HttpHandlerFile'; XFER = 'Pillow::HttpHandlerFileTransfer'
def nested(v, x):
    if v == x: return True
    if isinstance(v, (tuple, frozenset)): return any(nested(y, x) for y in v)
    return False
def single(v):
    """the one symbolic segment of a string"""
    return v[1][0] if v[0] == 's' and len(v[1]) == 1 else None
def call(v, *names):
    """the arguments of a pure call a string or condition stands for"""
    g = single(v) if v[0] == 's' else v
    if g is not None and g[0] in ('S', 'bool') and isinstance(g[1], tuple) and g[1][0] == 'ext' and g[1][1] in names: return g[1]
    return None
def strval(I, st, a):
    if a[0] == 'p': return I.getstr(st, a[1])
    return a if a[0] == 's' else opaque_str(('val', a))
def true_calls(st, *names):
    for a, v in st.lit.items():
        if v is True:
            k = call(a, *names)
            if k is not None: yield k
CANON = ('QFileInfo::canonicalFilePath',); PATHS = ('QFileInfo::filePath', 'QFileInfo::canonicalFilePath', 'QFileInfo::absoluteFilePath')
INFO = ('QFileInfo::QFileInfo',)

class Files(Rule):
    def __init__(self, c, P, fn): self.check = c; self.P = P; self.fn = fn; self.opens = 0; self.serves = 0; self.streams = 0; self.reads = 0
    def bad(self, st, what, site=None, key=''):
        self.check.violation('%s %s' % (self.fn.n, what), self.P.where(site, self.fn), what, path_of(st))
    def on_seq(self, I, st, op, loc, v, site):
        if op != 'append' or v[0] != 'agg': return
        sub = dict(v[2])
        if ('first',) in sub and ('second',) in sub:
            Rule.put(st, ('hdr', loc), Rule.get(st, ('hdr', loc), ()) + ((sub[('first',)], sub[('second',)]),))
    def on_new(self, I, st, loc, t, site):
        if strip(t) == 'QFile' or self.P.derives(strip(t), XFER): Rule.put(st, ('obj', loc), 'live')
    def own(self, st, f):
        """who owns the file: a scoped pointer releases what it still holds when the function returns"""
        o = Rule.get(st, ('obj', f))
        return 'scoped' if o == 'live' and Rule.get(st, ('scoped', f)) else o
    def on_delete(self, I, st, p, ins, site):
        k = ('obj', p[1]) if p[0] == 'p' else None
        o = Rule.get(st, k)
        if o is None: return
        if o != 'live': self.bad(st, 'deletes a file that is gone or belongs to a transfer', site)
        Rule.put(st, k, 'deleted')

def watch(h, rule):
    """observation points shared by both properties"""
    P = h.P
    def ctor(I, st, ci, this, args, site):
        if args and 'QString' in ci['params'][0]: Rule.put(st, ('path', this[1]), strval(I, st, args[0]))
        return None
    def name(I, st, ci, this, args, site):
        Rule.put(st, ('path', this[1]), strval(I, st, args[0])); return [(st, ('void',))]
    h.observe(['QFile::QFile'], ctor)
    def scoped(on):
        def f(I, st, ci, this, args, site):
            p = args[0] if on else models.qp_get(I, st, this[1], ci['ret'])
            if p[0] == 'p': Rule.put(st, ('scoped', p[1]), on)
            m = models.MODELS['QScopedPointer::QScopedPointer' if on else 'QScopedPointer::take']
            return m(I, st, ci, this, args, site, None)
        return f
    for q in ('QScopedPointer', 'std::unique_ptr'):
        h.observe([q + '::' + q.split('::')[-1]], scoped(True)); h.observe([q + '::take', q + '::release'], scoped(False))
    h.observe(['QFile::setFileName'], name)

# ---- C17 ------------------------------------------------------------------------------------------------------------
def norm(v): return opaque_str(v[1]) if v[0] == 'agg' and not v[2] else v
def slash(v): return norm(v) == mkstr([('L', b'/')]) or (v[0] == 'agg' and v[1][0] == 'ctor' and v[1][2] == (con(47),)) or v == con(47)
def contained(st, path, public):
    """why the path may lie outside of the public directory (None when it cannot)"""
    info = None
    k = call(path, *PATHS)
    if k is not None: info = k[3]
    else:
        for s in list(true_calls(st, 'QFileInfo::isFile')):
            i = s[3]
            if i[0] == 'agg' and i[1][0] == 'ctor' and i[1][2][:1] == (path,): info = i
    if info is None: return 'was never checked'
    if not any(s[3] == info for s in true_calls(st, 'QFileInfo::isFile')): return 'may be something else than a regular file'
    for s in true_calls(st, 'QString::startsWith'):
        args, recv = s[2], norm(s[3])
        pre = norm(args[0])
        if len(args) > 1 and args[1] != ONE: continue                       # case-insensitive
        k = call(('s', recv[1][:1]), *CANON) if recv[0] == 's' else None
        if k is None or k[3] != info or recv[1][1:] not in ((), (('L', b'/'),)): continue
        if pre == mkstr(public[1] + (('L', b'/'),)): return None
        if pre == public and not recv[1][1:]:
            if any(norm(e[3]) == public and slash(e[2][0]) for e in true_calls(st, 'QString::endsWith')): return None
            return 'may be a sibling whose name starts like the public directory'
    return 'is not known to lie inside the public directory'

def containment(c, P):
    public = opaque_str(('fld', ('self',), '_publicPath'))
    opens = writes = paths = entries = 0
    for m, fn in sorted(P.fns.items()):
        if not fn.cls or not P.derives(fn.cls, PUB): continue
        rule = Files(c, P, fn); h = sealed(P, c, fn, rule); h.I.narrow = 'symbol'; watch(h, rule)
        def opened(I, st, ci, this, args, site):
            rule.opens += 1
            path = Rule.get(st, ('path', this[1]) if this[0] == 'p' else None)
            if path is None: rule.bad(st, 'opens a file whose path is unknown', site)
            else:
                why = contained(st, path, public)
                if why is None and st.decide(cle(slen(public), ZERO)) is not False: why = 'is served although no public directory is configured'
                if why: rule.bad(st, 'opens a file whose path %s' % why, site)
            b = st.copy()
            return [(st, ('b', True)), (b, ('b', False))]
        h.observe(['QFile::open'], opened)
        entries += 1
        LOC = THIS + ('_publicPath',)
        ctor = fn.info.get('ctor')
        st = h.state(fn.cls)
        if ctor: st.mem[THIS] = ('undef',)
        for s, v in h.run(fn, st):
            paths += 1
            x = h.I.getstr(s, LOC)
            if x == public and not ctor: continue
            writes += 1
            if s.decide(cle(slen(x), ZERO)) is True: continue
            if call(x, 'QFileInfo::canonicalFilePath', 'QFileInfo::canonicalPath', 'QDir::canonicalPath') is None:
                rule.bad(s, 'leaves a public path that is neither empty nor canonical')
        opens += rule.opens
    c.need('functions', entries, 3); c.need('opened_files', opens, 1); c.need('public_path_updates', writes, 1); c.cov['paths'] = paths
    c.assumptions += ['QFileInfo::canonicalFilePath() resolves every symbolic link and dot segment (documented)', 'the file system does not change between the check and the opening of the file']

# ---- C18 ------------------------------------------------------------------------------------------------------------
REQ = (('r', 'method'),)
def transfer(c, P):
    big = small = unread = cached = paths = 0
    fns = [f for m, f in sorted(P.fns.items()) if f.cls and P.derives(f.cls, PUB) and f.name == 'handleRequest']
    HEAD = atom('eq', ('S', ('r', 'method')), b'HEAD')
    for fn in fns:
        rule = Files(c, P, fn); h = sealed(P, c, fn, rule); h.I.narrow = 'symbol'; watch(h, rule)
        meth = []
        def method(I, st, ci, this, args, site): return [(st, ('p', REQ))]
        def opened(I, st, ci, this, args, site):
            b = st.copy(); rule.opens += 1
            Rule.put(st, 'file', this[1]); Rule.put(st, 'open', True); Rule.put(b, 'open', False); Rule.put(b, 'file', this[1])
            return [(st, ('b', True)), (b, ('b', False))]
        def size(I, st, ci, this, args, site): return [(st, sym(('filesize', this[1]), 0, 2**63 - 1))]
        def readall(I, st, ci, this, args, site):
            rule.reads += 1
            sz = sym(('filesize', this[1]), 0, 2**63 - 1); buf = I.load(st, THIS + ('_bufferSize',), 'int')
            if st.decide(cle(sz, buf)) is not True: rule.bad(st, 'reads a whole file that does not fit in the buffer', site)
            v = opaque_str(('content', this[1])); return [(st, v)]
        def digest(I, st, ci, this, args, site):
            Rule.put(st, ('digest', this[1]), Rule.get(st, ('digest', this[1]), ()) + (strval(I, st, args[0]),)); return [(st, ('void',))]
        def result(I, st, ci, this, args, site): return [(st, opaque_str(('digest', Rule.get(st, ('digest', this[1]), ()))))]
        def headers(I, st, a):
            return Rule.get(st, ('hdr', a[1]), ()) if a[0] == 'p' else ()
        def value(I, st, hs, n):
            return [v for f, v in hs if (str_lit(f) or b'').lower() == n]
        def response(I, st, ci, this, args, site):
            rule.serves += 1
            if Rule.get(st, 'answer') is not None: rule.bad(st, 'answers the request twice', site)
            code = args[0]
            if not isconst(code): rule.bad(st, 'answers with an unknown status', site); code = con(0)
            hs = headers(I, st, args[1]) if len(args) > 1 else (); body = strval(I, st, args[2]) if len(args) > 2 else EMPTY
            Rule.put(st, 'answer', (ci['name'], code[1], hs, body)); st.note(ci['name'], code[1], 'line', site.line)
            return [(st, I.fresh(ci['ret'], st.fresh('r', tuple(site))))]
        def reparent(I, st, ci, this, args, site):
            k = ('obj', this[1]) if this[0] == 'p' else None
            if Rule.get(st, k) is not None: Rule.put(st, k, ('child', args[0][1] if args[0][0] == 'p' else None))
            return [(st, ('void',))]
        def xfer(I, st, ci, this, args, site):
            rule.streams += 1
            Rule.put(st, 'xfer', (this[1], args[0], args[1])); return None
        def start(I, st, ci, this, args, site):
            Rule.put(st, 'started', Rule.get(st, 'started', 0) + 1); return [(st, ('void',))]
        def state(I, st, ci, this, args, site):
            v = I.fresh(ci['ret'], ('connstate', Rule.get(st, 'answer') is not None)); return [(st, v)]
        def reqhdr(I, st, ci, this, args, site): return [(st, opaque_str(('reqheader', (str_lit(strval(I, st, args[0])) or b'?').lower())))]
        h.observe([CONN + '::requestHeaderValue'], reqhdr); h.observe([CONN + '::requestMethod'], method); h.observe(['QFile::open'], opened); h.observe(['QFile::size'], size); h.observe(['QIODevice::readAll', 'QFile::readAll'], readall)
        h.observe(['QCryptographicHash::addData'], digest); h.observe(['QCryptographicHash::result'], result)
        h.observe([CONN + '::writeResponse', CONN + '::writeHeaders', CONN + '::writeResponseString'], response)
        h.observe(['QObject::setParent'], reparent); h.observe([XFER + '::' + XFER.split('::')[-1]], xfer); h.observe([XFER + '::writeNextPayload'], start)
        h.observe([CONN + '::state'], state)
        st = h.state(fn.cls); st.mem[REQ] = opaque_str(('r', 'method'))
        compared = []; validators = []
        for s, v in h.run(fn, st):
            paths += 1
            f = Rule.get(s, 'file'); a = Rule.get(s, 'answer'); x = Rule.get(s, 'xfer')
            if f is None:
                if a is not None and a[1] < 300: rule.bad(s, 'answers successfully without opening a file')
                continue
            own = rule.own(s, f)
            if a is None: continue                                         # C19
            op, code, hs, body = a
            if not Rule.get(s, 'open'):
                unread += 1
                if code < 400: rule.bad(s, 'answers %d although the file could not be read' % code)
                if own == 'live': rule.bad(s, 'never releases the file it could not open')
                continue
            if x is not None or op == 'writeHeaders':
                big += 1
                cl = value(h.I, s, hs, b'content-length'); sz = sym(('filesize', f), 0, 2**63 - 1)
                if code != 200 or op != 'writeHeaders': rule.bad(s, 'streams a file under another response than its own head')
                if cl != [mkstr([('N', 10, sz)])]: rule.bad(s, 'streams a file without announcing exactly its size')
                head = s.decide(HEAD)
                if head is None and x is not None or head is None and x is None:
                    k = h.P.enums[CONN + '::State']['vals']['SendingContent']
                    d = s.decide(ceq(h.I.fresh(CONN + '::State', ('connstate', True)), con(k)))
                    head = None if d is None else not d
                if x is not None:
                    if head is not False: rule.bad(s, 'may start a transfer in answer to a HEAD request')
                    loc, dev, conn = x
                    if dev != ('p', f): rule.bad(s, 'transfers another device than the file')
                    if conn != ('p', (('o', 'arg0'),)): rule.bad(s, 'transfers to another connection')
                    if own != ('child', loc): rule.bad(s, 'the file does not live and die with its transfer')
                    if Rule.get(s, 'started', 0) != 1: rule.bad(s, 'a transfer is not started exactly once')
                else:
                    if head is not True: rule.bad(s, 'announces the content of a file and never sends it')
                    if own == 'live': rule.bad(s, 'never releases the file')
                continue
            if own == 'live': rule.bad(s, 'never releases the file')
            etag = value(h.I, s, hs, b'etag')
            if code == 304:
                cached += 1
                if body != EMPTY and str_lit(body) != b'': rule.bad(s, 'sends content with 304')
                ok = False
                for e, t in s.lit.items():
                    if t is True and e[0] == 'seq' and nested(e, ('content', f)):
                        for x, w in ((e[1], e[2]), (e[2], e[1])):
                            if nested(x, ('reqheader', b'if-none-match')) and not nested(w, ('reqheader', b'if-none-match')): ok = True; compared.append((w, s))
                if not ok: rule.bad(s, 'answers 304 although the validator of the client was not compared with this content')
            elif code == 200:
                small += 1
                if body != opaque_str(('content', f)): rule.bad(s, 'answers with other content than that of the file')
                validators.extend(etag)
                if etag and not all(nested(e, ('content', f)) for e in etag): rule.bad(s, 'the validator does not depend on the content')
                if value(h.I, s, hs, b'content-length'): rule.bad(s, 'sends its own Content-Length for complete content')
            else: rule.bad(s, 'answers %d although the file was read' % code)
        for w, s in compared:
            if w not in validators: rule.bad(s, 'answers 304 by another value than the validator it sends with the content')
    c.need('streamed_paths', big, 1); c.need('small_file_paths', small, 1); c.need('not_modified_paths', cached, 1); c.need('unreadable_paths', unread, 1)
    payload(c, P)
    c.cov['paths'] = paths
    c.assumptions += ['a file keeps its size while it is being sent', 'QIODevice::read and readAll return the requested bytes of the file']

def payload(c, P):
    """the transfer: what it reads, what it writes, and that it never stalls"""
    n = reads = idle = 0
    for fn in [f for m, f in sorted(P.fns.items()) if f.cls and P.derives(f.cls, XFER)]:
        rule = Files(c, P, fn); h = sealed(P, c, fn, rule); h.I.narrow = 'symbol'
        h.I.noinline -= {f.n for m, f in P.fns.items() if f.cls and P.derives(f.cls, XFER)}
        SZ = sym('xfer.size', 0, 2**63 - 1); PEND = sym('xfer.pending', 0, 2**62)
        def pos(I, st): return sym('xfer.pos', 0, 2**63 - 1) if not Rule.get(st, 'read') else sym('xfer.pos2', 0, 2**63 - 1)
        out = ('p', (('o', 'xfer.out'),))
        def size_(I, st, ci, this, args, site): return [(st, SZ)]
        def pos_(I, st, ci, this, args, site):
            p = pos(I, st); st.assume(cle(p, SZ)); return [(st, p)]
        def pending(I, st, ci, this, args, site): return [(st, PEND)]
        def outdev(I, st, ci, this, args, site): return [(st, out)]
        def read(I, st, ci, this, args, site):
            rule.reads += 1
            k = args[0] if len(args) == 1 else args[1]
            if len(args) != 1: return None
            buf = I.load(st, THIS + ('_bufferSize',), 'int')
            if Rule.get(st, 'read'): rule.bad(st, 'reads a second piece before it wrote the first', site)
            if st.decide(cle(k, ZERO)) is not False: rule.bad(st, 'may read nothing', site)
            p = pos(I, st); st.assume(cle(p, SZ))
            if st.decide(cle(add(k, p), SZ)) is not True: rule.bad(st, 'may read past the end of the file', site)
            if st.decide(cle(add(k, PEND), buf)) is not True: rule.bad(st, 'may buffer more than the buffer size', site)
            Rule.put(st, 'read', True)
            return [(st, opaque_str('xfer.piece'))]
        def write(I, st, ci, this, args, site):
            if not Rule.get(st, 'read') or Rule.get(st, 'written') or strval(I, st, args[0]) != opaque_str('xfer.piece'): rule.bad(st, 'writes something else than the piece it just read', site)
            Rule.put(st, 'written', True); return [(st, ('void',))]
        def atend(I, st, ci, this, args, site):
            e = ceq(sym('xfer.pos2', 0, 2**63 - 1), SZ) if Rule.get(st, 'read') else ceq(sym('xfer.pos', 0, 2**63 - 1), SZ)
            o = []
            for s, t in I.split(st, e): o.append((s, ('b', t)))
            return o
        h.observe(['QIODevice::size', 'QFile::size'], size_); h.observe(['QIODevice::pos', 'QFile::pos'], pos_); h.observe(['QIODevice::bytesToWrite'], pending)
        h.observe([CONN + '::outputDevice'], outdev); h.observe(['QIODevice::read'], read); h.observe([CONN + '::writeContent'], write); h.observe(['QIODevice::atEnd', 'QFile::atEnd'], atend)
        def virt(I, st, m, ci, th, args, site):
            for ns, f in ((('QIODevice::size', 'QFile::size'), size_), (('QIODevice::pos', 'QFile::pos'), pos_), (('QIODevice::bytesToWrite',), pending), (('QIODevice::atEnd', 'QFile::atEnd'), atend)):
                if ci['n'] in ns: return f(I, st, ci, th, args, site)
            return None
        rule.on_virtual = virt
        def signal(I, st, ci, this, args, site):
            if ci['name'] == 'finished':
                Rule.put(st, 'finished', Rule.get(st, 'finished', 0) + 1)
            return [(st, ('void',))]
        rule.on_signal = signal
        st = h.state(fn.cls)
        ctor = fn.info.get('ctor')
        if ctor: st.mem[THIS] = ('undef',)
        else: st.assume(cle(con(512), h.I.load(st, THIS + ('_bufferSize',), 'int')))
        for s, v in h.run(fn, st):
            n += 1
            b = h.I.load(s, THIS + ('_bufferSize',), 'int')
            if b[0] != 'i' or s.decide(cle(con(512), b)) is not True: rule.bad(s, 'leaves a buffer size below 512 bytes')
            if fn.name != 'writeNextPayload': continue
            rd, wr, fin = Rule.get(s, 'read'), Rule.get(s, 'written'), Rule.get(s, 'finished', 0)
            if rd and not wr: rule.bad(s, 'drops a piece it read')
            end = s.decide(ceq(sym('xfer.pos2', 0, 2**63 - 1), SZ)) if rd else s.decide(ceq(sym('xfer.pos', 0, 2**63 - 1), SZ))
            if fin > 1: rule.bad(s, 'finishes twice')
            if fin and (not rd or end is not True): rule.bad(s, 'finishes before the end of the file')
            if rd and not fin and end is not False: rule.bad(s, 'does not finish at the end of the file')
            if not rd:
                idle += 1
                gone = any(a[0] == 'null' and t is True for a, t in s.lit.items())
                if not gone and s.decide(cle(PEND, ZERO)) is not False and s.decide(cle(SZ, sym('xfer.pos', 0, 2**63 - 1))) is not True:
                    rule.bad(s, 'writes nothing although content remains and nothing is pending, so the transfer stalls')
        reads += rule.reads
    c.need('transfer_paths', n, 2); c.need('transfer_reads', reads, 1); c.need('idle_paths', idle, 1)
