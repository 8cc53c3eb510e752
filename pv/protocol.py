"""Protocol monitor of HttpConnection: observes device writes and signals of the abstract execution and decides the wire and
life-cycle properties of a connection."""
from .dom import *
from .monitor import Monitor
from .conn import G, ENV, THIS, CLS
from . import models

RECV, READY, BODY, DONE, CLOSED, ERR, UNINIT = range(7)
PH = ['receiving', 'request ready', 'sending content', 'completed', 'closed', 'failed', 'uninitialised']
M_NONE, M_LEN, M_CHUNK, M_CLOSE = range(4)
MODE = ['no body', 'content-length', 'chunked', 'until close']
FRAMING = (b'content-length', b'transfer-encoding', b'connection')
CONTINUE = b'HTTP/1.1 100 Continue\r\n\r\n'

def lines(v):
    """header block as a list of lines (each a list of segments); a star segment is a line of its own.  None: not a header block"""
    out = []; cur = []
    for g in v[1]:
        if g[0] == 'L':
            parts = g[1].split(b'\r\n')
            for i, p in enumerate(parts):
                if i: out.append(cur); cur = []
                if p: cur.append(('L', p))
        elif g[0] == '*':
            if cur: return None
            for alt in g[2]:
                if not (alt and alt[-1][0] == 'L' and alt[-1][1].endswith(b'\r\n')): return None
            out.append([g])
        else: cur.append(g)
    if cur: return None
    return out

class Protocol(Monitor):
    def __init__(self):
        self.viol = {}; self.dropped = {}; self.count = {}
    # ---- reports ------------------------------------------------------------
    def report(self, prop, st, site, msg):
        where = '%s:%s' % (site.fn.n, site.line) if site else '?'
        key = (prop, where, msg)
        d = self.dropped if st.flags else self.viol
        if key not in d: d[key] = (tuple(sorted(st.flags)), st.trace)
    def n(self, *k): self.count[k] = self.count.get(k, 0) + 1
    # ---- ghosts -------------------------------------------------------------
    def g(self, st, n):
        v = st.mem.get(G(n))
        return v[1] if v is not None and v[0] in ('i', 'b') and not (v[0] == 'i' and v[2]) else None
    def setg(self, st, **kw):
        for k, v in kw.items():
            st.mem[G(k)] = ('b', v) if isinstance(v, bool) else con(v) if isinstance(v, int) else v
    def start(self, I, st):
        self.setg(st, ph=UNINIT, mode=M_NONE, decl=ZERO, sent=ZERO, head=False, h11=False, keep=True, cs=0, clen=ZERO)
    def may_initialize(self, st): return self.M.stateval(st) in ('Uninitialized', 'Closed') and self.g(st, 'ph') in (UNINIT, CLOSED)
    def on_initialize(self, I, st):
        self.setg(st, ph=RECV, mode=M_NONE, decl=ZERO, sent=ZERO, head=False, h11=False, keep=True, cs=0, clen=ZERO)
        st.mem[G('inpos')] = ZERO
    # ---- operations ---------------------------------------------------------
    WRITERS = ('writeResponse', 'writeResponseString', 'writeHeaders')
    def op_begin(self, I, st, ci, args):
        n = ci['name']; ph = self.g(st, 'ph'); inert = None
        if n in self.WRITERS and ph != READY: inert = 'outside of the response head phase'
        elif n in ('writeContent', 'endContent') and ph != BODY: inert = 'outside of the content phase'
        elif n == 'endContent' and self.g(st, 'mode') in (M_LEN, M_NONE): inert = 'while the content length is known'
        st.mem[ENV('op')] = ('agg', ('gh', n), ()); st.mem[ENV('q0')] = ('agg', ('gh', self.M.stateval(st)), ())
        if n == 'writeContent' and inert is None:
            c = models.strof(I, st, args[0], ci['params'][0])
            st.mem[ENV('content')] = c; st.mem[ENV('wrote')] = con(0)
            m = self.g(st, 'mode')
            if not self.g(st, 'head') and st.decide(ceq(slen(c), ZERO)) is not True: st.mem[ENV('room')] = add(st.mem[G('sent')], slen(c)) if m == M_LEN else con(-1)
            st.mem[ENV('decl0')] = st.mem[G('decl')]
        if n in self.WRITERS and ph == READY:
            st.mem[ENV('need')] = ('b', True)
            if n != 'writeHeaders' and len(args) > 2:
                st.mem[ENV('content')] = models.strof(I, st, args[2], ci['params'][2]); st.mem[ENV('wrote')] = con(0)
        if inert:
            st.mem[ENV('inert')] = ('agg', ('gh', inert), ())
            self.snap = {l: v for l, v in st.mem.items() if l[0] != ('ENV',)}
        self.n('op', n, PH[ph] if ph is not None else '?')
    def op_end(self, I, st, ci):
        n = ci['name']
        f = I.P.fns.get(ci['m']) if 'm' in ci else None
        site = Sitelike(f) if f else None
        if ENV('inert') in st.mem:
            why = st.mem[ENV('inert')][1][1]
            for l, v in self.snap.items():
                if l[-1] in ('$tail', '$dp', '$cap', '$st', '$vst'): continue
                if l in st.mem and st.mem[l] != v and l[0][0] != 'r':
                    self.report('C01', st, site, '%s() %s changes %s' % (n, why, l[-1])); break
        if ENV('need') in st.mem and st.mem[ENV('need')][1] is True:
            self.report('C06', st, site, '%s() with a request ready returns without writing a response head' % n)
        if ENV('room') in st.mem and ENV('wrote') in st.mem and st.decide(cle(ONE, st.mem[ENV('wrote')])) is not True and st.decide(ceq(slen(st.mem[ENV('content')]), ZERO)) is not True:
            t = st.mem[ENV('room')]
            if t == con(-1) or st.decide(clt(st.mem[ENV('decl0')], t)) is not True:
                self.report('C16', st, site, '%s() refuses content that the announced length has room for' % n)
        self.boundary(I, st, site)
        for l in [l for l in st.mem if l[0] == ('ENV',)]: del st.mem[l]
    def boundary(self, I, st, site):
        """state the connection leaves itself in when control returns to the application"""
        ph = self.g(st, 'ph'); q = self.M.stateval(st)
        want = {RECV: ('ReceivingHeaders', 'ReceivingContent'), READY: ('SendingHeaders',), BODY: ('SendingContent',), CLOSED: ('Closed',), UNINIT: ('Uninitialized',),
                ERR: ('Flushing', 'Closed'), DONE: ('Flushing', 'Closed')}.get(ph)
        if ph == DONE and self.g(st, 'keep') and q in ('ReceivingHeaders', 'ReceivingContent'): self.setg(st, ph=RECV); return
        if ph == DONE and q == 'Completed' and ENV('q0') in st.mem and st.mem[ENV('q0')][1][1] == 'Completed': return
        if want and q is not None and q not in want:
            self.report('C05' if ph == DONE else 'C06', st, site, 'connection is left in state %s although the exchange is %s' % (q, PH[ph]))
        if ph == DONE and self.g(st, 'keep') and q == 'Flushing':
            self.report('C05', st, site, 'a connection announced as persistent is torn down after the response')
        if ph == BODY and self.g(st, 'mode') == M_LEN:
            if st.decide(clt(st.mem[G('sent')], st.mem[G('decl')])) is not True:
                self.report('C02', st, site, 'the declared content has been sent but the request is not completed')
    # ---- signals ------------------------------------------------------------
    def on_signal(self, I, st, ci, this, args, site):
        n = ci['name']; ph = self.g(st, 'ph'); q = self.M.stateval(st)
        self.n('signal', n, PH[ph])
        if ENV('inert') in st.mem:
            self.report('C01', st, site, '%s() %s emits %s()' % (st.mem[ENV('op')][1][1], st.mem[ENV('inert')][1][1], n))
            return []
        states = [st]
        if n == 'requestReady':
            if ph == DONE:
                if not self.g(st, 'keep'): self.report('C05', st, site, 'requestReady() after a response that ends the connection')
            elif ph != RECV: self.report('C06', st, site, 'requestReady() while the exchange is %s' % PH[ph])
            if q != 'SendingHeaders': self.report('C06', st, site, 'requestReady() emitted in state %s' % q)
            states = []
            f = self.M.field
            m, v = (st.mem.get(f(st, x)) for x in ('_requestMethod', '_requestHttpVersion'))
            for s1, h in self.eq(I, st, m, b'HEAD'):
                for s2, k in self.eq(I, s1, v, b'HTTP/1.1'):
                    self.setg(s2, ph=READY, mode=M_NONE, decl=ZERO, sent=ZERO, head=h, h11=k, keep=True, cs=0, clen=ZERO)
                    states.append(s2)
        elif n == 'requestCompleted':
            if q != 'Completed': self.report('C06', st, site, 'requestCompleted() emitted in state %s' % q)
            if ph not in (READY, BODY): self.report('C06', st, site, 'requestCompleted() while the exchange is %s' % PH[ph])
            elif ph == READY: self.report('C06', st, site, 'requestCompleted() before any response head was written')
            else: self.complete(st, site)
            self.setg(st, ph=DONE, mode=M_NONE, decl=ZERO, sent=ZERO, head=False, h11=False, cs=0, clen=ZERO)
            if ENV('op') in st.mem: st.mem[ENV('stale')] = ('b', True)
        elif n == 'closed':
            if ph == CLOSED: self.report('C06', st, site, 'closed() while the connection is %s' % PH[ph])
            if q != 'Closed': self.report('C06', st, site, 'closed() emitted in state %s' % q)
            self.setg(st, ph=CLOSED, mode=M_NONE, decl=ZERO, sent=ZERO, head=False, h11=False, keep=True, cs=0, clen=ZERO)
        out = []
        for s in states:
            # what the operation wanted is settled by what happened so far
            env = {l: v for l, v in s.mem.items() if l[0] == ('ENV',)}
            out += self.M.emit(I, s, site)
        return out
    def eq(self, I, st, v, lit):
        if v is None: return [(st, False)]
        b = str_lit(v)
        if b is not None: return [(st, b == lit)]
        if len(v[1]) != 1: return [(st, False), (st.copy(), True)]
        return I.split(st, atom('eq', v[1][0], lit))
    def complete(self, st, site):
        mode = self.g(st, 'mode'); head = self.g(st, 'head')
        if head: return
        if mode == M_LEN and st.decide(ceq(st.mem[G('sent')], st.mem[G('decl')])) is not True:
            self.report('C02', st, site, 'request completed before the declared content length was sent')
        if mode == M_CHUNK and self.g(st, 'cs') != 3:
            self.report('C04', st, site, 'chunked response completed without its terminating chunk')
    # ---- wire -----------------------------------------------------------------
    def on_devclose(self, I, st, this, site): pass
    def wire(self, I, st, this, v, site):
        ph = self.g(st, 'ph')
        self.n('wire', site.fn.n, site.line, PH[ph])
        if ENV('inert') in st.mem:
            self.report('C01', st, site, '%s() %s writes to the device' % (st.mem[ENV('op')][1][1], st.mem[ENV('inert')][1][1])); return []
        if not v[1]: return [st]
        if ph == RECV or (ph == DONE and self.g(st, 'keep')):
            if str_lit(v) == CONTINUE: return [st]
            b = self.flat(v)
            if b is not None and b.startswith(b'HTTP/1.') and b.endswith(b'\r\n\r\n') and b.count(b'\r\n\r\n') == 1:
                code = b.split(b' ')[1]
                if code not in (b'400', b'413'): self.report('C07', st, site, 'unexpected response %s while a request is being received' % code.decode('latin1'))
                if b'\r\nConnection: close\r\n' not in b: self.report('C07', st, site, 'error response without Connection: close')
                self.setg(st, ph=ERR, keep=False)
                return [st]
            self.report('C07', st, site, 'unexpected bytes written while a request is being received')
            return [st]
        if ph == READY: return self.head(I, st, v, site)
        if ph == BODY: return self.body(I, st, v, site)
        self.report('C06', st, site, 'bytes written while the exchange is %s' % PH[ph])
        return [st]
    def flat(self, v):
        b = b''
        for g in v[1]:
            if g[0] == 'L': b += g[1]
            elif g[0] == 'S' and g[1][0] == 'tbl': b += b'??? unknown'
            else: return None
        return b
    def hclass(self, st, f):
        """which header is it, by the comparisons the path made"""
        known = set()
        for a, x in st.lit.items():
            if a[0] in ('ieq', 'eq') and a[1] == f:
                if x is True: return a[2].lower()
                if a[0] == 'ieq': known.add(a[2].lower())
        return 'plain' if known.issuperset(FRAMING) else None
    def on_append_header(self, I, st, loc, hdr, f, s, site):
        if self.g(st, 'ph') != READY or len(f[1]) != 1: return
        c = self.hclass(st, f[1][0])
        if c is None: self.report('C04', st, site, 'caller header relayed without being checked for Content-Length, Transfer-Encoding and Connection')
    def ieq(self, st, seg, lit):
        return st.lit.get(('ieq', seg, lit))
    def head(self, I, st, v, site):
        ls = lines(v)
        if not ls or ls[-1] or not ls[0] or [] in ls[:-1]:
            self.report('C04', st, site, 'response head is not one block of lines ending in an empty line'); self.setg(st, ph=BODY, mode=M_CLOSE); return [st]
        if st.mem.get(ENV('need')): st.mem[ENV('need')] = ('b', False)
        cl = []; te = []; conn = []
        for l in ls[1:-1]:
            if l[0][0] == '*': continue
            if l[0][0] == 'L':
                b = l[0][1]
                if b'\n' in b or b':' not in b: self.report('C04', st, site, 'malformed header line %r' % b); continue
                k, val = b.split(b':', 1); k = k.lower(); val = val.strip()
                if k == b'content-length':
                    if len(l) == 2 and not val and l[1][0] == 'N' and l[1][1] == 10: cl.append(l[1][2])
                    elif len(l) == 1 and val.isdigit(): cl.append(con(int(val)))
                    else: cl.append(None)
                elif k == b'transfer-encoding': te.append(('L', val.lower()) if len(l) == 1 else None)
                elif k == b'connection': conn.append(val.lower() if len(l) == 1 else None)
                continue
            c = self.hclass(st, l[0])
            if c == b'content-length': cl.append(None)
            elif c == b'connection': conn.append(None)
            elif c == b'transfer-encoding':
                te.append(l[2] if len(l) == 3 and l[1] == ('L', b': ') else None)
        h11 = self.g(st, 'h11'); head = self.g(st, 'head')
        if len(cl) > 1: self.report('C04', st, site, 'two Content-Length headers')
        if len(conn) > 1: self.report('C05', st, site, 'two Connection headers')
        chunked = False
        for t in te:
            if t is None: continue
            if t[0] == 'L': chunked = chunked or t[1] == b'chunked'
            else:
                x = self.ieq(st, t, b'chunked')
                if x is None: self.report('C04', st, site, 'Transfer-Encoding relayed without checking whether it is chunked')
                chunked = chunked or x is True
        if chunked and not h11: self.report('C04', st, site, 'Transfer-Encoding: chunked announced to an HTTP/1.0 client')
        if chunked and cl: self.report('C04', st, site, 'Transfer-Encoding: chunked announced together with Content-Length')
        decl = ZERO
        if cl:
            decl = cl[0]
            if decl is None:
                self.report('C16', st, site, 'Content-Length header whose value is not the number used for the body'); decl = sym(('decl?',))
            elif st.decide(cle(ZERO, decl)) is not True: self.report('C16', st, site, 'Content-Length header may carry a negative or truncated value')
        mode = M_CHUNK if chunked else M_LEN if cl else M_CLOSE
        # persistence
        ann = None
        if conn and conn[0] == b'close': ann = False
        elif conn and conn[0] == b'keep-alive': ann = True
        elif conn: self.report('C05', st, site, 'Connection header not under the control of the connection')
        else: ann = bool(h11)
        cw = None; sc = False
        for a, x in st.lit.items():
            if a[0] != 'ieq': continue
            k = a[1]
            if k[0] == 'S' and k[1][0] == 'fld' and k[1][1][0] == 'r' and isinstance(k[1][1][1], tuple) and k[1][1][1][0] == 'hdrval' and k[1][1][1][2] == b'connection':
                if h11 and a[2].lower() == b'close': cw = not x
                if not h11 and a[2].lower() == b'keep-alive': cw = x
            elif a[2].lower() == b'close' and x is True and k[0] == 'S' and k[1][0] == 'fld' and k[1][-1] == 'second':
                if self.hclass(st, ('S', k[1][:-1] + ('first',))) == b'connection': sc = True
        if ann:
            if cw is not True: self.report('C05', st, site, 'keep-alive announced although the client did not ask for it')
            if sc: self.report('C05', st, site, 'keep-alive announced although the handler asked for Connection: close')
            if mode == M_CLOSE: self.report('C05', st, site, 'keep-alive announced for a response whose end cannot be recognised')
        elif ann is False and cw is True and not sc and mode != M_CLOSE:
            self.report('C05', st, site, 'Connection: close announced although client and handler allow a persistent connection')
        self.setg(st, ph=BODY, mode=mode, decl=decl, sent=ZERO, keep=bool(ann), cs=0, clen=ZERO)
        return [st]
    def chunklen(self, v):
        return slen(v)
    def body(self, I, st, v, site):
        mode = self.g(st, 'mode'); head = self.g(st, 'head')
        if ENV('stale') in st.mem:
            self.report('C02', st, site, '%s() goes on writing content after it completed its own request' % st.mem[ENV('op')][1][1]); return []
        if head: self.report('C03', st, site, 'content bytes written in response to a HEAD request'); return [st]
        if mode == M_LEN:
            n = slen(v)
            t = add(st.mem[G('sent')], n)
            if st.decide(cle(t, st.mem[G('decl')])) is not True: self.report('C02', st, site, 'more content written than the Content-Length header declares')
            st.mem[G('sent')] = t
            self.content(st, v, site)
        elif mode == M_CLOSE: self.content(st, v, site)
        elif mode == M_CHUNK: self.chunk(st, v, site)
        return [st]
    def content(self, st, v, site):
        if ENV('content') in st.mem:
            w = st.mem[ENV('wrote')][1]
            c = st.mem[ENV('content')]
            if w or v != c and not (len(v[1]) == 1 and v[1][0] == ('S', ('toUtf8', c))):
                self.report('C02', st, site, '%s() does not send exactly the bytes it was given' % st.mem[ENV('op')][1][1])
            st.mem[ENV('wrote')] = con(1)
    def chunk(self, st, v, site):
        segs = list(v[1]); cs = self.g(st, 'cs')
        bad = lambda why: self.report('C04', st, site, 'malformed chunked content: ' + why)
        i = 0; buf = b''
        # stream of literal bytes and symbolic segments
        items = []
        for g in segs:
            if g[0] == 'L': items += [g[1][k:k + 1] for k in range(len(g[1]))]
            else: items.append(g)
        while i < len(items):
            x = items[i]
            if cs == 0:
                if items[i:i + 5] == [b'0', b'\r', b'\n', b'\r', b'\n']: cs = 3; i += 5; continue
                if isinstance(x, tuple) and x[0] == 'N':
                    if x[1] != 16: bad('chunk size is not hexadecimal'); return
                    st.mem[G('clen')] = x[2]
                    if st.decide(cle(ONE, x[2])) is not True: bad('empty chunk before the end of the content')
                    cs = 1; i += 1; continue
                bad('chunk size expected'); return
            if cs == 1:
                if items[i:i + 2] != [b'\r', b'\n']: bad('chunk size line not terminated'); return
                cs = 2; i += 2; continue
            if cs == 2:
                j = i; segs2 = []
                # a chunk's data: the caller's bytes
                while j < len(items) and isinstance(items[j], tuple): segs2.append(items[j]); j += 1
                if not segs2: bad('chunk data expected'); return
                d = ('s', tuple(segs2))
                if st.decide(ceq(slen(d), st.mem[G('clen')])) is not True: bad('chunk size differs from the chunk data'); return
                self.content(st, d, site)
                cs = 4; i = j; continue
            if cs == 4:
                if items[i:i + 2] != [b'\r', b'\n']: bad('chunk data not terminated'); return
                cs = 0; i += 2; continue
            if cs == 3: bad('bytes after the terminating chunk'); return
        self.setg(st, cs=cs)
    # ---- safety -----------------------------------------------------------------
    def on_null(self, I, st, site, what): self.report('C06', st, site, what)
    def on_undef(self, I, st, site, loc=None): self.report('C36', st, site, 'uninitialised %s read' % (loc[-1] if loc else 'value'))
    def on_parse(self, *a): pass

class Sitelike:
    def __init__(self, f): self.fn = f; self.line = f.line
