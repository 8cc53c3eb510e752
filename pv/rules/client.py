"""The HTTP client: requests on the wire (C29)."""
from ..harness import *
from .. import models
from ..check import path_of
CLIENT = 'Pillow::HttpClient'; WRITER = 'Pillow::HttpRequestWriter'; PARSER = 'Pillow::HttpResponseParser'
DEBUG = False
COUNT = (('G',), 'count')

def nested(v, x):
    if v == x: return True
    return isinstance(v, (tuple, frozenset)) and any(nested(y, x) for y in v)
def element(v, key):
    """(index, member) of the element of the sequence with this identity that a segment is read from"""
    k = v[1] if v[0] == 'S' else None
    if isinstance(k, tuple) and len(k) == 4 and k[0] == 'fld' and k[1] == key and isinstance(k[2], tuple) and k[2][0] == '[]': return k[2][1], k[3]
    return None
class Wire(Rule):
    def __init__(self, c, P, fn): self.check = c; self.P = P; self.fn = fn; self.lines = 0; self.writes = 0
    def bad(self, st, what, site=None):
        self.check.violation('%s %s' % (self.fn.n, what), self.P.where(site, self.fn), '%s %s' % (self.fn.n, what), path_of(st))
    def on_null(self, I, st, site, what): self.bad(st, 'uses a device that is not set', site)

def wire(c, P):
    tot = dict(paths=0, lines=0, writes=0, heads=0)
    for fn in [f for f in P.fns.values() if f.cls == WRITER and len(f.params) == 4 and 'HttpHeader' in f.params[2] and sum('QByteArray' in p for p in f.params) == 3]:
        rule = Wire(c, P, fn); h = Harness(P, rule, max_states=8000); I = h.I
        names = [f['name'] for f in P.records[WRITER]['fields'] if 'ByteArray' in f['type']]
        dev = [f['name'] for f in P.records[WRITER]['fields'] if 'QIODevice' in f['type']]
        if len(names) != 1 or len(dev) != 1: raise AnalysisBroken('anchor vanished: buffer and device of ' + WRITER)
        B = THIS + (names[0],); D = (('o', 'device'),)
        M, PATH, H, DATA = [(('r', 'arg%d' % i),) for i in range(4)]
        method, path, data = opaque_str(('r', 'method')), opaque_str(('r', 'path')), opaque_str(('r', 'data'))
        LINE1 = mkstr(method[1] + (('L', b' '),) + path[1] + (('L', b' HTTP/1.1\r\n'),))
        def take(st, segs, site):
            """the bytes of the message in order"""
            line = Rule.get(st, 'line', ()) + segs
            while True:
                ph = Rule.get(st, 'phase')
                if ph == 'body':
                    if line: 
                        if mkstr(line) == data and Rule.get(st, 'sentdata') is None: Rule.put(st, 'sentdata', True)
                        else: rule.bad(st, 'sends something else than the data after the head', site)
                    line = (); break
                k = None; acc = ()
                line = mkstr(line)[1]
                for n, g in enumerate(line):
                    if g[0] == 'L' and b'\n' in g[1]:
                        a, b = g[1].split(b'\n', 1); k = n; first = line[:n] + (('L', a + b'\n'),); rest = ((('L', b),) if b else ()) + line[n + 1:]; break
                if k is None: break
                endline(st, mkstr(first), site); line = rest
            Rule.put(st, 'line', tuple(line))
        def endline(st, l, site):
            ph = Rule.get(st, 'phase'); tot['lines'] += 1
            st.note('line of the head', 'line', site.line if site else 0)
            if ph == 'first':
                if l != LINE1: rule.bad(st, 'does not start with the request line of the request', site)
                Rule.put(st, 'phase', 'headers'); return
            if l == lit(b'\r\n'):
                n = models.csize(I, st, H)
                if st.decide(ceq(st.mem[COUNT], n)) is not True: rule.bad(st, 'ends the head without every header exactly once', site)
                e = st.decide(ceq(slen(data), ZERO))
                if e is not False and Rule.get(st, 'cl'): rule.bad(st, 'announces content that the request does not have', site)
                if e is not True and not Rule.get(st, 'cl'): rule.bad(st, 'does not announce the length of the content', site)
                Rule.put(st, 'phase', 'body'); tot['heads'] += 1; return
            if l == mkstr([('L', b'Content-Length: '), ('N', 10, slen(data)), ('L', b'\r\n')]):
                if Rule.get(st, 'cl'): rule.bad(st, 'announces the length of the content twice', site)
                Rule.put(st, 'cl', True); return
            s = l[1]
            if len(s) == 4 and s[1] == ('L', b': ') and s[3] == ('L', b'\r\n'):
                a, b = element(s[0], H[0]), element(s[2], H[0])
                if a and b and a[0] == b[0] and (a[1], b[1]) == ('first', 'second'):
                    if st.decide(ceq(a[0], st.mem[COUNT])) is not True: rule.bad(st, 'sends the headers out of order', site)
                    st.mem[COUNT] = add(st.mem[COUNT], ONE); return
            if DEBUG: print('LINE', l, [SYM.keys[t] for t in syms_of(l)])
            rule.bad(st, 'sends a line that is neither a header of the request nor the length of its data', site)
        def on_append(I, st, loc, v, site):
            if loc != B: return
            if Rule.get(st, 'flushed'): rule.bad(st, 'appends to a buffer that was sent', site)
            take(st, v[1], site)
        rule.on_append = on_append
        def write(I, st, ci, this, args, site):
            rule.writes += 1
            if this[0] != 'p' or this[1] != D: rule.bad(st, 'writes to something else than its device', site); return [(st, I.fresh(ci['ret'], st.fresh('w', tuple(site))))]
            a = args[0]
            v = I.getstr(st, a[1]) if a[0] == 'p' else a if a[0] == 's' else models.char_slice(I, st, a, args[1]) if len(args) > 1 else models.cstr(I, st, a)
            if a[0] in ('p', 'c') and a[1] == B:
                if a[0] == 'c' and not (len(args) > 1 and a[3] == ZERO and st.decide(ceq(args[1], slen(I.getstr(st, B)))) is True): rule.bad(st, 'sends only a part of the buffer', site)
                if Rule.get(st, 'flushed'): rule.bad(st, 'sends the head twice', site)
                if Rule.get(st, 'phase') != 'body': rule.bad(st, 'sends an unfinished head', site)
                Rule.put(st, 'flushed', True)
            else:
                if not Rule.get(st, 'flushed'): rule.bad(st, 'sends the data before the head', site)
                if a[0] == 'c' and len(args) == 1 and any(g[0] != 'L' for g in v[1]): rule.bad(st, 'sends its data only up to the first NUL byte', site)
                take(st, v[1], site)
            return [(st, I.fresh(ci['ret'], st.fresh('w', tuple(site))))]
        h.observe(['QIODevice::write'], write)
        st = h.state(WRITER); args = [h.arg(t, i) for i, t in enumerate(fn.params)]
        st.mem[M] = method; st.mem[PATH] = path; st.mem[DATA] = data; st.mem[B] = EMPTY; st.mem[COUNT] = ZERO
        st.mem[THIS + (dev[0],)] = ('p', D)
        Rule.put(st, 'phase', 'first')
        for s, v in h.run(fn, st, args):
            tot['paths'] += 1
            if s.decide(('at', ('null', D), True)) is True:
                if Rule.get(s, 'phase') != 'first' or Rule.get(s, 'line'): rule.bad(s, 'keeps a request that it could not send')
                continue
            if not Rule.get(s, 'flushed') or Rule.get(s, 'phase') != 'body': rule.bad(s, 'does not send the request')
            elif s.decide(ceq(slen(data), ZERO)) is not True and not Rule.get(s, 'sentdata'): rule.bad(s, 'does not send the data')
            if s.decide(ceq(slen(I.getstr(s, B)), ZERO)) is not True: rule.bad(s, 'leaves bytes of the request in the buffer for the next one')
        tot['writes'] += rule.writes
        c.rules.append('%s: %d paths, %d ends of lines' % (fn.n, h.paths, tot['lines']))
    # the convenience functions name the method they are called after
    VERBS = {'get': b'GET', 'head': b'HEAD', 'post': b'POST', 'put': b'PUT', 'deleteResource': b'DELETE'}
    tot['verbs'] = 0
    for fn in sorted((f for f in P.fns.values() if f.cls in (WRITER, CLIENT) and f.name in VERBS and f.params), key=lambda f: f.m):
        rule = Wire(c, P, fn); h = Harness(P, rule); I = h.I
        def sent(I, st, ci, this, args, site):
            Rule.put(st, 'n', Rule.get(st, 'n', 0) + 1)
            if models.strof(I, st, args[0]) != lit(VERBS[fn.name]): rule.bad(st, 'sends another method', site)
            for i in range(1, len(args)):
                if i <= len(fn.params):
                    w = h.arg(fn.params[i - 1], i - 1)
                    if args[i] != w and not (w[0] == 'p' and I.kind(fn.params[i - 1]) == 'ref' and args[i][0] in ('s', 'agg') and args[i] == I.load(st, w[1], fn.params[i - 1])): rule.bad(st, 'does not pass argument %d on' % i, site)
                elif args[i][0] == 'p' and st.decide(ceq(slen(I.getstr(st, args[i][1])), ZERO)) is not True: rule.bad(st, 'sends data it was not given', site)
            return [(st, ('void',))]
        h.observe([WRITER + '::write', CLIENT + '::request'], sent)
        for s, v in h.run(fn):
            tot['verbs'] += 1
            if Rule.get(s, 'n') != 1: rule.bad(s, 'does not send its request exactly once')
    c.need('paths', tot['paths'], 3); c.need('lines', tot['lines'], 4); c.need('device_writes', tot['writes'], 2); c.need('complete_heads', tot['heads'], 1); c.need('verbs', tot['verbs'], 8)
    c.assumptions += ['header names and values are sent as given: a caller that puts line ends into them is not covered']

# ---- the client -----------------------------------------------------------------------------------------------------
class Client(Rule):
    def __init__(self, c, P, fn, prop): self.check = c; self.P = P; self.fn = fn; self.prop = prop; self.ctx = ''
    def bad(self, st, what, site=None, prop='C25'):
        if prop != self.prop: return
        self.check.violation('%s %s' % (self.fn.n, what), self.P.where(site, self.fn), '%s %s%s' % (self.fn.n, what, self.ctx), path_of(st))

def fields(P, cls): return {f['name']: f['type'] for f in P.records[cls]['fields']}
def returned(P, cls, name):
    """the member an accessor returns"""
    for f in P.fns.values():
        if f.cls == cls and f.name == name:
            ns = [i['n'] for b in f.blocks for i in b if i['o'] == 'field']
            if ns: return ns[-1]
    raise AnalysisBroken('anchor vanished: %s::%s' % (cls, name))
REQUEST = 'Pillow::HttpClientRequest'
PARTS = ('method', 'url', 'headers', 'data')

def U(n, url): return opaque_str((n, url[1]))
def PORT(url, d): return sym(('port', url[1], d), min(d, 0), 65535)
class ClientRun:
    monitor = Client
    def __init__(self, c, P, prop):
        self.c = c; self.P = P; self.prop = prop
        self.PEND = THIS + (returned(P, CLIENT, 'responsePending'),); self.PARSING = THIS + (returned(P, PARSER, 'isParsing'),); self.ERR = THIS + (returned(P, CLIENT, 'error'),)
        self.KEEP = THIS + (returned(P, CLIENT, 'keepAliveTimeout'),)
        fs = fields(P, CLIENT)
        rq = [n for n, t in fs.items() if t == REQUEST]
        if len(rq) != 2: raise AnalysisBroken('anchor vanished: current and queued request of ' + CLIENT)
        q = [n for n in rq if 'pending' in n.lower() or 'queue' in n.lower() or 'next' in n.lower()]
        if len(q) != 1: raise AnalysisBroken('anchor vanished: queued request of ' + CLIENT)
        self.QUEUE = THIS + (q[0],); self.CUR = THIS + ([n for n in rq if n not in q][0],)
        dv = [n for n, t in fs.items() if 'Socket' in t]; bu = [n for n, t in fs.items() if t == 'QByteArray' and 'buf' in n.lower()]
        if len(dv) != 1 or len(bu) != 1: raise AnalysisBroken('anchor vanished: device and buffer of ' + CLIENT)
        self.DEV = THIS + (dv[0],); self.D = (('o', 'device'),); self.BUF = THIS + (bu[0],)
        self.E = P.enums[CLIENT + '::Error']['vals']
        pf = fields(P, PARSER)
        self.CONTENT = returned(P, PARSER, 'content')
        self.PST = THIS + ([n for n, t in pf.items() if t == 'http_parser'][0],)
        self.tot = dict(paths=0, finished=0, signals=0, starts=0, sends=0, injects=0, entries=0, queued=0, requests=0, callbacks=0, closes=0)
    def entries(self):
        for m, f in sorted(self.P.fns.items()):
            if f.cls != CLIENT or f.info.get('ctor') or '~' in f.n or f.info.get('qt') == 'signal' or f.name in ('metaObject', 'qt_metacall', 'qt_metacast'): continue
            if f.info.get('overrides'): kind = 'callback'
            elif f.info.get('qt') == 'slot': kind = 'slot' if f.info.get('access') != 'public' else 'public'
            elif f.info.get('access') == 'public' and not f.info.get('const'): kind = 'public'
            else: continue
            yield f, kind
    def bits(self, s, loc):
        v = s.mem.get(loc)
        if v is None: return None
        return s.decide(self.I.cond(v)) if v[0] in ('b', 'i') else None
    def env(self, s, aborts):
        """what the receiver of a signal may do before the emission returns"""
        out = [s]
        if aborts:
            b = s.copy(); b.mem[self.PEND] = ('b', False); Rule.put(b, 'P', False); b.mem[self.ERR] = con(self.E['AbortedError']); b.mem[self.PST + ('http_errno',)] = con(self.PAUSED); b.note('the receiver aborts')
            Rule.put(b, 'fin', Rule.get(b, 'fin', 0) + 1); out.append(b)
        for x in list(out):
            if Rule.get(x, 'P'): continue
            r = x.copy(); r.note('the receiver makes another request')
            if self.bits(r, self.PARSING) is True:
                for p in PARTS: r.mem[self.QUEUE + (p,)] = r.mem[(('o', 'next'), p)]
                Rule.put(r, 'queued', True)
            else:
                r.mem[self.PEND] = ('b', True); Rule.put(r, 'P', True); r.mem[self.ERR] = ZERO; Rule.put(r, 'again', True)
                for p in PARTS: r.mem[self.CUR + (p,)] = r.mem[(('o', 'next'), p)]
            out.append(r)
        return out
    def same(self, s, a, b):
        """the requests at two locations are equal part by part"""
        for p in PARTS:
            x, y = self.part(s, a, p), self.part(s, b, p)
            if x != y: return p
        return None
    def whole(self, s, a, p):
        if p in ('method', 'data'): return models.strof(self.I, s, a)
        v = self.I.load(s, a[1], 'struct') if a[0] == 'p' else a
        return ('agg', v[1], ()) if v[0] == 'agg' else v
    def part(self, s, l, p):
        v = s.mem.get(l + (p,))
        if v is None: v = self.I.getstr(s, l + (p,)) if p in ('method', 'data') else self.I.load(s, l + (p,), 'struct')
        if v[0] == 'agg': v = ('agg', v[1], ())
        return v
    def harness(self, fn):
        P = self.P; tot = self.tot
        rule = self.rule = self.monitor(self.c, P, fn, self.prop); h = Harness(P, rule, max_states=8000); I = self.I = h.I
        self.PAUSED = [v for e in P.enums.values() for k, v in e['vals'].items() if k == 'HPE_PAUSED'][0]
        FIN = CLIENT + '::finished'
        def signal(I, st, ci, this, args, site):
            if this is None or this[0] != 'p' or this[1] != THIS: return [(st, ('void',))]
            tot['signals'] += 1; st.note('emit ' + ci['name'], 'line', site.line)
            p = self.bits(st, self.PEND); was = Rule.get(st, 'P')
            if ci['n'] == FIN:
                tot['finished'] += 1
                if p is not False: rule.bad(st, 'emits finished() while the response is still pending', site)
                if not was: rule.bad(st, 'emits finished() a second time or without a request', site)
                Rule.put(st, 'P', False); Rule.put(st, 'fin', Rule.get(st, 'fin', 0) + 1)
                self.cause(st, site)
                st.mem[self.PEND] = ('b', False)
                return [(x, ('void',)) for x in self.env(st, False)]
            if p is not True or not was: rule.bad(st, 'emits %s() although no response is pending' % ci['name'], site)
            if p is not was: return []
            return [(x, ('void',)) for x in self.env(st, bool(was))]
        rule.on_signal = signal
        def dev(n, tally, ret=('void',)):
            def f(I, st, ci, this, args, site):
                if this is None or this[0] != 'p' or this[1] != self.D: return None
                st.note(n, 'line', site.line); Rule.put(st, tally, min(3, Rule.get(st, tally, 0) + 1))
                return [(st, ret)]
            return f
        for n in ('abort', 'close', 'disconnectFromHost'): h.observe(['QAbstractSocket::' + n, 'QIODevice::' + n, 'QTcpSocket::' + n], dev(n, 'shut'))
        def connect(I, st, ci, this, args, site):
            tot['starts'] += 1; st.note('connectToHost', 'line', site.line)
            self.starting(st, site)
            url = self.part(st, self.CUR, 'url')
            if models.strof(I, st, args[0]) not in (U('host', url), U('encodedHost', url)): rule.bad(st, 'connects to another host than that of the request', site, 'C26')
            if args[1] != PORT(url, 80) and not (args[1] == con(80) and Rule.get(st, ('port', PORT(url, 80)))): rule.bad(st, 'connects to another port than that of the request', site, 'C26')
            if self.decide_state(st, 'UnconnectedState') is not True and not Rule.get(st, 'shut'): rule.bad(st, 'connects a socket that is still in use', site, 'C28')
            if not self.hostempty(st): rule.bad(st, 'keeps the Host value of the previous server', site, 'C26')
            return [(st, ('void',))]
        h.observe(['QAbstractSocket::connectToHost'], connect)
        def state(I, st, ci, this, args, site):
            if this[0] != 'p' or this[1] != self.D: return None
            v = self.sockstate(st); out = []
            if Rule.get(st, 'sock') is not None: return [(st, v)]
            for n in ('ConnectedState', 'UnconnectedState', None):
                b = st.copy()
                if n: b.assume(ceq(v, con(self.sockval(n))))
                else: b.assume(cne(v, con(self.sockval('ConnectedState')))); b.assume(cne(v, con(self.sockval('UnconnectedState'))))
                Rule.put(b, 'sock', n or 'other'); out.append((b, v))
            return out
        h.observe(['QAbstractSocket::state'], state)
        def valid(I, st, ci, this, args, site):
            b = st.copy(); Rule.put(st, 'valid', True); Rule.put(b, 'valid', False); return [(st, ('b', True)), (b, ('b', False))]
        h.observe(['QElapsedTimer::isValid'], valid)
        h.observe(['*::bytesAvailable'], lambda I, st, ci, this, a, site: [(st, sym(('available',), 0, 2**63 - 1))])
        h.observe(['*::readBufferSize'], lambda I, st, ci, this, a, site: [(st, sym(('read buffer size',), 0, 2**63 - 1))])
        def expired(I, st, ci, this, args, site):
            ok = args[0][0] == 'i' and st.decide(ceq(args[0], I.load(st, self.KEEP, 'int'))) is True
            b = st.copy(); Rule.put(st, 'expired', True); Rule.put(b, 'expired', False if ok else None); return [(st, ('b', True)), (b, ('b', False))]
        h.observe(['QElapsedTimer::hasExpired'], expired)
        def timer(I, st, ci, this, args, site):
            Rule.put(st, 'timed', True); return [(st, ('void',))]
        h.observe(['QElapsedTimer::start', 'QElapsedTimer::restart'], timer)
        def urlof(I, st, l):
            v = I.load(st, l, 'struct'); return ('agg', v[1], ()) if v[0] == 'agg' else ('agg', v, ())
        def paired(st, what, url, f, cond):
            """the two URLs that are compared: whether they agree is decided once"""
            seen = Rule.get(st, ('seen', what), ())
            if url in seen: return [st]
            Rule.put(st, ('seen', what), seen + (url,))
            if len(seen) != 1: return [st]
            out = []
            for s, z in I.split(st, cond(f(seen[0]), f(url))): Rule.put(s, ('same', what), z); out.append(s)
            return out
        def text(I, st, ci, this, args, site):
            if this[0] != 'p': return None
            n = ci['name']; url = urlof(I, st, this[1]); v = U(n, url); out = []
            if n in ('host', 'encodedHost'): return [(s, v) for s in paired(st, n, url, lambda u: U(n, u), lambda a, b: models.eqcond(st, a, b))]
            for s, z in I.split(st, ceq(slen(v), ZERO)): Rule.put(s, ('empty', v), z); out.append((s, EMPTY if z else v))
            return out
        h.observe(['QUrl::' + n for n in ('host', 'encodedHost', 'encodedPath', 'encodedQuery')], text)
        def portof(I, st, ci, this, args, site):
            if this[0] != 'p': return None
            url = urlof(I, st, this[1]); d = args[0][1] if args and isconst(args[0]) else -1; v = PORT(url, d); out = []
            for s in paired(st, ('port', d), url, lambda u: PORT(u, d), ceq):
                if not args: out.append((s, v)); continue
                for t, z in I.split(s, ceq(v, args[0])): Rule.put(t, ('port', v), z); out.append((t, args[0] if z else v))
            return out
        h.observe(['QUrl::port'], portof)
        ONE_ARG = [f for f in P.fns.values() if f.cls == CLIENT and len(f.params) == 1 and f.params[0].replace('const ', '').replace('&', '').strip() == REQUEST]
        if fn not in ONE_ARG:
            def request(I, st, ci, this, args, site, m):
                tot['requests'] += 1; st.note('requests', 'line', site.line); Rule.put(st, 'asked', min(2, Rule.get(st, 'asked', 0) + 1))
                for p in PARTS: st.mem[(('o', 'asked'), p)] = self.part(st, args[0][1], p)
                if Rule.get(st, 'P'): return [(st, ('void',))]
                if self.bits(st, self.PEND) is not False: rule.bad(st, 'makes a request without having finished the last one', site)
                to = self.QUEUE if self.bits(st, self.PARSING) is True else self.CUR
                for p in PARTS: st.mem[to + (p,)] = st.mem[(('o', 'asked'), p)]
                if to is self.CUR:
                    self.starting(st, site, False); st.mem[self.PEND] = ('b', True); st.mem[self.ERR] = ZERO
                return [(st, ('void',))]
            for f in ONE_ARG: I.overrides[f.m] = request
        def assign(I, st, ci, this, args, site):
            if args[0][0] == 'p': st.mem[this[1]] = urlof(I, st, args[0][1])
            elif args[0][0] == 'agg': st.mem[this[1]] = args[0]
            else: return None
            return [(st, this)]
        h.observe(['QUrl::operator='], assign)
        def pinit(I, st, ci, this, args, site):
            if args[0] == ('p', self.PST):
                st.mem[self.PST + ('http_errno',)] = ZERO; st.mem[self.PST + ('status_code',)] = ZERO
            else: rule.bad(st, 'initialises another parser', site, 'C27')
            return [(st, ('void',))]
        h.observe(['http_parser_init'], pinit)
        def ppause(I, st, ci, this, args, site):
            if args[0] == ('p', self.PST) and st.decide(cne(I.toint(st, args[1]), ZERO)) is True: st.mem[self.PST + ('http_errno',)] = con(self.PAUSED); Rule.put(st, 'paused', True)
            return [(st, ('void',))]
        h.observe(['http_parser_pause'], ppause)
        def keepalive(I, st, ci, this, args, site):
            b = st.copy(); Rule.put(st, 'persist', True); Rule.put(b, 'persist', False); return [(st, ONE), (b, ZERO)]
        h.observe(['http_should_keep_alive'], keepalive)
        I.partitions = 400
        self.watch_send(h, rule); self.watch_inject(h, rule)
        return h, rule
    def sockstate(self, st): return sym(('socket state',), 0, 6)
    def sockval(self, n): return [e['vals'][n] for k, e in self.P.enums.items() if n in e['vals'] and 'Socket' in k][0]
    def decide_state(self, st, n):
        x = Rule.get(st, 'sock')
        return None if x is None else x == n
    def hostempty(self, st):
        l = [n for n, t in fields(self.P, CLIENT).items() if t == 'QByteArray' and 'host' in n.lower()]
        return not l or st.decide(ceq(slen(self.I.getstr(st, THIS + (l[0],))), ZERO)) is True
    def starting(self, st, site, mark=True):
        if Rule.get(st, 'P'): self.rule.bad(st, 'starts a request while another one is pending', site)
        if Rule.get(st, 'start', 0): self.rule.bad(st, 'starts the request twice', site)
        Rule.put(st, 'start', min(2, Rule.get(st, 'start', 0) + 1))
        if mark and self.bits(st, self.PEND) is not True: self.rule.bad(st, 'starts a request it does not wait for', site)
    def cause(self, st, site):
        """the error reported with finished() is the reason for which the request ended"""
        e = self.I.load(st, self.ERR, CLIENT + '::Error'); fn = self.rule.fn; E = self.E
        is_ = lambda n: st.decide(ceq(e, con(E[n]))) is True
        if fn.name == 'abort': ok = is_('AbortedError')
        elif fn.name == 'device_error':
            a = sym(('socket error',), -1, 30); rc = self.remoteclosed()
            d = st.decide(ceq(a, con(rc)))
            ok = is_('RemoteHostClosedError') if d is True else is_('NetworkError') if d is False else False
        elif fn.name == 'device_readyRead' and Rule.get(st, 'perr'): ok = is_('ResponseInvalidError')
        else: ok = e == ZERO or is_('NoError')
        if not ok: self.rule.bad(st, 'finishes with an error that is not what ended the request', site)
    def remoteclosed(self): return [e['vals']['RemoteHostClosedError'] for k, e in self.P.enums.items() if 'RemoteHostClosedError' in e['vals'] and k != CLIENT + '::Error'][0]
    # ---- sending
    def watch_send(self, h, rule):
        I = h.I; tot = self.tot
        def on_seq(I, st, op, loc, v, site):
            if op == 'extend' and loc[0][0] in ('v', 't'):
                w = I.load(st, v[1], 'struct') if v[0] == 'p' else v
                ok = w[0] == 'agg' and w[1] == self.part(st, self.CUR, 'headers')[1] and st.decide(ceq(st.mem.get(loc + ('$sent',), ZERO), ZERO)) is True
                st.mem[loc + ('$sent',)] = models.csize(I, st, v[1]) if ok else con(-5)
            if op != 'append' or loc[0][0] not in ('v', 't'): return
            f = s2 = None
            if v[0] == 'agg':
                d = dict(v[2]); f = d.get(('first',)); s2 = d.get(('second',))
            n = models.csize(I, st, loc)
            k = st.mem.get(loc + ('$sent',), ZERO)
            hk = self.part(st, self.CUR, 'headers')[1]
            if f is not None and str_lit(f) == b'Host' and s2 is not None:
                if st.decide(ceq(n, ONE)) is True and st.decide(ceq(k, ZERO)) is True: st.mem[loc + ('$host',)] = s2
                else: st.mem[loc + ('$sent',)] = con(-5)
                return
            x = self.elem(I, st, v, hk)
            if x is not None and st.decide(ceq(x, k)) is True: st.mem[loc + ('$sent',)] = add(k, ONE)
            else: st.mem[loc + ('$sent',)] = con(-5)
        rule.on_seq = on_seq
        def write(I, st, ci, this, args, site):
            tot['sends'] += 1; st.note('the request is sent', 'line', site.line)
            Rule.put(st, 'send', min(2, Rule.get(st, 'send', 0) + 1))
            if rule.fn.name == 'device_connected':
                if not Rule.get(st, 'P'): rule.bad(st, 'sends a request that nobody waits for', site)
                if Rule.get(st, 'send') > 1: rule.bad(st, 'sends the request twice', site)
            else:
                self.starting(st, site); self.reuse(st, site)
            B = lambda what: rule.bad(st, what, site, 'C26')
            if DEBUG and rule.fn.name == 'request': print('SEND', self.decide_state(st, 'ConnectedState'), st.interval(self.sockstate(st)), args[1], st.mem.get(args[1][1]), self.part(st, self.CUR, 'url'), st.lit)
            cur = self.CUR
            if models.strof(I, st, args[0]) != self.part(st, cur, 'method'): B('sends another method')
            if models.strof(I, st, args[3]) != self.part(st, cur, 'data'): B('sends other data')
            url = self.part(st, cur, 'url')
            p = models.strof(I, st, args[1]); segs = p[1]
            ok = False
            path = None; q = U('encodedQuery', url)
            if segs and segs[0] == U('encodedPath', url)[1][0]: path = segs[0]; rest = segs[1:]
            elif segs and segs[0][0] == 'L' and segs[0][1][:1] == b'/': rest = (((('L', segs[0][1][1:]),) if segs[0][1][1:] else ()) + segs[1:]); path = 'root'
            else: rest = None
            if rest is None: B('asks for another path' if segs else 'asks for an empty path')
            else:
                pe = Rule.get(st, ('empty', U('encodedPath', url)))
                if path == 'root':
                    if pe is not True: B('asks for another path')
                elif pe is not False: B('asks for an empty path')
                e = Rule.get(st, ('empty', q))
                if e is True:
                    if rest: B('adds something to the path')
                elif rest != (('L', b'?'),) + q[1]: B('leaves the query of the request out' if not rest else 'sends another query')
            hl = args[2][1] if args[2][0] == 'p' else None
            if hl is None: B('sends unknown headers')
            elif hl == self.CUR + ('headers',): B('sends no Host header')
            else:
                k = st.mem.get(hl + ('$sent',), ZERO); host = st.mem.get(hl + ('$host',))
                n = models.csize(I, st, self.CUR + ('headers',))
                if host is None: B('sends no Host header')
                elif not self.hostok(st, host, url): B('sends another Host')
                if st.decide(ceq(k, n)) is not True: B('does not send every header of the request once and in order')
                if st.decide(ceq(models.csize(I, st, hl), add(n, ONE))) is not True: B('sends headers that the request does not have')
            return [(st, ('void',))]
        h.observe([WRITER + '::write'], write)
    def elem(self, I, st, v, hk):
        if v[0] == 'p': v = I.load(st, v[1], 'struct')
        k = v[1] if v[0] == 'agg' else None
        if isinstance(k, tuple) and len(k) >= 3 and k[0] == 'fld' and k[1] == hk and isinstance(k[2], tuple) and k[2][0] == '[]': return k[2][1]
        if v[0] == 'agg' and v[2]:
            d = dict(v[2]); f = d.get(('first',)); s = d.get(('second',))
            if f is not None and s is not None and f[0] == s[0] == 's' and len(f[1]) == len(s[1]) == 1:
                a, b = element(f[1][0], hk), element(s[1][0], hk)
                if a and b and a[0] == b[0] and (a[1], b[1]) == ('first', 'second'): return a[0]
        return None
    def hostok(self, st, host, url):
        l = [n for n, t in fields(self.P, CLIENT).items() if t == 'QByteArray' and 'host' in n.lower()]
        if host == opaque_str(('entry host',)): return True       # kept from the request that connected (checked there)
        s = host[1]
        if not s or s[0] != U('encodedHost', url)[1][0]: return False
        port = PORT(url, 80)
        d = Rule.get(st, ('port', port))
        if len(s) == 1: return d is True
        return d is False and s[1:] == (('L', b':'), ('N', 10, port))
    def reuse(self, st, site):
        """the request is sent on the connection that is already there"""
        B = lambda what: self.rule.bad(st, what, site, 'C28')
        if self.decide_state(st, 'ConnectedState') is not True: B('sends on a socket that may not be connected')
        old, new = ('agg', ('old url',), ()), self.part(st, self.CUR, 'url')
        if not any(Rule.get(st, ('same', n)) is True and set(Rule.get(st, ('seen', n))) == {old, new} for n in ('host', 'encodedHost')): B('reuses the connection to a server with another name')
        if not any(Rule.get(st, ('same', ('port', d))) is True and set(Rule.get(st, ('seen', ('port', d)))) == {old, new} for d in (-1, 80)): B('reuses the connection to a server on another port')
        ka = self.I.load(st, self.KEEP, 'int')
        if Rule.get(st, 'expired') is not False and Rule.get(st, 'valid') is not False and st.decide(clt(ka, ZERO)) is not True: B('reuses a connection that may have expired')
    # ---- receiving
    def watch_inject(self, h, rule):
        I = h.I; tot = self.tot
        def inject(I, st, ci, this, args, site):
            if len(args) != 2: return None
            if this[0] != 'p' or this[1] != THIS: rule.bad(st, 'parses with another parser', site); return [(st, I.fresh('int', st.fresh('i', tuple(site))))]
            tot['injects'] += 1; st.note('parses', 'line', site.line)
            p, n = args; Rule.put(st, 'parsed', True)
            if DEBUG: print('INJ', site.line, p[3], pos if False else st.mem[G('pos')], {t: SYM.keys[t] for t in syms_of(p[3]) | syms_of(st.mem[G('pos')])}, st.decide(ceq(p[3], st.mem[G('pos')])))
            buf = I.getstr(st, self.BUF); pos = st.mem[G('pos')]; size = slen(buf)
            if p[0] != 'c' or p[1] != self.BUF or st.decide(ceq(p[3], pos)) is not True: rule.bad(st, 'does not parse the bytes that follow those already parsed', site)
            elif st.decide(ceq(add(pos, n), size)) is not True: rule.bad(st, 'does not parse all the bytes it has', site)
            if Rule.get(st, 'perr') or not self.bits(st, self.PEND): rule.bad(st, 'parses although the response has ended', site)
            st.mem[G('size')] = size
            k = sym(('consumed', st.fresh('consumed', tuple(site))), 0, INTMAX)
            st.assume(cle(k, n)); st.mem[G('pos')] = x = add(pos, k); st.assume(cle(x, size)); st.assume(cle(x, con(INTMAX)))
            out = []
            for err in (False, True):
                for fin in (False, True):
                    s = st.copy()
                    s.mem[self.PST + ('status_code',)] = sym(('status', st.fresh('status', tuple(site))), 0, 65535)
                    if err:
                        e = sym(('parse error',), 1, 31); s.assume(cne(e, con(self.PAUSED))); s.mem[self.PST + ('http_errno',)] = e
                    else: s.mem[self.PST + ('http_errno',)] = ZERO
                    if not fin:
                        if err: Rule.put(s, 'perr', True); s.note('the response cannot be parsed')
                        else:
                            # the parser stops early only after a complete interim response
                            if s.interval(n)[0] >= 1: s.assume(cle(ONE, k))
                        out.append((s, k)); continue
                    if err: continue
                    s.mem[self.PEND] = ('b', False); Rule.put(s, 'P', False); Rule.put(s, 'fin', Rule.get(s, 'fin', 0) + 1); s.note('the response ends')
                    s.mem[self.ERR] = I.fresh(CLIENT + '::Error', ('error',))
                    r = s.copy(); r.note('the receiver makes another request')
                    for q in PARTS: r.mem[self.QUEUE + (q,)] = r.mem[(('o', 'next'), q)]
                    Rule.put(r, 'queued', True)
                    out += [(s, k), (r, k)]
            return out
        h.observe([PARSER + '::inject', CLIENT + '::inject'], inject)
    # ---- running
    def start(self, h, fn, kind, pend, pars):
        I = h.I; st = h.state(CLIENT)
        st.mem[self.PEND] = ('b', pend); st.mem[self.PARSING] = ('b', pars); st.mem[self.DEV] = ('p', self.D); st.lit[('null', self.D)] = False
        st.mem[self.ERR] = ZERO if pend else sym(('last error',), 0, 4)
        st.mem[self.CUR + ('url',)] = ('agg', ('old url',), ()); st.mem[self.CUR + ('method',)] = opaque_str(('old method',)); st.mem[self.CUR + ('data',)] = opaque_str(('old data',)); st.mem[self.CUR + ('headers',)] = ('agg', ('old headers',), ())
        for p, k in zip(PARTS, ('s', 'a', 'a', 's')):
            v = opaque_str(('next ' + p,)) if k == 's' else ('agg', ('next ' + p,), ())
            st.mem[(('o', 'next'), p)] = v
        st.assume(cle(ONE, slen(opaque_str(('next method',)))))
        if pars and kind != 'callback' and not pend: st.mem[self.QUEUE + ('method',)] = opaque_str(('queued method',))
        else: st.mem[self.QUEUE + ('method',)] = EMPTY
        st.mem[self.BUF] = EMPTY; st.mem[G('pos')] = ZERO
        l = [n for n, t in fields(self.P, CLIENT).items() if t == 'QByteArray' and 'host' in n.lower()]
        if l: st.mem[THIS + (l[0],)] = opaque_str(('entry host',))
        args = [h.arg(t, i) for i, t in enumerate(fn.params)]
        for i, t in enumerate(fn.params):
            if t.replace('const ', '').replace('&', '').strip() == REQUEST:
                for p in PARTS: st.mem[args[i][1] + (p,)] = st.mem[(('o', 'next'), p)]
            if 'SocketError' in t: args[i] = sym(('socket error',), -1, 30)
        Rule.put(st, 'P', pend); self.old = {p: self.part(st, self.CUR, p) for p in PARTS}
        return st, args
    def run(self):
        tot = self.tot; P = self.P
        for fn, kind in self.entries():
            tot['entries'] += 1
            if kind == 'callback': tot['callbacks'] += 1
            ctxs = [(True, True)] if kind == 'callback' else [(a, b) for a in (False, True) for b in ((False, True) if kind == 'public' else (False,))]
            for pend, pars in ctxs:
                h, rule = self.harness(fn); I = h.I
                rule.ctx = ' (%s, %s)' % ('pending' if pend else 'idle', 'parsing' if pars else 'not parsing') if kind == 'public' else ''
                st, args = self.start(h, fn, kind, pend, pars)
                for s, v in h.run(fn, st, args):
                    tot['paths'] += 1
                    self.finish(h, rule, fn, kind, pend, pars, s, args)
                self.c.rules.append('%s%s: %d paths' % (fn.n, rule.ctx, h.paths))
    def finish(self, h, rule, fn, kind, pend, pars, s, args):
        I = h.I; p = self.bits(s, self.PEND); was = Rule.get(s, 'P'); start = Rule.get(s, 'start', 0)
        if p is None: rule.bad(s, 'may leave it open whether a response is pending'); return
        if start: 
            if p is not True: rule.bad(s, 'starts a request and forgets it')
        elif was and not p: rule.bad(s, 'ends the request without finished()')
        elif p and not was: rule.bad(s, 'waits for a response that it never requested')
        if not pars:
            q = s.decide(ceq(slen(I.getstr(s, self.QUEUE + ('method',))), ZERO))
            if q is not True: rule.bad(s, 'leaves a queued request behind that is never sent')
        if Rule.get(s, 'queued') and not pars and fn.name == 'device_readyRead':
            self.tot['queued'] += 1
            if not start and not Rule.get(s, 'again'): rule.bad(s, 'never sends the request made while it was parsing')
            else:
                d = self.same(s, self.CUR, (('o', 'next'),))
                if d: rule.bad(s, 'sends the request made while it was parsing with another %s' % d, None, 'C26')
        if fn.name == 'request' and len(fn.params) == 4 or fn.name == 'followRedirection':
            n = Rule.get(s, 'asked', 0)
            if fn.name == 'request':
                if n != 1: rule.bad(s, 'does not make the request it is given', None, 'C26')
                for i, p in enumerate(PARTS):
                    if n == 1 and self.part(s, (('o', 'asked'),), p) != self.whole(s, args[i], p): rule.bad(s, 'makes a request with another %s than the one given' % p, None, 'C26')
            else:
                for p in PARTS:
                    if n == 1 and p != 'url' and self.part(s, (('o', 'asked'),), p) != self.old[p]: rule.bad(s, 'follows the redirection with another %s' % p, None, 'C26')
        takes = any(t.replace('const ', '').replace('&', '').strip() == REQUEST for t in fn.params)
        if takes:
            if pend:
                if start or Rule.get(s, 'shut') or self.part(s, self.CUR, 'url') != ('agg', ('old url',), ()): rule.bad(s, 'disturbs the pending request')
            elif pars:
                if start: rule.bad(s, 'starts a request while it is parsing')
                d = self.same(s, self.QUEUE, args[0][1])
                if d: rule.bad(s, 'does not keep the %s of a request made while it is parsing' % d, None, 'C26')
                elif not start: self.tot['queued'] += 1
            else:
                if start != 1: rule.bad(s, 'does not start the request')
                d = self.same(s, self.CUR, args[0][1])
                if d: rule.bad(s, 'starts a request with another %s than the one given' % d, None, 'C26')
                e = I.load(s, self.ERR, CLIENT + '::Error')
                if s.decide(ceq(e, ZERO)) is not True: rule.bad(s, 'keeps the error of the previous request')
        if kind == 'public' and fn.name in ('abort',) and pend and Rule.get(s, 'fin', 0) != 1: rule.bad(s, 'does not finish the request it aborts')
        if fn.name == 'abort' and not Rule.get(s, 'shut'): rule.bad(s, 'keeps the connection of an aborted request', None, 'C28')
        if fn.name == 'device_error' and pend and Rule.get(s, 'fin', 0) != 1: rule.bad(s, 'does not finish the request whose connection failed')
        if fn.name == 'device_connected' and pend and Rule.get(s, 'send', 0) != 1: rule.bad(s, 'does not send the request once the connection is there')
        if fn.name == 'device_readyRead':
            if Rule.get(s, 'perr') and Rule.get(s, 'fin', 0) != 1: rule.bad(s, 'does not finish a request whose response cannot be parsed')
            if Rule.get(s, 'perr') and not Rule.get(s, 'shut'): rule.bad(s, 'keeps a connection whose bytes cannot be parsed', None, 'C28')
            if not pend and not Rule.get(s, 'shut'): rule.bad(s, 'keeps a connection that sends bytes nobody asked for', None, 'C28')
            if p and was and not start and not Rule.get(s, 'again') and Rule.get(s, 'parsed') and s.decide(cle(s.mem[G('size')], s.mem[G('pos')])) is not True: rule.bad(s, 'drops bytes of the response it waits for')
            if p and was and not Rule.get(s, 'parsed'):
                av = sym(('available',), 0, 2**63 - 1); mx = sym(('read buffer size',), 0, 2**63 - 1); ct = slen(I.getstr(s, THIS + (self.CONTENT,)))
                if s.decide(ceq(av, ZERO)) is not True and not (s.decide(cle(ONE, mx)) is True and s.decide(cle(mx, ct)) is True): rule.bad(s, 'does not read the bytes that are there')
            if s.decide(ceq(slen(I.getstr(s, self.BUF)), ZERO)) is not True: rule.bad(s, 'parses bytes again that were parsed before')
        if fn.name == 'messageComplete':
            st100 = s.decide(ceq(I.load(s, self.PST + ('status_code',), 'unsigned short'), con(100)))
            if Rule.get(s, 'fin', 0):
                self.tot['closes'] += 1
                ka = I.load(s, self.KEEP, 'int')
                must = s.decide(ceq(ka, ZERO)) is not False or Rule.get(s, 'persist') is not True
                if must and not Rule.get(s, 'shut'): rule.bad(s, 'keeps a connection that is not to be kept', None, 'C28')
                if not Rule.get(s, 'shut') and not Rule.get(s, 'timed'): rule.bad(s, 'keeps a connection without noting since when', None, 'C28')

def lifecycle(c, P):
    r = ClientRun(c, P, 'C25'); r.run(); t = r.tot
    c.need('paths', t['paths'], 20); c.need('finished_emissions', t['finished'], 4); c.need('starts', t['starts'], 1); c.need('parses', t['injects'], 1); c.need('callbacks', t['callbacks'], 3); c.need('queued_requests', t['queued'], 2); c.need('entries', t['entries'], 10)
def given(c, P):
    r = ClientRun(c, P, 'C26'); r.run(); t = r.tot
    c.need('paths', t['paths'], 20); c.need('sends', t['sends'], 2); c.need('connects', t['starts'], 1)
def reused(c, P):
    r = ClientRun(c, P, 'C28'); r.run(); t = r.tot
    c.need('paths', t['paths'], 20); c.need('sends', t['sends'], 2); c.need('connects', t['starts'], 1); c.need('ends', t['closes'], 2)

# ---- C27 ------------------------------------------------------------------------------------------------------------
def fresh(c, P):
    """what a response consists of is empty when its message begins, whatever the previous response left behind"""
    pf = fields(P, PARSER); cf = fields(P, CLIENT)
    parsing = returned(P, PARSER, 'isParsing')
    strs = [n for n, t in pf.items() if t == 'QByteArray']; colls = [n for n, t in pf.items() if 'HeaderCollection' in t]
    flags = [n for n, t in pf.items() if t == 'bool' and n != parsing]
    decs = [n for n, t in cf.items() if 'ContentTransformer' in t]
    shown = {returned(P, PARSER, n) for n in ('headers', 'content')}
    if len(strs) < 2 or not colls or not decs: raise AnalysisBroken('anchor vanished: what the response parser accumulates')
    R = ClientRun(c, P, 'C27'); n = dict(paths=0, begins=0, members=0, decoders=0, contents=0)
    DEC = (('o', 'decoder'),)
    class Gone(Client):
        def on_delete(self, I, st, p, ins, site):
            if p == ('p', DEC):
                if Rule.get(st, 'gone'): self.bad(st, 'deletes the decoder twice', site, 'C27')
                Rule.put(st, 'gone', True); st.note('deletes the decoder', 'line', site.line)
            elif p[0] == 'p' and Rule.get(st, ('dec', p[1])): Rule.put(st, ('dec', p[1]), 'gone')
        def on_new(self, I, st, loc, t, site):
            if self.P.derives(strip(t), 'Pillow::ContentTransformer'):
                n['decoders'] += 1
                v = st.mem.get(THIS + (decs[0],), ('n',))
                if v[0] == 'p' and not (v[1] == DEC and Rule.get(st, 'gone')) and Rule.get(st, ('dec', v[1])) != 'gone': self.bad(st, 'loses a decoder that is still there', site, 'C27')
                Rule.put(st, ('dec', loc), 'live')
    def check(s, rule, names, when):
        I = R.I
        for l in names:
            n['members'] += 1
            loc = THIS + (l,)
            if l in strs: ok = s.decide(ceq(slen(I.getstr(s, loc)), ZERO)) is True
            elif l in colls: ok = s.decide(ceq(models.csize(I, s, loc), ZERO)) is True
            elif l in flags: ok = R.bits(s, loc) is False
            else:
                v = s.mem.get(loc); ok = v is not None and v[0] == 'n'
                if Rule.get(s, 'gone') is not True and s.decide(('at', ('null', DEC), True)) is not True and not ok: pass
                elif ok and Rule.get(s, 'had') and not Rule.get(s, 'gone'): rule.bad(s, 'loses the decoder of an earlier response', None, 'C27')
            if not ok: rule.bad(s, '%s what an earlier response left in %s' % (when, l), None, 'C27')
    start = [f for f in P.fns.values() if f.cls == CLIENT and len(f.params) == 1 and f.params[0].replace('const ', '').replace('&', '').strip() == REQUEST]
    begin = [f for f in P.fns.values() if f.cls == CLIENT and f.name == 'messageBegin'] or [f for f in P.fns.values() if f.cls == PARSER and f.name == 'messageBegin']
    if len(start) != 1 or len(begin) != 1: raise AnalysisBroken('anchor vanished: request() and messageBegin()')
    R.monitor = Gone
    if True:
        def dirty(st, with_decoder):
            I = R.I
            for l in strs: st.mem[THIS + (l,)] = opaque_str(('left', l))
            for l in flags: st.mem[THIS + (l,)] = I.fresh('bool', ('left', l))
            for l in colls: st.mem[THIS + (l,)] = ('agg', ('left', l), ()); models.setn(st, THIS + (l,), sym(('left', l, 'n'), 0, INTMAX))
            st.mem[THIS + (decs[0],)] = ('p', DEC) if with_decoder else ('n',); st.lit[('null', DEC)] = False
            Rule.put(st, 'had', with_decoder)
        for dec in (False, True):
            # a request was made: nothing of the previous response is visible any more
            h, rule = R.harness(start[0]); st, args = R.start(h, start[0], 'public', False, False); dirty(st, dec)
            for s, v in h.run(start[0], st, args):
                n['paths'] += 1
                if Rule.get(s, 'start'): check(s, rule, sorted(shown), 'still shows')
            # a message begins
            h, rule = R.harness(begin[0]); st, args = R.start(h, begin[0], 'callback', True, True); dirty(st, dec)
            for s, v in h.run(begin[0], st, args):
                n['begins'] += 1; check(s, rule, strs + colls + flags + decs, 'keeps')
            # the head of the message is complete, its content arrives
            for name in ('headersComplete', 'messageComplete', 'messageContent'):
                for fn in [f for f in P.fns.values() if f.cls == CLIENT and f.name == name]:
                    if name == 'headersComplete' and dec: continue                            # none is left since messageBegin()
                    h, rule = R.harness(fn); st, args = R.start(h, fn, 'callback', True, True); dirty(st, dec)
                    if name == 'messageContent': content(h, rule, R, st, args, dec, decs[0], fn, n)
                    else:
                        for s, v in h.run(fn, st, args):
                            n['paths'] += 1
                            live = [k for k, x in s.mem.items() if k[0] == ('G',) and isinstance(k[1], tuple) and k[1][0] == 'dec' and x[1] == 'live']
                            d = s.mem.get(THIS + (decs[0],))
                            if any(d != ('p', k[1][1]) for k in live): rule.bad(s, 'loses a decoder', None, 'C27')
                            if name == 'messageComplete':
                                check(s, rule, decs, 'keeps')
    c.need('paths', n['paths'], 6); c.need('message_begins', n['begins'], 2); c.need('members', n['members'], 12); c.need('decoders', n['decoders'], 1); c.need('content_paths', n['contents'], 2)
    c.assumptions += ['http_parser_init() resets the state, status and error of the C parser (memset in its source); the parser calls messageBegin() before anything else of a message']

def content(h, rule, R, st, args, dec, member, fn, n):
    """the bytes of the message reach content() once, through the decoder when there is one"""
    I = h.I
    data = [a for a, t in zip(args, fn.params) if 'char *' in t][0]; ln = [a for a, t in zip(args, fn.params) if t == 'int'][0]
    st.assume(cle(ZERO, ln))
    loc = THIS + (R.CONTENT,); old = I.getstr(st, loc)
    OUT = opaque_str(('decoded',))
    def transform(I, st, m, ci, th, a, site):
        if ci['name'] != 'transform': return None
        Rule.put(st, 'decoded', Rule.get(st, 'decoded', 0) + 1)
        if th != ('p', (('o', 'decoder'),)): rule.bad(st, 'decodes with something else than its decoder', site, 'C27')
        if a[0] != data or a[1][0] != 'i' or st.decide(ceq(a[1], ln)) is not True: rule.bad(st, 'decodes something else than the bytes received', site, 'C27')
        return [(st, OUT)]
    rule.on_virtual = transform
    want = mkstr(old[1] + OUT[1]) if dec else mkstr(old[1] + models.char_slice(I, st, data, ln)[1])
    def append(I, st, l, v, site):
        if l == loc: Rule.put(st, 'put', Rule.get(st, 'put', 0) + 1)
    rule.on_append = append
    for s, v in h.run(fn, st, args):
        n['contents'] += 1
        if I.getstr(s, loc) != want and not Rule.get(s, 'P') is False: rule.bad(s, 'adds something else than the %s bytes to the content' % ('decoded' if dec else 'received'), None, 'C27')
        if dec and Rule.get(s, 'decoded', 0) != 1: rule.bad(s, 'does not decode the content exactly once', None, 'C27')
