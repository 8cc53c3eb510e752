"""Closed-world model of Pillow::HttpConnection: environment (devices, request parser, header lookup) and driver."""
from math import inf
from .dom import *
from .ai import Interp, Site, Budget, strip
from .monitor import Monitor
from .boundary import Explorer
from .extract import AnalysisBroken
from . import models
from .join import arrive, gc

CLS = 'Pillow::HttpConnection'
THIS = (('this',),)
def G(n): return (('G',), n)
def ENV(n): return (('ENV',), n)      # call-stack context, not part of the heap

class FakeFn:
    def __init__(self, m): self.m = m; self.n = m

class ConnModel:
    def __init__(self, prog, monitor):
        self.P = prog; self.mon = monitor
        self.I = I = Interp(prog, monitor, max_steps=60_000_000, max_states=20000)
        I.narrow = 'symbol'
        self.X = Explorer(I, [('this',), ('G',)])
        self.statefields = tuple(f['name'] for f in prog.records[CLS + 'Private']['fields'] if strip(f['type']).endswith('HttpConnection::State'))
        if len(self.statefields) != 1: raise AnalysisBroken('anchor vanished: the state field of HttpConnectionPrivate')
        self.aliases = (True, False); self.queries = ('none', 'empty', 'some'); self.fragments = (False, True)
        monitor.X = self.X; monitor.M = self
        o = I.overrides
        for k in ('QIODevice::bytesAvailable', 'QAbstractSocket::bytesAvailable'): o[k] = self.bytes_available
        for k in ('QIODevice::read',): o[k] = self.dev_read
        for k in ('QIODevice::readAll',): o[k] = self.dev_readall
        for k in ('QIODevice::write',): o[k] = self.dev_write
        for k in ('QIODevice::bytesToWrite', 'QAbstractSocket::bytesToWrite'): o[k] = self.bytes_to_write
        for k in ('QIODevice::isOpen', 'QIODevice::isWritable', 'QIODevice::isReadable'): o[k] = self.dev_isopen
        for k in ('QIODevice::close', 'QAbstractSocket::close', 'QAbstractSocket::disconnectFromHost', 'QAbstractSocket::abort', 'QLocalSocket::close', 'QLocalSocket::abort', 'QLocalSocket::disconnectFromServer', 'QTcpSocket::close'): o[k] = self.dev_close
        for k in ('QAbstractSocket::flush', 'QLocalSocket::flush', 'QTcpSocket::flush'): o[k] = self.dev_flush
        o['QTimer::singleShot'] = lambda I, st, ci, this, args, site, m: [(st, ('void',))]
        o['thin_http_parser_init'] = self.p_init
        o['thin_http_parser_execute'] = self.p_execute
        o['thin_http_parser_has_error'] = lambda I, st, ci, this, args, site, m: [(st, self.pflag(st, args[0], '$err'))]
        o['thin_http_parser_is_finished'] = lambda I, st, ci, this, args, site, m: [(st, self.pflag(st, args[0], '$fin'))]
        o['thin_http_parser_finish'] = o['thin_http_parser_is_finished']
        o['Pillow::HttpHeaderCollection::getFieldValue'] = self.field_value
        self.cut = self.recursive_cut()
        for m in self.cut: o[m] = self.cutcall
        self.incut = None
    # ---- call graph -------------------------------------------------------
    def recursive_cut(self):
        """functions of the connection's implementation that can call themselves again: summarised at their entry"""
        P = self.P
        cg = {}
        for m, f in P.fns.items():
            if f.cls and (f.cls.startswith(CLS)): cg[m] = {c for i, ci in P.calls(f) for c in [i['f']] if c in P.fns and P.fns[c].cls and P.fns[c].cls.startswith(CLS)}
        cut = set()
        color = {}
        def dfs(m):
            color[m] = 1
            for c in sorted(cg.get(m, ()), key=lambda c: P.fns[c].line):
                if color.get(c) == 1: cut.add(c)
                elif c not in color: dfs(c)
            color[m] = 2
        for m in sorted(cg, key=lambda m: (P.fns[m].cls != CLS, P.fns[m].line)):
            if m not in color: dfs(m)
        return {m for m in cut if not P.fns[m].params}
    def cutcall(self, I, st, ci, this, args, site, m):
        if self.incut == m:
            self.incut = None
            return None
        name = 'call:' + m
        if name not in self.X.ops:
            def op(I, s, m=m, rel=this):
                self.incut = m
                return [r for r, _ in I.call(m, s, rel, [], site)]
            self.X.ops[name] = op
        return [(t, ('void',)) for _, t in self.X.emission(st, lambda n: self.X.step(n, name))]
    # ---- devices ----------------------------------------------------------
    def dev(self, st, this): return this[1][0] if this and this[0] == 'p' else None
    def bytes_available(self, I, st, ci, this, args, site, m):
        v = sym(('avail',) + st.fresh('avail', tuple(site) if site else 0), 0, 2**30)
        return [(st, v)]
    def bytes_to_write(self, I, st, ci, this, args, site, m):
        return [(st, sym(('btw',) + st.fresh('btw', tuple(site) if site else 0), 0, 2**40))]
    def dev_isopen(self, I, st, ci, this, args, site, m):
        return [(st, ('b', atom('open', st.fresh('open', tuple(site) if site else 0))))]
    def dev_read(self, I, st, ci, this, args, site, m):
        if len(args) == 2:
            p, mx = args
            if I.mon is not None: I.mon.on_bufwrite(I, st, p, mx, site)
            n = sym(('read',) + st.fresh('read', tuple(site) if site else 0), -1, 2**30)
            st.assume(cle(n, mx))
            outs = []
            for s1, t in I.split(st, clt(n, ZERO)):
                if t: outs.append((s1, con(-1))); continue
                pos = s1.mem.get(G('inpos'), ZERO)
                if p[0] == 'c':
                    models.cap_tail(I, s1, p[1], I.getstr(s1, p[1]), p[3], (('V', ('in',), pos, n),), n)
                s1.mem[G('inpos')] = add(pos, n)
                outs.append((s1, n))
            return outs
        n = sym(('read',) + st.fresh('read', tuple(site) if site else 0), 0, 2**30)
        if args and args[0][0] == 'i': st.assume(cle(n, args[0]))
        return self.read_value(st, n)
    def dev_readall(self, I, st, ci, this, args, site, m):
        return self.read_value(st, sym(('read',) + st.fresh('read', tuple(site) if site else 0), 0, 2**30))
    def read_value(self, st, n):
        pos = st.mem.get(G('inpos'), ZERO)
        st.mem[G('inpos')] = add(pos, n)
        return [(st, models.mkstr([('V', ('in',), pos, n)]))]
    def dev_write(self, I, st, ci, this, args, site, m):
        if len(args) == 2 and args[1][0] == 'i': v = models.char_slice(I, st, args[0], args[1])
        else: v = models.strof(I, st, args[0], ci['params'][0])
        out = []
        for x in self.mon.wire(I, st, this, v, site):
            out += [(s, sym(('written',) + s.fresh('wr', tuple(site) if site else 0), -1, 2**40)) for s in self.X.merge(x)]
        return out
    def stateval(self, st):
        p = st.mem.get(THIS + ('d_ptr',))
        v = st.mem.get(p[1] + self.statefields[:1]) if p and p[0] == 'p' else None
        if v is not None and isconst(v):
            for k, x in self.P.enums[CLS + '::State']['vals'].items():
                if x == v[1]: return k
        return None
    def protocol_policy(self, st):
        """boundary abstraction of the protocol analysis: the state and the monitor's ghosts distinguish boundary states, the
        program's other integers and booleans are joined, request text and parser offsets are unknown"""
        def mode(l, v):
            if l[0] == ('G',): return 'join' if l[-1] in ('decl', 'sent', 'clen', 'inpos') else 'keep'
            if l[0] == ('ENV',): return 'keep'
            if l[-1] in self.statefields: return 'keep'
            if l[-1] == '$n': return 'opaque'
            if v[0] == 's': return 'opaque'
            if v[0] in ('undef', 'agg') and self.is_container(st, l): return 'unknown'
            if '_parser' in l and v[0] in ('i', 's', 'b'): return 'opaque'
            return 'join'
        return mode
    def field(self, st, n):
        p = st.mem.get(THIS + ('d_ptr',))
        return p[1] + (n,)
    def is_container(self, st, l): return (l + ('$n',)) in st.mem
    VIEWS = None
    def is_view(self, l):
        """cells holding the parsed request as strings"""
        if self.VIEWS is None:
            self.VIEWS = {f['name'] for f in self.P.records[CLS + 'Private']['fields'] if self.I.kind(f['type']) == 'str'}
        return any(isinstance(c, str) and c in self.VIEWS for c in l)
    def slotop(self, name):
        """synchronous delivery of a device signal to a slot of the connection, memoised per boundary state"""
        f = self.P.find(CLS + '::' + name, optional=True)
        if f is None: return None
        key = 'env:' + name
        if key not in self.X.ops:
            self.X.ops[key] = lambda I, s: [r for r, _ in I.call(f.m, s, ('p', THIS), [])]
        return key
    def events(self, I, st, names, v):
        ops = [o for o in map(self.slotop, names) if o]
        return [(t, v) for _, t in self.X.emission(st, lambda n: {n}.union(*[self.X.step(n, o) for o in ops]))]
    def dev_close(self, I, st, ci, this, args, site, m):
        self.mon.on_devclose(I, st, this, site)
        return self.events(I, st, ['close'], ('void',))
    def dev_flush(self, I, st, ci, this, args, site, m):
        return self.events(I, st, ['close', 'drain'], ('b', True))
    # ---- request parser -----------------------------------------------------
    def pfields(self): 
        r = self.P.records.get('http_parser')
        if r is None or not any(f['name'] == 'request_method_start' for f in r['fields']): raise AnalysisBroken('anchor vanished: struct http_parser of parser/parser.h')
        return r['fields']
    def pflag(self, st, p, f):
        if p[0] != 'p': return ('b', False)
        return st.mem.get(p[1] + (f,), ('b', False))
    def p_init(self, I, st, ci, this, args, site, m):
        p = args[0][1]
        for f in self.pfields():
            if f['name'] in ('data', 'http_field', 'header_done', 'query_start'): continue
            st.mem[p + (f['name'],)] = ZERO
        st.mem[p + ('$err',)] = ('b', False); st.mem[p + ('$fin',)] = ('b', False)
        return [(st, ONE)]
    def p_execute(self, I, st, ci, this, args, site, m):
        P, buf, ln, off = args
        p = P[1]
        self.mon.on_parse(I, st, P, buf, ln, off, site)
        if ln[0] != 'i' or buf[0] != 'c': raise AnalysisBroken('request parser is not fed from a byte buffer')
        # 0..n header callbacks, then: more input needed, malformed, or complete
        fp = I.load(st, p + ('http_field',), 'void (*)()')
        data = I.load(st, p + ('data',), 'void *')
        tag = 'parse'
        seen = {}
        work = [st]; fake = FakeFn('thin_http_parser_execute'); heads = {}
        e = st.fresh('px', 0)
        nread = sym(('nread',) + e, 0, 2**31)
        old = I.load(st, p + ('nread',), 'unsigned long')
        st.assume(cle(nread, ln))
        if old[0] == 'i': st.assume(cle(old, nread))
        if isinstance(fp, tuple) and fp[0] == 'f':
            while work:
                s = work.pop()
                r = arrive(I, fake, 0, s, {}, len(I.stack) + 1, heads)
                if r is None: continue
                s, _ = r
                s = s.copy()
                k = s.fresh('hf', 0)
                fs, fl, vs, vl = (sym((n,) + k, 0, 2**31 - 1) for n in ('hfs', 'hfl', 'hvs', 'hvl'))
                s.assume(cle(ONE, fl)); s.assume(cle(add(add(fs, fl), ONE), vs)); s.assume(clt(add(vs, vl), nread))
                self.bounds(s, ln, fs, fl, vs, vl)
                bb = lambda x: (buf[0], buf[1], buf[2], add(buf[3], x))
                for s2, _ in I.call(fp[1], s, None, [data, bb(fs), fl, bb(vs), vl], site): work.append(s2)
        outs = []
        bases = [d[0] for d in heads[0].D.values()] if 0 in heads else [st]
        for base in bases:
            s1 = base.copy(); s1.trace = st.trace
            s1.mem[p + ('nread',)] = nread
            s1.mem[p + ('$err',)] = ('b', False); s1.mem[p + ('$fin',)] = ('b', False)
            s1.note('parse', 'needs more input', site.line if site else 0)
            outs.append(s1)
            s2 = base.copy(); s2.trace = st.trace; s2.mem[p + ('nread',)] = nread; s2.mem[p + ('$err',)] = ('b', True); s2.mem[p + ('$fin',)] = ('b', False)
            s2.note('parse', 'malformed', site.line if site else 0)
            outs.append(s2)
            for q in self.queries:
                for fr in self.fragments:
                    s3 = base.copy(); s3.trace = st.trace
                    if self.finish(s3, p, nread, ln, e, q, fr):
                        s3.note('parse', 'complete request head (query %s, fragment %s)' % (q, fr), site.line if site else 0)
                        outs.append(s3)
        return [(s, nread) for s in outs]
    def bounds(self, s, ln, *xs): pass
    def finish(self, s, p, nread, ln, e, q, fr):
        """request line laid out as  METHOD SP URI[#FRAGMENT] SP VERSION CRLF headers CRLF"""
        def S(n, lo=0): return sym((n,) + e, lo, 2**31 - 1)
        ml, pl, ql, fl, vl, bs, ms = S('ml', 1), S('pl'), S('ql', 1), S('fl'), S('vl', 8), S('bs', 1), S('ms')
        us = add(add(ms, ml), ONE)
        end = add(us, pl)
        st = lambda n, v: s.mem.__setitem__(p + (n,), v)
        st('request_method_start', ms); st('request_method_len', ml)
        st('request_path_start', us); st('request_path_len', pl)
        st('query_string_start', ZERO); st('query_string_len', ZERO); st('fragment_start', ZERO); st('fragment_len', ZERO)
        if q != 'none':
            qs = add(end, ONE)
            l = ql if q == 'some' else ZERO
            st('query_string_start', qs); st('query_string_len', l)
            end = add(qs, l)
        st('request_uri_start', us); st('request_uri_len', sub(end, us))
        if fr:
            fs = add(end, ONE)
            st('fragment_start', fs); st('fragment_len', fl); end = add(fs, fl)
        vs = add(end, ONE)
        st('http_version_start', vs); st('http_version_len', vl)
        end = add(add(vs, vl), con(2))
        st('body_start', bs); st('nread', add(bs, ONE))
        ok = s.assume(cle(add(end, con(2)), bs)) and s.assume(cle(bs, ln))
        s.mem[p + ('$err',)] = ('b', False); s.mem[p + ('$fin',)] = ('b', True)
        return ok
    def field_value(self, I, st, ci, this, args, site, m):
        name = models.strof(I, st, args[0], ci['params'][0])
        b = models.str_lit(name)
        k = I.keyof(st, this[1])
        n = models.csize(I, st, this[1])
        l = (('r', ('hdrval', k, b.lower() if b is not None else name, n if k[0] != 'ck' else 0)),)
        return [(st, ('p', l))]
    # ---- driver -------------------------------------------------------------
    SKIP = ('tr', 'trUtf8', 'qt_metacall', 'qt_metacast', 'qt_static_metacall', 'metaObject', 'd_func', 'requestParamValue', 'requestHeaderValue', 'initialize', 'requestParams', 'setRequestParam')
    def arg(self, I, st, t, i):
        k = I.kind(t); s = strip(t)
        if k == 'ref': return ('p', (('r', 'arg%d' % i),))
        if k == 'ptr': return ('p', (('o', 'arg%d' % i),))
        return I.fresh(t, ('arg', i))
    def discover(self):
        P = self.P
        reent = []; top = []
        for m, c in P.methods(CLS, False):
            if c.get('const') or c.get('static') or c.get('ctor') or c.get('dtor') or c.get('qt') == 'signal' or c['name'] in self.SKIP or c.get('op'): continue
            if m not in P.fns: continue
            if c['access'] == 'public': reent.append((c['name'], m))
            elif c.get('qt') == 'slot': top.append((c['name'], m))
        if len(reent) < 5: raise AnalysisBroken('public operations of HttpConnection not found')
        return reent, top
    def run(self):
        P, I, X = self.P, self.I, self.X
        ctor = [f for f in P.find_all(CLS + '::HttpConnection') if not f.info.get('copy')]
        if not ctor: raise AnalysisBroken('anchor vanished: HttpConnection constructor')
        reent, top = self.discover()
        def mk(m):
            ci = P.callees[m]
            def op(I, s):
                s.note('op', ci['name'])
                args = [self.arg(I, s, t, i) for i, t in enumerate(ci['params'])]
                self.mon.op_begin(I, s, ci, args)
                rs = [r for r, _ in I.call(m, s, ('p', THIS), args)]
                for r in rs: self.mon.op_end(I, r, ci)
                return rs
            return op
        for n, m in reent + top: X.ops[n] = mk(m)
        self.reentrant = [n for n, _ in reent]
        init = P.find(CLS + '::initialize')
        def do_init(I, s):
            if not self.mon.may_initialize(s): return []
            s.note('op', 'initialize')
            out = []
            for alias in self.aliases:
                s2 = s.copy()
                i, o = ('p', (('o', 'in'),)), ('p', (('o', 'in' if alias else 'out'),))
                for d in (i, o): s2.lit[('null', d[1])] = False
                self.mon.on_initialize(I, s2)
                rs = [r for r, _ in I.call(init.m, s2, ('p', THIS), [i, o])]
                out += rs
            return out
        X.ops['initialize'] = do_init
        st = State()
        st.mem[THIS + ('$class',)] = ('cls', CLS)
        st.mem[(('G',),)] = ('agg', ('gh',), ())
        self.mon.start(I, st)
        rs = I.call(ctor[0].m, st, ('p', THIS), [('n',)])
        start = set()
        for s, _ in rs: start |= X.intern(s)
        allops = self.reentrant + [n for n, _ in top] + ['initialize']
        rounds = 0
        while True:
            X.changed = False; before = len(X.done)
            for n in sorted(start): X.reach(n, allops)
            rounds += 1
            pend = [(n, o) for n in range(len(X.nodes)) for o in allops if (n, o) not in X.done and any((n, q) in X.succ for q in allops)]
            if not X.changed and len(X.done) == before: break
            if rounds > 60: raise Budget('connection exploration does not stabilise')
        self.rounds = rounds
        return self
    def emit(self, I, st, site, closed=False):
        """slots attached to a signal may call any public operation"""
        return [(t, ('void',)) for _, t in self.X.emission(st, lambda n: self.X.reach(n, self.reentrant))]
