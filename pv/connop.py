"""Modular fixpoint over the operations of Pillow::HttpConnection.

Control leaves the connection only between operations, while it emits a signal, or inside a device call; the state at each of
these points is generalised to a *node*: the program state plus the wire ghosts of the monitor, with every other member
reduced to {constant, equal to a ghost, sign, unknown}.  Each operation is analysed once per node; what happens during an
emission is every node reachable from the node of the emission.  Iterated to a fixpoint, one process per operation."""
import time
import multiprocessing, os, sys, traceback
from .dom import *
from .ai import Interp, Budget, strip
from .conn import ConnModel, CLS, THIS, G, ENV
from .extract import AnalysisBroken
from .boundary import heap_roots
from .protocol import M_LEN

PRIV = (('o', 'priv'),)
GHOSTS = ('ph', 'mode', 'keep', 'head', 'h11', 'cs')
NUM = ('decl', 'sent', 'clen')
UNK = ('?',)

def val(v): return v[1] if v is not None and v[0] in ('i', 'b') and not (v[0] == 'i' and v[2]) else None

class Cut:
    """what the monitor and the model ask from the explorer"""
    def __init__(self, M): self.M = M
    def merge(self, s): return [s]

class ConnOp(ConnModel):
    def __init__(self, prog, monitor):
        super().__init__(prog, monitor)
        self.I.partitions = 0
        self.X = Cut(self); monitor.X = self.X
        self.fields = [(f['name'], f['type']) for f in prog.records[CLS + 'Private']['fields']]
        self.master = {}       # node key -> data
        self.succ = {}         # (key, op) -> set of keys
        self.reachop = None
        self.queries = ('some',); self.fragments = (False,)
        for m in self.cut: self.I.overrides.pop(m, None)
        self.cut = self.emitters()
        for m in self.cut: self.I.overrides[m] = self.cutcall2
    # ---- generalisation -----------------------------------------------------
    def split0(self, s):
        """a declared length of zero is a boundary state of its own"""
        if val(s.mem.get(G('mode'))) != M_LEN: return [s]
        return [u for t, z in self.I.split(s, ceq(s.mem[G('decl')], ZERO)) for u, _ in ([(t, z)] if z else self.I.split(t, ceq(t.mem[G('sent')], t.mem[G('decl')])))]
    def key(self, s):
        q = self.stateval(s)
        if q is None: raise AnalysisBroken('connection state not determined at a boundary')
        g = {n: val(s.mem.get(G(n))) for n in GHOSTS}
        k = tuple(g[n] for n in GHOSTS)
        if g['mode'] == M_LEN and s.decide(ceq(s.mem[G('decl')], ZERO)) is True: k += ('nothing',)
        elif g['mode'] == M_LEN and s.decide(ceq(s.mem[G('sent')], s.mem[G('decl')])) is True: k += ('all sent',)
        devs = tuple(self.ptrof(s, PRIV + (n,)) for n, t in self.fields if strip(t).startswith('QIODevice'))
        return (q, k, devs)
    def privloc(self, s):
        v = s.mem.get(THIS + ('d_ptr',))
        if v is None or v[0] != 'p': raise AnalysisBroken('anchor vanished: HttpConnection::d_ptr')
        return v[1]
    def ptrof(self, s, l):
        p = self.privloc(s)
        v = self.I.load(s, p + l[len(PRIV):], 'QIODevice *')
        if v[0] == 'n': return 'null'
        if v[0] == 'p' and len(v[1]) == 1 and v[1][0][0] == 'o' and v[1][0][1] in ('in', 'out'): return 'dev'
        return '?'
    def data(self, s):
        """abstract contents of the private object, as plain picklable values"""
        p = self.privloc(s); I = self.I; d = {}
        gh = {n: s.mem.get(G(n), ZERO) for n in NUM}
        for n in NUM:
            lo, hi = s.interval(gh[n])
            if lo == hi: gh[n] = con(lo)
        mode = val(s.mem.get(G('mode')))
        for n, t in self.fields:
            if n in self.statefields: continue
            k = I.kind(t); l = p + (n,)
            if k in ('int', 'enumq'):
                v = I.load(s, l, t)
                if v[0] != 'i': d[n] = UNK; continue
                opts = set()
                lo, hi = s.interval(v)
                if lo == hi: v = con(lo); opts.add(('c', lo))
                for g in NUM:
                    if not isconst(gh[g]) or mode: 
                        if v == gh[g] or s.decide(ceq(v, gh[g])) is True: opts.add(('g', g))
                d[n] = ('i', frozenset(opts), 1 if lo >= 1 else 0 if lo >= 0 else -1 if lo >= -1 else None, 0 if hi <= 0 else None)
            elif k == 'bool':
                v = I.load(s, l, t)
                c = s.decide(I.cond(v)) if v[0] in ('b', 'i') else None
                d[n] = ('b', c)
            elif k == 'ptr':
                v = I.load(s, l, t)
                d[n] = ('n',) if v[0] == 'n' else ('p', v[1]) if v[0] == 'p' and v[1] == THIS else ('dev',) if self.ptrof(s, PRIV + (n,)) == 'dev' else UNK
            elif k == 'str':
                v = I.getstr(s, l)
                if s.decide(ceq(slen(v), ZERO)) is True: d[n] = ('e',)
                else:
                    f = {}
                    if len(v[1]) == 1:
                        for a, x in s.lit.items():
                            if a[0] == 'eq' and a[1] == v[1][0] and isinstance(a[2], bytes): f[a[2]] = x
                    d[n] = ('s', tuple(sorted(f.items())))
            else:
                sub = {}
                for c, v in s.mem.items():
                    if len(c) == len(l) + 1 and c[:len(l)] == l:
                        if v[0] == 'f': sub[c[-1]] = v
                        elif v[0] == 'p' and v[1] == p: sub[c[-1]] = ('p', PRIV)
                d[n] = ('r', tuple(sorted(sub.items())))
        d['#'] = tuple(sorted((g, (val(gh[g]), 1 if s.interval(gh[g])[0] >= 1 else 0 if s.interval(gh[g])[0] >= 0 else None)) for g in NUM))
        d['#lt'] = s.decide(clt(gh['sent'], gh['decl'])) is True
        return d
    @staticmethod
    def join(a, b):
        out = {}
        for n in a:
            x, y = a[n], b[n]
            if x == y: out[n] = x
            elif n == '#':
                out[n] = tuple((g, (u[0] if u[0] == v[0] else None, min(u[1], v[1]) if u[1] is not None and v[1] is not None else None)) for (g, u), (_, v) in zip(x, y))
            elif n == '#lt': out[n] = x and y
            elif x[0] == y[0] == 'i':
                m = lambda p, q, f: None if p is None or q is None else f(p, q)
                out[n] = ('i', x[1] & y[1], m(x[2], y[2], min), m(x[3], y[3], max))
            elif x[0] == y[0] == 'b': out[n] = ('b', None)
            elif x[0] in 'es' and y[0] in 'es':
                f = dict(x[1]) if x[0] == 's' else {}; h = dict(y[1]) if y[0] == 's' else {}
                if x[0] == 'e': f = {k: False for k in h if k}
                if y[0] == 'e': h = {k: False for k in f if k}
                out[n] = ('s', tuple(sorted((k, v) for k, v in f.items() if h.get(k) == v)))
            elif x[0] == y[0] == 'r': out[n] = ('r', tuple(sorted((k, v) for k, v in dict(x[1]).items() if dict(y[1]).get(k) == v)))
            else: out[n] = UNK
        return out
    def instance(self, s, key, d, tag):
        """puts an instance of the node into state s (replacing what s knew about the connection)"""
        q, gk, devs = key
        s.mem[THIS + ('d_ptr',)] = ('p', PRIV)
        old = self.PRIVS
        for l in [l for l in s.mem if l[0] in old or l[0] == ('G',)]: del s.mem[l]
        s.lit[('null', PRIV)] = False
        e = s.fresh('nd', tag)
        s.mem[PRIV] = ('agg', e, ())
        gv = {}
        for (g, (c, lo)) in d['#']:
            if c is not None: v = con(c)
            else: v = sym((g,) + e, lo if lo is not None else -2**62, 2**62)
            gv[g] = v; s.mem[G(g)] = v
        s.mem[(('G',),)] = ('agg', ('gh',), ())
        if d['#lt']: s.assume(clt(gv['sent'], gv['decl']))
        if 'all sent' in gk: gv['sent'] = gv['decl']; s.mem[G('sent')] = gv['decl']
        for n, v in zip(GHOSTS, gk):
            if v is not None: s.mem[G(n)] = ('b', v) if isinstance(v, bool) else con(v)
        s.mem[G('inpos')] = ZERO
        for n, t in self.fields:
            l = PRIV + (n,)
            if n in self.statefields: s.mem[l] = con(self.P.enums[CLS + '::State']['vals'][q]); continue
            x = d[n]
            if x[0] == 'i':
                gs = [o for o in x[1] if o[0] == 'g']; cs = [o for o in x[1] if o[0] == 'c']
                if cs: s.mem[l] = con(cs[0][1])
                elif gs: s.mem[l] = gv[sorted(gs)[0][1]]
                else:
                    lo, hi = self.I.rng(t)
                    v = sym(('f', n) + e, max(lo, x[2]) if x[2] is not None else lo, min(hi, x[3]) if x[3] is not None else hi)
                    s.mem[l] = v
                    for o in gs: s.assume(ceq(v, gv[o[1]]))
            elif x[0] == 'b':
                s.mem[l] = ('b', x[1]) if x[1] is not None else ('b', ('at', ('bool', (n,) + e), True))
            elif x[0] == 'n': s.mem[l] = ('n',)
            elif x[0] == 'p': s.mem[l] = ('p', x[1])
            elif x[0] == 'dev':
                o = (('o', 'in' if 'nput' in n else 'out'),)
                s.mem[l] = ('p', o); s.lit[('null', o)] = False
            elif x[0] == 'e': s.mem[l] = EMPTY
            elif x[0] == 's':
                v = opaque_str((n,) + e); s.mem[l] = v
                for k, tv in x[1]: s.lit[('eq', v[1][0], k)] = tv
            elif x[0] == 'r':
                for k, v in x[1]: s.mem[l + (k,)] = v
                if any(f in n for f in ('parser',)):
                    s.mem.setdefault(l + ('$err',), ('b', False)); s.mem.setdefault(l + ('$fin',), ('b', False))
            elif self.I.kind(t) == 'ptr': s.mem[l] = self.I.fresh(t, (n,) + e)
        return s
    # ---- inside a task --------------------------------------------------------
    def contribute(self, s):
        k = self.key(s); d = self.data(s)
        c = self.contrib.get(k)
        self.contrib[k] = d if c is None else self.join(c, d)
        return k
    def known(self, k):
        """current data of node k: what the fixpoint knows joined with what this task found"""
        m = self.master.get(k); c = self.contrib.get(k)
        return c if m is None else m if c is None else self.join(m, c)
    def through(self, st, succs, tag):
        """st continues in every node of succs(key of st); continuations explored already from the same context are dropped"""
        res = set()
        for x in self.split0(st):
            for y in succs(self.contribute(x)): res.add(y)
        heap = heap_roots(st, [('this',), ('G',)]) | self.PRIVS
        f = st.copy()
        f.mem = {l: v for l, v in st.mem.items() if l[0] not in heap and l[0][0] != 'g'}
        ctx = self.I.context(f)
        live = set()
        for l, v in f.mem.items(): live |= syms_of(v)
        for c in ctx:
            for t, v in c[4]: live |= syms_of(v)
        f.iv = {t: b for t, b in st.iv.items() if all(x in live for x, _ in t)}
        f.ne = frozenset((t, c) for t, c in st.ne if all(x in live for x, _ in t))
        atoms = set()
        def at(v):
            if isinstance(v, tuple):
                if len(v) == 3 and v[0] == 'at': atoms.add(v[1])
                for x in v: at(x)
        for v in f.mem.values(): at(v)
        for c in ctx:
            for t, v in c[4]: at(v)
        f.lit = {a: v for a, v in st.lit.items() if a[0] == 'null' and a[1][0] not in heap or a in atoms}
        fk = (ctx, frozenset(f.mem.items()), frozenset(f.iv.items()), f.ne, frozenset(f.lit.items()), st.flags)
        out = []
        for k2 in sorted(res, key=repr):
            if (fk, k2) in self.seenk: continue
            d = self.known(k2)
            if d is None: continue
            self.seenk.add((fk, k2))
            t = f.copy(); t.trace = st.trace
            t.mem[THIS + ('$class',)] = ('cls', CLS)
            self.instance(t, k2, d, tag)
            t.note('then', k2[0])
            out.append(t)
        return out
    def reach(self, k, ops):
        """nodes reachable from k by the given operations (least fixpoint of what is known)"""
        seen = {k}; todo = [k]
        while todo:
            x = todo.pop()
            for o in ops:
                self.deps.add((x, o))
                for y in self.succ.get((x, o), ()):
                    if y not in seen: seen.add(y); todo.append(y)
        return seen
    def emit(self, I, st, site, closed=False):
        return [(t, ('void',)) for t in self.through(st, lambda k: self.reach(k, self.reentrant), tuple(site) if site else 0)]
    def one(self, k, ops, keep=True):
        r = {k} if keep else set()
        for o in ops:
            self.deps.add((k, o)); r |= self.succ.get((k, o), set())
        return r
    def events(self, I, st, names, v):
        ops = [n for n in names if n in self.opm]
        self.wanted |= {'env:' + n for n in ops}
        return [(t, v) for t in self.through(st, lambda k: self.one(k, ['env:' + n for n in ops]), 'ev')]
    def cutcall2(self, I, st, ci, this, args, site, m):
        if self.incut == m:
            self.incut = None; return None
        if ENV('inert') in st.mem or not all(isconst(a) if a[0] == 'i' else a[0] == 'n' or a[0] == 'b' and isinstance(a[1], bool) for a in args): return None
        name = 'call:' + m + ('|' + repr(args) if args else '')
        return [(t, ('void',)) for t in self.through(st, lambda k: self.one(k, [name], False), tuple(site) if site else 0)]
    def emitters(self):
        """member functions of the private class that return nothing and can reach a signal of the connection or themselves"""
        P = self.P; cg = {}
        own = {m for m, f in P.fns.items() if f.cls == CLS + 'Private'}
        for m in own: cg[m] = {i['f'] for i, ci in P.calls(P.fns[m])}
        sig = {m for m, ci in P.methods(CLS) if ci['qt'] == 'signal'}
        hit = {m for m in own if cg[m] & sig}
        ch = True
        while ch:
            n = {m for m in own if cg[m] & hit}
            ch = not n <= hit; hit |= n
        return {m for m in hit if P.fns[m].ret == 'void' and not P.fns[m].info.get('ctor')}
    def task(self, key, op):
        """analyses one operation from one node; returns a picklable record"""
        I = self.I
        self.contrib = {}; self.deps = set(); self.wanted = set(); self.seenk = set()
        self.mon.viol = {}; self.mon.dropped = {}; self.mon.count = {}
        s0 = self.start_state()
        self.instance(s0, key, self.master[key], 'start')
        I.steps = 0
        kind, _, name = op.partition(':')
        succ = set(); flags = set()
        outs = []
        if kind == 'call':
            name, _, av = name.partition('|')
            self.incut = name
            outs = [r for r, _ in I.call(name, s0, ('p', PRIV), eval(av) if av else [], None)]
        elif kind == 'env':
            outs = [r for r, _ in I.call(self.opm[name], s0, ('p', THIS), [])]
        elif kind == 'init':
            if self.mon.may_initialize(s0):
                i, o = ('p', (('o', 'in'),)), ('p', (('o', 'out'),))
                for d in (i, o): s0.lit[('null', d[1])] = False
                self.mon.on_initialize(I, s0)
                s0.note('op', 'initialize')
                outs = [r for r, _ in I.call(self.P.find(CLS + '::initialize').m, s0, ('p', THIS), [i, o])]
        else:
            ci = dict(self.P.callees[self.opm[name]]); ci['m'] = self.opm[name]
            s0.note('op', name)
            args = [self.arg(I, s0, t, i) for i, t in enumerate(ci['params'])]
            self.mon.op_begin(I, s0, ci, args)
            outs = [r for r, _ in I.call(self.opm[name], s0, ('p', THIS), args)]
            for r in outs: self.mon.op_end(I, r, ci)
        for r in outs:
            flags |= r.flags
            for x in self.split0(r): succ.add(self.contribute(x))
        def tr(t):
            out = []
            while t is not None and len(out) < 60: out.append(' '.join(str(x) for x in t[1])[:160]); t = t[0]
            return out[::-1]
        return (self.contrib, succ, self.deps, self.wanted, {k: (f, tr(t)) for k, (f, t) in self.mon.viol.items()}, {k: f for k, (f, t) in self.mon.dropped.items()},
                self.mon.count, flags, len(outs), I.steps)
    def start_state(self):
        s = State()
        s.mem[THIS + ('$class',)] = ('cls', CLS)
        s.mem[THIS + ('d_ptr',)] = ('p', PRIV)
        return s
    # ---- driver ---------------------------------------------------------------
    PRIVS = {PRIV[0]}
    def explore(self, limit=800, jobs=8, verbose=False):
        t0 = time.time()
        P, I = self.P, self.I
        ctor = [f for f in P.find_all(CLS + '::HttpConnection') if not f.info.get('copy')]
        if not ctor: raise AnalysisBroken('anchor vanished: HttpConnection constructor')
        reent, top = self.discover()
        self.opm = dict(reent + top)
        self.reentrant = ['op:' + n for n, _ in reent]; self.top = ['op:' + n for n, _ in top]
        # first node: after construction
        s = self.start_state(); s.mem.pop(THIS + ('d_ptr',))
        s.mem[THIS] = ('undef',)
        self.contrib = {}; self.deps = set(); self.wanted = set(); self.seenk = set()
        self.mon.start(I, s)
        rest = set()
        for r, _ in I.call(ctor[0].m, s, ('p', THIS), [('n',)]): rest.add(self.contribute(r))
        if not rest: raise AnalysisBroken('the HttpConnection constructor could not be analysed')
        self.master = dict(self.contrib)
        top_nodes = set(rest)          # nodes in which control rests with the application
        emis = set()                   # nodes reached through reentrant calls
        done = {}                      # (key, op) -> deps
        viol = {}; dropped = {}; counts = {}; self.flags = set(); self.tasks = 0; self.outs = 0
        dirty = set(); wantedops = set()
        callops = ['call:' + m for m in self.cut]
        res = {}
        def plan():
            out = set()
            for k in top_nodes | emis:
                for o in self.reentrant: out.add((k, o))
            for k in top_nodes:
                for o in self.top: out.add((k, o))
                if k[0] in ('Uninitialized', 'Closed'): out.add((k, 'init:'))
            return out
        requested = set(); cost = {}
        pool_ctx = multiprocessing.get_context('fork')
        while True:
            todo = [(k, o) for k, o in plan() | requested if k in self.master and ((k, o) not in done or (k, o) in dirty)]
            if not todo: break
            # what is known to be expensive is repeated only when nothing else is left to do
            cheap = [x for x in todo if cost.get(x, 0) < 1.5]
            if cheap: todo = cheap
            if time.time() - t0 > limit: raise Budget('connection fixpoint exceeds %d s (%d nodes)' % (limit, len(self.master)))
            global _cur
            _cur = self
            todo.sort(key=lambda x: (-len([w for w in ('writeRes', 'writeHead') if w in x[1]]), repr(x)))
            with pool_ctx.Pool(min(jobs, len(todo))) as pool:
                rs = pool.map(_work, todo, chunksize=1)
            dirty_next = set()
            changed_nodes = set(); changed_succ = set()
            for (k, o), r in zip(todo, rs):
                if isinstance(r, Exception): raise r
                cost[(k, o)] = r[-1]; r = r[:-1]
                contrib, succ, deps, wanted, vi, dr, cnt, fl, no, st = r
                self.tasks += 1; self.outs += no
                for k2, d in contrib.items():
                    m = self.master.get(k2)
                    n = d if m is None else self.join(m, d)
                    if n != m: self.master[k2] = n; changed_nodes.add(k2)
                if self.succ.get((k, o)) != (self.succ.get((k, o), set()) | succ):
                    self.succ[(k, o)] = self.succ.get((k, o), set()) | succ; changed_succ.add((k, o))
                elif (k, o) not in self.succ: self.succ[(k, o)] = set(succ)
                res[(k, o)] = (vi, dr, cnt, fl, deps)
                done[(k, o)] = deps
                for x, p in deps:
                    if p.startswith(('call:', 'env:')): requested.add((x, p))
                    else: emis.add(x)
                if o.startswith(('op:', 'init')) and (k in top_nodes): top_nodes |= succ
                elif o.startswith('op:'): emis |= succ
            for (k, o), deps in done.items():
                if k in changed_nodes or deps & changed_succ or any(x in changed_nodes for x, _ in deps): dirty_next.add((k, o))
            # nodes substituted after an emission: any reachable node that changed
            if changed_nodes or changed_succ:
                for (k, o), deps in done.items():
                    for x, p in deps:
                        if any(y in changed_nodes for y in self.succ.get((x, p), ())): dirty_next.add((k, o)); break
            dirty = (dirty - set(todo)) | dirty_next
            if verbose: print('%.0fs nodes=%d tasks=%d dirty=%d' % (time.time() - t0, len(self.master), self.tasks, len(dirty)), file=sys.stderr)
        for vi, dr, cnt, fl, _ in res.values():
            for k, v in vi.items(): viol.setdefault(k, v)
            for k, v in dr.items(): dropped.setdefault(k, v)
            for k, v in cnt.items(): counts[k] = counts.get(k, 0) + v
            self.flags |= fl
        self.viol, self.dropped, self.counts = viol, dropped, counts
        self.obligations = len(res); self.rest = top_nodes
        return self

_cur = None
def _work(x):
    try:
        t = time.time()
        return _cur.task(*x) + (time.time() - t,)
    except (AnalysisBroken, Budget) as e: return e
    except Exception: return AnalysisBroken(traceback.format_exc()[-1500:])
