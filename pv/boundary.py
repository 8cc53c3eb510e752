"""Closed-world exploration of one object by its public operations.

A *boundary state* is the heap of the object under analysis at a point where control is outside of it: between two
top-level operations, or while it emits a signal.  Boundary states are canonicalised (every integer cell, opaque string
and opaque pointer is named after the memory location that holds it) and joined per discrete signature, so the set of
boundary states is finite; the exploration is a least fixpoint over that set.  At a signal emission the attached slots may
perform any sequence of re-entrant operations, so the suspended operation continues with every boundary state reachable
from the emission state."""
from math import inf
from .dom import *
from .join import apply_subst, join_facts, gc, subkeys, _skel, skeleton, unskeleton, syms_of, drop_elems

KEEP = 8           # constants up to this magnitude stay distinct (enumerators, -1/0/1 markers)

_vl = {}
def _locs(v):
    """roots mentioned by a value"""
    r = _vl.get(v)
    if r is None:
        out = set()
        def go(v):
            if len(v) == 2 and v[0] == 'p' and isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple): out.add(v[1][0])
            elif len(v) >= 3 and v[0] == 'c' and isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple): out.add(v[1][0])
            for x in v:
                if isinstance(x, tuple): go(x)
        if isinstance(v, tuple): go(v)
        r = _vl[v] = tuple(out)
    return r

def heap_roots(s, roots):
    """roots reachable from the given root components"""
    seen = set(roots); todo = list(roots)
    by = {}
    for l, v in s.mem.items():
        r = _locs(v)
        if r: by.setdefault(l[0], []).append(r)
    while todo:
        for x in by.get(todo.pop(), ()):
            for r in x:
                if r not in seen: seen.add(r); todo.append(r)
    return seen

_rp = {}
def rp(l):
    r = _rp.get(l)
    if r is None: r = _rp[l] = repr(l)
    return r

def covers(o, n):
    """every concrete state of n is one of o (same cells)"""
    for t, (lo, hi) in o.iv.items():
        b = n.iv.get(t)
        if b is None: b = n.interval(('i', 0, t), 1)
        if b[0] < lo or b[1] > hi: return False
    for a, v in o.lit.items():
        if n.lit.get(a) != v: return False
    for t, c in o.ne:
        if (t, c) not in n.ne and n.decide(('ne', -c, t)) is not True: return False
    return True

class Explorer:
    def __init__(self, interp, roots, drop_elems=True):
        self.I = interp; self.roots = tuple(roots)
        self.nodes = []; self.by_sig = {}
        self.drop_elems = drop_elems
        self.ops = {}            # name -> (callable(interp, state) -> [states], reentrant: bool)
        self.succ = {}           # (node, op) -> set of nodes
        self.deps = {}           # node -> set of (node, op) that continued with reach*(node)
        self.done = {}           # (node, op) -> version of the inputs used
        self.version = {}
        self.dirty = set(); self.inprog = []
        self.edges = 0; self.policy1 = None; self.seenk = set(); self.seenm = {}
        self.volatile = ('$tail', '$dp', '$cap', '$st', '$vst')
        self.origin = {}; self.loose = set(); self.maxnest = 12; self.todo = set()
    # ---- canonicalisation --------------------------------------------------
    def concretise(self, s, mode=None):
        """splits the state until every boolean cell and nullable pointer cell is decided"""
        work = [s]; out = []
        while work:
            st = work.pop()
            for l, v in st.mem.items():
                if l[0] not in self.live: continue
                c = None
                if v[0] == 'b' and v[1] not in (True, False):
                    c = v[1]
                    if mode is not None and mode(l, v) != 'keep': continue
                    if c[0] == 'at' and c[1] == ('bool', ('ck', l, 0)): continue
                elif v[0] == 'p' and self.I.maybe_null(v[1]): c = ('at', ('null', v[1]), False)
                else: continue
                d = st.decide(c)
                if d is None:
                    for s2, t in self.I.split(st, c): work.append(s2)
                    break
                if v[0] == 'b': st.mem[l] = ('b', d)
                elif d is False: st.mem[l] = ('n',)
                if v[0] == 'b' or d is False: work.append(st); break
            else:
                out.append(st)
        return out
    def canon(self, s):
        """[(signature, canonical state)] of the heap part of s"""
        st = s.copy(); st.trace = s.trace
        self.live = heap_roots(st, self.roots)
        for l in list(st.mem):
            if l[0] not in self.live or l[-1] in self.volatile: del st.mem[l]
        if self.drop_elems: drop_elems(st)
        mode = self.policy(st)
        if mode is not None: return [self.zone(x, mode) for x in self.concretise(st, mode)]
        out = []
        for x in self.concretise(st):
            out.append(self.canon1(x))
        return out
    def policy(self, st):
        """per boundary state: function loc, value -> 'keep' | 'opaque' (None: keep everything)"""
        return None
    def zone(self, s, mode, tag=None, extra=()):
        """boundary state with every cell a constant (mode keep), joined with what other paths leave there (join: an
        interval/difference domain for integers, a three-valued domain for booleans) or unknown (opaque)"""
        n = State(); n.trace = s.trace; n.flags = s.flags
        C = ('cell',) if tag is None else ('cell@', tag)
        K = ('ck',) if tag is None else ('ck@', tag)
        ints = []; strs = {}; lens = []
        for l, v in s.mem.items():
            k = v[0]
            if k == 'i':
                m = mode(l, v)
                if not v[2] and m == 'keep' and self.keepconst(l, v): n.mem[l] = v; continue
                c = sym(C + (l, 0))
                n.mem[l] = c
                if m != 'opaque': ints.append((c, v))
            elif k == 'b':
                m = mode(l, v)
                d = s.decide(v[1])
                if m == 'keep' and d is not None: n.mem[l] = ('b', d)
                else:
                    at = ('bool', K + (l, 0))
                    n.mem[l] = ('b', ('at', at, True))
                    if m != 'opaque' and d is not None: n.lit[at] = d
            elif k == 's':
                if mode(l, v) == 'keep': n.mem[l] = v
                else:
                    n.mem[l] = opaque_str(K + (l, 0))
                    if not v[1]:
                        z = n.iv; z[((SYM.id(('len', n.mem[l][1][0]), 0, INTMAX), 1),)] = (0, 0); lens.append(l)
                if self.tracked(l) and len(v[1]) == 1 and n.mem[l][1]: strs[v[1][0]] = n.mem[l][1][0]
            elif mode(l, v) == 'unknown': n.mem[l] = ('agg', ('elems', l), ())
            elif k == 'agg':
                if v[1] and v[1][0] in ('emptyc', 'zero', 'gh', 'elems') and not v[2]: n.mem[l] = v
                else: n.mem[l] = ('agg', K + (l, 0), ())
            elif k == 'c': n.mem[l] = ('agg', K + (l, 0), ())
            else: n.mem[l] = v
        for c, v in ints:
            lo, hi = s.interval(v)
            if lo != -inf or hi != inf: n.iv[c[2]] = (lo, hi)
        for i, (c, v) in enumerate(ints):
            for d, w in ints[:i]:
                x = sub(v, w)
                lo, hi = s.interval(x)
                if lo == -inf and hi == inf: continue
                y = sub(c, d)
                a, z = n.simple_iv(0, y[2])
                if lo > a or hi < z: n._bound(y[2], lo, hi)
        for x in extra:
            b = s.iv.get(((x, 1),))
            if b: n.iv[((x, 1),)] = b
        for c, v in ints:
            if not v[2]: continue
            for x in extra:
                d = ('i', 0, ((x, 1),))
                w = sub(v, d)
                lo, hi = s.interval(w, 1)
                if lo == -inf and hi == inf: continue
                y = sub(c, d)
                a, z = n.simple_iv(0, y[2])
                if lo > a or hi < z: n._bound(y[2], lo, hi)
        for c, v in ints:
            if v[2] and s.isne(v[1], v[2]): n.assume(cne(c, ZERO))
        for a, x in s.lit.items():
            if a[0] in ('eq', 'ieq') and a[1] in strs: n.lit[(a[0], strs[a[1]], a[2])] = x
            elif a[0] == 'null' and len(a[1]) == 1: n.lit[a] = x
        n.lit = {a: x for a, x in n.lit.items() if a[0] != 'null' or any(v == ('p', a[1]) for v in n.mem.values())}
        return self.signature(n), n
    def empties(self, s):
        """strings of length 0 become the empty string"""
        for l, v in s.mem.items():
            if v[0] == 's' and len(v[1]) == 1 and v[1][0][0] == 'S':
                if s.iv.get(((SYM.id(('len', v[1][0]), 0, INTMAX), 1),)) == (0, 0): s.mem[l] = EMPTY
    def crange(self, l): return (-inf, inf)
    def canon1(self, st):
        keys = {}
        # 1. opaque keys named by the first location that mentions them
        ren = {}
        mem = st.mem
        for l in sorted(mem, key=rp):
            v = mem[l]; n = 0
            for k in self.opaque_keys(v):
                if k in ren or self.stable_key(k): continue
                if self.canonical_key(k) and k[1] == l: 
                    ren[k] = k
                    continue
                ren[k] = ('ck', l, n); n += 1
        taken = set()
        for k, x in list(ren.items()):
            i = x[2]
            while ren[k] in taken:
                i += 1; ren[k] = ('ck', x[1], i)
            taken.add(ren[k])
        ren = {k: x for k, x in ren.items() if k != x}
        if ren:
            # two phases, so that a canonical name moving to another location does not collide
            t = {k: ('ck~',) + x[1:] for k, x in ren.items()}
            self.rekey(st, t)
            self.rekey(st, {('ck~',) + x[1:]: x for x in ren.values()})
        # 2. integers: one symbol per cell component
        mem = st.mem
        pairs = []; subst = {}; facts = []
        order = sorted(mem, key=rp)
        temp = {}
        for l in order:
            v = mem[l]
            k, ls = _skel(v)
            for i, x in enumerate(ls):
                if not x[2]: continue
                cs = SYM.id(('cell~', l, i))
                temp[cs] = sym(('cell', l, i))
                y = Subst(subst)(x) if subst else x
                # already-canonical symbols of this pass must not be solved again
                pick = None
                for sid, c in y[2]:
                    kk = SYM.keys[sid]
                    if c in (1, -1) and not (isinstance(kk, tuple) and kk[0] == 'cell~'):
                        if not isinstance(kk, tuple) or kk[0] != 'len': pick = (sid, c); break
                        pick = pick or (sid, c)
                cv = ('i', 0, ((cs, 1),))
                if y == cv: continue
                if pick is None:
                    facts.append((cv, y)); continue
                rest = sub(y, ('i', 0, ((pick[0], pick[1]),)))
                e = scale(sub(cv, rest), pick[1])
                lo, hi = SYM.rng[pick[0]]
                facts.append(('rng', e, lo, hi))
                one = Subst({pick[0]: e})
                subst = {a: one(b) for a, b in subst.items()}
                subst[pick[0]] = e
            # the cell keeps its skeleton; its integers become the cell symbols below
        newmem = {}
        ok = True
        S1 = Subst(subst)
        s2 = st
        s2.mem = {}
        if not apply_subst(s2, S1): pass
        for f in facts:
            if f[0] == 'rng':
                e, lo, hi = f[1:]
                e = S1(e)
                if lo != -inf: s2.assume(cle(con(lo), e))
                if hi != inf: s2.assume(cle(e, con(hi)))
            else: s2.assume(ceq(f[0], S1(f[1])))
        for l in order:
            v = mem[l]
            k, ls = _skel(v)
            nl = [x if not x[2] else ('i', 0, ((SYM.id(('cell~', l, i)), 1),)) for i, x in enumerate(ls)]
            nv = unskeleton(k, iter(nl)) if ls else v
            lk = S1(l)
            newmem[lk] = S1(nv) if syms_of(nv) else nv
        s2.mem = newmem
        S2 = Subst(temp)
        apply_subst(s2, S2)
        self.prune(s2)
        gc(s2)
        s2.cnt = {}
        sig = self.signature(s2)
        return sig, s2
    def prune(self, s):
        """only facts about memory cells survive at a boundary"""
        ok = {}
        def keep(x):
            r = ok.get(x)
            if r is None:
                k = SYM.keys[x]
                r = ok[x] = isinstance(k, tuple) and k[0] == 'cell' and not self.forget(k[1], k[2])
            return r
        s.iv = {t: b for t, b in s.iv.items() if all(keep(x) for x, _ in t)}
        s.ne = frozenset((t, c) for t, c in s.ne if all(keep(x) for x, _ in t))
    def forget(self, loc, i): return False
    def stable_key(self, k): return False
    def canonical_key(self, k): return isinstance(k, tuple) and len(k) == 3 and k[0] == 'ck'
    def opaque_keys(self, v):
        """opaque identity keys in a value, outermost first"""
        out = []
        def go(x):
            if not isinstance(x, tuple): return
            if len(x) == 3 and x[0] == 'i' and isinstance(x[2], tuple) and isinstance(x[1], int): return
            if len(x) == 2 and x[0] == 'S': out.append(x[1]); return
            if len(x) == 3 and x[0] == 'U': out.append(x[1]); return
            if len(x) == 3 and x[0] == '*': out.append(x[1]); return
            if len(x) == 4 and x[0] == 'V':
                if x[1] and x[1][0] == 'b': 
                    if isinstance(x[1][2], tuple): out.append(x[1][2])
                elif x[1] and x[1][0] in ('in', 'lit'): pass
                else: out.append(x[1])
                return
            if len(x) == 3 and x[0] == 'agg':
                if isinstance(x[1], tuple) and x[1] and x[1][0] not in ('emptyc', 'zero', 'token', 'noop', 'gh'): out.append(x[1])
                for y in x[2]: go(y)
                return
            if len(x) == 2 and x[0] == 'stk' and isinstance(x[1], tuple): out.append(x[1]); return
            if len(x) == 2 and x[0] == 'p':
                r = x[1][0] if x[1] else None
                return
            for y in x: go(y)
        go(v)
        return out
    def rekey(self, st, ren):
        S = Subst({}, ren)
        apply_subst(st, S)
        m = {}
        syms = set()
        for l, v in st.mem.items(): syms |= syms_of(v) | syms_of(l)
        for t in st.iv: 
            for x, _ in t: syms.add(x)
        for a in st.lit: syms |= syms_of(a)
        for sid in syms:
            k = SYM.keys[sid]; k2 = S(k)
            if k2 != k: m[sid] = sym(k2, *SYM.rng[sid])
        if m: apply_subst(st, Subst(m))
    def signature(self, s):
        sig = []
        for l, v in s.mem.items():
            k, lins = _skel(v)
            cs = tuple(x[1] if self.keepconst(l, x) else '#' for x in lins)
            sig.append((_skel(l)[0], k, cs))
            if v[0] == 's' and self.siglits and self.tracked(l):
                sig.append((_skel(l)[0], 'lits', frozenset((a[0], a[2], x) for a, x in s.lit.items() if a[0] in ('eq', 'ieq') and v[1] and a[1] == v[1][0])))
        return frozenset(sig)
    def tracked(self, l): return False
    siglits = False
    def keepconst(self, l, x):
        if x[2] or self.forget(l, 0): return False
        if self.policy1 is not None and self.policy1(l) != 'keep': return False
        if l[-1] == '$n': return x[1] == 0
        return abs(x[1]) <= KEEP and l not in self.loose
    # ---- nodes -----------------------------------------------------------
    def node(self, sig, s):
        n = self.by_sig.get(sig)
        if n is None:
            n = len(self.nodes); self.by_sig[sig] = n
            # constants beyond KEEP are generalised to the cell symbol with a fact
            self.general(s)
            self.nodes.append(s); self.version[n] = 0; self.joins = getattr(self, 'joins', {}); self.joins[n] = 0
            self.origin[n] = s.trace
            return n
        d = self.nodes[n]
        self.general(s)
        t = s.copy()
        # (cells agree by signature: both carry the cell symbols)
        self.joins[n] += 1
        b4 = (dict(d.iv), d.ne, dict(d.lit), d.flags)
        d2 = d.copy()
        if join_facts(d2, t, widen=self.joins[n] > 2):
            if (d2.iv, d2.ne, d2.lit) != (d.iv, d.ne, d.lit):
                d2.flags = d.flags | s.flags
                self.nodes[n] = d2; self.version[n] += 1; self.invalidate(n)
        elif s.flags - d.flags: d.flags = d.flags | s.flags
        return n
    def general(self, s):
        for l, v in list(s.mem.items()):
            if v[0] == 'b': continue
            k, ls = _skel(v); ch = False
            for i, x in enumerate(ls):
                if not x[2] and not self.keepconst(l, x):
                    cv = sym(('cell', l, i)); self.forget(l, i) or s.assume(ceq(cv, x)); ls[i] = cv; ch = True
            if ch: s.mem[l] = unskeleton(k, iter(ls))
    def invalidate(self, n):
        for key in [k for k in self.done if k[0] == n]: del self.done[key]
        for key in self.deps.get(n, ()): self.done.pop(key, None)
    def instance(self, n):
        """the node's state with equalities substituted"""
        s = self.nodes[n].copy()
        s.trace = self.origin[n]
        self.empties(s)
        for _ in range(6):
            sub1 = {}
            for t, (lo, hi) in s.iv.items():
                if lo == hi and lo not in (inf, -inf):
                    # solve for the last cell symbol with unit coefficient
                    for sid, c in reversed(t):
                        if c in (1, -1):
                            rest = ('i', 0, tuple((a, b) for a, b in t if a != sid))
                            e = scale(sub(con(lo), rest), c)
                            sub1 = {sid: e}; break
                    if sub1: break
            if not sub1: break
            (sid, e), = sub1.items()
            l0, h0 = SYM.rng[sid]
            apply_subst(s, Subst(sub1))
            if l0 != -inf: s.assume(cle(con(l0), e))
            if h0 != inf: s.assume(cle(e, con(h0)))
        return s
    def intern(self, s):
        return {self.node(sig, c) for sig, c in self.canon(s)}
    # ---- exploration -----------------------------------------------------
    def reach(self, n, opset):
        """nodes reachable from n by the operations of opset (processing what is not yet processed)"""
        seen = {n}; todo = [n]
        while todo:
            x = todo.pop()
            for op in opset:
                for y in self.step(x, op):
                    if y not in seen: seen.add(y); todo.append(y)
        return seen
    def step(self, n, op):
        key = (n, op)
        if key in self.done or key in self.inprog: return self.succ.get(key, set())
        if len(self.inprog) >= self.maxnest: self.todo.add(key); return self.succ.get(key, set())
        self.inprog.append(key)
        stack, self.I.stack = self.I.stack, []
        fr, self.I.frames = self.I.frames, []
        sk, self.seenk = self.seenk, set()
        sm, self.seenm = self.seenm, {}
        try:
            self.done[key] = True
            s = self.instance(n)
            out = set()
            self.cur = key
            for r in self.ops[op](self.I, s):
                out |= self.intern(r)
            self.edges += 1
        finally:
            self.inprog.pop(); self.I.stack = stack; self.I.frames = fr; self.seenk = sk; self.seenm = sm
        old = self.succ.get(key, set())
        if not out <= old:
            self.succ[key] = old | out
            self.changed = True
        return self.succ.get(key, set())
    def drop_consts(self, s):
        """constant globals are initialised again when needed"""
        g = self.I.P.globals
        for l in [l for l in s.mem if l[0][0] == 'g']:
            r = g.get(l[0][1])
            if r is not None and r.get('const'): del s.mem[l]
    def applies(self, fn): return False
    def merge(self, s, where=None):
        """states after a merge point: the continuation keeps the boundary abstraction of the heap, its relations to the live
        locals and temporaries of the active calls; continuations covered by one already explored are dropped"""
        ctx = self.I.context(s)
        heap = heap_roots(s, self.roots)
        self.live = heap
        e = s.cnt.get(('epoch', 0), 0) + 1
        for l in [l for l in s.mem if l[0] in heap and l[-1] in self.volatile]: del s.mem[l]
        drop_elems(s); self.drop_consts(s)
        out = []
        mode = self.policy(s)
        for st in self.concretise(s, mode):
            live = set()
            frame = {l: v for l, v in st.mem.items() if l[0] not in heap}
            for l, v in frame.items(): live |= syms_of(v)
            for f in ctx:
                for t, v in f[4]: live |= syms_of(v)
            h = st.copy(); h.mem = {l: v for l, v in st.mem.items() if l[0] in heap}
            _, z = self.zone(h, mode, e, sorted(live)[:16])
            for t, b in st.iv.items():
                if len(t) > 1 and all(x in live for x, _ in t): z.iv[t] = b
            z.ne = z.ne | frozenset((t, c) for t, c in st.ne if all(x in live for x, _ in t))
            for a, v in st.lit.items():
                if a[0] == 'null': z.lit[a] = v
            key = (where, ctx, frozenset(frame.items()), frozenset(z.mem.items()))
            l = self.seenm.setdefault(key, [None, 0])
            o = l[0]
            if o is None: l[0] = z.copy()
            else:
                l[1] += 1; o = o.copy()
                if covers(o, z) or not join_facts(o, z, widen=l[1] > 2): continue
                o.flags = o.flags | z.flags; l[0] = o
                tr = z.trace; z = o.copy(); z.trace = tr
            self.empties(z)
            z.mem.update(frame); z.cnt = dict(st.cnt); z.cnt[('epoch', 0)] = e
            out.append(z)
        return out
    def emission(self, s, nodes_of):
        """continuation states of s after foreign code ran; nodes_of(mids) gives the boundary states it may leave"""
        me = self.inprog[-1] if self.inprog else None
        mids = self.intern(s)
        res = set()
        for m in mids:
            for x in nodes_of(m): res.add(x)
            if me is not None: self.deps.setdefault(m, set()).add(me)
        if me is not None:
            for x in res: self.deps.setdefault(x, set()).add(me)
        heap = heap_roots(s, self.roots)
        frame = s.copy(); self.drop_consts(frame); s = frame
        frame.mem = {l: v for l, v in s.mem.items() if l[0] not in heap}
        ctx = self.I.context(frame)
        live = set()
        for l, v in frame.mem.items(): live |= syms_of(v)
        frame.iv = {t: b for t, b in s.iv.items() if all(x in live for x, _ in t)}
        frame.ne = frozenset((t, c) for t, c in s.ne if all(x in live for x, _ in t))
        frame.lit = {a: v for a, v in s.lit.items() if a[0] == 'null'}
        e = s.cnt.get(('epoch', 0), 0) + 1
        out = []
        fkey = (ctx, frozenset(frame.mem.items()), frozenset(frame.iv.items()), frame.ne, e)
        for x in sorted(res):
            if fkey + (x, self.version[x]) in self.seenk: continue
            self.seenk.add(fkey + (x, self.version[x]))
            t = self.epoch(x, e)
            t.cnt = dict(s.cnt); t.cnt[('epoch', 0)] = e
            t.mem.update(frame.mem)
            for k, b in frame.iv.items():
                if k not in t.iv: t.iv[k] = b
            t.ne = t.ne | frame.ne
            for a, v in frame.lit.items(): t.lit.setdefault(a, v)
            t.flags = t.flags | s.flags
            t.trace = (s.trace, ('resume', x))
            out.append((x, t))
        return out
    def epoch(self, x, e):
        k = (x, self.version[x], e)
        r = self._ep.get(k) if hasattr(self, '_ep') else None
        if not hasattr(self, '_ep'): self._ep = {}
        if r is None:
            t = self.instance(x)
            ren = {}
            for v in list(t.mem.values()) + list(t.lit) + list(t.mem):
                for q in subkeys(v):
                    if len(q) == 3 and q[0] == 'ck': ren[q] = ('ck@', e) + q[1:]
            if ren: self.rekey(t, ren)
            syms = set()
            for l, v in t.mem.items(): syms |= syms_of(v) | syms_of(l)
            for q in t.iv:
                for y, _ in q: syms.add(y) ; syms |= syms_of(SYM.keys[y])
            for q, _ in t.ne:
                for y, _ in q: syms.add(y)
            for a in t.lit: syms |= syms_of(a)
            m = {}
            for sid in syms:
                kk = SYM.keys[sid]
                if isinstance(kk, tuple) and kk[0] == 'cell': m[sid] = sym(('cell@', e) + kk[1:])
            if m: apply_subst(t, Subst(m))
            r = self._ep[k] = t
        return r.copy()
