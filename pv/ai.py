"""Path-partitioning abstract interpreter over the extracted IR."""
import re
from math import inf
from .dom import *
from .extract import AnalysisBroken

STRTYPES = ('QByteArray', 'Pillow::ByteArray', 'QString')
class Site(tuple):
    """(fn, block, index, line)"""
    def __new__(cls, fn, b, i, line): return tuple.__new__(cls, (fn.m, b, i))
    def __init__(self, fn, b, i, line): self.fn = fn; self.line = line

def strip(t):
    t = t.replace('const ', '').replace('volatile ', '').strip()
    if t.endswith('&&'): t = t[:-2].strip()
    elif t.endswith('&'): t = t[:-1].strip()
    t = re.sub(r'\s*\bconst$', '', t)
    return t

class Budget(Exception): pass

_size = {}; _names = {}
def size(v):
    if not isinstance(v, (tuple, frozenset)): return 1
    r = _size.get(v)
    if r is None: r = _size[v] = 1 + sum(size(x) for x in v)
    return r
def compact(key):
    """abbreviates a big identity key: a number for its structure plus the symbols it mentions"""
    if size(key) < 160: return key
    n = _names.get(key)
    if n is None: n = _names[key] = len(_names)
    return ('key', n, tuple(('i', 0, ((s, 1),)) for s in sorted(syms_of(key))))

class Interp:
    MAXDEPTH = 60
    def __init__(self, prog, monitor=None, max_steps=3000000, max_states=4000):
        self.P = prog; self.mon = monitor; self.steps = 0; self.max_steps = max_steps; self.max_states = max_states
        self._kind = {}; self.stack = []; self.frames = []; self._lv = {}; self._rpo = {}; self.tables = {}
        self.stats = {'calls': 0, 'inlined': set(), 'opaque': {}, 'paths': 0, 'branches': 0, 'joins': 0}
        from . import models
        self.models = models.MODELS
        self.overrides = {}       # per-check: qualified name -> model
        self.noinline = set()
        self.known_globals = {}
        self.narrow = 'assume'

    # ---- types -----------------------------------------------------------
    def kind(self, t):
        k = self._kind.get(t)
        if k is None:
            s = strip(t)
            if t.rstrip().endswith('&'): k = 'ref'
            elif s == 'void': k = 'void'
            elif s.endswith('*') or '(*)' in s or s == 'std::nullptr_t': k = 'ptr'
            elif s == 'bool': k = 'bool'
            elif s in ('float', 'double', 'long double'): k = 'float'
            elif s in RANGES: k = 'int'
            elif s in self.P.enums: k = 'int'
            elif s in STRTYPES: k = 'str'
            elif re.match(r'(Qt|Q\w+)::[A-Z]\w+$', s) and s not in self.P.records: k = 'enumq'
            else: k = 'rec'
            self._kind[t] = k
        return k
    def rng(self, t):
        s = strip(t)
        return RANGES.get(s) or ((0, 2**31 - 1) if s in self.P.enums else I32)
    def fresh(self, t, key):
        k = self.kind(t)
        if k in ('int', 'enumq'):
            lo, hi = self.rng(t)
            if strip(t) in self.P.enums:
                vals = self.P.enums[strip(t)]['vals'].values()
                if vals: lo, hi = min(vals), max(vals)
                lo, hi = min(lo, 0), max(hi, 0)
            return sym(key, lo, hi)
        if k == 'bool': return ('b', ('at', ('bool', key), True))
        if k == 'ptr': return ('p', (('o', key),))
        if k == 'ref': return ('p', (('r', key),))
        if k == 'str': return opaque_str(key)
        if k == 'void': return ('void',)
        return ('agg', key, ())
    # ---- memory ----------------------------------------------------------
    def aggkey(self, st, loc):
        """(identity key, known subs) of the composite at loc"""
        for n in range(len(loc), 0, -1):
            v = st.mem.get(loc[:n])
            if v is not None and v[0] == 'agg':
                return (v[1], loc[n:], v[2])
            if v is not None and v[0] == 'undef' :
                return (None, loc[n:], ())
        return (loc[0], loc[1:], ())
    def keyof(self, st, loc):
        k, rest, subs = self.aggkey(st, loc)
        if k is None: return ('ctor0', loc)
        return k if not rest else ('fld', k) + tuple(rest)
    def load(self, st, loc, t, site=None):
        v = st.mem.get(loc)
        kd = self.kind(t)
        if v is not None and v[0] == 'agg' and kd in ('int', 'bool', 'ptr', 'str', 'enumq'):
            if v[1] and v[1][0] == 'zero': return self.zeroof(kd)
            return self.fresh(t, ('val', v[1]))
        if kd == 'bool' and v is not None and isconst(v): return ('b', v[1] != 0)
        if kd == 'rec' or kd == 'float':
            pre = len(loc)
            subs = [(l[pre:], x) for l, x in st.mem.items() if len(l) > pre and l[:pre] == loc]
            if v is not None and not subs: return v
            if v is not None and v[0] == 'undef': return ('agg', ('undefagg', loc), tuple(sorted(subs, key=repr)))
            if v is None or v[0] == 'agg':
                if v is not None: key = v[1]; subs = dict(v[2]) | dict(subs); subs = list(subs.items())
                else:
                    k, rest, s0 = self.aggkey(st, loc)
                    if k is None: key = ('undefagg', loc); 
                    else:
                        key = k if not rest else ('fld', k) + tuple(rest)
                        s0 = {l[len(rest):]: x for l, x in s0 if l[:len(rest)] == tuple(rest) and len(l) > len(rest)}
                        s0.update(dict(subs)); subs = list(s0.items())
                        for l, x in self.aggkey(st, loc)[2]:
                            if l == tuple(rest): return x
                    if k is None and not subs:
                        if kd == 'rec' and self.selfinit(t): return ('agg', ('emptyc', strip(t)), ())
                        return ('undef',)
                return ('agg', key, tuple(sorted(subs, key=repr)))
            return v
        if v is not None: return v
        if len(loc) >= 2 and loc[-1] == 'size' and loc[-2] == '$d':
            return slen(self.getstr(st, loc[:-2]))
        if len(loc) >= 2 and loc[-2] == '$d':
            return self.fresh(t, ('fld',) + loc)
        k, rest, subs = self.aggkey(st, loc)
        if k is None:
            if kd == 'str': return EMPTY
            return ('undef',)
        for l, x in subs:
            if l == tuple(rest): return x
        if k[0] == 'zero': return self.zeroof(kd)
        if loc[0][0] == 'g':
            g = self.gconst(loc)
            if g is not None: return g
        return self.fresh(t, ('fld', k) + tuple(rest))
    def zeroof(self, kd):
        return {'int': ZERO, 'enumq': ZERO, 'bool': ('b', False), 'ptr': ('n',), 'str': EMPTY}.get(kd, ('agg', ('zero',), ()))
    def selfinit(self, t):
        """class types whose default construction leaves nothing indeterminate"""
        r = self.P.records.get(strip(t))
        return r is None or bool(r['bases']) or not r.get('fields')
    def gconst(self, loc):
        g = self.P.globals.get(loc[0][1])
        if not g or 'init' not in g: return None
        if not g.get('const') and not self.known_globals.get(loc[0][1]): return None
        x = g['init']
        for c in loc[1:]:
            if isinstance(c, tuple) and c[0] == '[]' and x.get('k') == 'list' and isconst(c[1]):
                i = c[1][1]
                if 0 <= i < len(x['v']): x = x['v'][i]
                else: return None
            elif isinstance(c, tuple) and c[0] == '[]' and x.get('k') == 'str' and isconst(c[1]):
                b = x['v'].encode() + b'\0'; i = c[1][1]
                return con(b[i]) if 0 <= i < len(b) else None
            else: return None
        if x.get('k') == 'int': return con(x['v'])
        if x.get('k') == 'str': return ('cl', x['v'].encode(), ZERO)
        if x.get('k') == 'null': return ('n',)
        return None
    def store(self, st, loc, v, t=None):
        if len(loc) >= 2 and loc[-1] == 'size' and loc[-2] == '$d':
            from . import models
            models.set_size(self, st, loc[:-2], v); return
        if v[0] == 'i' and t == 'bool' and not v[2]: v = ('b', v[1] != 0)
        isrec = v[0] in ('agg', 'undef') or (t is not None and self.kind(t) == 'rec')
        if isrec:
            pre = len(loc)
            for l in [l for l in st.mem if len(l) > pre and l[:pre] == loc]: del st.mem[l]
            if v[0] == 'agg' and v[2]:
                for p, x in v[2]: st.mem[loc + tuple(p)] = x
                v = ('agg', v[1], ())
        st.mem[loc] = v
    def havoc(self, st, loc, key):
        pre = len(loc)
        for l in [l for l in st.mem if len(l) >= pre and l[:pre] == loc]: del st.mem[l]
        st.mem[loc] = ('agg', key, ())
    def getstr(self, st, loc):
        v = st.mem.get(loc)
        if v is not None and v[0] == 's': return v
        if v is not None and v[0] == 'agg': return opaque_str(('val', v[1]))
        if v is None:
            k, rest, subs = self.aggkey(st, loc)
            if k is None: return EMPTY
            for l, x in subs:
                if l == tuple(rest) and x[0] == 's': return x
            return opaque_str(('fld', k) + tuple(rest))
        return EMPTY
    # ---- conditions ------------------------------------------------------
    def maybe_null(self, loc): return len(loc) == 1 and isinstance(loc[0], tuple) and loc[0][0] == 'o'
    def cond(self, v):
        k = v[0]
        if k == 'b': return v[1]
        if k == 'i': return cne(v, ZERO)
        if k == 'n': return False
        if k == 'p': return ('at', ('null', v[1]), False) if self.maybe_null(v[1]) else True
        if k in ('c', 'cl', 'cs', 'f'): return True
        if k == 'undef': return ('at', ('undefcond',), True)
        return ('at', ('truth', v), True)
    def b(self, c):
        return ('b', c)
    def split(self, st, c, site=None):
        """[(state, truth)] for the feasible outcomes of condition c"""
        d = st.decide(c)
        if d is not None: return [(st, d)]
        self.stats['branches'] += 1
        out = []
        s2 = st.copy()
        if st.assume(c): out.append((st, True))
        if s2.assume(neg(c)): out.append((s2, False))
        return out
    # ---- execution -------------------------------------------------------
    merger = None
    def call(self, m, st, this, args, site=None, argtypes=None, dyn=None):
        """calls function m (mangled); returns [(state, value)]"""
        ci = self.P.callees.get(m)
        if ci is None: return [(st, ('agg', ('nocallee', m), ()))]
        self.stats['calls'] += 1
        q = ci['n']
        mod = self.overrides.get(q)
        if mod is None: mod = self.overrides.get(m)
        if mod is None and 'cls' in ci: mod = self.overrides.get('*::' + ci['name'])
        if mod is not None:
            r = mod(self, st, ci, this, args, site, m)
            if r is not None: return r
        if ci.get('qt') == 'signal':
            if self.mon is not None:
                r = self.mon.on_signal(self, st, ci, this, args, site)
                if r is not None: return r
            return [(st, ('void',))]
        mod = self.models.get(q)
        if mod is None and q.startswith('QPointer::operator ') and q.endswith('*'): mod = self.models['QPointer::data']
        if mod is not None:
            r = mod(self, st, ci, this, args, site, m)
            if r is not None: return r
        fn = self.P.fns.get(m)
        if fn is not None and q not in self.noinline:
            if len(self.stack) >= self.MAXDEPTH or self.stack.count(m) >= 3:
                st.flag('recursion:' + q)
                return [(st, self.fresh(ci['ret'], st.fresh('rec', m)))]
            self.stack.append(m)
            try:
                if fn.ret == 'const char *' and args and not fn.info.get('cls'):
                    b4 = dict(st.mem)
                    return self.tabulate(m, b4, args, self.run(fn, st, this, args))
                if self.merger is None or fn.ret != 'void' or not self.merger.applies(fn): return self.run(fn, st, this, args)
                outs = []
                for s in ([st] if fn.params else self.merger.merge(st, ('enter', m))): outs += self.run(fn, s, this, args)
            finally:
                self.stack.pop()
            if len(outs) < 2: return outs
            return [(t, ('void',)) for s, _ in outs for t in self.merger.merge(s, ('exit', m))]
        if ci.get('implicit') and (ci.get('copy') or ci.get('op') == '=') and this is not None and args and args[0][0] == 'p':
            v = self.load(st, args[0][1], ci['cls']); self.store(st, this[1], v, ci['cls'])
            return [(st, this)]
        return self.opaque(st, ci, this, args, site, m)
    def tabulate(self, m, before, args, res):
        """a function that selects one of many literals and changes nothing else: the selection becomes one unknown literal"""
        lits = set()
        for s, v in res:
            if s.mem != before: return res
            if v[0] == 'cl' and isconst(v[2]): lits.add(v[1][v[2][1]:])
            elif v[0] != 'n': return res
        if len(lits) < 5: return res
        key = ('tbl', m, tuple(args))
        self.tables.setdefault(m, set()).update(lits)
        a = [(s, v) for s, v in res if v[0] == 'cl']; n = [(s, v) for s, v in res if v[0] == 'n']
        from .join import join_facts
        out = []
        for g, v in ((a, ('cs', opaque_str(key), ZERO)), (n, ('n',))):
            if not g: continue
            s0 = g[0][0]
            for s, _ in g[1:]: join_facts(s0, s)
            out.append((s0, v))
        return out
    PURE_RECV = ('rec', 'str')
    def opaque(self, st, ci, this, args, site, m):
        """unknown external function: result unknown; mutable reference/pointer arguments become unknown"""
        q = ci['n']
        self.stats['opaque'][q] = self.stats['opaque'].get(q, 0) + 1
        def val(a, pt=None):
            if a[0] == 'p':
                if self.maybe_null(a[1]) : return a
                v = st.mem.get(a[1])
                if v is not None and v[0] != 'agg': return v
                if any(len(l) > len(a[1]) and l[:len(a[1])] == a[1] for l in st.mem): return self.load(st, a[1], 'struct')
                return ('agg', self.keyof(st, a[1]), ())
            return a
        pure = ci.get('const') or ci.get('static') or 'cls' not in ci
        for i, pt in enumerate(ci['params']):
            if i >= len(args): break
            p = pt.strip()
            if args[i][0] == 'p' and ((p.endswith('&') and not p.startswith('const ')) or (p.endswith('*') and not p.startswith('const ') and not self.maybe_null(args[i][1]) and not self.is_object(args[i][1]))):
                self.havoc(st, args[i][1], st.fresh('out', (q, i) + (tuple(site) if site else ())))
                pure = False
        if this is not None and this[0] == 'p' and not ci.get('const') and not ci.get('static') and not ci.get('ctor'):
            if not self.is_object(this[1]):
                self.havoc(st, this[1], st.fresh('mut', (q,) + (tuple(site) if site else ())))
            pure = False
        if pure and this is not None and this[0] == 'p' and self.is_object(this[1]): pure = False
        if pure: key = compact(('ext', q, tuple(val(a) for a in args), val(this) if this is not None else None))
        else: key = st.fresh('ext', (q,) + (tuple(site) if site else ()))
        r = ci['ret']
        if self.kind(r) == 'ref':
            if this is not None and strip(r) == ci.get('cls') and not ci.get('const'): return [(st, this)]
            return [(st, ('p', (('r', key),)))]
        return [(st, self.fresh(r, key))]
    def is_object(self, loc):
        """heap objects (QObjects, opaque pointees) as opposed to value locations"""
        return len(loc) == 1 and isinstance(loc[0], tuple) and loc[0][0] in ('o', 'new', 'this')
    def run(self, fn, st, this, args):
        depth = len(self.stack)
        self.stats['inlined'].add(fn.m)
        for i, pv in enumerate(fn.ps):
            if i < len(args):
                t = fn.vars[pv]['type']
                v = args[i]
                self.store(st, (('v', depth, pv),), v, None if fn.vars[pv]['ref'] else t)
        from .join import arrive, merge_states
        work = []; results = []; seen = {}; org0 = st.org
        cleanup = self.cleanup
        heads, order, joins, nest, bodies = self.shape(fn)
        buckets = {(0, 0): [(st, {})]}
        def live(s): return all(h.ver.get(g) == v for h, g, v in s.org[len(org0):])
        def rank(k):
            b, i = k
            return (-nest.get(b, 0), i == 0 and b in heads, i == 0, order.get(b, 0), -i)
        # innermost loops first; a loop head waits for every path still inside its loop; what left a loop waits for the loop to settle
        while buckets:
            k = min(buckets, key=rank); b, i = k
            todo = buckets.pop(k)
            if seen: todo = [(s, T) for s, T in todo if live(s)]
            if i == 0 and b in heads:
                last = {}
                lv = self.live_at(fn, b)
                for s, T in todo:
                    self.prune(s, T, lv, depth)
                    org = s.org
                    r = arrive(self, fn, b, s, T, depth, seen)
                    h = seen[b]; h.b = b; inner = bodies[b]
                    org = org[:len(org0)] + tuple(x for x in org[len(org0):] if x[0].b not in inner)
                    old = h.org.get(h.last)
                    if old is not None:
                        alive = all(x.ver.get(g) == v for x, g, v in old[len(org0):])
                        if alive: org = tuple(x for x in old if x in org)
                        if r is None and (not alive or org != old):
                            # what had gone on from here is superseded, or would be dropped with a path it no longer depends on: go on again
                            d = h.D[h.last]; r = d[0].copy(), dict(d[1]); r[0].trace = s.trace; h.ver[h.last] += 1
                    h.org[h.last] = org
                    if r is not None:
                        r[0].org = org + ((h, h.last, h.ver[h.last]),)
                        last[h.last] = r
                todo = [(s, T) for s, T in last.values() if live(s)]
            elif i == 0 and len(todo) > 1:
                lv = self.live_at(fn, b)
                for s, T in todo: self.prune(s, T, lv, depth)
                todo = self.same(todo)
                if self.partitions and len(todo) > self.partitions: todo = merge_states(self, todo, (fn.m, b))
            for s, T in todo:
                r = self.block(fn, b, i, s, T, this, depth, work, heads, joins)
                if r is not None: results.append(r)
                for b2, i2, s2, T2 in work: buckets.setdefault((b2, i2), []).append((s2, T2))
                del work[:]
            if len(results) > self.max_states or len(todo) > self.max_states: raise Budget('%s: more than %d states' % (fn.n, self.max_states))
        if seen: results = [(s, v) for s, v in results if live(s)]
        for s, v in results: s.org = org0
        if self.partitions and len(results) > self.partitions:
            from .join import merge_states
            for s, v in results: cleanup(s, depth, v)
            results = [(s, T[0]) for s, T in merge_states(self, [(s, {0: v}) for s, v in results], (fn.m, 'exit'))]
        out = []
        for s, v in results:
            # a returned reference to a local composite is materialised by the caller's load
            cleanup(s, depth, v)
            out.append((s, v))
        self.stats['paths'] += len(out)
        if len(out) > 1: out = self.dedupe(out)
        return out
    partitions = 0; relate = False
    def same(self, items):
        """drops repeated states"""
        out = {}
        for s, T in items:
            k = (frozenset(s.mem.items()), frozenset((t, v if v.__hash__ else id(v)) for t, v in T.items()), frozenset(s.iv.items()), s.ne, frozenset(s.lit.items()), s.flags, s.org)
            out.setdefault(k, (s, T))
        return list(out.values())
    def shape(self, fn):
        """(loop heads, reverse postorder numbers, blocks with several predecessors, loop nesting depths)"""
        r = self._rpo.get(fn.m)
        if r is None:
            heads = self.P.heads(fn)
            seen = set(); post = []
            stack = [(0, iter(self.P.succ(fn, 0)))]; seen.add(0)
            while stack:
                b, it = stack[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x); stack.append((x, iter(self.P.succ(fn, x)))); break
                else: post.append(b); stack.pop()
            rpo = {b: i for i, b in enumerate(reversed(post))}
            preds = {}
            for b in rpo:
                for x in self.P.succ(fn, b): preds.setdefault(x, set()).add(b)
            joins = {b for b, p in preds.items() if len(p) > 1} | set(heads)
            nest = {}; bodies = {}
            for h in heads:
                body = {h}; todo = [p for p in preds.get(h, ()) if rpo[p] >= rpo[h]]
                while todo:
                    x = todo.pop()
                    if x in body: continue
                    body.add(x); todo += [p for p in preds.get(x, ()) if rpo[p] > rpo[h]]
                bodies[h] = body
                for x in body: nest[x] = nest.get(x, 0) + 1
            r = self._rpo[fn.m] = (heads, rpo, joins, nest, bodies)
        return r
    def live_at(self, fn, b): return self.live_after(fn, b, -1)
    def prune(self, s, T, lv, depth):
        """drops what the rest of the function no longer mentions"""
        from .join import roots_in, drop_temps
        vs, ts = lv
        for t in list(T):
            if t not in ts: del T[t]
        used = set()
        for v in T.values(): roots_in(v, used)
        keep = set(used)
        loc = [l for l in s.mem if l[0][0] in ('v', 't') and l[0][1] == depth]
        for l in loc:
            if l[0][0] == 'v' and l[0][2] in vs: keep.add(l[0])
        for l, v in s.mem.items():
            if l[0][0] not in ('v', 't') or l[0][1] != depth: roots_in(v, keep)
        ch = True
        while ch:
            ch = False
            for l in loc:
                if l[0] in keep:
                    o = set(); roots_in(s.mem[l], o)
                    if not o <= keep: keep |= o; ch = True
        for l in loc:
            if l[0] not in keep: del s.mem[l]
    def live_after(self, fn, b, i):
        """(variables, temporaries) that may be used after instruction i of block b"""
        k = (fn.m, b, i)
        r = self._lv.get(k)
        if r is not None: return r
        def uses(I):
            vs, ts = set(), set()
            if I['o'] == 'var': vs.add(I['v'])
            for key, x in I.items():
                if key in ('d', 'l', 'o', 'n', 'cls') or (I['o'] in ('br', 'jmp', 'switch') and key in ('t', 'f', 'cases', 'def')): continue
                if isinstance(x, bool): continue
                if isinstance(x, int): ts.add(x)
                elif isinstance(x, list): ts.update(y for y in x if isinstance(y, int))
            return vs, ts
        def step(block, start, live):
            for I in reversed(block[start:]):
                if I['o'] == 'decl': live.discard(('v', I['v'])); continue
                if 'd' in I: live.discard(('t', I['d']))
                a, c = uses(I)
                live |= {('v', x) for x in a} | {('t', x) for x in c}
            return live
        lin = self._lv.get(fn.m)
        if lin is None:
            lin = {x: set() for x in self.shape(fn)[1]}; ch = True
            todo = sorted(lin, key=lambda x: -self.shape(fn)[1][x])
            while ch:
                ch = False
                for x in todo:
                    live = set()
                    for y in self.P.succ(fn, x): live |= lin[y]
                    live = step(fn.blocks[x], 0, live)
                    if live != lin[x]: lin[x] = live; ch = True
            self._lv[fn.m] = lin
        live = set()
        for y in self.P.succ(fn, b): live |= lin[y]
        live = step(fn.blocks[b], i + 1, live)
        r = self._lv[k] = (frozenset(x for c, x in live if c == 'v'), frozenset(x for c, x in live if c == 't'))
        return r
    def context(self, s):
        """drops the dead locals of the active frames from s and returns a key of everything the suspended callers still use"""
        from .join import roots_in
        key = []; used = set(); depths = {}
        for fn, b, i, T, d in self.frames:
            vs, ts = self.live_after(fn, b, i)
            lt = tuple(sorted(((t, T[t]) for t in ts if t in T), key=lambda x: x[0]))
            key.append((fn.m, b, i, d, lt)); depths[d] = vs
            for t, v in lt: roots_in(v, used)
            if isinstance(T.get(fn.blocks[b][i].get('this')), tuple): roots_in(T[fn.blocks[b][i]['this']], used)
        # variables named by a live temporary stay; everything else only when the code mentions it again
        loc = [l for l in s.mem if l[0][0] in ('v', 't') and l[0][1] in depths]
        keep = set(used)
        for l in loc:
            if l[0][0] == 'v' and l[0][2] in depths[l[0][1]]: keep.add(l[0])
        ch = True
        while ch:
            ch = False
            for l in loc:
                if l[0] in keep:
                    o = set(); roots_in(s.mem[l], o)
                    if not o <= keep: keep |= o; ch = True
        for l in loc:
            if l[0] not in keep: del s.mem[l]
        return tuple(key)
    def cleanup(self, s, depth, v):
        keep = None
        if v is not None and v[0] in ('p', 'c'):
            r = v[1][0]
            if isinstance(r, tuple) and r[0] in ('v', 't') and r[1] >= depth: keep = r
        dead = [l for l in s.mem if isinstance(l[0], tuple) and l[0][0] in ('v', 't') and l[0][1] >= depth and l[0] != keep]
        for l in dead: del s.mem[l]
    def dedupe(self, out):
        if len(out) < 2: return out
        res = {}
        for s, v in out:
            k = self.statekey(s, v)
            if k not in res: res[k] = (s, v)
        return list(res.values())
    def statekey(self, s, v):
        self.gc(s, v)
        return (frozenset(s.mem.items()), frozenset(s.iv.items()), s.ne, frozenset(s.lit.items()), v, s.flags)
    def gc(self, s, extra=None):
        """drops facts about symbols that no longer occur anywhere"""
        return
    def tmp(self, s, depth):
        n = s.cnt.get(('tmp', depth), 0); s.cnt[('tmp', depth)] = n + 1
        return (('t', depth, n),)
    def block(self, fn, b, i, s, T, this, depth, work, heads, joins):
        P = self.P; first = True
        while True:
            if not first and b in joins:
                work.append((b, 0, s, T)); return None
            first = False
            ins = fn.blocks[b]
            n = len(ins)
            while i < n:
                I = ins[i]; o = I['o']
                self.steps += 1
                if self.steps > self.max_steps: raise Budget('step budget exhausted in %s' % fn.n)
                if o == 'var':
                    T[I['d']] = ('p', (('v', depth, I['v']),))
                elif o == 'load':
                    p = T[I['p']]
                    v = self.deref_load(s, p, I['t'], Site(fn, b, i, I['l']))
                    if v is None: return None
                    T[I['d']] = v
                elif o == 'this':
                    T[I['d']] = this
                elif o == 'const':
                    k = I['k']
                    if k == 'int': T[I['d']] = con(int(I['v']))
                    elif k == 'null': T[I['d']] = ('n',)
                    elif k == 'str': T[I['d']] = ('cl', bytes.fromhex(I['hex']) if 'hex' in I else I['v'].encode(), ZERO)
                    elif k == 'void': T[I['d']] = ('void',)
                    else: T[I['d']] = ('agg', ('float', I.get('v')), ())
                elif o == 'field':
                    T[I['d']] = self.field(s, T[I['b']], I, Site(fn, b, i, I['l']))
                    if T[I['d']] is None: return None
                elif o == 'store':
                    p = T[I['p']]; v = T[I['v']]
                    if not self.deref_store(s, p, v, I['t'], Site(fn, b, i, I['l'])): return None
                elif o in ('call', 'construct', 'basector'):
                    site = Site(fn, b, i, I['l'])
                    self.frames.append((fn, b, i, T, depth))
                    res = self.docall(fn, I, s, T, this, site)
                    self.frames.pop()
                    if not res: return None
                    d = I.get('d')
                    for s2, v2 in res[1:]:
                        T2 = dict(T); T2[d] = v2
                        work.append((b, i + 1, s2, T2))
                    s, v = res[0]
                    T[d] = v
                    if len(res) > 1 and b in heads: pass
                elif o == 'cast':
                    r = self.cast(s, T[I['a']], I, Site(fn, b, i, I['l']))
                    T[I['d']] = r
                elif o == 'bin':
                    T[I['d']] = self.binop(s, I, T[I['a']], T[I['b']], Site(fn, b, i, I['l']))
                elif o == 'un':
                    T[I['d']] = self.unop(s, I, T[I['a']])
                elif o == 'decay':
                    p = T[I['p']]
                    T[I['d']] = ('p', p[1] + (('[]', ZERO),)) if p[0] == 'p' else p
                elif o == 'deref':
                    p = T[I['p']]
                    T[I['d']] = p
                elif o == 'index':
                    T[I['d']] = self.padd(s, T[I['b']], T[I['i']], 1, deref=True)
                elif o == 'temp':
                    v = T[I['v']]
                    if v[0] == 'p' and v[1][0][0] == 't' and False: T[I['d']] = v
                    else:
                        l = self.tmp(s, depth); self.store(s, l, v, I['t']); T[I['d']] = ('p', l)
                elif o == 'decl':
                    l = (('v', depth, I['v']),)
                    for x in [x for x in s.mem if x[0] == l[0]]: del s.mem[x]
                    t = fn.vars[I['v']]['type']
                    if self.kind(t) in ('int', 'bool', 'ptr', 'enumq') and not fn.vars[I['v']]['ref']: s.mem[l] = ('undef',)
                    else: s.mem[l] = ('agg', ('local', fn.m, I['v'], s.cnt.get(('dcl', fn.m, I['v']), 0)), ())
                    s.cnt[('dcl', fn.m, I['v'])] = s.cnt.get(('dcl', fn.m, I['v']), 0) + 1
                    if self.kind(t) == 'str': s.mem[l] = EMPTY
                elif o == 'global':
                    T[I['d']] = self.globalref(s, I, fn)
                elif o == 'new':
                    v = self.new(s, I, T, Site(fn, b, i, I['l']))
                    if v is None: return None
                    res = v
                    for s2, v2 in res[1:]:
                        T2 = dict(T); T2[I['d']] = v2
                        work.append((b, i + 1, s2, T2))
                    s, T[I['d']] = res[0]
                elif o == 'delete':
                    p = T[I['p']]
                    res = self.delete(s, p, I, Site(fn, b, i, I['l']))
                    for s2 in res[1:]: work.append((b, i + 1, s2, dict(T)))
                    if not res: return None
                    s = res[0]
                elif o == 'br':
                    c = self.cond(T[I['c']])
                    if T[I['c']][0] == 'undef' and self.mon is not None: self.mon.on_undef(self, s, Site(fn, b, i, I['l']))
                    sp = self.split(s, c)
                    if not sp: return None
                    for s2, tv in sp[1:]:
                        work.append((I['t'] if tv else I['f'], 0, s2, dict(T)))
                    s, tv = sp[0]
                    b = I['t'] if tv else I['f']; i = 0
                    break
                elif o == 'jmp':
                    b = I['t']; i = 0
                    break
                elif o == 'ret':
                    v = T[I['v']] if 'v' in I else ('void',)
                    return (s, v)
                elif o == 'switch':
                    v = T[I['c']]
                    nxt = self.switch(s, v, I)
                    if not nxt: return None
                    for s2, tb in nxt[1:]: work.append((tb, 0, s2, dict(T)))
                    s, b = nxt[0]; i = 0
                    break
                elif o == 'unreachable':
                    return None
                elif o == 'func': T[I['d']] = ('f', I['f'])
                elif o == 'lambda': T[I['d']] = ('agg', ('lambda', I['f'], tuple(T[c] for c in I['caps'])), ())
                elif o == 'initlist':
                    T[I['d']] = ('agg', ('init', fn.m, b, i) + tuple(T[x] for x in I['v']), tuple(((nm,), T[x]) for nm, x in zip(I['names'], I['v'])))
                elif o == 'stdinit': T[I['d']] = T[I['a']]
                elif o == 'zero': T[I['d']] = ('agg', ('zero', I['t']), ())
                elif o == 'unknown': T[I['d']] = self.fresh(I['t'], s.fresh('unk', (fn.m, b, i)))
                elif o == 'unknownstmt': s.flag('unmodelled statement in ' + fn.n)
                else: raise AnalysisBroken('unknown IR op ' + o)
                i += 1
            else:
                return None
    # ---- pieces ----------------------------------------------------------
    def globalref(self, s, I, fn):
        n = I['n']; loc = (('g', n),)
        g = self.P.globals.get(n)
        if g is not None and loc + ('$init',) not in s.mem:
            x = g.get('init')
            if x and x.get('k') == 'construct':
                s.mem[loc + ('$init',)] = ONE
                cls = x['cls']
                ctor = None
                for m, f in self.P.fns.items():
                    if f.cls == cls and f.info.get('ctor') and len(f.params) == len(x['a']) and not f.info.get('copy'):
                        if x['a'] and x['a'][0].get('k') == 'str':
                            if f.params[0].endswith('[%d]' % (len(x['a'][0]['v'].encode()) + 1)): ctor = f
                            elif not f.params[0].endswith(']') : ctor = ctor or f
                        else: ctor = ctor or f
                if ctor is not None:
                    args = []
                    for a in x['a']:
                        if a['k'] == 'str': args.append(('cl', a['v'].encode(), ZERO))
                        elif a['k'] == 'int': args.append(con(a['v']))
                        else: args.append(('agg', ('ginit', n), ()))
                    self.stack.append(ctor.m)
                    try: r = self.run(ctor, s, ('p', loc), args)
                    finally: self.stack.pop()
                elif cls in STRTYPES and x['a'] and x['a'][0].get('k') == 'str':
                    s.mem[loc] = lit(x['a'][0]['v'].encode())
        return ('p', loc)
    def null_event(self, s, site, what):
        if self.mon is not None: self.mon.on_null(self, s, site, what)
    def deref_load(self, s, p, t, site):
        k = p[0]
        if k == 'p':
            v = self.load(s, p[1], t, site)
            if v[0] == 'undef' and self.mon is not None:
                r = self.mon.on_undef(self, s, site, p[1])
            return v
        if k == 'n':
            self.null_event(s, site, 'load through null pointer'); return None
        if k == 'undef':
            if self.mon is not None: self.mon.on_undef(self, s, site)
            return self.fresh(t, s.fresh('undefld', tuple(site)))
        if k in ('c', 'cl', 'cs'):
            return self.charload(s, p, site)
        if k in ('s', 'i', 'b', 'agg', 'f'): return p     # already a value (prvalue materialisation)
        return self.fresh(t, s.fresh('ld', tuple(site)))
    def charload(self, s, p, site):
        if p[0] == 'cl':
            if isconst(p[2]):
                b = p[1] + b'\0'; i = p[2][1]
                if 0 <= i < len(b): 
                    c = b[i]; return con(c if c < 128 else c - 256)
            return sym(('chl', p[1], p[2]), -128, 127)
        if p[0] == 'cs':
            return self.strchar(s, p[1], p[2])
        if self.mon is not None: self.mon.on_charload(self, s, p, site)
        v = self.getstr(s, p[1])
        return self.strchar(s, v, p[3], p[1])
    def strchar(self, s, v, off, loc=None):
        b = str_lit(v)
        if b is not None and isconst(off):
            i = off[1]
            if i == len(b): return ZERO
            if 0 <= i < len(b):
                c = b[i]; return con(c if c < 128 else c - 256)
        if isconst(off):
            i = off[1]
            for g in v[1]:
                if g[0] == 'L':
                    if i < len(g[1]): c = g[1][i]; return con(c if c < 128 else c - 256)
                    i -= len(g[1])
                elif g[0] == 'C':
                    if i == 0: return g[1]
                    i -= 1
                else: break
        return sym(('ch', v, off), -128, 127)
    def deref_store(self, s, p, v, t, site):
        k = p[0]
        if k == 'p':
            self.store(s, p[1], v, t); return True
        if k == 'n':
            self.null_event(s, site, 'store through null pointer'); return False
        if k in ('c', 'cl', 'cs'):
            from . import models
            models.poke(self, s, p, v, site)
            return True
        if k == 'undef':
            if self.mon is not None: self.mon.on_undef(self, s, site)
        return True
    def field(self, s, b, I, site):
        if b[0] == 'p': return ('p', b[1] + (I['n'],))
        if b[0] == 'n':
            self.null_event(s, site, 'member access through null pointer'); return None
        if b[0] == 'undef' and self.mon is not None: self.mon.on_undef(self, s, site)
        l = (('o', ('fldof', b)),)
        return ('p', l + (I['n'],))
    def docall(self, fn, I, s, T, this, site):
        P = self.P
        args = [T[a] for a in I['a']]
        o = I['o']
        if 'f' not in I:
            fp = T.get(I.get('fp', -1))
            if fp is not None and fp[0] == 'f': return self.call(fp[1], s, None, args, site)
            if self.mon is not None:
                r = self.mon.on_indirect(self, s, fp, args, site, I)
                if r is not None: return r
            return [(s, self.fresh(I.get('t', 'int'), s.fresh('ind', tuple(site))))]
        m = I['f']
        ci = P.callees[m]
        if o == 'construct':
            # by-value object under construction lives in a temporary, then is read back as a value
            return self.construct(s, m, ci, args, I, site, T)
        if o == 'basector':
            if m in P.fns or ci['proj']:
                return self.call(m, s, this, args, site)
            return [(s, ('void',))]
        th = T[I['this']] if 'this' in I else None
        if th is not None:
            if th[0] == 'n':
                self.null_event(s, site, 'call of %s through null pointer' % ci['n']); return []
            if th[0] == 'undef':
                if self.mon is not None: self.mon.on_undef(self, s, site)
                return []
            if th[0] not in ('p',):
                l = self.tmp(s, len(self.stack)); self.store(s, l, th); th = ('p', l)
            if self.mon is not None and self.maybe_null(th[1]): self.mon.on_deref(self, s, th, site)
        if I.get('virt') and th is not None:
            cls = self.dynclass(s, th)
            if cls is not None: m = P.resolve_virtual(m, cls)
            elif ci['proj'] and self.mon is not None:
                r = self.mon.on_virtual(self, s, m, ci, th, args, site)
                if r is not None: return r
        if self.mon is not None:
            self.mon.on_call(self, s, ci, th, args, site, I)
        return self.call(m, s, th, args, site, I.get('at'))
    def dynclass(self, s, th):
        v = s.mem.get(th[1] + ('$class',)) if th[0] == 'p' else None
        return v[1] if v is not None and v[0] == 'cls' else None
    def construct(self, s, m, ci, args, I, site, T):
        cls = I['cls']
        q = ci['n']
        into = None
        if 'into' in I: into = T[I['into']][1]
        r = self.construct1(s, m, ci, args, I, site, cls, q, into)
        if into is not None and r is not None:
            for s2, v in r:
                if v is not None and v[0] != 'void':
                    dc = s2.mem.get(into + ('$class',))
                    self.store(s2, into, v, cls)
                    if dc is not None: s2.mem[into + ('$class',)] = dc
            r = [(s2, ('p', into)) for s2, v in r]
        return r
    def construct1(self, s, m, ci, args, I, site, cls, q, into):
        mod = self.overrides.get(q) or self.models.get(q)
        if mod is not None:
            r = mod(self, s, ci, ('p', into) if into else None, args, site, m)
            if r is not None: return r
        if ci.get('copy') and args and (ci.get('implicit') or m not in self.P.fns):
            a = args[0]
            if a[0] == 'p':
                return [(s, self.load(s, a[1], cls))]
            return [(s, a)]
        if m in self.P.fns:
            l = into or self.tmp(s, len(self.stack))
            if not (into and s.mem.get(l + ('$class',), (0, 0))[1] == cls and l[0][0] in ('new', 'this')):
                for x in [x for x in s.mem if len(x) > len(l) and x[:len(l)] == l]: del s.mem[x]
            s.mem[l] = ('undef',) if not I.get('zero') else ('agg', ('zero', cls), ())
            s.mem[l + ('$class',)] = ('cls', cls)
            self.stack.append(m)
            try: res = self.run(self.P.fns[m], s, ('p', l), args)
            finally: self.stack.pop()
            if into: return [(s2, ('void',)) for s2, _ in res]
            out = []
            for s2, _ in res:
                v = self.load(s2, l, 'struct')
                for x in [x for x in s2.mem if x[:1] == l]: del s2.mem[x]
                out.append((s2, v))
            return out
        # external constructor: deterministic in its arguments for value types
        def val(a):
            if a[0] == 'p' and not self.maybe_null(a[1]):
                v = s.mem.get(a[1])
                return v if v is not None and v[0] != 'agg' else self.load(s, a[1], 'struct')
            return a
        return [(s, ('agg', ('ctor', q, tuple(val(a) for a in args)) , ()))]
    def new(self, s, I, T, site):
        t = I['t']
        loc = (('new',) + s.fresh('n', tuple(site)),)
        if 'init' in I:
            v = T[I['init']]
            self.store(s, loc, v, t if self.kind(t) == 'rec' else t)
            self.retarget(s, loc)
        else:
            s.mem[loc] = ('undef',)
        s.mem[loc + ('$class',)] = ('cls', strip(t))
        if self.mon is not None: self.mon.on_new(self, s, loc, t, site)
        return [(s, ('p', loc))]
    def retarget(self, s, loc): pass
    def delete(self, s, p, I, site):
        if p[0] == 'n': return [s]
        if self.mon is not None: self.mon.on_delete(self, s, p, I, site)
        return [s]
    def cast(self, s, v, I, site):
        k = I['k']
        if k in ('d2b', 'bit', 'b2d', 'other', 'dyn'):
            return v
        if k == 'int':
            if v[0] == 'b':
                d = s.decide(v[1])
                if d is not None: return con(1 if d else 0)
                return v   # kept symbolic; comparisons handle it
            if v[0] == 'i':
                t = strip(I['t'])
                r = RANGES.get(t)
                if r is None: return v
                lo, hi = s.interval(v)
                if r[0] <= lo and hi <= r[1]: return v
                if isconst(v):
                    w = r[1] - r[0] + 1
                    return con((v[1] - r[0]) % w + r[0])
                if self.mon is not None:
                    x = self.mon.on_narrow(self, s, v, I, site)
                    if x is not None: return x
                fr = RANGES.get(strip(I['from']))
                if self.narrow == 'symbol' and fr and fr[1] > r[1] and fr[1] - fr[0] > r[1] - r[0]:
                    return sym(('trunc', t, v), *r)
                if lo < 0 and r[0] == 0:
                    return sym(('wrap', t, v), *r)
                return v
            return v
        if k == 'int2bool':
            if v[0] in ('i', 'b', 'undef'): return ('b', self.cond(v))
            return v
        if k == 'ptr2bool': return ('b', self.cond(v))
        if k in ('int2float', 'float2int', 'float'):
            return self.fresh(I['t'], ('conv', k, v))
        return v
    def toint(self, s, v):
        if v[0] == 'b':
            d = s.decide(v[1])
            if d is not None: return con(1 if d else 0)
            return sym(('b2i', v[1]), 0, 1)
        if v[0] == 'i': return v
        return None
    def padd(self, s, p, n, sign, deref=False):
        if n[0] == 'b': n = self.toint(s, n)
        if n[0] != 'i': n = sym(('idx', n))
        if p[0] == 'p':
            loc = p[1]
            if isinstance(loc[-1], tuple) and loc[-1][0] == '[]':
                return ('p', loc[:-1] + (('[]', add(loc[-1][1], n, sign)),))
            if n == ZERO: return p
            return ('p', loc + (('[]', scale(n, sign)),))
        if p[0] == 'c': return ('c', p[1], p[2], add(p[3], n, sign))
        if p[0] in ('cl', 'cs'): return (p[0], p[1], add(p[2], n, sign))
        return ('agg', ('padd', p, n, sign), ())
    def binop(self, s, I, a, b, site):
        op = I['op']
        if a[0] == 'undef' or b[0] == 'undef':
            if self.mon is not None: self.mon.on_undef(self, s, site)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return ('b', self.compare(s, op, a, b))
        if I.get('ptr'):
            ap = a[0] in ('p', 'c', 'cl', 'cs', 'n'); bp = b[0] in ('p', 'c', 'cl', 'cs', 'n')
            if op == '+':
                return self.padd(s, a, b, 1) if ap else self.padd(s, b, a, 1)
            if op == '-':
                if bp: return self.pdiff(s, a, b)
                return self.padd(s, a, b, -1)
        if a[0] == 'b' and b[0] == 'b' and op in ('&', '|', '^'):
            da, db = s.decide(a[1]), s.decide(b[1])
            if op == '&':
                if da is False or db is False: return con(0)
                if da is True: return b
                if db is True: return a
            if op == '|':
                if da is True or db is True: return con(1)
                if da is False: return b
                if db is False: return a
        a = self.toint(s, a) or a; b = self.toint(s, b) or b
        if a[0] == 'i' and b[0] == 'i':
            if op == '+': return add(a, b)
            if op == '-': return sub(a, b)
            if op == '*':
                if isconst(a): return scale(b, a[1])
                if isconst(b): return scale(a, b[1])
            if isconst(a) and isconst(b):
                x, y = a[1], b[1]
                try:
                    if op == '/': q = abs(x) // abs(y); return con(q if (x < 0) == (y < 0) else -q)
                    if op == '%': q = abs(x) % abs(y); return con(q if x >= 0 else -q)
                    if op == '&': return con(x & y)
                    if op == '|': return con(x | y)
                    if op == '^': return con(x ^ y)
                    if op == '<<': return con(x << y)
                    if op == '>>': return con(x >> y)
                except (ZeroDivisionError, ValueError): pass
            lo, hi = -inf, inf
            al, ah = s.interval(a); bl, bh = s.interval(b)
            if op == '/' and isconst(b) and b[1] > 0 and al >= 0: lo, hi = 0, (ah // b[1] if ah != inf else inf)
            elif op == '%' and isconst(b) and b[1] > 0: lo, hi = (0 if al >= 0 else -(b[1] - 1)), b[1] - 1
            elif op == '&' and isconst(b) and b[1] >= 0: lo, hi = 0, b[1]
            elif op == '&' and isconst(a) and a[1] >= 0: lo, hi = 0, a[1]
            elif op in ('|', '&', '^', '>>') and al >= 0 and bl >= 0: lo = 0
            if isconst(b) and op in ('<<',) and 0 <= b[1] < 31: return scale(a, 1 << b[1])
            return sym(('op', op, a, b), lo, hi)
        return self.fresh(I['t'], ('op', op, a, b))
    def pdiff(self, s, a, b):
        if a[0] == b[0] == 'p':
            la, lb = a[1], b[1]
            ia = la[-1][1] if isinstance(la[-1], tuple) and la[-1][0] == '[]' else ZERO
            ib = lb[-1][1] if isinstance(lb[-1], tuple) and lb[-1][0] == '[]' else ZERO
            ba = la[:-1] if isinstance(la[-1], tuple) and la[-1][0] == '[]' else la
            bb = lb[:-1] if isinstance(lb[-1], tuple) and lb[-1][0] == '[]' else lb
            if ba == bb: return sub(ia, ib)
        if a[0] == b[0] == 'c' and a[1:3] == b[1:3]: return sub(a[3], b[3])
        if a[0] == b[0] and a[0] in ('cl', 'cs') and a[1] == b[1]: return sub(a[2], b[2])
        return sym(('pdiff', a, b))
    def compare(self, s, op, a, b):
        P = ('p', 'c', 'cl', 'cs', 'n', 'f')
        if a[0] in P or b[0] in P:
            if a[0] == 'i' and a == ZERO: a = ('n',)
            if b[0] == 'i' and b == ZERO: b = ('n',)
            if op in ('==', '!='):
                c = self.ptreq(s, a, b)
                return c if op == '==' else neg(c)
            d = self.pdiff(s, a, b)
            a, b = d, ZERO
        if a[0] == 'b' or b[0] == 'b':
            if a[0] == 'b' and b[0] == 'i' and isconst(b) and op in ('==', '!='):
                c = a[1] if b[1] == 1 else (neg(a[1]) if b[1] == 0 else False)
                return c if op == '==' else neg(c)
            if b[0] == 'b' and a[0] == 'i' and isconst(a): return self.compare(s, {'==': '==', '!=': '!='}.get(op, op), b, a) if op in ('==', '!=') else atom('cmp', op, a, b)
            if a[0] == 'b' and b[0] == 'b' and op in ('==', '!='):
                da, db = s.decide(a[1]), s.decide(b[1])
                if da is not None: c = b[1] if da else neg(b[1])
                elif db is not None: c = a[1] if db else neg(a[1])
                elif a[1] == b[1]: c = True
                elif a[1] == neg(b[1]): c = False
                else: c = atom('beq', a[1], b[1])
                return c if op == '==' else neg(c)
            a = self.toint(s, a) or a; b = self.toint(s, b) or b
        if a[0] == 'i' and b[0] == 'i':
            if op == '==': return ceq(a, b)
            if op == '!=': return cne(a, b)
            if op == '<': return clt(a, b)
            if op == '<=': return cle(a, b)
            if op == '>': return clt(b, a)
            if op == '>=': return cle(b, a)
        if a == b and op in ('==', '<=', '>='): return True
        if a == b and op in ('!=', '<', '>'): return False
        if op == '!=': return neg(atom('cmp', '==', a, b))
        return atom('cmp', op, a, b)
    def ptreq(self, s, a, b):
        if a == b: return True
        if a[0] == 'n': a, b = b, a
        if b[0] == 'n':
            if a[0] == 'p': return ('at', ('null', a[1]), True) if self.maybe_null(a[1]) else False
            if a[0] in ('c', 'cl', 'cs', 'f'): return False
            return atom('null', a)
        if a[0] == 'f' and b[0] == 'f': return False
        if a[0] == b[0] == 'p':
            la, lb = a[1], b[1]
            if la[:-1] == lb[:-1] and isinstance(la[-1], tuple) and isinstance(lb[-1], tuple) and la[-1][0] == lb[-1][0] == '[]':
                return ceq(la[-1][1], lb[-1][1])
            ra, rb = la[0], lb[0]
            own = ('v', 't', 'g', 'new', 'this')
            if isinstance(ra, tuple) and isinstance(rb, tuple) and ra[0] in own and rb[0] in own and (ra != rb): return False
            if ra == rb and len(la) != len(lb): return False
            if self.maybe_null(la) and s.decide(('at', ('null', la), True)) is True:
                return ('at', ('null', lb), True) if self.maybe_null(lb) else False
            if {ra[0], rb[0]} & {'new', 'v', 't', 'g'} and {ra[0], rb[0]} <= {'new', 'v', 't', 'g', 'o', 'this'}:
                # a fresh allocation differs from every pointer that existed before it
                if ra[0] in ('v', 't', 'g') or rb[0] in ('v', 't', 'g'): return False
        if a[0] == b[0] == 'c' and a[1:3] == b[1:3]: return ceq(a[3], b[3])
        if a[0] == b[0] == 'cl' and a[1] == b[1]: return ceq(a[2], b[2])
        x, y = sorted((a, b), key=repr)
        return atom('peq', x, y)
    def unop(self, s, I, a):
        if I['op'] == '!': return ('b', neg(self.cond(a)))
        if a[0] == 'b': a = self.toint(s, a)
        if I['op'] == '-' and a[0] == 'i': return scale(a, -1)
        if I['op'] == '~' and isconst(a): return con(~a[1])
        return self.fresh(I['t'], ('un', I['op'], a))
    def switch(self, s, v, I):
        if v[0] == 'b': v = self.toint(s, v)
        out = []
        if v[0] != 'i':
            for b in sorted(set([c[1] for c in I['cases']] + [I['def']])): out.append((s.copy(), b))
            return out
        rest = s
        bt = {}
        for k, b in I['cases']: bt.setdefault(b, []).append(k)
        if isconst(v):
            for k, b in I['cases']:
                if k == v[1]: return [(s, b)]
            return [(s, I['def'])]
        for b, ks in bt.items():
            for k in ks:
                s2 = rest.copy()
                if s2.assume(ceq(v, con(k))): out.append((s2, b))
        ok = True
        for k, b in I['cases']:
            if not rest.assume(cne(v, con(k))): ok = False; break
        enumv = self.P.enums.get(strip(I['t']))
        if ok: out.append((rest, I['def']))
        return out
    # ---- loops -----------------------------------------------------------
