"""Joins: loop-head widening and boundary canonicalisation (both reparametrise the symbols of a state by memory cells)."""
from math import inf
from .dom import *
from .extract import AnalysisBroken

def skeleton(v, lins):
    """replaces every maximal linear expression in a value by a placeholder"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'i' and isinstance(v[2], tuple) and isinstance(v[1], int):
            lins.append(v); return ('#',)
        return tuple(skeleton(x, lins) for x in v)
    return v
def unskeleton(v, it):
    if isinstance(v, tuple):
        if v == ('#',): return next(it)
        return tuple(unskeleton(x, it) for x in v)
    return v
_skm = {}
def _skel(v):
    r = _skm.get(v)
    if r is None:
        l = []; k = skeleton(v, l); r = _skm[v] = (k, tuple(l))
    return r[0], list(r[1])

def reach_syms(s, T=None):
    out = set()
    for l, v in s.mem.items():
        out |= syms_of(v); out |= syms_of(l)
    if T:
        for v in T.values(): out |= syms_of(v)
    return out
_keys_memo = {}
def subkeys(v):
    """all nested tuples (used to keep atoms about reachable keys only)"""
    r = _keys_memo.get(v)
    if r is None:
        out = set()
        if isinstance(v, tuple):
            out.add(v)
            for x in v:
                if isinstance(x, tuple): out |= subkeys(x)
        for s in syms_of(v): out |= subkeys(SYM.keys[s]) if isinstance(SYM.keys[s], tuple) else set()
        r = frozenset(out); _keys_memo[v] = r
    return r
def gc(s, T=None, extra=()):
    syms = reach_syms(s, T)
    for v in extra: syms |= syms_of(v)
    # close over symbols linked through facts (one step is enough to keep relations between live symbols)
    keys = set()
    for l, v in s.mem.items(): keys |= subkeys(v) | subkeys(l)
    if T:
        for v in T.values(): keys |= subkeys(v)
    memo = {}
    def slive(x):
        if x in syms: return True
        r = memo.get(x)
        if r is None:
            k = SYM.keys[x]
            r = memo[x] = isinstance(k, tuple) and k[0] in ('len', 'num', 'hdrnum', 'size') and derived(k[1:], keys)
        return r
    dead = {}
    for t, b in s.iv.items():
        for x, c in t:
            if not slive(x): dead.setdefault(x, []).append(t)
    for x, ts in dead.items():
        # a dead symbol that equals a live expression hands its facts on before it goes
        if len(ts) < 2: continue
        eq = None
        for t in ts:
            lo, hi = s.iv[t]
            if lo == hi and len(t) > 1 and all(y == x or slive(y) for y, _ in t) and any(y == x and c in (1, -1) for y, c in t): eq = t; break
        if eq is None: continue
        k = dict(eq)[x]; v = s.iv[eq][0]
        for t in ts:
            if t == eq or not all(y == x or slive(y) for y, _ in t): continue
            m = dict(t)[x] * k                    # t - m * eq does not mention x
            r = dict(t)
            for y, c in eq:
                n = r.get(y, 0) - m * c
                if n: r[y] = n
                else: r.pop(y, None)
            if not r or len(r) > 3: continue
            lo, hi = s.iv[t]; lo, hi = lo - m * v, hi - m * v
            q, f = norm_terms(tuple(sorted(r.items())))
            if abs(f) != 1: continue
            if f < 0: lo, hi = -hi, -lo
            o = s.iv.get(q, (-inf, inf)); s.iv[q] = (max(lo, o[0]), min(hi, o[1])); s._ic = None
    s.iv = {t: b for t, b in s.iv.items() if all(slive(x) for x, _ in t)}
    s.ne = frozenset((t, c) for t, c in s.ne if all(slive(x) for x, _ in t))
    def live(a):
        for x in a[1:]:
            if isinstance(x, tuple) and x and not (x in keys or derived(x, keys)): return False
        return True
    s.lit = {a: v for a, v in s.lit.items() if live(a)}
def derived(x, keys, depth=0):
    if x in keys: return True
    if depth > 6 or not isinstance(x, tuple): return False
    return any(isinstance(y, tuple) and derived(y, keys, depth + 1) for y in x)

def apply_subst(s, S, T=None):
    mem = {}
    for l, v in s.mem.items(): mem[S(l)] = S(v)
    s.mem = mem
    iv = {}; ok = True
    old = s.iv; s.iv = {}
    ne = s.ne; s.ne = frozenset()
    pend = []
    for t, b in old.items():
        x = S(('i', 0, t))
        if x[2] == t and x[1] == 0: s.iv[t] = b
        else: pend.append((x, b))
    for x, (a, z) in pend:
        if not x[2]:
            if not (a <= x[1] <= z): ok = False
            continue
        if a != -inf: ok &= s._bound(x[2], a - x[1], inf)
        if z != inf: ok &= s._bound(x[2], -inf, z - x[1])
    n2 = set()
    for t, c in ne:
        x = S(('i', 0, t))
        if not x[2]: continue
        nt, f = norm_terms(x[2])
        k = c - x[1]
        if k % f == 0: n2.add((nt, k // f))
    s.ne = frozenset(n2)
    s.lit = {S(a): v for a, v in s.lit.items()}
    if T is not None:
        for k in list(T): T[k] = S(T[k])
    return ok

def strjoin(a, b, key):
    """a: old, b: new"""
    if a == b: return a
    A, B = a[1], b[1]
    i = 0
    while i < len(A) and i < len(B) and A[i] == B[i]: i += 1
    pre = A[:i]; ra, rb = A[i:], B[i:]
    if ra and ra[0][0] == '*' and len(ra) == 1 and (not rb or rb[0][0] != '*' or rb[0][1] == ra[0][1]):
        # absorb new chunks
        return ('s', pre + (('*', ra[0][1], ra[0][2] | chunks(rb)),)) if rb else a
    if not ra:
        return ('s', pre + (('*', rb[0][1] if rb[0][0] == '*' else key, chunks(rb)),))
    if A[-1:] and A[-1][0] == '*' and not any(x[0] == '*' for x in B):
        j = strjoin(('s', A[:-1]), b, key)
        return ('s', j[1] + (A[-1],))
    return common(A, B, key)
def chunks(segs):
    """the chunks a repetition must admit to cover segs"""
    out = set(); run = ()
    for g in segs + (None,):
        if g is None or g[0] == '*':
            if run: out.add(generic(run))
            run = ()
            if g is not None: out |= {neutral(x) for x in g[2]}
        else: run += (g,)
    return frozenset(out)
def chars(A):
    out = []
    for x in A:
        if x[0] == 'L': out += [('L', x[1][i:i + 1]) for i in range(len(x[1]))]
        else: out.append(x)
    return out
def glue(xs):
    out = []
    for x in xs:
        if x[0] == 'L' and out and out[-1][0] == 'L': out[-1] = ('L', out[-1][1] + x[1])
        else: out.append(x)
    return tuple(out)
def common(A, B, key):
    """common prefix and suffix around an unknown middle"""
    A = chars(A); B = chars(B)
    i = 0; new = ('S', ('phis', key))           # the unknown part of an earlier round is part of this one
    while i < len(A) and i < len(B) and A[i] == B[i] != new: i += 1
    n = min(len(A), len(B)) - i
    for X in (A, B):
        last = max([k for k, x in enumerate(X) if x == new], default=-1)
        n = min(n, len(X) - 1 - last)
    j = 0
    while j < n and A[-1 - j] == B[-1 - j]: j += 1
    return ('s', glue(A[:i]) + (('S', ('phis', key)),) + (glue(A[len(A) - j:]) if j else ()))
def generic(segs):
    return tuple(neutral(skeleton(g, [])) for g in segs)
_neutral = {}
def neutral(v):
    """a chunk of a repetition stands for every iteration: values of earlier ones lose their age"""
    if isinstance(v, frozenset): return frozenset(neutral(x) for x in v)
    if not isinstance(v, tuple): return v
    r = _neutral.get(v)
    if r is None:
        if len(v) == 3 and v[0] == 'old':
            x = neutral(v[1])
            r = x if isinstance(x, tuple) and x and x[0] == 'was' else ('was', x)
        elif len(v) == 2 and v[0] == 'was':
            x = neutral(v[1])
            r = x if isinstance(x, tuple) and x and x[0] == 'was' else ('was', x)
        else: r = tuple(neutral(x) for x in v)
        _neutral[v] = r
    return r
def absorb(a, b):
    """b = a(with trailing star) + chunk -> True when chunk already is in the star"""
    A, B = a[1], b[1]
    return bool(A) and A[-1][0] == '*' and B[:len(A)] == A and generic(B[len(A):]) in A[-1][2]

def boolnorm(s, v):
    if v[0] == 'b':
        d = s.decide(v[1])
        if d is not None: return ('b', d)
    return v
def cells(s):
    """(sorted locs, per loc skeleton and linear parts)"""
    out = {}
    for l, v in s.mem.items():
        v = boolnorm(s, v)
        out[l] = v
    return out
def signature(s):
    sig = []
    for l, v in s.mem.items():
        if v[0] == 's': continue
        if v[0] == 'tail': continue
        k = v if l[-1] == 'control' and isconst(v) else _skel(boolnorm(s, v))[0]      # foreach loops: kept exact
        lk, _ = _skel(l)
        sig.append((lk, k))
    sig.sort(key=repr)
    return tuple(sig)

class Head: pass

def arrive(I, fn, b, s, T, depth, seen):
    h = seen.get(b)
    tag = (fn.m, b)
    if h is None:
        h = seen[b] = Head(); h.W = set(); h.WS = set(); h.D = {}; h.n = 0; h.T0 = frozenset(T); h.cnt0 = dict(s.cnt)
        h.ver = {}; h.org = {}; h.relate = I.relate
    T = {k: v for k, v in T.items() if k in h.T0}
    h.n += 1
    I.stats['joins'] += 1
    if h.n > 200000: raise AnalysisBroken('loop did not stabilise in ' + fn.n)
    # values created in the previous iteration keep distinct names from those of the next one
    age(s, h.cnt0, T)
    # element cells of containers are summarised, dead temporaries dropped
    drop_elems(s); drop_temps(s, T, depth)
    ren = {}
    for sid in reach_syms(s, T) | {x for t in s.iv for x, _ in t}:
        k = SYM.keys[sid]
        if isinstance(k, tuple) and k[0] == 'phi' and k[1] == tag: ren[sid] = sym(('phi~', tag, k[2]))
    if ren: apply_subst(s, Subst(ren), T)
    sig = signature(s)
    d = h.D.get(sig); h.last = sig
    if d is None:
        generalise(s, h, tag, T)
        finish(s, T)
        h.D[sig] = (s.copy(), dict(T), len(h.W))
        h.ver[sig] = h.ver.get(sig, 0) + 1
        return s, T
    dS, dT, dW = d
    # which cells vary?
    W0 = len(h.W); WS0 = len(h.WS)
    for l, v in s.mem.items():
        o = dS.mem.get(l)
        if o is None or o == v: continue
        if v[0] == 's' and o[0] == 's':
            ks, ls = _skel(v); ko, lo = _skel(o)
            if ks == ko:
                for i, (x, y) in enumerate(zip(ls, lo)):
                    if x != y: h.W.add((l, i))
            else: h.WS.add(l)
            continue
        if v[0] == 'tail': continue
        ks, ls = _skel(v); ko, lo = _skel(o)
        if ks == ko:
            for i, (x, y) in enumerate(zip(ls, lo)):
                if x != y: h.W.add((l, i))
    base = dS.copy(); bT = dict(dT)
    if len(h.W) != dW:
        # rename symbols of the stored state the same way before generalising it
        ren = {}
        for sid in reach_syms(base, bT) | {x for t in base.iv for x, _ in t}:
            k = SYM.keys[sid]
            if isinstance(k, tuple) and k[0] == 'phi' and k[1] == tag: ren[sid] = sym(('phi~', tag, k[2]))
        if ren: apply_subst(base, Subst(ren), bT)
        generalise(base, h, tag, bT)
    generalise(s, h, tag, T)
    changed = len(h.W) != dW
    if I.relate:
        # counters that advance together
        ph = [SYM.id(('phi', tag, w)) for w in sorted(h.W, key=repr)]
        for i, x in enumerate(ph[:12]):
            for y in ph[i + 1:12]:
                t, _ = norm_terms(tuple(sorted(((x, 1), (y, -1)))))
                if t in base.iv: continue
                a = base.interval(('i', 0, t))
                if a[0] == a[1]:
                    if s.interval(('i', 0, t)) == a: base.iv[t] = a; base._ic = None
                elif changed and (a[0] == 0 or a[1] == 0):
                    z = s.interval(('i', 0, t))
                    if a[0] == z[0] == 0 or a[1] == z[1] == 0: base.iv[t] = a; base._ic = None
        # bounds that move along with a counter
        if changed and ph:
            for t0, (lo, hi) in list(s.iv.items()):
                if len(t0) != 1 or t0[0][0] in ph or base.iv.get(t0) == (lo, hi): continue
                y = t0[0][0]
                for x in ph[:6]:
                    t, f = norm_terms(tuple(sorted(((x, -1), (y, 1)))))
                    if t in base.iv: continue
                    a = base.interval(('i', 0, t)); z = s.interval(('i', 0, t))
                    if a[0] == z[0] == 0 or a[1] == z[1] == 0: base.iv[t] = a; base._ic = None
    for l in h.WS:
        a = base.mem.get(l); c = s.mem.get(l)
        if a is None or c is None or a[0] != 's' or c[0] != 's': continue
        if a == c or absorb(a, c): s.mem[l] = a; continue
        j = strjoin(a, c, (tag, l))
        if j != a: changed = True
        base.mem[l] = j; s.mem[l] = j
    for l in list(base.mem):
        if l not in s.mem: del base.mem[l]; changed = True
    for l, v in s.mem.items():
        if l not in base.mem: continue
        if base.mem[l] != v:
            o = base.mem[l]
            if v[0] == 'b' and o[0] == 'b': base.mem[l] = ('b', ('at', ('phib', tag, l), True)); changed = changed or o != base.mem[l]
            elif v[0] == 'tail' or o[0] == 'tail': base.mem.pop(l); changed = True
            elif v[0] == 's' and o[0] == 's':
                n = strjoin(o, v, (tag, l)); s.mem[l] = n
                if o != n: base.mem[l] = n; changed = True
            else:
                pass
    if join_facts(base, s, widen=h.ver[sig] > 5, depth=2 if I.relate else 1, grow=h.ver[sig] <= 12): changed = True
    for f in s.flags - base.flags: base.flags = base.flags | {f}; changed = True
    for k, c in s.cnt.items():
        if c > base.cnt.get(k, 0): base.cnt[k] = c
    finish(base, bT)
    if not changed: return None
    h.D[sig] = (base.copy(), dict(bT), len(h.W))
    h.ver[sig] = h.ver.get(sig, 0) + 1
    base.trace = s.trace
    return base, bT

def finish(s, T): gc(s, T)

def age(s, cnt0, T):
    ren = {}
    used = None
    def isnew(k):
        return isinstance(k, tuple) and len(k) == 3 and isinstance(k[2], int) and isinstance(k[0], str) and (k[0], k[1]) in s.cnt and k[2] >= cnt0.get((k[0], k[1]), 0) and s.cnt[(k[0], k[1])] > cnt0.get((k[0], k[1]), 0)
    keys = set()
    for l, v in s.mem.items():
        keys |= subkeys(v) | subkeys(l)
    new = [k for k in keys if isnew(k)]
    if new:
        for k in new:
            g = 0
            while ('old', k, g) in keys and g < 4: g += 1
            ren[k] = ('old', (k[0], k[1], cnt0.get((k[0], k[1]), 0)), g)
        apply_subst(s, Subst({}, ren), T)
        # symbols keyed by renamed keys
        ren2 = {}
        S = Subst({}, ren)
        for sid in reach_syms(s, T) | {x for t in s.iv for x, _ in t}:
            k = SYM.keys[sid]; k2 = S(k)
            if k2 != k: ren2[sid] = sym(k2, *SYM.rng[sid])
        if ren2: apply_subst(s, Subst(ren2), T)
    for k in list(s.cnt):
        if k[0] != 'tmp' and s.cnt[k] != cnt0.get(k, 0):
            s.cnt[k] = cnt0.get(k, 0)

def generalise(s, h, tag, T):
    if not h.W: return
    order = sorted(h.W, key=lambda c: (0 if s.mem.get(c[0], ('x',))[0] == 'p' else 1, repr(c)))
    groups = {}
    for (l, i) in order:
        v = s.mem.get(l)
        if v is None: continue
        k, ls = _skel(v)
        if i >= len(ls): continue
        x = ls[i]
        phi = ('i', 0, ((SYM.id(('phi', tag, (l, i))), 1),))
        if x == phi: continue
        pick = None
        for sid, c in x[2]:
            kk = SYM.keys[sid]
            if c in (1, -1) and isinstance(kk, tuple) and (kk[0] == 'phi~' and kk[1] == tag or h.relate and kk[0] in ('phi', 'phi~') and (kk[0], kk[1]) != ('phi', tag)): pick = (sid, c); break
        if pick:
            rest = sub(x, ('i', 0, ((pick[0], pick[1]),)))
            e = scale(sub(phi, rest), pick[1])
            apply_subst(s, Subst({pick[0]: e}), T)
        else:
            ls[i] = phi
            s.mem[l] = unskeleton(k, iter(ls))
            s.assume(ceq(phi, x))
            if x[2]:
                # cells that hold the same value up to a constant stay linked when the value is forgotten
                o = groups.setdefault(x[2], (phi, x[1]))
                if o[0] != phi:
                    e = sub(phi, o[0]); t, f = norm_terms(e[2]); d = (x[1] - o[1]) * f
                    if t not in s.iv: s.iv[t] = (d, d); s._ic = None
            if v[0] == 'p': alias_facts(s, ('[]', x), ('[]', phi))

def alias_facts(s, old, new):
    """what is known about the element old holds for new, which denotes the same element"""
    def sub1(v):
        if v == old: return new
        if not isinstance(v, tuple): return v
        out = tuple(sub1(x) for x in v)
        return out if out != v else v
    for a, v in list(s.lit.items()):
        b = sub1(a)
        if b is not a and b != a: s.lit.setdefault(b, v)

def join_facts(d, s, widen=False, depth=1, grow=True):
    """d := d join s (facts only); True when d changed"""
    changed = False
    keys = set(d.iv) | set(s.iv) if grow else set(d.iv)
    new = {}; weak = False
    if grow and depth > 1:
        # values known exactly on both sides: what is lost of them leaves their distance
        ex = []
        for x in sorted({x for t in keys for x, _ in t}):
            e = ('i', 0, ((x, 1),)); a = d.interval(e, depth)
            if a[0] != a[1]: continue
            b = s.interval(e, depth)
            if b[0] == b[1] and a != b: ex.append((x, a[0], b[0]))
        for i, (x, a, b) in enumerate(ex[:12]):
            for y, a2, b2 in ex[i + 1:12]:
                if a - a2 == b - b2:
                    t, f = norm_terms(((x, 1), (y, -1)))
                    if t not in keys: new[t] = ((a - a2) * f, (a - a2) * f)
        # bounds that move along with such a value leave their distance too
        if ex:
            known = {x for x, _, _ in ex}
            for y in sorted({t[0][0] for t in keys if len(t) == 1} - known):
                e = ('i', 0, ((y, 1),)); u, v = d.interval(e, depth), s.interval(e, depth)
                for x, a, b in ex[:12]:
                    lo = u[0] - a if u[0] != -inf and u[0] - a == v[0] - b else -inf
                    hi = u[1] - a if u[1] != inf and u[1] - a == v[1] - b else inf
                    if lo == -inf and hi == inf: continue
                    t, f = norm_terms(((x, -1), (y, 1)) if x < y else ((y, 1), (x, -1)))
                    if t not in keys and t not in new: new[t] = (lo, hi) if f > 0 else (-hi, -lo)
    for t in keys:
        dlo, dhi = d.interval(('i', 0, t), depth) if grow else d.iv[t]; slo, shi = s.interval(('i', 0, t), depth)
        lo, hi = min(dlo, slo), max(dhi, shi)
        if widen:
            if not grow: lo, hi = -inf if lo < dlo else lo, inf if hi > dhi else hi
            elif lo < dlo: lo = max([x for x in (-2**63, -2**31, -1, 0, 1) if x <= lo], default=-inf)
            if grow and hi > dhi: hi = min([x for x in (-1, 0, 1, 2**31 - 1, 2**32 - 1, 2**63 - 1, 2**64 - 1) if x >= hi], default=inf)
        # bounds that follow from the symbols' types are no facts
        a = z = 0
        for x, c in t:
            u, w = SYM.rng[x]
            if c < 0: u, w = w, u
            a += c * u; z += c * w
        if lo <= a and hi >= z:
            if t in d.iv and (dlo > a or dhi < z): changed = True
            continue
        # only a weakening counts as change
        if lo < dlo or hi > dhi: changed = True
        new[t] = (lo, hi)
    d.iv = new; d._ic = None
    n2 = set()
    for (t, c) in d.ne | s.ne:
        q = ('ne', -c, t)
        if d.decide(q) is True and s.decide(q) is True: n2.add((t, c))
        elif (t, c) in d.ne: changed = True
    d.ne = frozenset(n2); d._ic = None
    for a, v in list(d.lit.items()):
        if s.atomval(a) != v:
            del d.lit[a]; changed = True
    return changed

def drop_elems(s, only=None):
    """forgets individual container elements (roots other than locals)"""
    for l in list(s.mem):
        for k, c in enumerate(l):
            if isinstance(c, tuple) and c[0] == '[]':
                if isinstance(l[0], tuple) and l[0][0] in ('v', 't'):
                    n = s.mem.get(l[:k] + ('$n',))
                    if n is None or isconst(n) and n[1] < 3: break
                del s.mem[l]
                v = s.mem.get(l[:k])
                if v is None or v[0] == 'undef': s.mem[l[:k]] = ('agg', ('elems', l[:k]), ())
                break

def roots_in(v, out):
    if isinstance(v, tuple):
        if len(v) >= 2 and v[0] in ('p', 'c') and isinstance(v[1], tuple) and v[1]: out.add(v[1][0])
        for x in v:
            if isinstance(x, tuple): roots_in(x, out)
def drop_temps(s, T, depth):
    used = set()
    ts = [l for l in s.mem if l[0][0] == 't' and l[0][1] >= depth]
    if not ts: return
    for v in T.values(): roots_in(v, used)
    for l, v in s.mem.items():
        if not (l[0][0] == 't' and l[0][1] >= depth): roots_in(v, used)
    ch = True
    while ch:
        ch = False
        for l in ts:
            if l[0] in used:
                o = set(); roots_in(s.mem[l], o)
                if not o <= used: used |= o; ch = True
    m = -1
    for l in ts:
        if l[0] not in used: del s.mem[l]
        elif l[0][1] == depth: m = max(m, l[0][2])
    s.cnt[('tmp', depth)] = m + 1

# ---- bounded partitions ------------------------------------------------------
def joinname(items, tag):
    """a name for the joined values that none of the states mentions"""
    used = set()
    for s, T in items:
        for l, v in s.mem.items(): used |= joinnames(v) | joinnames(l)
        for v in T.values(): used |= joinnames(v)
        for a in s.lit: used |= joinnames(a)
        for t in s.iv:
            for x, _ in t: used |= joinnames(SYM.keys[x])
        for t, _ in s.ne:
            for x, _ in t: used |= joinnames(SYM.keys[x])
    g = 0
    while (tag, g) in used: g += 1
    return (tag, g)
_jnm = {}
def joinnames(v):
    if not isinstance(v, (tuple, frozenset)): return frozenset()
    r = _jnm.get(v)
    if r is None:
        out = set()
        if isinstance(v, tuple):
            if len(v) >= 2 and v[0] in ('jn', 'jb'): out.add(v[1])
            if len(v) == 3 and v[0] in ('i', 'le', 'eq', 'ne') and isinstance(v[2], tuple) and isinstance(v[1], (int, float)):
                for s, _ in v[2]: out |= joinnames(SYM.keys[s])
        for x in v: out |= joinnames(x)
        r = _jnm[v] = frozenset(out)
    return r
def default_like(I, s, l, v):
    """the value an unmentioned cell has, in the shape of v"""
    k, rest, subs = I.aggkey(s, l)
    if k is None: return EMPTY if v[0] == 's' else ('undef',)
    for p, x in subs:
        if p == tuple(rest): return x
    if k[0] == 'zero': return {'i': ZERO, 'b': ('b', False), 'p': ('n',), 'n': ('n',), 's': EMPTY}.get(v[0], ('agg', ('zero',), ()))
    if l[-1] in ('$n', '$cap', '$st', '$class', '$p') or (len(l) > 1 and l[-2] == '$d'): return None
    key = ('fld', k) + tuple(rest)
    if v[0] == 'i': return ('i', 0, ((SYM.id(key), 1),))
    if v[0] == 'b': return ('b', ('at', ('bool', key), True))
    if v[0] in ('p', 'n'): return ('p', (('o', key),))
    if v[0] == 's': return opaque_str(key)
    if v[0] == 'agg': return ('agg', key, ())
    return None
def mskel(v):
    if v[0] == 'agg' and not v[2]: return ('agg',)
    if v[0] in ('b', 's', 'tail'): return (v[0],)
    return _skel(v)[0]
def merge_states(I, items, tag):
    """[(state, T)] -> fewer; states with equal ghosts, equal pointer structure are joined"""
    if len(items) < 2: return items
    allocs = {}
    for s, T in items:
        for l, v in s.mem.items(): allocs.setdefault(l, v)
    groups = {}
    for s, T in items:
        for l, v in allocs.items():
            if l not in s.mem and l[0][0] in ('this', 'o', 'r', 'g'):
                d = default_like(I, s, l, v)
                if d is not None: s.mem[l] = d
        key = (tuple(sorted(((l, mskel(v)) for l, v in s.mem.items()), key=repr)), tuple(sorted((t, mskel(v)) for t, v in T.items() if isinstance(v, tuple))))
        groups.setdefault(key, []).append((s, T))
    out = []
    for g in groups.values():
        a, T = g[0]
        if len(g) > 1:
            n = joinname(g, tag)
            ren = []
            for i, (s, _) in enumerate(g): pass
            sts = [s.copy() for s, _ in g]; sts[0].org = tuple(x for x in sts[0].org if all(x in s.org for s in sts)); Ts = [dict(t) for _, t in g]
            cols = {}
            def unify(vals, name):
                """joined value or None; adds the defining facts to the states"""
                if all(v == vals[0] for v in vals): return vals[0]
                k = vals[0][0]
                if k == 'b': return ('b', ('at', ('jb', n, name), True))
                if k == 's':
                    r = vals[0]
                    for v in vals[1:]:
                        if v != r: r = common(r[1], v[1], ('jn', n, name))
                    return r
                if k == 'agg' and not vals[0][2]: return ('agg', ('jn', n, name), ())
                if k == 'tail': return None
                sk, l0 = _skel(vals[0]); ls = [_skel(v)[1] for v in vals]
                res = []
                for i in range(len(l0)):
                    col = [x[i] for x in ls]
                    if all(c == col[0] for c in col): res.append(col[0]); continue
                    y = cols.get(tuple(col))             # cells that agree in every state still agree
                    if y is None and I.relate:          # ... and those at a fixed distance keep it
                        for o in list(cols)[:12]:
                            d = {st.interval(sub(c, e), 2) for st, c, e in zip(sts, col, o)}
                            if len(d) == 1:
                                lo, hi = next(iter(d))
                                if lo == hi: y = cols[tuple(col)] = add(cols[o], con(lo)); break
                    if y is None:
                        y = cols[tuple(col)] = ('i', 0, ((SYM.id(('jn', n, name, i)), 1),))
                        for s, c in zip(sts, col):
                            s.assume(ceq(y, c)); b = s.interval(c)
                            if y[2] not in s.iv and (b[0] > -inf or b[1] < inf): s.iv[y[2]] = b; s._ic = None
                    res.append(y)
                return unskeleton(sk, iter(res))
            mem = {}
            for l in list(sts[0].mem):
                v = unify([boolnorm(s, s.mem[l]) for s in sts], l)
                if v is not None: mem[l] = v
            T2 = {}
            for t in Ts[0]:
                if not all(t in x for x in Ts): continue
                vals = [x[t] for x in Ts]
                v = unify(vals, ('T', t)) if isinstance(vals[0], tuple) and vals[0] else vals[0]
                if v is not None: T2[t] = v
            a = sts[0]; a.mem = mem
            for s in sts[1:]:
                join_facts(a, s, depth=2 if I.relate else 1); a.flags = a.flags | s.flags
                for k, c in s.cnt.items():
                    if c > a.cnt.get(k, 0): a.cnt[k] = c
            gc(a, T2)
            T = T2
        out.append((a, T))
    return out
