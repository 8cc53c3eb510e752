"""Abstract values and states.

Values (immutable tuples):
  ('i', c, terms)          linear integer expression  c + sum(coef*sym)
  ('b', cond)              truth value of a condition literal
  ('n',)                   null pointer
  ('p', loc)               pointer to / reference to a memory location
  ('c', loc, st, off)      char pointer into the byte buffer owned by location loc (storage st)
  ('cl', bytes, off)       char pointer into a literal
  ('cs', strval, off)      char pointer into an immutable string snapshot
  ('s', segs)              byte/character string
  ('agg', key, subs)       composite value: opaque identity key + known sub-fields ((path, val), ...)
  ('f', mangled)           function
  ('undef',)               never initialised
  ('void',)
Conditions:  ('le', c, terms)  c+terms <= 0 ; ('eq', c, terms) ; ('ne', c, terms) ; ('at', atom, polarity) ; True ; False
"""
from math import inf

I32 = (-2**31, 2**31 - 1); I64 = (-2**63, 2**63 - 1)
RANGES = {'int': I32, 'unsigned int': (0, 2**32 - 1), 'long': I64, 'long long': I64, 'unsigned long': (0, 2**64 - 1), 'unsigned long long': (0, 2**64 - 1),
          'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'bool': (0, 1),
          'wchar_t': I32, 'float': None, 'double': None}

class Syms:
    def __init__(self): self.ids = {}; self.keys = []; self.rng = []
    def id(self, key, lo=-inf, hi=inf):
        i = self.ids.get(key)
        if i is None:
            i = len(self.keys); self.ids[key] = i; self.keys.append(key); self.rng.append((lo, hi))
        return i
SYM = Syms()

def con(c): return ('i', c, ())
ZERO = con(0); ONE = con(1)
def sym(key, lo=-inf, hi=inf): return ('i', 0, ((SYM.id(key, lo, hi), 1),))
def add(a, b, k=1):
    """a + k*b"""
    if not b[2]: return ('i', a[1] + k * b[1], a[2])
    if not a[2] and k == 1: return ('i', a[1] + b[1], b[2])
    d = dict(a[2])
    for s, c in b[2]:
        n = d.get(s, 0) + k * c
        if n: d[s] = n
        else: d.pop(s, None)
    return ('i', a[1] + k * b[1], tuple(sorted(d.items())))
def sub(a, b): return add(a, b, -1)
def scale(a, k):
    if k == 0: return ZERO
    return ('i', a[1] * k, tuple((s, c * k) for s, c in a[2]))
def isconst(a): return a[0] == 'i' and not a[2]

def norm_terms(t):
    """normalise homogeneous part: positive leading coefficient, gcd 1 -> (terms, factor) with original = factor * terms"""
    if not t: return t, 1
    g = 0
    from math import gcd
    for _, c in t: g = gcd(g, abs(c))
    if t[0][1] < 0: g = -g
    if g == 1: return t, 1
    return tuple((s, c // g) for s, c in t), g

def neg(c):
    if c is True: return False
    if c is False: return True
    k = c[0]
    if k == 'le': return ('le', 1 - c[1], tuple((s, -x) for s, x in c[2]))
    if k == 'eq': return ('ne', c[1], c[2])
    if k == 'ne': return ('eq', c[1], c[2])
    if k == 'at': return ('at', c[1], not c[2])
    raise ValueError(c)
def cle(a, b): d = sub(a, b); return ('le', d[1], d[2])
def clt(a, b): d = sub(a, b); return ('le', d[1] + 1, d[2])
def ceq(a, b): d = sub(a, b); return ('eq', d[1], d[2])
def cne(a, b): d = sub(a, b); return ('ne', d[1], d[2])
def atom(*a): return ('at', a, True)

_symsof = {}
def syms_of(v):
    """all symbol ids occurring in a value / key (nested)"""
    if not isinstance(v, tuple): return frozenset()
    r = _symsof.get(v)
    if r is not None: return r
    if len(v) == 3 and v[0] in ('i', 'le', 'eq', 'ne') and isinstance(v[2], tuple) and isinstance(v[1], (int, float)):
        out = set()
        for s, _ in v[2]:
            out.add(s); out |= syms_of(SYM.keys[s])
        r = frozenset(out)
    else:
        out = set()
        for x in v:
            if isinstance(x, tuple): out |= syms_of(x)
            elif isinstance(x, frozenset):
                for y in x: out |= syms_of(y)
        r = frozenset(out)
    _symsof[v] = r
    return r

class Subst:
    """substitution of symbols by linear expressions (and of arbitrary keys), applied structurally"""
    def __init__(self, m, keys=None):
        self.m = m; self.kmap = keys or {}; self.memo = {}
        self.dom = frozenset(m)
    def lin(self, v):
        out = ('i', v[1], ())
        for s, c in v[2]:
            r = self.m.get(s)
            if r is None:
                r = self.sym(s)
            out = add(out, r, c)
        return out
    def sym(self, s):
        k = SYM.keys[s]
        k2 = self(k)
        if k2 == k: return ('i', 0, ((s, 1),))
        lo, hi = SYM.rng[s]
        return sym(k2, lo, hi)
    def __call__(self, v):
        if not isinstance(v, tuple):
            if isinstance(v, frozenset): return frozenset(self(x) for x in v)
            return v
        r = self.memo.get(v)
        if r is not None: return r
        if v in self.kmap: r = self.kmap[v]
        elif not self.kmap and not (syms_of(v) & self.dom): r = v
        elif len(v) == 3 and v[0] == 'i' and isinstance(v[2], tuple): r = self.lin(v)
        elif len(v) == 3 and v[0] in ('le', 'eq', 'ne') and isinstance(v[2], tuple) and isinstance(v[1], (int, float)):
            x = self.lin(('i', v[1], v[2])); r = (v[0], x[1], x[2])
        else: r = tuple(self(x) for x in v)
        self.memo[v] = r
        return r

class State:
    __slots__ = ('mem', 'iv', 'ne', 'lit', 'cnt', 'trace', 'flags', '_ic', 'org')
    def __init__(self):
        self.mem = {}; self.iv = {}; self.ne = frozenset(); self.lit = {}; self.cnt = {}; self.trace = None; self.flags = frozenset(); self._ic = None; self.org = ()
    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.iv = dict(self.iv); s.ne = self.ne; s.lit = dict(self.lit); s.cnt = dict(self.cnt); s.trace = self.trace; s.flags = self.flags; s.org = self.org; ic = self._ic
        s._ic = (s.iv, ic[1], ic[2]) if ic is not None and ic[0] is self.iv else None
        return s
    def fresh(self, tag, site):
        k = (tag, site); n = self.cnt.get(k, 0); self.cnt[k] = n + 1
        return (tag, site, n)
    def note(self, *e): self.trace = (self.trace, e)
    def flag(self, why): self.flags = self.flags | {why}
    # ---- intervals -----------------------------------------------------
    def sb(self, s):
        lo, hi = SYM.rng[s]
        b = self.iv.get(((s, 1),))
        if b:
            if b[0] > lo: lo = b[0]
            if b[1] < hi: hi = b[1]
        return lo, hi
    def simple_iv(self, c, terms):
        lo = hi = c
        for s, k in terms:
            a, b = self.sb(s)
            if k < 0: a, b = b, a
            lo += a * k; hi += b * k
        return lo, hi
    def interval(self, v, depth=2):
        c, terms = v[1], v[2]
        if not terms: return c, c
        lo, hi = self.simple_iv(c, terms)
        if lo == hi: return lo, hi
        if len(terms) == 1 and terms[0][1] in (1, -1) and depth < 2: pass
        nt, f = norm_terms(terms)
        b = self.iv.get(nt)
        if b:
            a, z = b
            if f < 0: a, z = z, a
            if a not in (inf, -inf): lo = max(lo, c + f * a)
            if z not in (inf, -inf): hi = min(hi, c + f * z)
        if depth > 0 and len(terms) <= 6:
            ix = self.index()
            if ix:
                td = dict(terms); done = set(); mx = len(terms)
                for s0, k0 in terms:
                    for t in ix.get(s0, ()):
                        if t in done: continue
                        done.add(t)
                        for s, k in t:
                            if s in td: break
                        ks = td[s]
                        if ks % k: continue
                        m = ks // k
                        rem = dict(td)
                        for x, y in t:
                            n = rem.get(x, 0) - m * y
                            if n: rem[x] = n
                            else: del rem[x]
                        if len(rem) > mx: continue
                        rt = tuple(sorted(rem.items()))
                        if depth > 1 and len(rem) > 0: rl, rh = self.interval(('i', c, rt), depth - 1)
                        else:
                            rl, rh = self.simple_iv(c, rt)
                            if len(rt) > 1:
                                qn, qf = norm_terms(rt)
                                b = self.iv.get(qn)
                                if b:
                                    a, z = b
                                    if qf < 0: a, z = z, a
                                    if a not in (inf, -inf): rl = max(rl, c + qf * a)
                                    if z not in (inf, -inf): rh = min(rh, c + qf * z)
                        a, z = self.iv[t]
                        aa, zz = (a, z) if m > 0 else (z, a)
                        nl = rl + m * aa; nh = rh + m * zz
                        if nl == nl and nl > lo: lo = nl
                        if nh == nh and nh < hi: hi = nh
        return lo, hi
    def index(self):
        """symbol -> facts over several symbols that mention it"""
        ic = self._ic
        if ic is not None and ic[0] is self.iv and ic[1] == len(self.iv): return ic[2]
        ix = {}
        for t in self.iv:
            if len(t) > 1:
                for s, _ in t: ix.setdefault(s, []).append(t)
        self._ic = (self.iv, len(self.iv), ix)
        return ix
    def decide(self, c):
        if c is True or c is False: return c
        k = c[0]
        if k == 'le':
            if not c[2]: return c[1] <= 0
            lo, hi = self.interval(('i', c[1], c[2]))
            if hi <= 0: return True
            if lo > 0: return False
            if lo == 0 and self.isne(c[1], c[2]): return False
            return None
        if k in ('eq', 'ne'):
            if not c[2]: r = c[1] == 0
            else:
                lo, hi = self.interval(('i', c[1], c[2]))
                r = None
                if lo == hi == 0: r = True
                elif lo > 0 or hi < 0: r = False
                elif self.isne(c[1], c[2]): r = False
            if r is None: return None
            return r if k == 'eq' else not r
        r = self.atomval(c[1])
        if r is None: return None
        return r if c[2] else not r
    def isne(self, c, terms):
        nt, f = norm_terms(terms)
        return c % f == 0 and (nt, -(c // f)) in self.ne
    def atomval(self, a):
        r = self.lit.get(a)
        if r is not None: return r
        if a[0] in ('eq', 'ieq') :
            # at most one literal can equal a given string
            _, s, l = a
            for (k, v) in self.lit.items():
                if v and k[0] == 'eq' and k[1] == s:
                    return k[2] == l if a[0] == 'eq' else k[2].lower() == l.lower()
                if v and k[0] == 'ieq' and k[1] == s and k[2].lower() != l.lower(): return False
            if a[0] == 'eq' and self.lit.get(('ieq', s, l.lower() if isinstance(l, bytes) else l)) is False: return False
            ln = seglen(s)
            if isinstance(l, (bytes, str)):
                d = self.decide(('eq', ln[1] - len(l), ln[2]))
                if d is False: return False
                if d is True and len(l) == 0: return True
        return None
    def assume(self, c):
        """adds the condition; False when contradictory"""
        if c is True: return True
        if c is False: return False
        d = self.decide(c)
        if d is not None: return d
        k = c[0]
        if k == 'le': return self._bound(c[2], -inf, -c[1])
        if k == 'eq':
            return self._bound(c[2], -c[1], -c[1])
        if k == 'ne':
            nt, f = norm_terms(c[2])
            if c[1] % f == 0:
                x = -(c[1] // f)
                self.ne = self.ne | {(nt, x)}
                lo, hi = self.interval(('i', 0, nt))
                if lo == x: return self._bound(nt, x + 1, inf)
                if hi == x: return self._bound(nt, -inf, x - 1)
            return True
        self.lit[c[1]] = c[2]
        a = c[1]
        if a[0] in ('eq', 'ieq') and c[2] and isinstance(a[2], (bytes, str)):
            ln = seglen(a[1])
            return self.assume(('eq', ln[1] - len(a[2]), ln[2]))
        return True
    def _bound(self, terms, lo, hi):
        nt, f = norm_terms(terms)
        if f != 1:
            a = lo / f if lo in (inf, -inf) else lo; b = hi
            if f > 0:
                lo2 = -inf if lo == -inf else -((-lo) // f); hi2 = inf if hi == inf else hi // f
            else:
                g = -f
                lo2 = -inf if hi == inf else -(hi // g); hi2 = inf if lo == -inf else (-lo) // g
            lo, hi = lo2, hi2
        o = self.iv.get(nt, (-inf, inf))
        n = (max(o[0], lo), min(o[1], hi))
        # disequalities at the bounds
        for _ in range(4):
            if (nt, n[0]) in self.ne: n = (n[0] + 1, n[1])
            elif (nt, n[1]) in self.ne: n = (n[0], n[1] - 1)
            else: break
        if n[0] > n[1]: return False
        self.iv[nt] = n
        return True

# ---- strings -------------------------------------------------------------
INTMAX = 2**31 - 1
def seglen(g):
    k = g[0]
    if k in ('L',): return con(len(g[1]))
    if k == 'V': return g[3]
    if k == 'C': return ONE
    if k == 'U': return g[2]
    return sym(('len', g), 0, INTMAX)
def slen(v):
    t = ZERO
    for g in v[1]: t = add(t, seglen(g))
    return t
def mkstr(segs):
    out = []
    for g in segs:
        if g[0] == 'L':
            if not g[1]: continue
            if out and out[-1][0] == 'L': out[-1] = ('L', out[-1][1] + g[1]); continue
        elif g[0] == 'V':
            if g[3] == ZERO: continue
            if out and out[-1][0] == 'V' and out[-1][1] == g[1] and add(out[-1][2], out[-1][3]) == g[2]:
                out[-1] = ('V', g[1], out[-1][2], add(out[-1][3], g[3])); continue
        elif g[0] == 'C' and isconst(g[1]) and 0 <= g[1][1] < 256:
            b = bytes([g[1][1]])
            if out and out[-1][0] == 'L': out[-1] = ('L', out[-1][1] + b); continue
            out.append(('L', b)); continue
        out.append(g)
    return ('s', tuple(out))
def lit(b): return mkstr([('L', b)])
EMPTY = ('s', ())
def opaque_str(key): return ('s', (('S', key),))
def str_lit(v):
    """the literal value of a string or None"""
    if not v[1]: return b''
    if len(v[1]) == 1 and v[1][0][0] == 'L': return v[1][0][1]
    return None
