"""Harness for component rules: runs one entry point of the program in the abstract interpreter from a generic state and
feeds the calls it makes, in path order, to the finite ghost state of a rule."""
from .dom import *
from .ai import Interp, strip, Budget, Site
from .monitor import Monitor
from .extract import AnalysisBroken

THIS = (('this',),)
def G(n): return (('G',), n)

class Rule(Monitor):
    """monitor with ghost cells kept in the abstract state (they take part in joins as exact values)"""
    def __init__(self, check): self.check = check
    @staticmethod
    def get(st, n, dflt=None):
        v = st.mem.get(G(n))
        return v[1] if v is not None else dflt
    @staticmethod
    def put(st, n, v): st.mem[G(n)] = ('gh', v)

class Harness:
    def __init__(self, prog, rule=None, max_steps=4_000_000, max_states=6000):
        self.P = prog; self.rule = rule
        self.I = Interp(prog, rule, max_steps=max_steps, max_states=max_states)
        self.I.noinline = {'thin_http_parser_execute', 'http_parser_execute', 'http_parser_parse_url'}
        self.I.partitions = 48; self.I.relate = True
        self.entries = 0; self.paths = 0; self.events = 0; self.inprecise = set()
    def observe(self, names, cb):
        """cb(I, st, ci, this, args, site) -> None (the call proceeds as usual) or [(state, value)]"""
        def mod(I, st, ci, this, args, site, m):
            self.events += 1
            return cb(I, st, ci, this, args, site)
        for n in names: self.I.overrides[n] = mod
    def seal(self, *classes):
        """the member functions of these classes are not entered: their calls are events"""
        for m, f in self.P.fns.items():
            if f.cls in classes and not f.info.get('ctor'): self.I.noinline.add(f.n)
    def arg(self, t, i):
        I = self.I
        k = I.kind(t)
        if k == 'ref': return ('p', (('r', 'arg%d' % i),))
        if k == 'ptr': return ('p', (('o', 'arg%d' % i),))
        return I.fresh(t, ('arg', i))
    def state(self, cls=None):
        st = State()
        st.mem[THIS] = ('agg', ('self',), ())
        if cls: st.mem[THIS + ('$class',)] = ('cls', cls)
        return st
    def run(self, fn, st=None, args=None, this=True, cls=None):
        """runs fn from st (generic by default); returns [(state, value)]"""
        I = self.I
        if st is None: st = self.state(cls or fn.cls)
        if args is None: args = [self.arg(t, i) for i, t in enumerate(fn.params)]
        self.entries += 1
        I.stack.append(fn.m)
        try: r = I.run(fn, st, ('p', THIS) if this else None, args)
        finally: I.stack.pop()
        self.paths += len(r)
        for s, _ in r: self.inprecise |= s.flags
        return r

def defs(fn):
    return {i['d']: i for b in fn.blocks for i in b if 'd' in i}
def origin(D, t):
    """the instruction a temporary comes from, through casts and decays"""
    i = D.get(t)
    while i is not None and i['o'] in ('cast', 'decay', 'deref', 'temp'):
        i = D.get(i.get('a', i.get('p', i.get('v'))))
    return i
def literal(D, t):
    i = origin(D, t)
    return i.get('v') if i is not None and i['o'] == 'const' and i.get('k') == 'str' else None
