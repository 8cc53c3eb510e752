"""Definite initialisation of data members."""
from ..harness import *

SCALAR = ('int', 'bool', 'ptr', 'enumq', 'float')
class Undef(Rule):
    def __init__(self, check, P): self.check = check; self.P = P; self.seen = set()

def members(P, I, cls, seen=()):
    """scalar members of a project class, inherited ones included"""
    out = []
    for b in P.bases(cls):
        if b.startswith('Q'): continue
        for f in P.records.get(b, {}).get('fields', []):
            if I.kind(f['type']) in SCALAR and not f.get('static'): out.append((b, f['name']))
    return out

def ours(P, n):
    r = P.records.get(n)
    return r is not None and n.startswith('Pillow::')

def initialised(c, P):
    h = Harness(P, Rule(c), max_states=4000)
    I = h.I
    nobj = 0; nmem = 0; nctor = 0; nmeth = 0; checked = set()
    def inspect(s, root, cls, fn, what):
        nonlocal nobj, nmem
        nobj += 1
        for b, f in members(P, I, cls):
            v = s.mem.get(root + (f,))
            nmem += 1
            if v is None:
                k, rest, subs = I.aggkey(s, root + (f,))
                bad = k is None
            else: bad = v == ('undef',)
            checked.add((b, f))
            if bad: c.violation('%s::%s' % (b, f), P.loc(fn, fn.line), 'member %s of class %s has no value %s' % (f, b, what))
    classes = [n for n in sorted(P.records) if ours(P, n)]
    public = [n for n in classes if P.records[n].get('file', '').endswith('.h')]
    def alloc(s, fn):
        for l, v in list(s.mem.items()):
            if len(l) == 2 and l[1] == '$class' and l[0][0] == 'new' and v[0] == 'cls' and ours(P, v[1]) and members(P, I, v[1]):
                inspect(s, l[:1], v[1], fn, 'when %s returns the object it allocated' % fn.n)
    for n in classes:
        ctors = [f for f in P.fns.values() if f.cls == n and f.info.get('ctor') and not f.info.get('copy') and not f.info.get('implicit')]
        if n.endswith('Private') or (n in public and n not in ('Pillow::HttpHeaderRef',)) or P.derives(n, 'QObject'):
            for f in ctors:
                if n.endswith('Private') and not any(True for _ in ctors): continue
                st = h.state(n); st.mem[THIS] = ('undef',)
                nctor += 1
                for s, _ in h.run(f, st):
                    if n in public: inspect(s, THIS, n, f, 'after construction')
                    alloc(s, f)
    # objects allocated by ordinary functions
    for m, f in sorted(P.fns.items()):
        if f.info.get('ctor') or not f.file.endswith(('.cpp', '.h')): continue
        news = [i for b in f.blocks for i in b if i['o'] == 'new' and ours(P, strip(i['t'])) and members(P, I, strip(i['t']))]
        if not news: continue
        nmeth += 1
        h2 = Harness(P, Rule(c), max_states=6000)
        h2.seal(*[x for x in ('Pillow::HttpConnection', 'Pillow::HttpConnectionPrivate', 'Pillow::HttpClient', 'Pillow::HttpHandler') if x != f.cls])
        for s, _ in h2.run(f): alloc(s, f)
    c.need('constructors', nctor, 25); c.need('allocating_functions', nmeth, 5); c.need('members', len(checked), 25)
    c.cov['objects_inspected'] = nobj; c.cov['member_states'] = nmem
    for b, f in sorted(checked): c.rules.append('%s::%s' % (b, f))
    c.assumptions.append('classes of Qt and zlib initialise their own members')
