"""The merged, resolved program: functions by mangled name, callee table, records, enums, globals."""
import os
from .extract import extract_all, AnalysisBroken

class Fn:
    __slots__ = ('m', 'n', 'name', 'cls', 'file', 'line', 'endline', 'blocks', 'vars', 'ps', 'info', 'params', 'ret', 'unit', '_heads', 'labels')
    def __repr__(self): return 'Fn(%s)' % self.n

class Program:
    def __init__(self, units=None):
        self.units = units if units is not None else extract_all()
        self.fns = {}; self.callees = {}; self.records = {}; self.enums = {}; self.globals = {}
        self.by_name = {}
        for src, u in self.units.items():
            for n, r in u['records'].items(): self.records.setdefault(n, r)
            for n, r in u['enums'].items(): self.enums.setdefault(n, r)
            for n, r in u['globals'].items():
                if n not in self.globals or 'init' not in self.globals[n]: self.globals[n] = r
            for m, c in u['callees'].items(): self.callees.setdefault(m, c)
            for f in u['functions']:
                if f['m'] in self.fns: continue
                o = Fn(); o.m = f['m']; o.n = f['n']; o.name = f['name']; o.cls = f.get('cls'); o.file = f['file']; o.line = f['line']; o.endline = f['endline']
                o.blocks = f['blocks']; o.vars = f['vars']; o.ps = f['ps']; o.params = f['params']; o.ret = f['ret']; o.unit = src; o._heads = None; o.labels = f.get('labels') or {}
                o.info = f
                self.fns[o.m] = o
                self.by_name.setdefault(o.n, []).append(o)
                if o.m not in self.callees: self.callees[o.m] = {k: v for k, v in f.items() if k not in ('blocks', 'vars', 'ps')}
        # class hierarchy
        self.subs = {}
        for n, r in self.records.items():
            for b in r['bases']: self.subs.setdefault(b, set()).add(n)
        self.overriders = {}
        for m, c in self.callees.items():
            for o in c.get('overrides', []): self.overriders.setdefault(o, set()).add(m)
    # ---- hierarchy -------------------------------------------------------
    def bases(self, cls):
        out = []; todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in out: continue
            out.append(c)
            todo += self.records.get(c, {}).get('bases', [])
        return out
    def derives(self, cls, base): return base in self.bases(cls)
    def all_subs(self, cls):
        out = [cls]; i = 0
        while i < len(out):
            for s in sorted(self.subs.get(out[i], ())):
                if s not in out: out.append(s)
            i += 1
        return out
    def methods(self, cls, inherited=True):
        out = []
        for c in (self.bases(cls) if inherited else [cls]):
            for m in self.records.get(c, {}).get('methods', []):
                out.append((m, self.callees[m]))
        return out
    def resolve_virtual(self, m, cls):
        """the final overrider of virtual method m for dynamic class cls"""
        def overrides(x, seen=()):
            if x == m: return True
            return any(overrides(o) for o in self.callees.get(x, {}).get('overrides', []))
        for c in self.bases(cls):
            for x in self.records.get(c, {}).get('methods', []):
                if x == m or (self.callees[x].get('overrides') and overrides(x)):
                    return x
        return m
    def find(self, qname, nparams=None, optional=False):
        l = [f for f in self.by_name.get(qname, []) if nparams is None or len(f.params) == nparams]
        if not l:
            if optional: return None
            raise AnalysisBroken('anchor vanished: %s' % qname)
        return l[0]
    def find_all(self, qname): return list(self.by_name.get(qname, []))
    def heads(self, fn):
        """loop heads: targets of back edges"""
        if fn._heads is not None: return fn._heads
        heads = set(); color = {}
        stack = [(0, iter(self.succ(fn, 0)))]; color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 1: heads.add(s)
                elif s not in color:
                    color[s] = 1; stack.append((s, iter(self.succ(fn, s)))); break
            else:
                color[b] = 2; stack.pop()
        fn._heads = heads
        return heads
    def succ(self, fn, b):
        t = fn.blocks[b][-1]
        o = t['o']
        if o == 'jmp': return [t['t']]
        if o == 'br': return [t['t'], t['f']]
        if o == 'switch': return sorted(set([c[1] for c in t['cases']] + [t['def']]))
        return []
    def calls(self, fn):
        for bi, b in enumerate(fn.blocks):
            for ii, i in enumerate(b):
                if i['o'] in ('call', 'construct', 'basector') and 'f' in i:
                    yield i, self.callees[i['f']]
    def reachable_blocks(self, fn):
        seen = {0}; todo = [0]
        while todo:
            b = todo.pop()
            for s in self.succ(fn, b):
                if s not in seen: seen.add(s); todo.append(s)
        return seen
    def where(self, site, fn):
        """file and line of a call site (in whichever function it lies), or of fn"""
        if site is None: return self.loc(fn, fn.line)
        return self.loc(self.fns.get(site[0], fn), site.line)
    def loc(self, fn, line): return 'pillowcore/%s:%d' % (fn.file, line)
