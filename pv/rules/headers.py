"""Header collections (C14): look-ups by name and appending."""
from ..harness import *
from .. import models
from ..check import path_of
from .client import nested, element
from .network import text, whole, elem
COLL = 'Pillow::HttpHeaderCollection'
DEBUG = False

class R(Rule):
    def __init__(self, c, P, fn): self.check = c; self.P = P; self.fn = fn
    def bad(self, st, what, site=None): self.check.violation('%s %s' % (self.fn.n, what), self.P.where(site, self.fn), '%s %s' % (self.fn.n, what), path_of(st))

def collections(c, P):
    K = ('hdrs',); C, CUR, AT = G('done'), G('cur'), G('at')
    tot = dict(paths=0, compares=0, hits=0, misses=0, copies=0, collected=0, appends=0)
    def which(I, st, v):
        """(index, member) of the header a text is part of"""
        if v[0] == 'c': v = I.getstr(st, v[1])
        else: v = text(I, st, v)
        if v[0] != 's' or len(v[1]) != 1: return None
        e = element(v[1][0], K)
        return e if e and e[1] in ('first', 'second') else None
    names = ('getFieldValue', 'getFieldValues', 'testFieldValue')
    for fn in sorted((f for f in P.fns.values() if f.cls == COLL and f.name in names), key=lambda f: f.m):
        pt = [p.replace(' ', '') for p in fn.params]
        if pt not in (['constchar*', 'int'], ['constchar*', 'int', 'constchar*', 'int']) and not (len(pt) == 1 and 'LowerCaseToken' in pt[0]): continue
        rule = R(c, P, fn); h = Harness(P, rule, max_states=8000); I = h.I
        def touch(st, e, site):
            """the element the function looks at now: the one before is done with"""
            if st.decide(ceq(st.mem[CUR], e)) is True: return
            if st.decide(ceq(st.mem[C], e)) is not True:
                rule.bad(st, 'skips a header or looks at one twice', site); st.mem[C] = e
            st.mem[CUR] = e
            for g in ('first', 'second', 'out', 'taken', 'no:first', 'no:second'): Rule.put(st, g, None)
        def answer(st, e, member, t):
            if t: Rule.put(st, member, True)
            elif not Rule.get(st, 'out'): Rule.put(st, 'out', True); st.mem[C] = add(e, ONE)
        def wanted(I, st, k):
            """the name or value that is asked for: pointer and length"""
            if len(pt) == 1: return h.arg(fn.params[0], 0), None
            i = 0 if k == 'first' else 2
            return h.arg(fn.params[i], i), h.arg(fn.params[i + 1], i + 1)
        def compare(I, st, ci, this, args, site):
            e = which(I, st, args[0]); k = 0
            if e is None and len(args) > 1: 
                for k in range(1, len(args)):
                    e = which(I, st, args[k])
                    if e: break
            if e is None: return None
            tot['compares'] += 1; st.note('compare', 'line', site.line)
            touch(st, e[0], site)
            p, n = wanted(I, st, e[1]) if e[1] == 'first' or len(pt) == 4 else (None, None)
            mine = list(args[k:k + 2]) if args[k][0] == 'c' else [args[k]]
            other = [a for i, a in enumerate(args) if not k <= i < k + len(mine)]
            if len(mine) == 2 and not (mine[0][3] == ZERO and st.decide(ceq(mine[1], slen(I.getstr(st, mine[0][1])))) is True): rule.bad(st, 'compares only a part of a header', site)
            if not other or other[0] != p or n is not None and (len(other) < 2 or st.decide(ceq(other[1], n)) is not True): rule.bad(st, 'compares a header with something else than what it is asked for', site)
            if Rule.get(st, 'no:' + e[1]): return [(st, ('b', False))]
            out = []
            for s, t in I.split(st, ('at', ('same',) + st.fresh('same', tuple(site)), True)):
                answer(s, e[0], e[1], t); out.append((s, ('b', t)))
            return out
        h.observe(['Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive', 'qstricmp', 'qstrnicmp'], compare)
        def size(I, st, ci, this, args, site):
            if this is None or this[0] != 'p': return None
            e = which(I, st, this)
            if e is None or len(pt) == 1: return None
            touch(st, e[0], site)
            w = wanted(I, st, e[1])[1] if e[1] == 'first' or len(pt) == 4 else None
            if w is None: return None
            n = slen(I.getstr(st, this[1])); out = []
            for s, t in I.split(st, ceq(n, w)):
                if not t: answer(s, e[0], e[1], False); Rule.put(s, 'no:' + e[1], True)
                out.append((s, n))
            return out
        h.observe(['QByteArray::size', 'QByteArray::length', 'QByteArray::count'], size)
        def seq(I, st, op, loc, v, site):
            if op != 'append' or fn.name != 'getFieldValues': return
            e = which(I, st, v)
            tot['collected'] += 1
            if not e or e[1] != 'second' or st.decide(ceq(st.mem[CUR], e[0])) is not True or not Rule.get(st, 'first') or Rule.get(st, 'taken'): rule.bad(st, 'collects something else than the values of the name', site); return
            Rule.put(st, 'taken', True); st.mem[C] = add(e[0], ONE)
        rule.on_seq = seq
        rule.on_append = lambda I, st, loc, v, site: None
        st = h.state(COLL); st.mem[THIS] = ('agg', K, ()); n = sym('hdrs.n', 0, INTMAX); st.mem[THIS + ('$n',)] = n; st.mem[G('n')] = n
        st.mem[C] = ZERO; st.mem[CUR] = con(-1)
        for s, v in h.run(fn, st):
            tot['paths'] += 1
            all_ = s.decide(ceq(s.mem[C], n)) is True
            if fn.name == 'getFieldValue':
                e = which(I, s, v) if v[0] in ('p', 's') else None
                if e:
                    tot['hits'] += 1
                    if e[1] != 'second' or s.decide(ceq(s.mem[CUR], e[0])) is not True or not Rule.get(s, 'first'): rule.bad(s, 'returns the value of another header')
                elif not all_ or Rule.get(s, 'first') and not Rule.get(s, 'out'): rule.bad(s, 'finds nothing although it did not look at every header')
                else:
                    tot['misses'] += 1
            elif fn.name == 'testFieldValue':
                for s2, t in I.split(s, cne(v, ZERO) if v[0] == 'i' else v[1] if isinstance(v[1], tuple) else None) if not (v[0] == 'b' and isinstance(v[1], bool)) else [(s, v[1])]:
                    if t:
                        tot['hits'] += 1
                        if not (Rule.get(s2, 'first') and Rule.get(s2, 'second')) or Rule.get(s2, 'out'): rule.bad(s2, 'finds a header that does not have the name and value')
                    else:
                        tot['misses'] += 1
                        if s2.decide(ceq(s2.mem[C], n)) is not True: rule.bad(s2, 'does not look at every header')
            else:
                tot['hits'] += 1
                if not all_: rule.bad(s, 'does not collect the value of every header of the name')
        c.rules.append('%s(%s): %d paths' % (fn.n, ', '.join(fn.params), h.paths))
    # appending
    for fn in sorted((f for f in P.fns.values() if f.cls == COLL and f.name == 'operator+=' and 'QVector' in f.params[0]), key=lambda f: f.m):
        for alias in (False, True):
            rule = R(c, P, fn); h = Harness(P, rule); I = h.I
            I.models = dict(I.models); I.models.pop(COLL + '::operator+=', None)
            A = THIS if alias else (('r', 'arg0'),)
            old = sym('hdrs.n', 0, INTMAX); n = old if alias else sym('arg.n', 0, INTMAX)
            def begins(I, st, ci, this, args, site):
                if this is not None and this[0] == 'p' and this[1] == THIS and not Rule.get(st, 'grown'): Rule.put(st, 'early', True)
                return None
            h.observe(['QVector::%s' % x for x in ('begin', 'constBegin', 'cbegin', 'end', 'constEnd', 'cend', 'data', 'constData')] + [COLL + '::' + x for x in ('begin', 'constBegin', 'end', 'constEnd')], begins)
            def grow(I, st, ci, this, args, site):
                if this is not None and this[0] == 'p' and this[1] == THIS: Rule.put(st, 'grown', True)
                return None
            h.observe(['QVector::resize', COLL + '::resize', 'QVector::reserve', COLL + '::reserve'], grow)
            def seq(I, st, op, loc, v, site):
                if loc != THIS: return
                if op in ('resize', 'append', 'extend'): Rule.put(st, 'grown', True)
                if op == 'append':
                    tot['appends'] += 1; Rule.put(st, 'one', True); copy1(st, sub(models.csize(I, st, THIS), ONE), v, site)
                elif op == 'extend' and v == ('p', A): tot['copies'] += 2; st.mem[C] = add(st.mem[C], n) if st.decide(ceq(st.mem[C], ZERO)) is True else con(-1)
            rule.on_seq = seq
            def copy1(st, i, v, site):
                tot['copies'] += 1
                if DEBUG: print('COPY', i, v, st.mem[C], [(k, SYM.keys[k]) for k in syms_of(i)], alias)
                if Rule.get(st, 'early'): rule.bad(st, 'uses a pointer into the collection that its resize has invalidated', site)
                l = v[1] if v[0] == 'p' else None
                j = l[len(A)][1] if l is not None and l[:len(A)] == A and len(l) > len(A) and l[len(A)][0] == '[]' else None
                if v[0] == 'agg' and v[1][:2] == ('fld', K if alias else ('argh',)) and v[1][2][0] == '[]': j = v[1][2][1]
                m = st.mem[C]
                if j is None or st.decide(ceq(j, m)) is not True or st.decide(ceq(i, st.mem[AT])) is not True and st.decide(ceq(i, add(old, m))) is not True: rule.bad(st, 'does not append the headers in order', site)
                # the m-th header goes to the place m after the old end, so m < n keeps it inside
                if st.decide(clt(m, n)) is not True or st.decide(ceq(models.csize(I, st, THIS), add(old, n))) is not True and not Rule.get(st, 'one'): rule.bad(st, 'writes past the end of the collection', site)
                st.mem[C] = add(m, ONE); st.mem[AT] = add(st.mem[AT], ONE)
            def assign(I, st, ci, this, args, site):
                if this[0] != 'p' or this[1][:1] != THIS: return None
                l = this[1]
                if len(l) < 2 or l[1][0] != '[]': rule.bad(st, 'overwrites something else than its headers', site); return [(st, this)]
                copy1(st, l[1][1], args[0], site)
                return [(st, this)]
            h.observe(['Pillow::HttpHeader::operator='], assign)
            st = h.state(COLL); st.mem[THIS] = ('agg', K, ()); st.mem[THIS + ('$n',)] = old; st.mem[C] = ZERO; st.mem[G('n')] = n; st.mem[G('old')] = st.mem[AT] = old
            if not alias: st.mem[A] = ('agg', ('argh',), ()); st.mem[A + ('$n',)] = n
            st.assume(cle(add(old, n), con(INTMAX)))
            for s, v in h.run(fn, st, [('p', A)]):
                tot['paths'] += 1
                if s.decide(ceq(s.mem[C], n)) is not True: rule.bad(s, 'does not append every header%s' % (' of itself' if alias else ''))
                if s.decide(ceq(models.csize(I, s, THIS), add(old, n))) is not True and not (Rule.get(s, 'one') and s.decide(ceq(models.csize(I, s, THIS), s.mem[AT])) is True): rule.bad(s, 'ends with another number of headers')
                if v != ('p', THIS): rule.bad(s, 'does not return itself')
            c.rules.append('%s%s: %d paths' % (fn.n, ' (itself)' if alias else '', h.paths))
    c.need('paths', tot['paths'], 8); c.need('compares', tot['compares'], 4); c.need('hits', tot['hits'], 4); c.need('misses', tot['misses'], 3); c.need('collected', tot['collected'], 1); c.need('copies', tot['copies'], 2)
    c.assumptions += ['the comparison helper itself is exact', 'QVector as documented by Qt']
