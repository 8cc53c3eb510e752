"""The simple router (C21): first matching route in order, parameters bound to their captures, 404/405 exactly when due."""
from ..harness import *
from .. import models
from ..check import path_of
from ..dom import SYM
from .handlers import element
from .proxy import nested, find, same
CONN = 'Pillow::HttpConnection'; ROUTER = 'Pillow::HttpHandlerSimpleRouter'; ROUTE = 'Pillow::Route'
REQ = ('p', (('o', 'arg0'),))

class Router(Rule):
    def __init__(self, c, P, fn): self.check = c; self.P = P; self.fn = fn; self.asks = 0; self.invokes = 0; self.answers = 0; self.binds = 0
    def bad(self, st, what, site=None):
        self.check.violation('%s %s' % (self.fn.n, what), self.P.where(site, self.fn), '%s %s' % (self.fn.n, what), path_of(st))

def field(P, cls, t):
    f = [x['name'] for x in P.records[cls]['fields'] if x['type'].replace(' ', '') == t]
    if len(f) != 1: raise AnalysisBroken('anchor vanished: the %s of %s' % (t, cls))
    return f[0]

NEXT, BOUND, CUR, LISTED, MATCHES, MLEN, NAMES = [G(x) for x in ('next route', 'bound', 'current route', 'listed', 'matches', 'method length', 'names')]

def route_of(v):
    """location of the route object a pointer leads to, up to (not including) a member"""
    return v

def handle(c, P, tot):
    fmethod, fregexp, fnames = field(P, ROUTE, 'QByteArray'), field(P, ROUTE, 'QRegExp'), field(P, ROUTE, 'QStringList')
    fflag = field(P, ROUTER + 'Private', 'bool')
    for fn in [f for f in P.fns.values() if f.cls == ROUTER and f.name == 'handleRequest']:
        rule = Router(c, P, fn); h = Harness(P, rule, max_states=8000); I = h.I
        h.seal(CONN, 'Pillow::HttpConnectionPrivate')
        METHOD = opaque_str('request method'); PATH = opaque_str('request path'); PARAM = opaque_str('method parameter')
        def text(st, v): return I.getstr(st, v[1]) if v[0] == 'p' else v
        def ask(I, st, ci, this, args, site):
            # the name of the parameter is compared by the caller of this rule (C16 covers the table itself)
            if not flagged(st): rule.bad(st, 'asks for the method parameter although it is not accepted', site)
            out = []
            for s, e in I.split(st, ceq(slen(PARAM), ZERO)):
                Rule.put(s, 'method', 'request method' if e else 'method parameter'); out.append((s, PARAM))
            return out
        def flagged(st): return any(v is True and nested(k, fflag) for k, v in st.lit.items())
        h.observe([CONN + '::requestMethod'], lambda I, st, ci, this, args, site: [(st, ('p', (('r', 'reqmethod'),)))])
        h.observe([CONN + '::requestPath'], lambda I, st, ci, this, args, site: [(st, ('p', (('r', 'reqpath'),)))])
        h.observe([CONN + '::requestPathDecoded'], lambda I, st, ci, this, args, site: [(st, ('p', (('r', 'reqpath'),)))])
        h.observe([CONN + '::requestParamValue'], ask)
        h.observe(['QUrl::fromPercentEncoding', 'QByteArray::fromPercentEncoding'], lambda I, st, ci, this, args, site: [(st, opaque_str(('decoded', text(st, args[0]))))])
        conv = lambda I, st, ci, this, args, site: [(st, text(st, this))] if this[0] == 'p' and I.getstr(st, this[1]) in (PARAM, METHOD) else None
        h.observe(['QString::toAscii', 'QString::toLatin1', 'QString::toUtf8', 'QByteArray::toUpper', 'QByteArray::toLower'], conv)
        def settle(st, site):
            """the route looked at last was passed over: that must have been right"""
            cur = st.mem[CUR]
            if cur[0] != 'p' or Rule.get(st, 'matched') is not True or Rule.get(st, 'invoked'): return
            if Rule.get(st, 'any method'): return rule.bad(st, 'passes over a route that matches the request', site)
            if Rule.get(st, 'meq') is False: return
            rule.bad(st, 'passes over a route that matches the request', site)
        def match(I, st, ci, this, args, site):
            if this[0] != 'p' or this[1][-1] != fregexp: return None
            rule.asks += 1
            r = ('p', this[1][:-1])
            e = element(r)
            settle(st, site)
            nxt = st.mem[NEXT]
            if e is None or st.decide(ceq(e[1], nxt)) is not True: rule.bad(st, 'skips a route or looks at the routes out of order', site)
            st.mem[NEXT] = add(nxt, ONE); st.mem[CUR] = r; st.mem[BOUND] = ZERO; Rule.put(st, 'meq', None)
            s = text(st, args[0])
            if not nested(s, 'request path') or not nested(s, 'decoded'): rule.bad(st, 'matches something else than the decoded path', site)
            a = sym(('match', st.fresh('match', tuple(site))), -1, INTMAX)
            out = []
            st.mem[MLEN] = slen(I.getstr(st, r[1] + (fmethod,))); st.mem[NAMES] = models.csize(I, st, r[1] + (fnames,)); Rule.put(st, 'any method', None)
            for s0, e in I.split(st, ceq(st.mem[MLEN], ZERO)):
              Rule.put(s0, 'any method', e)
              for s1, t in I.split(s0, cle(ZERO, a)):
               for s1, q in I.split(s1, ceq(st.mem[MLEN], slen(PARAM if Rule.get(st, 'method') == 'method parameter' else METHOD))) if t and not e else [(s1, None)]:
                if q is False: Rule.put(s1, 'meq', False)
                Rule.put(s1, 'matched', t); s1.note('route matches' if t else 'route does not match', 'line', site.line)
                if not t: Rule.put(s1, 'any method', None)
                if t: Rule.put(s1, 'any', True); s1.mem[MATCHES] = add(s1.mem[MATCHES], ONE)
                out.append((s1, a))
            return out
        def of(this, f, st): return this is not None and this[0] == 'p' and st.mem[CUR][0] == 'p' and this[1][-1] == f and same(st, ('p', this[1][:-1]), st.mem[CUR])
        def measure(f, cell, empty):
            def g(I, st, ci, this, args, site):
                if not of(this, f, st): return None
                v = st.mem[cell]
                if not empty: return [(st, v)]
                return [(s1, ('b', t)) for s1, t in I.split(st, ceq(v, ZERO))]
            return g
        for f, cell, cls in ((fmethod, MLEN, ('QByteArray',)), (fnames, NAMES, ('QStringList', 'QList'))):
            for k in ('size', 'count', 'length'): h.observe([x + '::' + k for x in cls], measure(f, cell, False))
            h.observe([x + '::isEmpty' for x in cls], measure(f, cell, True))
        h.observe(['QRegExp::indexIn'], match)
        def exact(I, st, ci, this, args, site):
            r = match(I, st, ci, this, args, site)
            return None if r is None else [(s, ('b', Rule.get(s, 'matched'))) for s, v in r]
        h.observe(['QRegExp::exactMatch'], exact)
        def icmp(I, st, ci, this, args, site):
            def key(v):
                return v
            cur = st.mem[CUR]
            vals = [I.cstr(st, a) if hasattr(I, 'cstr') else a for a in args[:2]]
            rt = [cur[0] == 'p' and (a[0] in ('c', 'p') and nested(a, fmethod) or nested(v, fmethod)) for a, v in zip(args, vals)]
            out = []
            a = sym(('icmp', st.fresh('icmp', tuple(site))), -(2**31), INTMAX)
            for s1, t in I.split(st, ceq(a, ZERO)):
                if any(rt) and Rule.get(s1, 'meq') is not False: Rule.put(s1, 'meq', t)
                out.append((s1, a))
            return out
        h.observe(['qstricmp'], icmp)
        def cap(I, st, ci, this, args, site):
            if this[0] != 'p' or this[1][-1] != fregexp: return None
            return [(st, opaque_str(('cap', this[1][:-1], args[0] if args else ZERO)))]
        h.observe(['QRegExp::cap'], cap)
        def bind(I, st, ci, this, args, site):
            rule.binds += 1
            if this != REQ: rule.bad(st, 'binds a parameter of something else than the request', site)
            n, v = text(st, args[0]), text(st, args[1]); cur = st.mem[CUR]
            if Rule.get(st, 'matched') is not True: rule.bad(st, 'binds parameters for a route that does not match', site)
            i = find(n, fnames) if nested(n, fnames) else None
            k = None
            for g in v[1] if v[0] == 's' else ():
                if g[0] == 'S' and isinstance(g[1], tuple) and g[1][0] == 'cap': k = g[1][2]
            if i is None or k is None or st.decide(ceq(add(i, ONE), k)) is not True: rule.bad(st, 'binds a parameter to something else than its own capture', site)
            elif st.decide(ceq(i, st.mem[BOUND])) is True: st.mem[BOUND] = add(i, ONE)
            else: rule.bad(st, 'skips a parameter of the route', site)
            return [(st, ('void',))]
        h.observe([CONN + '::setRequestParam'], bind)
        def answer(I, st, ci, this, args, site):
            rule.answers += 1; st.note(ci['name'], 'line', site.line)
            if this != REQ: rule.bad(st, 'answers something else than the request', site)
            settle(st, site)
            size = models.csize(I, st, Rule.get(st, 'list')) if Rule.get(st, 'list') else None
            code = args[0]
            if Rule.get(st, 'invoked'): rule.bad(st, 'answers a request it gave to a route', site)
            any_ = bool(Rule.get(st, 'any'))
            if code == con(404):
                if any_: rule.bad(st, 'answers 404 although a route matches the path', site)
            elif code == con(405):
                if not any_: rule.bad(st, 'answers 405 although no route matches the path', site)
                if not Rule.get(st, 'allow'): rule.bad(st, 'answers 405 without telling the allowed methods', site)
                elif st.decide(ceq(st.mem[LISTED], st.mem[MATCHES])) is not True: rule.bad(st, 'does not list the method of every route that matches the path', site)
            else: rule.bad(st, 'answers with another status than 404 or 405 by itself', site)
            Rule.put(st, 'answered', True)
            return [(st, ('void',))]
        h.observe([CONN + '::' + x for x in ('writeResponse', 'writeResponseString', 'writeHeaders')], answer)
        def on_seq(I, st, op, loc, v, site):
            if op != 'append': return
            w = text(st, v) if v[0] in ('p', 's') and not (v[0] == 'p' and v == st.mem[CUR]) else None
            if w is not None and w[0] == 's' and nested(w, fmethod): st.mem[LISTED] = add(st.mem[LISTED], ONE)
            if v[0] == 'agg' and any(k == ('first',) and str_lit(x) is not None and str_lit(x).lower() == b'allow' for k, x in v[2]): Rule.put(st, 'allow', True)
        rule.on_seq = on_seq
        def grow(I, st, ci, this, args, site):
            if this is not None and this[0] == 'p' and args and not nested(this, 'self'):
                v = text(st, args[0]) if args[0][0] in ('p', 's') else None
                if v is not None and v[0] == 's' and nested(v, fmethod) and not isinstance(str_lit(v), bytes):
                    st.mem[LISTED] = add(st.mem[LISTED], ONE)
            return None
        h.observe(['QByteArray::append', 'QByteArray::operator+=', 'QByteArray::push_back'], grow)
        def virt(I, st, m, ci, th, args, site):
            if not P.derives(ci['cls'], ROUTE) and ci['cls'] != ROUTE: return None
            if ci['name'] != 'invoke': return None
            rule.invokes += 1
            cur = st.mem[CUR]
            if Rule.get(st, 'invoked'): rule.bad(st, 'gives the request to two routes', site)
            if Rule.get(st, 'answered'): rule.bad(st, 'gives a request it answered to a route', site)
            if not args or args[0] != REQ: rule.bad(st, 'invokes a route with something else than the request', site)
            if cur[0] != 'p' or not same(st, cur, th): rule.bad(st, 'invokes another route than the one that matches', site)
            else:
                if Rule.get(st, 'matched') is not True: rule.bad(st, 'invokes a route whose path does not match', site)
                if Rule.get(st, 'meq') is not True and not Rule.get(st, 'any method'): rule.bad(st, 'invokes a route whose method does not match', site)
                if st.decide(ceq(st.mem[NAMES], st.mem[BOUND])) is not True: rule.bad(st, 'invokes a route before all of its parameters are bound', site)
            Rule.put(st, 'invoked', True); st.note('invoke', 'line', site.line)
            b = st.copy()
            return [(st, ('b', True)), (b, ('b', False))]
        rule.on_virtual = virt
        st = h.state(fn.cls)
        st.mem[(('r', 'reqmethod'),)] = METHOD; st.mem[(('r', 'reqpath'),)] = PATH
        for l in (NEXT, BOUND, LISTED, MATCHES, MLEN, NAMES): st.mem[l] = ZERO
        st.mem[CUR] = ('n',); Rule.put(st, 'matched', None); Rule.put(st, 'meq', None)
        for s, v in h.run(fn, st):
            tot['paths'] += 1
            if not Rule.get(s, 'answered'): settle(s, None)
        tot['asks'] += rule.asks; tot['invokes'] += rule.invokes; tot['answers'] += rule.answers; tot['binds'] += rule.binds
        c.rules.append('%s: %d paths' % (fn.n, h.paths))

def adding(c, P, tot):
    """every addRoute makes one route of exactly what it was given"""
    fmethod, fregexp, fnames = field(P, ROUTE, 'QByteArray'), field(P, ROUTE, 'QRegExp'), field(P, ROUTE, 'QStringList')
    froutes = [f['name'] for f in P.records[ROUTER + 'Private']['fields'] if ROUTE in f['type'] and f['type'].rstrip(' >').endswith('*')]
    for fn in [f for f in P.fns.values() if f.cls == ROUTER and f.name == 'addRoute']:
        rule = Router(c, P, fn); h = Harness(P, rule, max_states=4000); I = h.I
        st = h.state(fn.cls); args = [h.arg(t, i) for i, t in enumerate(fn.params)]
        ipath = next((i for i, t in enumerate(fn.params) if 'QString' in t), None)
        if ipath is None: raise AnalysisBroken('anchor vanished: the path of %s' % fn.n)
        METHOD = I.getstr(st, args[0][1]) if ipath == 1 else ('s', ())
        def compile(I, st, ci, this, a, site):
            if nested(a[0], 'arg%d' % ipath): Rule.put(st, 'compiled', a[1] if len(a) > 1 else None)
            else: rule.bad(st, 'compiles something else than the path of the route', site)
            return [(st, ('agg', ('compiled path',), ()))]
        h.observe([f.n for f in P.fns.values() if f.name == 'pathToRegExp'], compile)
        def look(I, st, ci, this, a, site):
            i = sym(('method index', st.fresh('method index', tuple(site))), -1, INTMAX); out = []
            for s, t in I.split(st, cle(ZERO, i)):
                s.note(ci['name'] + (' finds the member' if t else ' finds nothing'), 'line', site.line)
                if t: s.mem[G('index')] = i; Rule.put(s, 'found', True)
                out.append((s, i))
            return out
        h.observe(['QMetaObject::' + x for x in ('indexOfSlot', 'indexOfMethod', 'indexOfSignal')], look)
        def assign(I, st, ci, this, a, site):
            st.mem[this[1]] = ('agg', ('copy', st.mem.get(a[0][1], a[0]) if a[0][0] == 'p' else a[0]), ()); return [(st, this)]
        h.observe(['QRegExp::operator=', 'std::function::operator=', 'QRegExp::swap'], assign)
        def take(I, st, ci, this, a, site):
            if Rule.get(st, 'found') and st.decide(ceq(a[0], st.mem[G('index')])) is True: Rule.put(st, 'meta', True)
            else: rule.bad(st, 'takes a method of the object that was not looked up for the route', site)
            return [(st, ('agg', ('meta method',), ()))]
        h.observe(['QMetaObject::method'], take)
        def on_seq(I, st, op, loc, v, site):
            if op != 'append' or loc[-1] not in froutes: return
            tot['added'] += 1
            if Rule.get(st, 'added'): return rule.bad(st, 'adds two routes at once', site)
            Rule.put(st, 'added', True); st.note('append', 'line', site.line)
            if v[0] != 'p': return rule.bad(st, 'adds no route', site)
            o = v[1]
            if I.getstr(st, o + (fmethod,)) != METHOD: rule.bad(st, 'adds a route with another method', site)
            x = st.mem.get(o + (fregexp,))
            if x is None or not nested(x, 'compiled path'): rule.bad(st, 'adds a route with another path', site)
            if Rule.get(st, 'compiled') != ('p', o + (fnames,)): rule.bad(st, 'adds a route without the names of its parameters', site)
            held = [(l, w) for l, w in st.mem.items() if l[:len(o)] == o and len(l) > len(o) and l[len(o)] not in (fmethod, fregexp, fnames)]
            for i, t in enumerate(fn.params[ipath + 1:], ipath + 1):
                if t.replace(' ', '') == 'constchar*':
                    if Rule.get(st, 'found') and not Rule.get(st, 'meta'): rule.bad(st, 'adds a route that does not call the method that was found', site)
                    if not Rule.get(st, 'found') and not any(nested(w, 'arg%d' % i) for l, w in held): rule.bad(st, 'adds a route without the member it calls', site)
                    continue
                ok = any(w == args[i] or nested(w, 'arg%d' % i) for l, w in held)
                if not ok: rule.bad(st, 'adds a route without what argument %d gives' % (i + 1), site)
        rule.on_seq = on_seq
        for s, v in h.run(fn, st, args):
            tot['paths'] += 1
            if Rule.get(s, 'added'): continue
            if any(b is True and isinstance(k, tuple) and k and k[0] == 'null' and any(nested(k, 'arg%d' % i) for i in range(ipath + 1, len(fn.params))) for k, b in s.lit.items()): continue
            if any(lo == hi == 0 and len(t) == 1 and any(nested(SYM.keys[t[0][0]], 'arg%d' % i) for i in range(ipath + 1, len(fn.params))) for t, (lo, hi) in s.iv.items()): continue      # an empty member
            rule.bad(s, 'adds no route')
        c.rules.append('%s(%s): %d paths' % (fn.n, ', '.join(fn.params), h.paths))

def naming(c, P, tot):
    """the names of the parameters are in the order of the groups that capture them; the whole path has to match"""
    for fn in [f for f in P.fns.values() if f.cls == ROUTER and f.name == 'pathToRegExp']:
        rule = Router(c, P, fn); h = Harness(P, rule, max_states=4000); I = h.I
        LAST, AT, COUNT = G('last'), G('at'), G('named')
        def find_(I, st, ci, this, a, site):
            frm = a[1] if len(a) > 1 else ZERO
            p = sym(('found', st.fresh('found', tuple(site))), -1, INTMAX); out = []
            for s, t in I.split(st, cle(ZERO, p)):
                if t: s.assume(cle(frm, p)); s.mem[AT] = p
                s.note('parameter found' if t else 'no parameter left', 'line', site.line)
                out.append((s, p))
            return out
        h.observe(['QRegExp::indexIn'], find_)
        h.observe(['QRegExp::matchedLength'], lambda I, st, ci, this, a, site: [(st, sym(('matched length', st.fresh('mlen', tuple(site))), 1, INTMAX))])
        h.observe(['QRegExp::cap'], lambda I, st, ci, this, a, site: [(st, opaque_str(('capture', st.fresh('capture', tuple(site)))))])
        def on_seq(I, st, op, loc, v, site):
            if op != 'append': return
            x = I.getstr(st, v[1]) if v[0] == 'p' else v
            if not nested(x, 'capture'): return
            tot['names'] += 1
            if st.decide(cle(st.mem[LAST], st.mem[AT])) is not True: rule.bad(st, 'names a parameter out of the order of the groups', site)
            st.mem[LAST] = st.mem[AT]; st.mem[COUNT] = add(st.mem[COUNT], ONE)
        rule.on_seq = on_seq
        def make(I, st, ci, this, a, site):
            t = None
            if a and a[0][0] in ('p', 's'):
                t = I.getstr(st, a[0][1]) if a[0][0] == 'p' and ci['params'] and 'QString' in ci['params'][0] else a[0] if a[0][0] == 's' else None
            whole = bool(t and t[0] == 's' and t[1] and t[1][0][0] == 'L' and t[1][0][1].startswith(b'^') and t[1][-1][0] == 'L' and t[1][-1][1].endswith(b'$'))
            v = ('agg', ('regexp', whole) if t is not None else ('other regexp',), ())
            if t is None and a and a[0][0] == 'p': v = st.mem.get(a[0][1], v)
            if this is not None and this[0] == 'p': st.mem[this[1]] = v
            return [(st, v)]
        h.observe(['QRegExp::QRegExp'], make)
        st = h.state(); args = [h.arg(t, i) for i, t in enumerate(fn.params)]
        for l in (LAST, AT, COUNT): st.mem[l] = ZERO
        for s, v in h.run(fn, st, args, this=not fn.info.get('static')):
            tot['paths'] += 1
            if v[0] == 'p': v = s.mem.get(v[1], v)
            if not nested(v, ('regexp', True)): rule.bad(s, 'makes an expression that does not have to match the whole path')
            out = args[1][1]
            if s.decide(('at', ('null', out), False)) is not True: continue
            if s.decide(ceq(models.csize(I, s, out), s.mem[COUNT])) is not True: rule.bad(s, 'does not give the names of all parameters')
        c.rules.append('%s: %d paths' % (fn.n, h.paths))

def routing(c, P):
    tot = dict(paths=0, asks=0, invokes=0, answers=0, binds=0, added=0, names=0)
    handle(c, P, tot)
    adding(c, P, tot)
    naming(c, P, tot)
    c.need('parameter_names', tot['names'], 1)
    c.need('routes_added', tot['added'], 3)
    c.need('paths', tot['paths'], 4); c.need('matches', tot['asks'], 1); c.need('invokes', tot['invokes'], 1); c.need('own_answers', tot['answers'], 2); c.need('bindings', tot['binds'], 1)
