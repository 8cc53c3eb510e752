"""Request handlers: the handled/not-handled contract, the stack, file containment and transfer."""
from ..harness import *
from .. import models
from ..check import path_of

CONN = 'Pillow::HttpConnection'
STARTS = ('writeResponse', 'writeResponseString', 'writeHeaders')

class Resp(Rule):
    """counts, per path, how often the current request was answered or handed over"""
    def __init__(self, c, P, key): self.check = c; self.P = P; self.key = key; self.calls = 0
    def hit(self, st, what, site):
        self.calls += 1
        n = Rule.get(st, 'answers', 0)
        Rule.put(st, 'answers', min(n + 1, 2)); st.note(what, 'line', site.line)
    def on_virtual(self, I, st, m, ci, th, args, site):
        if ci['name'] == 'handleRequest' and self.P.derives(ci['cls'], 'Pillow::HttpHandler'):
            b = st.copy()
            self.hit(st, 'handler accepts the request', site)
            return [(st, ('b', True)), (b, ('b', False))]
        if ci['name'] == 'invoke':
            b = st.copy()
            self.hit(st, 'route accepts the request', site)
            return [(st, ('b', True)), (b, ('b', False))]
        return None

def sealed(P, c, fn, rule):
    h = Harness(P, rule, max_states=8000)
    h.seal(CONN, 'Pillow::HttpConnectionPrivate', 'Pillow::HttpHandlerFileTransfer', 'Pillow::HttpHandlerProxyPipe', 'Pillow::ElasticNetworkAccessManager', 'Pillow::HttpClient')
    return h

def concrete(P):
    out = []
    for cls in P.all_subs('Pillow::HttpHandler'):
        for m, ci in P.methods(cls, inherited=False):
            if ci['name'] == 'handleRequest' and m in P.fns: out.append((cls, P.fns[m]))
    return out

def contract(c, P):
    n = 0; paths = 0; calls = 0
    fns = concrete(P)
    fns += [(f.cls, f) for m, f in sorted(P.fns.items()) if f.name == 'invoke' and f.cls and f.params == ['Pillow::HttpConnection *'] and f.ret == 'bool']
    for cls, fn in fns:
        n += 1
        rule = Resp(c, P, cls)
        h = sealed(P, c, fn, rule)
        # a handler that calls its base class' implementation is analysed through it
        def start(I, st, ci, this, args, site):
            rule.hit(st, ci['name'], site); return None
        def void(I, st, ci, this, args, site):
            rule.hit(st, ci['name'], site); return [(st, I.fresh(ci['ret'], st.fresh('r', tuple(site))))]
        h.observe([CONN + '::' + x for x in STARTS], void)
        h.observe(['std::function::operator()'], void)
        def script(I, st, ci, this, args, site):
            rule.hit(st, 'script', site); Rule.put(st, 'script', True)
            return None
        h.observe(['QScriptValue::call'], script)
        def iserror(I, st, ci, this, args, site):
            if not Rule.get(st, 'script'): return None
            b = st.copy(); Rule.put(b, 'answers', 0); Rule.put(b, 'failed', True)
            return [(st, ('b', False)), (b, ('b', True))]
        h.observe(['QScriptValue::isError'], iserror)
        def state(I, st, ci, this, args, site):
            k = I.P.enums[CONN + '::State']['vals']['SendingHeaders']
            v = I.fresh(ci['ret'], ('connstate', st.mem.get(G('answers'))))
            out = []
            for s, eq in I.split(st, ceq(v, con(k))):
                if Rule.get(s, 'failed') and not eq: Rule.put(s, 'answers', 1)      # the script had answered before it failed
                Rule.put(s, 'head', eq); out.append((s, v))
            return out
        h.observe([CONN + '::state'], state)
        def meta(I, st, ci, this, args, site):
            b = st.copy(); rule.hit(st, ci['name'], site)
            return [(st, ('b', True)), (b, ('b', False))]
        h.observe(['QMetaObject::invokeMethod', 'QMetaMethod::invoke'], meta)
        # proxy: the pipe object carries the reply over to the connection
        base = h.I.new
        def new(s, I, T, site):
            t = strip(I['t'])
            if P.derives(t, 'Pillow::HttpHandlerProxyPipe'): rule.hit(s, 'pipe', site)
            return base(s, I, T, site)
        h.I.new = new
        def pipe(I, st, ci, this, args, site):
            rule.hit(st, 'pipe', site)
            return [(st, I.fresh(ci['ret'], st.fresh('pipe', tuple(site))))]
        h.observe(['Pillow::HttpHandlerProxy::createPipe'], pipe)
        st = h.state(cls)
        args = [h.arg(t, i) for i, t in enumerate(fn.params)]
        st.lit[('null', args[0][1])] = False
        for s, v in h.run(fn, st, args):
            paths += 1
            for s2, t in h.I.split(s, h.I.cond(v)):
                k = Rule.get(s2, 'answers', 0)
                if s2.flags: c.count('unresolved_paths'); continue
                if Rule.get(s2, 'script') and not Rule.get(s2, 'failed'): continue          # the script decides
                if k > 1: c.violation('%s twice' % fn.n, P.loc(fn, fn.line), '%s answers or hands over the same request more than once' % fn.n, path_of(s2))
                elif t and k == 0: c.violation('%s silent' % fn.n, P.loc(fn, fn.line), '%s reports the request as handled on a path where nothing answers it' % fn.n, path_of(s2))
                elif not t and k: c.violation('%s reopened' % fn.n, P.loc(fn, fn.line), '%s reports the request as not handled after it was answered or handed over' % fn.n, path_of(s2))
        calls += rule.calls
        c.rules.append('%s: %d paths' % (fn.n, h.paths))
    c.need('handlers', n, 12); c.need('paths', paths, 25); c.cov['answer_sites'] = calls
    c.assumptions.append('functions, scripts and routes given by the application answer the requests they accept')

# ---- C20: the stack -------------------------------------------------------------------------------------------------
def element(v):
    """(list key, index) of a pointer loaded from a container"""
    if v[0] == 'p' and len(v[1]) == 1 and isinstance(v[1][0], tuple) and v[1][0][0] == 'o':
        k = v[1][0][1]
        while isinstance(k, tuple) and k and k[0] in ('qptr', 'val'): k = k[1]
        if isinstance(k, tuple) and k and isinstance(k[-1], tuple) and len(k[-1]) == 2 and k[-1][0] == '[]': return k[:-1], k[-1][1]
    return None

class Chain(Rule):
    """children are asked in order, each once, until the first that accepts"""
    def __init__(self, c, P, fn): self.check = c; self.P = P; self.fn = fn; self.visits = 0; self.asked = 0
    def bad(self, st, what, site):
        self.check.violation('%s %s' % (self.fn.n, what), '%s:%s' % (self.fn.file, site.line) if hasattr(self.fn, 'file') else self.P.loc(self.fn, site.line), what, path_of(st))
    def visit(self, I, st, v, site):
        """the element the traversal has reached"""
        e = element(v)
        if e is None: return None
        self.visits += 1
        nxt = st.mem.get(G('next'), ZERO)
        if st.decide(ceq(e[1], nxt)) is True: st.mem[G('next')] = add(nxt, ONE); Rule.put(st, 'askedit', False)
        elif st.decide(ceq(add(e[1], ONE), nxt)) is True: pass                   # looked at again
        else: self.bad(st, 'a handler is skipped or asked out of order', site)
        return e
    def on_virtual(self, I, st, m, ci, th, args, site):
        if ci['name'] != 'handleRequest': return None
        self.asked += 1
        e = self.visit(I, st, th, site)
        if e is None: self.bad(st, 'a handler that is not the next child is asked', site)
        if Rule.get(st, 'accepted'): self.bad(st, 'a handler is asked after another accepted the request', site)
        if Rule.get(st, 'askedit'): self.bad(st, 'a handler is asked twice about the same request', site)
        if not args or args[0] != ('p', (('o', 'arg0'),)): self.bad(st, 'a handler is asked about something else than the request', site)
        Rule.put(st, 'askedit', True)
        b = st.copy()
        Rule.put(st, 'accepted', True); st.note('handler accepts', 'line', site.line); b.note('handler declines', 'line', site.line)
        return [(st, ('b', True)), (b, ('b', False))]

def stack(c, P):
    n = 0
    for cls in [x for x in P.all_subs('Pillow::HttpHandler') if x.endswith('Stack')]:
        for m, ci in P.methods(cls, inherited=False):
            if ci['name'] != 'handleRequest' or m not in P.fns: continue
            fn = P.fns[m]; n += 1
            rule = Chain(c, P, fn); h = sealed(P, c, fn, rule)
            LST = (('r', 'children'),)
            def children(I, st, ci, this, args, site): return [(st, ('p', LST))]
            h.observe(['QObject::children'], children)
            base = models.MODELS['qobject_cast']
            def cast(I, st, ci, this, args, site):
                rule.visit(I, st, args[0], site)
                return [(s, v) for s, v in base(I, st, ci, this, args, site, None)]
            h.observe(['qobject_cast'], cast)
            st = h.state(cls); st.mem[G('next')] = ZERO; Rule.put(st, 'askedit', False)
            for s, v in h.run(fn, st):
                for s2, t in h.I.split(s, h.I.cond(v)):
                    class S: line = fn.line
                    acc = bool(Rule.get(s2, 'accepted'))
                    if t and not acc: rule.bad(s2, 'reports the request as handled although no child accepted it', S)
                    elif not t and acc: rule.bad(s2, 'reports the request as not handled although a child accepted it', S)
                    elif not t:
                        size = models.csize(h.I, s2, LST)
                        if s2.decide(clt(s2.mem.get(G('next'), ZERO), size)) is not False: rule.bad(s2, 'gives up before every child was asked', S)
            c.need('children_visits', rule.visits, 2); c.need('asks', rule.asked, 1); c.need('paths', h.paths, 2)
    c.need('stacks', n, 1)
    c.assumptions.append('QObject::children() lists the children in order of creation (documented)')
