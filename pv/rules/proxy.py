"""The proxy: piping of a reply into a request (C32), the elastic network access manager (C33)."""
from ..harness import *
from .. import models
from ..check import path_of
CONN = 'Pillow::HttpConnection'; PIPE = 'Pillow::HttpHandlerProxyPipe'
REQ = (('o', 'req'),); REP = (('o', 'rep'),)
COPIED = (('G',), 'copied')
OPS = ('writeHeaders', 'writeContent', 'writeResponse', 'writeResponseString', 'endContent', 'close')

def nested(v, x):
    if v == x: return True
    return isinstance(v, (tuple, frozenset)) and any(nested(y, x) for y in v)

class Pipe(Rule):
    def __init__(self, c, P, fn): self.check = c; self.P = P; self.fn = fn; self.n = dict.fromkeys(OPS, 0); self.reads = 0; self.torn = None
    def bad(self, st, what, site=None):
        self.check.violation('%s %s' % (self.fn.n, what), self.P.where(site, self.fn), '%s %s' % (self.fn.n, what), path_of(st))
    def on_null(self, I, st, site, what):
        self.bad(st, 'uses a request or reply it has let go of', site)
    def on_seq(self, I, st, op, loc, v, site):
        if op != 'append': return
        e = element_of(v, I, st)
        if e is None: return
        n = st.mem[COPIED]
        st.mem[COPIED] = add(n, ONE) if st.decide(ceq(e, n)) is True else con(-1)

def element_of(v, I, st):
    """the index of the reply header a value was copied from"""
    k = None
    if v[0] == 'agg': k = find(v, 'rawpairs')
    elif v[0] == 'p':
        k = find(I.load(st, v[1], 'struct'), 'rawpairs')
    return k
def find(v, name):
    """index in ('...', name, ..., ('[]', i))"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == '[]' and isinstance(v[1], tuple): return v[1]
        if nested(v, name):
            for x in v:
                r = find(x, name) if isinstance(x, tuple) else None
                if r is not None: return r
            for x in v:
                if isinstance(x, tuple) and len(x) == 2 and x[0] == '[]': return x[1]
    return None

def pipe(c, P):
    classes = [k for k in sorted(P.records) if P.derives(k, PIPE)]
    names = {f['type'].replace(' ', ''): f['name'] for f in P.records[PIPE]['fields']}
    def member(t, n):
        for f in P.records[PIPE]['fields']:
            if f['type'].replace(' ', '').startswith(t) and (n is None or f['name'] == n): return f['name']
        raise AnalysisBroken('anchor vanished: %s of %s' % (n or t, PIPE))
    mreq = member('Pillow::HttpConnection', None); mrep = member('QNetworkReply', None)
    mbroken = member('bool', '_broken'); msent = member('bool', '_headersSent')
    L = lambda n: THIS + (n,)
    SH, SC = (P.enums[CONN + '::State']['vals'][k] for k in ('SendingHeaders', 'SendingContent'))
    tot = dict(ops=0, paths=0, reads=0, heads=0, ends=0, teardowns=0)
    for m, fn in sorted(P.fns.items()):
        if fn.cls not in classes or fn.info.get('ctor') or '~' in fn.n or fn.info.get('const'): continue
        rule = Pipe(c, P, fn); h = Harness(P, rule, max_states=6000); I = h.I
        h.seal(CONN, 'Pillow::HttpConnectionPrivate')
        slot = fn.name.startswith('proxiedReply_')
        def torn(s):
            s.mem[L(mbroken)] = ('b', True); s.mem[L(mreq)] = ('n',); s.mem[L(mrep)] = ('n',)
            Rule.put(s, 'torn', True); s.note('pipe is torn down by the client'); return s
        def op(I, st, ci, this, args, site):
            n = ci['name']; rule.n[n] += 1; st.note(n, 'line', site.line)
            if this[0] != 'p' or this[1] != REQ: rule.bad(st, 'calls %s on something else than its request' % n, site); return [(st, ('void',))]
            if Rule.get(st, 'torn'): rule.bad(st, 'calls %s after the pipe was torn down' % n, site)
            ph = Rule.get(st, 'phase')
            if n == 'writeHeaders':
                if ph != 'head': rule.bad(st, 'sends a second response head', site)
                if args[0] != sym('reply.status', 0, 999): rule.bad(st, 'relays another status than that of the reply', site)
                size = sym('rawpairs.n', 0, INTMAX)
                x = st.mem[COPIED]
                if st.decide(ceq(x, size)) is not True: rule.bad(st, 'does not relay every header of the reply exactly once in order', site)
                if not Rule.get(st, 'sync', True): pass
                Rule.put(st, 'phase', 'content')
            elif n in ('writeResponse', 'writeResponseString'):
                if ph != 'head': rule.bad(st, 'answers with %s after the head was sent' % n, site)
                code = args[0]
                lo, hi = st.interval(code) if code[0] == 'i' else (0, 0)
                if not (500 <= lo and hi <= 599): rule.bad(st, 'answers in place of the reply with something else than a server error', site)
                Rule.put(st, 'phase', 'answered')
            elif n == 'writeContent':
                if ph != 'content': rule.bad(st, 'sends content without a head', site)
                v = I.getstr(st, args[0][1]) if args[0][0] == 'p' else args[0]
                if fn.name == 'pump': 
                    if v != I.getstr(st, (('r', 'arg0'),)): rule.bad(st, 'sends something else than the data it was given', site)
                elif Rule.get(st, 'data') is None or v != Rule.get(st, 'data'): rule.bad(st, 'sends something else than the data just read from the reply', site)
                Rule.put(st, 'data', None); Rule.put(st, 'pumped', min(2, Rule.get(st, 'pumped', 0) + 1))
            elif n == 'endContent':
                if ph != 'content': rule.bad(st, 'ends content without a head', site)
                Rule.put(st, 'ended', True)
            else:
                if st.decide(ceq(sym('reply.error', 0, 999), ZERO)) is not False and not Rule.get(st, 'ended') and st.decide(clt(sym('resp.len', -1, 2**63 - 1), ZERO)) is not False and Rule.get(st, 'final'):
                    rule.bad(st, 'cuts a complete reply of unspecified length off instead of ending it', site)
                Rule.put(st, 'closed', True)
            b = torn(st.copy())
            return [(st, ('void',)), (b, ('void',))]
        h.observe([CONN + '::' + x for x in OPS], op)
        def state(I, st, ci, this, args, site):
            if this[0] != 'p' or Rule.get(st, 'torn'): return None
            ph = Rule.get(st, 'phase')
            if ph == 'head': return [(st, con(SH))]
            if ph == 'content' and not Rule.get(st, 'ended') and not Rule.get(st, 'closed'): return [(st, con(SC))]
            v = I.fresh(ci['ret'], st.fresh('cs', 'x')); st.assume(neg(ceq(v, con(SH)))); 
            out = [(s, v) for s, eq in I.split(st, ceq(v, con(SC)))]
            return out
        h.observe([CONN + '::state'], state)
        h.observe([CONN + '::responseContentLength'], lambda I, st, ci, this, args, site: [(st, sym('resp.len', -1, 2**63 - 1))])
        h.observe(['*::error'], lambda I, st, ci, this, args, site: [(st, sym('reply.error', 0, 999))] if this is not None and this[0] == 'p' and this[1] == REP else None)
        h.observe(['QNetworkReply::attribute'], lambda I, st, ci, this, args, site: [(st, ('agg', ('statusattr' if args[0] == ZERO else 'attr',), ()))])
        def number(I, st, ci, this, args, site):
            v = I.load(st, this[1], 'struct')
            return [(st, sym('reply.status', 0, 999))] if nested(v, 'statusattr') else None
        h.observe(['QVariant::toInt', 'QVariant::toUInt', 'QVariant::toLongLong', 'QVariant::toULongLong'], number)
        def pairs(I, st, ci, this, args, site):
            return [(st, ('agg', ('rawpairs',), ((('$n',), sym('rawpairs.n', 0, INTMAX)),)))]
        h.observe(['*::rawHeaderPairs'], pairs)
        def read(I, st, ci, this, args, site):
            rule.reads += 1
            if this[0] != 'p' or this[1] != REP: rule.bad(st, 'reads from something else than its reply', site)
            if Rule.get(st, 'data') is not None: rule.bad(st, 'reads again before it relayed what it read', site)
            v = opaque_str(('data', st.fresh('data', tuple(site)))); Rule.put(st, 'data', v); st.note('readAll', 'line', site.line)
            return [(st, v)]
        h.observe(['*::readAll', '*::read'], read)
        def later(I, st, ci, this, args, site):
            l = this[1] if this[0] == 'p' else None
            Rule.put(st, ('later', l), min(2, Rule.get(st, ('later', l), 0) + 1)); return [(st, ('void',))]
        h.observe(['QObject::deleteLater'], later)
        def disc(I, st, ci, this, args, site):
            if len(args) >= 4 and args[1][0] == 'n' and args[3][0] == 'n': Rule.put(st, ('disc', args[0], args[2]), True)
            elif ci.get('static') is None and len(args) == 2 and args[0] == ('p', THIS): Rule.put(st, ('disc', this, args[0]), True)
            return [(st, ('b', True))]
        h.observe(['QObject::disconnect'], disc)
        def virt(I, st, m2, ci, th, args, site):
            if ci['n'] in ('QNetworkReply::readAll',): return read(I, st, ci, th, args, site)
            return None
        rule.on_virtual = virt
        # the entry state: running, or torn down before
        starts = []
        for sent in (False, True):
            st = h.state(fn.cls)
            st.mem[L(mreq)] = ('p', REQ); st.mem[L(mrep)] = ('p', REP); st.lit[('null', REQ)] = False; st.lit[('null', REP)] = False
            st.mem[COPIED] = ZERO; st.mem[L(mbroken)] = ('b', False); st.mem[L(msent)] = ('b', sent)
            Rule.put(st, 'phase', 'content' if sent else 'head'); Rule.put(st, 'final', fn.name == 'proxiedReply_finished')
            if fn.name == 'pump' and not sent: continue
            starts.append((st, sent))
        if not slot:
            st = torn(h.state(fn.cls)); st.mem[COPIED] = ZERO; st.mem[L(msent)] = I.fresh('bool', 'sent'); starts.append((st, None))
        for st, sent in starts:
            was = Rule.get(st, 'torn')
            for s, v in h.run(fn, st):
                tot['paths'] += 1
                t = Rule.get(s, 'torn'); ph = Rule.get(s, 'phase')
                if not t:
                    fs = s.mem.get(L(msent))
                    if fn.name != 'teardown' and fs is not None and fs[0] == 'b' and ph in ('head', 'content') and I.split(s.copy(), fs[1]) and s.decide(fs[1]) is not (ph == 'content'): rule.bad(s, 'remembers wrongly whether the head was sent')
                if fn.name == 'teardown':
                    tot['teardowns'] += 1
                    if s.decide(s.mem[L(mbroken)][1]) is not True or s.mem[L(mreq)][0] != 'n' or s.mem[L(mrep)][0] != 'n': rule.bad(s, 'keeps the request or reply after the pipe was torn down')
                    if Rule.get(s, ('later', THIS), 0) < 1: rule.bad(s, 'never disposes of a pipe that was torn down')
                    if not was:
                        gone = any(a[0] in ('isa', 'null') and nested(a, REP) and a != ('null', REP) and (v is False if a[0] == 'isa' else v) for a, v in s.lit.items())
                        if Rule.get(s, ('later', REP), 0) != 1 and not gone: rule.bad(s, 'does not dispose of the reply exactly once')
                        if Rule.get(s, ('later', REQ), 0): rule.bad(s, 'disposes of the request of the client')
                        for l in (REQ, REP):
                            if not Rule.get(s, ('disc', ('p', l), ('p', THIS))): rule.bad(s, 'stays connected after it was torn down')
                    continue
                if was: continue
                if Rule.get(s, 'data') is not None and not t: rule.bad(s, 'drops content it read from the reply')
                if fn.name == 'proxiedReply_readyRead' and not t:
                    tot['heads'] += 1
                    if ph != 'content': rule.bad(s, 'relays content without a head')
                    if Rule.get(s, 'pumped', 0) != 1: rule.bad(s, 'does not relay the available content exactly once')
                if fn.name == 'sendHeaders' and not t and ph != 'content': rule.bad(s, 'does not send the head')
                if fn.name == 'pump' and not t and Rule.get(s, 'pumped', 0) != 1: rule.bad(s, 'does not relay the data exactly once')
                if fn.name == 'proxiedReply_finished':
                    tot['ends'] += 1
                    err = s.decide(ceq(sym('reply.error', 0, 999), ZERO))
                    if t:
                        continue
                    if ph == 'head': rule.bad(s, 'leaves the client without any response when the reply has finished')
                    if ph == 'content' and not Rule.get(s, 'closed'):
                        if not Rule.get(s, 'ended'): rule.bad(s, 'leaves the response of the client open when the reply has finished')
                    if ph == 'answered' and err is not False: rule.bad(s, 'answers with an error although the reply succeeded')
        tot['ops'] += sum(rule.n.values()); tot['reads'] += rule.reads
        c.rules.append('%s: %d paths' % (fn.n, h.paths))
    c.need('pipe_paths', tot['paths'], 10); c.need('operations', tot['ops'], 5); c.need('reads', tot['reads'], 1); c.need('finished_paths', tot['ends'], 3); c.need('teardown_paths', tot['teardowns'], 1)
    c.assumptions += ['the request was handed over before its response head was written', 'requestCompleted and closed are delivered to teardown at once (direct connections, C41)']

def same(st, a, b):
    """equal locations up to indices known to be equal"""
    if a == b: return True
    if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != len(b): return False
    if len(a) == 3 and a[0] == b[0] == 'i': return st.decide(ceq(a, b)) is True
    return all(same(st, x, y) for x, y in zip(a, b))

ENAM = 'Pillow::ElasticNetworkAccessManager'
def elastic(c, P):
    """C33: every request is made exactly once, unchanged, by a manager below the limit; the managers share the cookie jar"""
    fns = [f for f in P.fns.values() if f.cls == ENAM and f.name == 'createRequest']
    if not fns: raise AnalysisBroken('anchor vanished: %s::createRequest' % ENAM)
    LIMIT = 6; AVAIL = (('G',), 'available')
    tot = dict(paths=0, calls=0, reuse=0, fresh=0, jars=0)
    for fn in fns:
        rule = Rule(c); h = Harness(P, rule, max_states=6000); I = h.I
        def bad(st, what, site=None): c.violation('%s %s' % (fn.n, what), P.loc(fn, site.line if site is not None else fn.line), '%s %s' % (fn.n, what), path_of(st))
        JAR = (('o', 'jar'),)
        def kids(I, st, ci, this, args, site):
            if this is None or this[0] != 'p': return None
            own = this[1] == THIS
            l = (('r', 'kids' if own else 'kids of a child'),)
            if not own or l + ('$n',) not in st.mem: st.mem[l] = ('agg', ('kids',), ()); st.mem[l + ('$n',)] = sym(('kids.n', this[1]), 0, INTMAX)
            if own: return [(st, ('p', l))]
            out = []
            for s, t in I.split(st, clt(st.mem[l + ('$n',)], con(LIMIT))):
                if t: s.mem[AVAIL] = this
                out.append((s, ('p', l)))
            return out
        h.observe(['*::children'], kids)
        def jar(I, st, ci, this, args, site):
            if this is None or this[0] != 'p' or this[1] != THIS: return None
            return [(s, ('n',) if t else ('p', JAR)) for s, t in I.split(st, atom('null', JAR))]
        h.observe(['QNetworkAccessManager::cookieJar'], jar)
        def setjar(I, st, ci, this, args, site):
            if this[0] == 'p' and this[1] != THIS:
                if args[0] != ('p', JAR): bad(st, 'gives a manager another cookie jar', site)
                Rule.put(st, 'jarof', this[1]); st.note('setCookieJar', 'line', site.line)
                Rule.put(st, 'owner', this[1])
            return [(st, ('void',))]
        h.observe(['QNetworkAccessManager::setCookieJar'], setjar)
        def setparent(I, st, ci, this, args, site):
            if this[0] == 'p' and this[1] == JAR: Rule.put(st, 'owner', args[0][1] if args[0][0] == 'p' else None)
            return [(st, ('void',))]
        h.observe(['QObject::setParent'], setparent)
        def onnew(I, st, loc, t, site):
            if P.derives(strip(t), 'QNetworkAccessManager') or strip(t) == 'QNetworkAccessManager':
                if st.mem[AVAIL][0] != 'n': bad(st, 'makes a new manager although one of its own is available', site)
                Rule.put(st, 'made', min(2, Rule.get(st, 'made', 0) + 1)); Rule.put(st, 'new', loc)
        rule.on_new = onnew
        def make(I, st, ci, this, args, site):
            tot['calls'] += 1; st.note('createRequest', 'line', site.line)
            Rule.put(st, 'n', min(2, Rule.get(st, 'n', 0) + 1))
            want = [I.fresh(fn.params[0], ('arg', 0)), ('p', (('r', 'arg1'),)), None]
            if args[0] != I.fresh(fn.params[0], ('arg', 0)): bad(st, 'makes the request with another operation', site)
            if args[1] != ('p', (('r', 'arg1'),)): bad(st, 'makes another request than the one it was given', site)
            d = args[2]
            if d != ('p', (('o', 'arg2'),)) and not (d[0] == 'n' and st.lit.get(('null', (('o', 'arg2'),))) is True): bad(st, 'makes the request with other outgoing data', site)
            if this[0] != 'p': bad(st, 'makes the request without a manager', site)
            elif this[1] == THIS: bad(st, 'makes the request itself: its requests are queued behind the limit of one manager', site)
            elif Rule.get(st, 'new') == this[1]:
                tot['fresh'] += 1
                nojar = st.lit.get(('null', JAR)) is True
                if not nojar:
                    tot['jars'] += 1
                    if Rule.get(st, 'jarof') != this[1]: bad(st, 'makes a manager that does not share the cookie jar', site)
                    elif Rule.get(st, 'owner') is not None and Rule.get(st, 'owner') != THIS: bad(st, 'leaves the shared cookie jar to one manager: it dies with it', site)
            else:
                tot['reuse'] += 1
                if not nested(this[1], '[]'): bad(st, 'makes the request with a manager that is not one of its own', site)
                a = st.mem[AVAIL]
                if a[0] != 'p' or a != this and not same(st, a[1], this[1]): bad(st, 'gives a request to a manager that may be at its limit', site)
                if Rule.get(st, 'made'): bad(st, 'makes a manager it does not use', site)
            r = ('p', (('o', 'reply'),)); st.lit[('null', r[1])] = False
            return [(st, r)]
        h.observe(['QNetworkAccessManager::createRequest'], make)
        st = h.state(fn.cls)
        st.mem[AVAIL] = ('n',)
        for s, v in h.run(fn, st):
            tot['paths'] += 1
            if Rule.get(s, 'n', 0) == 0: bad(s, 'makes no request')
            elif Rule.get(s, 'n') > 1: bad(s, 'makes the request twice')
            elif v != ('p', (('o', 'reply'),)): bad(s, 'returns another reply than the one of the request')
    if tot['paths'] and not tot['reuse'] and not c.found: c.violation('%s never reuses a manager' % fn.n, P.loc(fn, fn.line), '%s makes a new manager for every request' % fn.n, [])
    c.rules.append('%s: %d paths' % (fn.n, tot['paths']))
    c.need('paths', tot['paths'], 2); c.need('calls', tot['calls'], 2); c.need('new_manager_calls', tot['fresh'], 1); c.need('reused_manager_calls', tot['reuse'], 1)
    c.assumptions += ['a QNetworkAccessManager handles at most six requests to one host at a time (Qt documentation); its replies are its children']

PROXY = 'Pillow::HttpHandlerProxy'
def forward(c, P):
    """C44: the proxied request is the client's: method, path, query, every header in order, content; exactly one pipe per request"""
    fns = [f for f in P.fns.values() if f.cls is not None and P.derives(f.cls, PROXY) and f.name == 'handleRequest']
    if not fns: raise AnalysisBroken('anchor vanished: %s::handleRequest' % PROXY)
    url = [f['name'] for f in P.records[PROXY]['fields'] if f['type'] == 'QUrl']
    if len(url) != 1: raise AnalysisBroken('anchor vanished: the URL of ' + PROXY)
    URL = THIS + (url[0],)
    CLIENT = ('p', (('o', 'arg0'),))
    VIEWS = {n: (('r', ('req', n)),) for n in ('requestMethod', 'requestPath', 'requestQueryString', 'requestFragment', 'requestContent', 'requestUri', 'requestHttpVersion')}
    HEADERS = (('r', 'reqheaders'),)
    tot = dict(paths=0, pipes=0, sends=0, headers=0)
    def text(I, st, v):
        if v[0] == 'p': return I.getstr(st, v[1])
        return v
    for fn in fns + [f for f in P.fns.values() if f.cls is not None and P.derives(f.cls, PROXY) and f.name == 'createProxiedReply']:
        rule = Rule(c); h = Harness(P, rule, max_states=6000); I = h.I
        h.seal(CONN, 'Pillow::HttpConnectionPrivate', ENAM, PIPE)
        def bad(st, what, site=None): c.violation('%s %s' % (fn.n, what), P.loc(fn, site.line if site is not None else fn.line), '%s %s' % (fn.n, what), path_of(st))
        def view(n):
            def f(I, st, ci, this, args, site):
                return [(st, ('p', VIEWS[n]))] if this == CLIENT else None
            return f
        for n in VIEWS: h.observe([CONN + '::' + n], view(n))
        h.observe([CONN + '::requestHeaders'], lambda I, st, ci, this, args, site: [(st, ('p', HEADERS))] if this == CLIENT else None)
        def seturl(part):
            def f(I, st, ci, this, args, site):
                Rule.put(st, ('url', part), text(I, st, args[0]) if args else True); st.note(ci['name'], 'line', site.line)
                return [(st, ('void',))]
            return f
        h.observe(['QUrl::setEncodedPath', 'QUrl::setPath'], seturl('path')); h.observe(['QUrl::setEncodedQuery', 'QUrl::setQuery'], seturl('query')); h.observe(['QUrl::setEncodedFragment', 'QUrl::setFragment'], seturl('fragment'))
        h.observe(['QUrl::setHost', 'QUrl::setScheme', 'QUrl::setPort', 'QUrl::setUrl', 'QUrl::setEncodedUrl', 'QUrl::setAuthority', 'QUrl::setEncodedHost'], seturl('origin'))
        def rawheader(I, st, ci, this, args, site):
            tot['headers'] += 1
            if Rule.get(st, 'sent'): bad(st, 'adds a header after the request was sent', site)
            a, b = text(I, st, args[0]), text(I, st, args[1])
            n = st.mem[COPIED]; e = None
            for g in a[1] if a[0] == 's' else ():
                e = find(g, 'reqheaders')
            if e is None:
                return [(st, ('void',))]
            f = find(b, 'reqheaders')
            if nested(a, 'second') or not nested(b, 'second') or f is None or st.decide(ceq(e, f)) is not True: bad(st, 'sends a header with a name or value that is not its own', site)
            st.mem[COPIED] = add(n, ONE) if st.decide(ceq(e, n)) is True else con(-1)
            return [(st, ('void',))]
        h.observe(['QNetworkRequest::setRawHeader'], rawheader)
        def ready(st, site, what):
            size = sym('reqheaders.n', 0, INTMAX)
            if st.decide(ceq(st.mem[COPIED], size)) is not True: bad(st, 'does not pass every header of the client on exactly once in order', site)
            p = Rule.get(st, ('url', 'path'))
            if p is None or p != I.getstr(st, VIEWS['requestPath']): bad(st, 'asks for another path than the client', site)
            for part, v in (('query', 'requestQueryString'), ('fragment', 'requestFragment')):
                w = I.getstr(st, VIEWS[v]); u = Rule.get(st, ('url', part))
                if u is None and st.decide(ceq(slen(w), ZERO)) is not True or u is not None and u != w:
                    bad(st, 'asks for another %s than the client' % part, site)
            if Rule.get(st, ('url', 'origin')): bad(st, 'asks another server than the one it proxies', site)
        def reply(I, st, ci, this, args, site):
            if fn.name != 'handleRequest': return None
            tot['sends'] += 1
            if Rule.get(st, 'sent'): bad(st, 'makes the proxied request twice', site)
            Rule.put(st, 'sent', True); st.note('createProxiedReply', 'line', site.line)
            if args[0] != CLIENT: bad(st, 'makes a request for another client', site)
            ready(st, site, 'proxied request')
            r = ('p', (('o', 'reply'),)); st.lit[('null', r[1])] = False
            return [(st, r)]
        h.observe([f.n for f in P.fns.values() if f.cls is not None and P.derives(f.cls, PROXY) and f.name == 'createProxiedReply'] if fn.name == 'handleRequest' else [], reply)
        def pipe1(I, st, ci, this, args, site):
            tot['pipes'] += 1
            if args[0] != CLIENT or args[1] != ('p', (('o', 'reply'),)): bad(st, 'pipes something else than the reply into the request', site)
            Rule.put(st, 'pipes', min(2, Rule.get(st, 'pipes', 0) + 1))
            return [(st, ('p', (('o', 'pipe'),)))]
        h.observe([f.n for f in P.fns.values() if f.cls is not None and P.derives(f.cls, PROXY) and f.name == 'createPipe'], pipe1)
        def send(I, st, ci, this, args, site):
            if fn.name == 'handleRequest': bad(st, 'sends the proxied request without createProxiedReply', site); return None
            tot['sends'] += 1
            if Rule.get(st, 'sent'): bad(st, 'makes the proxied request twice', site)
            Rule.put(st, 'sent', True)
            if text(I, st, args[1]) != I.getstr(st, VIEWS['requestMethod']): bad(st, 'uses another method than the client', site)
            if len(args[0]) > 1 and args[0] != ('p', (('r', 'arg1'),)) and not nested(I.load(st, args[0][1], 'struct') if args[0][0] == 'p' else args[0], ('arg', 1)): bad(st, 'sends another request than the one it was given', site)
            d = args[2]; n = slen(I.getstr(st, VIEWS['requestContent']))
            if d[0] == 'n':
                if st.decide(ceq(n, ZERO)) is not True: bad(st, 'drops the content of the request', site)
            else:
                if Rule.get(st, ('over', d[1])) is not True: bad(st, 'sends something else than the content of the client', site)
                elif Rule.get(st, ('open', d[1])) is not True: bad(st, 'sends content from a device that is not open for reading', site)
                Rule.put(st, 'dev', d[1])
            r = ('p', (('o', 'reply'),)); st.lit[('null', r[1])] = False
            return [(st, r)]
        h.observe([f.n for f in P.fns.values() if f.name == 'sendCustomRequest' and f.cls is not None and P.derives(f.cls, 'QNetworkAccessManager')] + ['QNetworkAccessManager::sendCustomRequest', '*::sendCustomRequest'], send)
        def buffer(I, st, ci, this, args, site):
            if this[0] == 'p':
                if args and args[0] == ('p', VIEWS['requestContent']): Rule.put(st, ('over', this[1]), True)
                elif args and args[0][0] == 'p':
                    v = I.getstr(st, args[0][1])
                    if v == I.getstr(st, VIEWS['requestContent']): Rule.put(st, ('over', this[1]), True)
            return [(st, this if ci.get('ctor') else ('void',))]
        h.observe(['QBuffer::QBuffer', 'QBuffer::setBuffer', 'QBuffer::setData'], buffer)
        def opened(I, st, ci, this, args, site):
            m = args[0] if args else con(3)
            if m[0] == 'agg' and m[1][:2] == ('ctor', 'QFlags::QFlags') and m[1][2]: m = m[1][2][0]
            if this[0] == 'p' and (m[0] != 'i' or not isconst(m) or m[1] & 1): Rule.put(st, ('open', this[1]), True)
            return [(st, ('b', True))]
        h.observe(['*::open'], opened)
        def owner(I, st, ci, this, args, site):
            if this[0] == 'p' and this[1] == Rule.get(st, 'dev') and args[0] == ('p', (('o', 'reply'),)): Rule.put(st, 'owned', True)
            return [(st, ('void',))]
        h.observe(['*::setParent'], owner)
        rule.on_virtual = lambda I, st, m, ci, th, args, site: None
        st = h.state(fn.cls); st.mem[COPIED] = ZERO
        st.mem[HEADERS] = ('agg', ('reqheaders',), ()); st.mem[HEADERS + ('$n',)] = sym('reqheaders.n', 0, INTMAX)
        for n, l in VIEWS.items(): st.mem[l] = opaque_str(('req', n))
        st.lit[('null', CLIENT[1])] = False
        for s, v in h.run(fn, st):
            tot['paths'] += 1
            if fn.name == 'createProxiedReply':
                if not Rule.get(s, 'sent'): bad(s, 'sends no request')
                elif v != ('p', (('o', 'reply'),)): bad(s, 'returns another reply than the one of the request')
                elif Rule.get(s, 'dev') and not Rule.get(s, 'owned'): bad(s, 'leaks the device of the content')
                continue
            for s2, t in I.split(s, cne(v, ZERO) if v[0] == 'i' else v[1]):
                if t is True:
                    if not Rule.get(s2, 'sent'): bad(s2, 'accepts a request without proxying it')
                    elif Rule.get(s2, 'pipes', 0) != 1: bad(s2, 'accepts a request without exactly one pipe to answer it')
                elif Rule.get(s2, 'sent'): bad(s2, 'proxies a request it does not accept')
        c.rules.append('%s: %d paths' % (fn.n, h.paths))
    c.need('paths', tot['paths'], 4); c.need('pipes', tot['pipes'], 1); c.need('proxied_requests', tot['sends'], 2); c.need('headers', tot['headers'], 1)
