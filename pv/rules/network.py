"""The network access manager over the HTTP client (C30) and its replies (C31)."""
from ..harness import *
from .. import models
from ..check import path_of
from .client import nested, element
CLIENT = 'Pillow::HttpClient'; NAM = 'Pillow::NetworkAccessManager'
DEBUG = False

class R(Rule):
    def __init__(self, c, P, fn): self.check = c; self.P = P; self.fn = fn
    def bad(self, st, what, site=None): self.check.violation('%s %s' % (self.fn.n, what), self.P.where(site, self.fn), '%s %s' % (self.fn.n, what), path_of(st))
    def on_null(self, I, st, site, what): self.bad(st, 'uses a client or object that is not there', site)

def text(I, st, v):
    if v[0] == 'p': return I.getstr(st, v[1])
    return v
def whole(I, st, v):
    """a value with what a pointer to a temporary points to"""
    if v[0] == 'p' and v[1] in st.mem: return st.mem[v[1]]
    if v[0] == 'p': return I.load(st, v[1], 'struct')
    return v
def ptr(I, st, v):
    """the object a pointer refers to, also one that is passed by reference"""
    w = st.mem.get(v[1]) if v[0] == 'p' else None
    if v[0] == 'p' and w is None and v[1][-1][:1] == ('r',) or w is not None and w[0] == 'p': return w if w is not None else v
    return v
def field(P, cls, t, n=1):
    r = [f['name'] for f in P.records[cls]['fields'] if t(f['type'].replace(' ', ''))]
    if len(r) != n: raise AnalysisBroken('anchor vanished: fields of ' + cls)
    return r[0] if n == 1 else r
def plusone(st, g, e):
    """g counts the elements that were done in order"""
    n = st.mem[g]
    st.mem[g] = add(n, ONE) if e is not None and st.decide(ceq(e, n)) is True else con(-1)
def elem(I, st, v, key, member):
    """index of the element whose member this text is"""
    v = text(I, st, v)
    if v[0] != 's' or len(v[1]) != 1: return None
    e = element(v[1][0], key)
    return e[0] if e and e[1] == member else None
def idx(I, st, v):
    """index of the element of a list of opaque values"""
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == '[]': return x[1]
            for y in x:
                r = go(y)
                if r is not None: return r
        return None
    if v[0] == 'p':
        r = go(v[1])
        if r is not None: return r
    return go(whole(I, st, v))

def reply(c, P):
    classes = [k for k in sorted(P.records) if P.derives(k, 'QNetworkReply') and any('Pillow::HttpClient*' in f['type'].replace(' ', '') or 'QPointer<Pillow::HttpClient>' in f['type'].replace(' ', '') for f in P.records[k]['fields'])]
    if not classes: raise AnalysisBroken('anchor vanished: the reply over the HTTP client')
    tot = dict(paths=0, headers=0, attributes=0, cookies=0, errors=0, reads=0, emits=0)
    ERR = {'NoError': None, 'NetworkError': 'UnknownNetworkError', 'ResponseInvalidError': 'ProtocolUnknownError', 'RemoteHostClosedError': 'RemoteHostClosedError', 'AbortedError': 'OperationCanceledError'}
    for cls in classes:
        mcl = field(P, cls, lambda t: 'Pillow::HttpClient' in t); mco = field(P, cls, lambda t: t == 'QByteArray'); mpos = field(P, cls, lambda t: t in ('int', 'qint64', 'longlong', 'qlonglong', 'long'))
        L = lambda n: THIS + (n,)
        CL = (('o', 'client'),); H = (('r', 'rheaders'),); K = ('rheaders',)
        N, SC, LO = G('headers'), G('cookies'), G('locations')
        status, error = sym('reply.status', -INTMAX - 1, INTMAX), sym('reply.error', -INTMAX - 1, INTMAX)
        eclient = P.enums[CLIENT + '::Error']['vals']
        consumed = opaque_str(('r', 'consumed'))
        for fn in sorted((f for f in P.fns.values() if f.cls == cls and not f.info.get('ctor') and '~' not in f.n), key=lambda f: f.m):
            what = fn.name
            if what not in ('client_headersCompleted', 'client_contentReadyRead', 'client_finished', 'abort', 'readData', 'bytesAvailable'): continue
            rule = R(c, P, fn); h = Harness(P, rule); I = h.I
            mine = lambda this: this is not None and this[0] == 'p' and this[1] == THIS
            atclient = lambda this: this == ('p', CL)
            def up(st, g, k=3): Rule.put(st, g, min(k, Rule.get(st, g, 0) + 1))
            h.observe([CLIENT + '::statusCode'], lambda I, st, ci, this, args, site: [(st, status)] if atclient(this) else None)
            h.observe([CLIENT + '::headers'], lambda I, st, ci, this, args, site: [(st, ('p', H))] if atclient(this) else None)
            h.observe([CLIENT + '::error'], lambda I, st, ci, this, args, site: [(st, error)] if atclient(this) else None)
            def consume(I, st, ci, this, args, site):
                up(st, 'consumed'); return [(st, consumed)]
            h.observe([CLIENT + '::consumeContent'], consume)
            def aborted(I, st, ci, this, args, site):
                up(st, 'aborts')
                if not atclient(this): rule.bad(st, 'aborts another client', site)
                return [(st, ('void',))]
            h.observe([CLIENT + '::abort'], aborted)
            def attribute(I, st, ci, this, args, site):
                tot['attributes'] += 1
                v = whole(I, st, args[1])
                a = P.enums.get('QNetworkRequest::Attribute', {}).get('vals', {})
                if args[0] == con(a.get('HttpStatusCodeAttribute', 0)):
                    if not (v[0] == 'agg' and nested(v, status)): rule.bad(st, 'sets another status than that of the response', site)
                    up(st, 'status')
                elif args[0] == con(a.get('RedirectionTargetAttribute', 2)):
                    if Rule.get(st, 'cur') != 'location' or not nested(v, 'target'): rule.bad(st, 'sets a redirection target that is not the location of the response', site)
                    Rule.put(st, 'cur', None)
                return [(st, ('void',))]
            h.observe(['QNetworkReply::setAttribute', '*::setAttribute'], attribute)
            def hasraw(I, st, ci, this, args, site):
                out = []
                for s, t in I.split(st, ('at', ('has',) + st.fresh('has', tuple(site)), True)):
                    Rule.put(s, 'has', t); out.append((s, ('b', t)))
                return out
            h.observe(['QNetworkReply::hasRawHeader'], hasraw)
            h.observe(['QNetworkReply::rawHeader'], lambda I, st, ci, this, args, site: [(st, opaque_str(('r', 'rawheader')))])
            def setraw(I, st, ci, this, args, site):
                tot['headers'] += 1; st.note('setRawHeader', 'line', site.line)
                e = elem(I, st, args[0], K, 'first'); v = text(I, st, args[1])
                if DEBUG: print('RAW', args, v, e, [k for k in syms_of(v)])
                if e is None: rule.bad(st, 'sets a header that the response does not have', site); return [(st, ('void',))]
                segs = v[1] if v[0] == 's' else ()
                l = element(segs[-1], K) if segs else None
                if not l or l[1] != 'second' or st.decide(ceq(l[0], e)) is not True: rule.bad(st, 'sets a header to another value than its own', site)
                elif len(segs) == 1:
                    if Rule.get(st, 'has') is not False: rule.bad(st, 'drops the value of an earlier header with the same name', site)
                elif not (segs[0] == opaque_str(('r', 'rawheader'))[1][0] and len(segs) == 3 and segs[1][0] == 'L' and segs[1][1].strip(b' ') in (b',', b'\n')): rule.bad(st, 'sets a header to another value than its own', site)
                plusone(st, N, e); Rule.put(st, 'has', None)
                return [(st, ('void',))]
            h.observe(['QNetworkReply::setRawHeader'], setraw)
            def compare(I, st, ci, this, args, site):
                e = elem(I, st, args[0], K, 'first'); 
                w = [x for x in (whole(I, st, a) for a in args[1:])]
                lits = [s for s in (b'set-cookie', b'location') if any(nested(x, lit(y)) or x == lit(y) or nested(x, lit(y + b'\0')) for x in w for y in (s, s.title(), s.capitalize()))]
                if DEBUG: print('CMP', args, w)
                if e is None or len(lits) != 1: return None
                out = []
                for s, t in I.split(st, ('at', ('same',) + st.fresh('same', tuple(site)), True)):
                    if Rule.get(s, 'cur'): rule.bad(s, 'ignores a %s header' % Rule.get(s, 'cur'), site)
                    if lits[0] == b'set-cookie':
                        plusone(s, SC, e)
                        if t: plusone(s, LO, e); Rule.put(s, 'cur', 'set-cookie')
                    else:
                        plusone(s, LO, e)
                        if t:
                            Rule.put(s, 'cur', 'location')
                            if s.decide(ceq(s.mem[SC], s.mem[LO])) is not True: plusone(s, SC, e)
                    out.append((s, ('b', t)))
                return out
            h.observe(['Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive'], compare)
            def token(I, st, ci, this, args, site):
                v = text(I, st, args[0]) if args else None
                return [(st, ('agg', ('token', lit(v[1])), ()))] if v is not None and v[0] == 'cl' else None
            h.observe(['Pillow::LowerCaseToken::LowerCaseToken', 'Pillow::Token::Token'], token)
            def fromenc(I, st, ci, this, args, site):
                return [(st, ('agg', ('target' if elem(I, st, args[0], K, 'second') is not None else 'url',), ()))]
            h.observe(['QUrl::fromEncoded'], fromenc)
            def parse(I, st, ci, this, args, site):
                tot['cookies'] += 1
                if Rule.get(st, 'cur') != 'set-cookie' or elem(I, st, args[0], K, 'second') is None: rule.bad(st, 'parses cookies from something else than a set-cookie header', site)
                if Rule.get(st, 'parsed'): rule.bad(st, 'drops the cookies of a header', site)
                Rule.put(st, 'cur', None); Rule.put(st, 'parsed', True)
                return [(st, ('agg', ('parsed',), ()))]
            h.observe(['QNetworkCookie::parseCookies'], parse)
            def seq(I, st, op, loc, v, site):
                if op in ('append', 'extend') and Rule.get(st, 'parsed') and nested(whole(I, st, v), 'parsed'): Rule.put(st, 'parsed', None)
            rule.on_seq = seq
            def jar(I, st, ci, this, args, site):
                if Rule.get(st, 'parsed'): rule.bad(st, 'drops the cookies of a response', site)
                up(st, 'jar'); return [(st, ('b', True))]
            h.observe(['QNetworkCookieJar::setCookiesFromUrl', '*::setCookiesFromUrl'], jar)
            for g in ('manager', 'cookieJar'):
                def ask(I, st, ci, this, args, site, g=g):
                    l = (('o', g),); return [(s, ('n',) if t else ('p', l)) for s, t in I.split(st, atom('null', l))]
                h.observe(['QNetworkReply::manager', 'QNetworkAccessManager::cookieJar'][:1] if g == 'manager' else ['QNetworkAccessManager::cookieJar'], ask)
            def opened(I, st, ci, this, args, site):
                if mine(this): Rule.put(st, 'open', True)
                return [(st, ('b', True))]
            h.observe(['QIODevice::open', '*::open'], opened)
            def emit(I, st, ci, this, args, site):
                if not mine(this): return None
                tot['emits'] += 1; n = ci['name']; up(st, 'e:' + n); st.note('emit ' + n, 'line', site.line)
                if n == 'metaDataChanged':
                    size = models.csize(I, st, H)
                    if st.decide(ceq(st.mem[N], size)) is not True: rule.bad(st, 'does not take over every header of the response exactly once', site)
                    if st.decide(ceq(st.mem[SC], size)) is not True or Rule.get(st, 'cur') == 'set-cookie': rule.bad(st, 'ignores a set-cookie header', site)
                    if st.decide(ceq(st.mem[LO], size)) is not True or Rule.get(st, 'cur') == 'location': rule.bad(st, 'ignores a location header', site)
                    if Rule.get(st, 'status', 0) != 1: rule.bad(st, 'does not take over the status of the response', site)
                    if not Rule.get(st, 'open'): rule.bad(st, 'announces its data before it can be read', site)
                    if st.lit.get(('null', (('o', 'manager'),))) is not True and st.lit.get(('null', (('o', 'cookieJar'),))) is not True and not Rule.get(st, 'jar'): rule.bad(st, 'keeps the cookies of the response from the cookie jar', site)
                elif n == 'readyRead':
                    if I.getstr(st, L(mco)) != mkstr(OLD[1] + consumed[1]): rule.bad(st, 'announces content that it does not have', site)
                elif n == 'finished':
                    if Rule.get(st, 'setfinished') is not True: rule.bad(st, 'emits finished() before it is finished', site)
                    if st.mem.get(L(mcl)) != ('n',): rule.bad(st, 'keeps the client of a request that has ended', site)
                elif n in ('error', 'errorOccurred'):
                    tot['errors'] += 1
                    if Rule.get(st, 'seterror') != args[0]: rule.bad(st, 'emits another error than the one it has', site)
                if not Rule.get(st, 'cut') and n in ('finished', 'error', 'errorOccurred'): rule.bad(st, 'still listens to the client while it announces its end: the client may serve another request by then', site)
                return [(st, ('void',))]
            h.observe(['QNetworkReply::metaDataChanged', 'QIODevice::readyRead', 'QNetworkReply::finished', 'QNetworkReply::error', 'QNetworkReply::errorOccurred'], lambda I, st, ci, this, args, site: emit(I, st, ci, this, args, site) if not (ci['name'] == 'error' and not args) else None)
            def cut(I, st, ci, this, args, site):
                if any(a == ('p', CL) for a in args) or atclient(this): Rule.put(st, 'cut', True)
                return [(st, ('b', True))]
            h.observe(['QObject::disconnect'], cut)
            def fin(I, st, ci, this, args, site):
                if DEBUG: print('FIN', args)
                Rule.put(st, 'setfinished', args[0] in (('b', True), ONE)); 
                return [(st, ('void',))]
            h.observe(['QNetworkReply::setFinished'], fin)
            def seterr(I, st, ci, this, args, site):
                up(st, 'seterrors'); Rule.put(st, 'seterror', args[0]); return [(st, ('void',))]
            h.observe(['QNetworkReply::setError'], seterr)
            def cpy(I, st, ci, this, args, site):
                tot['reads'] += 1; up(st, 'copies')
                if args[0] != h.arg(fn.params[0], 0): rule.bad(st, 'copies to somewhere else than the buffer given', site)
                s = args[1]
                if not (s[0] == 'c' and s[1] == L(mco) and s[3] == POS or nested(s, L(mco)) and nested(s, POS)): rule.bad(st, 'does not continue with the content where the last read ended', site)
                if DEBUG: print('CPY', args, I.getstr(st, L(mco)), h.arg(fn.params[1], 1), [SYM.keys[k] for k in syms_of(args[2])])
                n = args[2]; m = h.arg(fn.params[1], 1); left = sub(slen(I.getstr(st, L(mco))), POS)
                if st.decide(cle(n, m)) is not True: rule.bad(st, 'copies more than the buffer given can hold', site)
                if st.decide(cle(n, left)) is not True: rule.bad(st, 'copies beyond the end of the content', site)
                if st.decide(ceq(n, m)) is not True and st.decide(ceq(n, left)) is not True: rule.bad(st, 'copies less than it has', site)
                Rule.put(st, 'n', n)
                return [(st, args[0])]
            h.observe(['memcpy', 'std::memcpy', '__builtin_memcpy', 'memmove', 'qMemCopy'], cpy)
            st = h.state(cls)
            st.mem[N] = st.mem[SC] = st.mem[LO] = ZERO
            st.mem[H] = ('agg', ('rheaders',), ()); st.mem[H + ('$n',)] = sym('rheaders.n', 0, INTMAX)
            OLD = opaque_str(('r', 'content')); st.mem[L(mco)] = OLD
            POS = sym('reply.pos', 0, INTMAX); st.mem[L(mpos)] = POS; st.assume(cle(POS, slen(OLD)))
            live = [True] if what.startswith('client_') else [True, False]
            for alive in live:
                s0 = st.copy()
                s0.mem[L(mcl)] = ('p', CL) if alive else ('n',)
                if alive: s0.lit[('null', CL)] = False
                args = [h.arg(t, i) for i, t in enumerate(fn.params)]
                if what == 'readData': s0.assume(cle(ZERO, args[1]))
                for s, v in h.run(fn, s0, args):
                    tot['paths'] += 1
                    if what == 'client_headersCompleted':
                        if Rule.get(s, 'e:metaDataChanged', 0) != 1: rule.bad(s, 'does not announce the response once')
                    elif what == 'client_contentReadyRead':
                        if Rule.get(s, 'e:readyRead', 0) < 1: rule.bad(s, 'does not announce the content received')
                        if Rule.get(s, 'consumed') != 1: rule.bad(s, 'does not take the content received once')
                    elif what == 'client_finished':
                        if Rule.get(s, 'e:finished', 0) != 1: rule.bad(s, 'does not finish the reply exactly once')
                        if any(Rule.get(s, x) for x in ('e:metaDataChanged', 'e:readyRead')): rule.bad(s, 'announces data with the end')
                        k = [n for n, x in eclient.items() if s.decide(ceq(error, con(x))) is True]
                        e = Rule.get(s, 'seterror'); em = Rule.get(s, 'e:error', 0) + Rule.get(s, 'e:errorOccurred', 0)
                        if k == ['NoError']:
                            if em or e is not None: rule.bad(s, 'reports an error for a complete response')
                        elif s.decide(ceq(error, con(eclient['NoError']))) is not True:
                            if em != 1 or Rule.get(s, 'seterrors') != 1: rule.bad(s, 'does not report the error of a failed request once')
                            elif len(k) == 1 and k[0] in ERR:
                                want = P.enums.get('QNetworkReply::NetworkError', {}).get('vals', {}).get(ERR[k[0]])
                                if want is not None and e != con(want): rule.bad(s, 'reports %s as another error' % k[0])
                                if want is not None: tot['maps'] = tot.get('maps', 0) + 1
                        else: rule.bad(s, 'may take an error for success')
                    elif what == 'abort':
                        if alive and Rule.get(s, 'aborts') != 1: rule.bad(s, 'does not abort the request')
                        if not alive and Rule.get(s, 'aborts'): rule.bad(s, 'aborts without a client')
                    elif what == 'readData':
                        n = Rule.get(s, 'n')
                        if n is None:
                            if s.decide(ceq(POS, slen(OLD))) is not True: rule.bad(s, 'returns nothing although there is content left')
                            if (s.mem[L(mpos)] != POS or I.getstr(s, L(mco)) != OLD) and not (s.mem[L(mpos)] == ZERO and s.decide(ceq(slen(I.getstr(s, L(mco))), ZERO)) is True): rule.bad(s, 'moves on without having read')
                            if v not in (con(-1), ZERO) : rule.bad(s, 'claims to have read something')
                        else:
                            if s.decide(ceq(v, n)) is not True: rule.bad(s, 'returns another number of bytes than it copied')
                            now = I.getstr(s, L(mco)); p2 = s.mem[L(mpos)]
                            kept = now == OLD and s.decide(ceq(p2, add(POS, n))) is True
                            dropped = s.decide(ceq(slen(now), ZERO)) is True and p2 == ZERO and s.decide(ceq(add(POS, n), slen(OLD))) is True
                            if not kept and not dropped: rule.bad(s, 'does not move on by the bytes it copied')
                            if Rule.get(s, 'copies') != 1: rule.bad(s, 'copies twice')
                    elif what == 'bytesAvailable':
                        base = [x for x in syms_of(v) if 'bytesAvailable' in str(SYM.keys[x])]
                        if len(base) != 1 or s.decide(ceq(v, add(('i', 0, ((base[0], 1),)), sub(slen(OLD), POS)))) is not True: rule.bad(s, 'does not count the bytes it has')
            c.rules.append('%s: %d paths' % (fn.n, h.paths))
    c.need('paths', tot['paths'], 8); c.need('headers', tot['headers'], 1); c.need('attributes', tot['attributes'], 2); c.need('cookies', tot['cookies'], 1); c.need('errors', tot['errors'], 4); c.need('reads', tot['reads'], 1); c.need('emissions', tot['emits'], 3); c.need('mapped_errors', tot.get('maps', 0), 4)
    c.assumptions += ['QNetworkReply stores what its setters are given']

def manager(c, P):
    """C30: every request is made once, as given, by a client that serves no other request; clients go back to where they belong"""
    AUTH = opaque_str(('r', 'authority')); HTTP = G('http')
    mpool = field(P, NAM, lambda t: ('QMultiHash<QString' in t or 'QMultiMap<QString' in t or 'QHash<QString' in t or 'UrlClientsMap' in t)); mauth = field(P, NAM, lambda t: ('QHash<Pillow::HttpClient' in t or 'QMap<Pillow::HttpClient' in t or 'ClientUrlMap' in t))
    POOL, OWN = THIS + (mpool,), THIS + (mauth,)
    tot = dict(paths=0, requests=0, reused=0, made=0, bases=0, headers=0, cookies=0, returned=0)
    ops = P.enums.get('QNetworkAccessManager::Operation', {}).get('vals', {})
    VERB = {'HeadOperation': 'head', 'GetOperation': 'get', 'PutOperation': 'put', 'PostOperation': 'post', 'DeleteOperation': 'deleteResource', 'CustomOperation': 'request'}
    if not set(VERB) <= set(ops): raise AnalysisBroken('anchor vanished: operations of the network access manager')
    PC = (('o', 'pooled client'),); REQ = (('r', 'arg1'),); OUT = (('o', 'arg2'),)
    N = G('headers'); CK = G('cookies')
    for fn in [f for f in P.fns.values() if f.cls == NAM and f.name == 'createRequest']:
      for opname in sorted(VERB):
        rule = R(c, P, fn); h = Harness(P, rule); I = h.I
        h.seal(CLIENT)
        def up(st, g, k=3): Rule.put(st, g, min(k, Rule.get(st, g, 0) + 1))
        URL = ('agg', ('url',), ())
        def isurl(I, st, v): return whole(I, st, v)[:2] == URL[:2]
        # the request
        h.observe(['QNetworkRequest::url'], lambda I, st, ci, this, args, site: [(st, URL)])
        h.observe(['QUrl::authority', 'QUrl::encodedAuthority'], lambda I, st, ci, this, args, site: [(st, AUTH)])
        h.observe(['QUrl::scheme'], lambda I, st, ci, this, args, site: [(st, opaque_str(('r', 'scheme')))])
        def scheme(I, st, ci, this, args, site):
            if not nested(text(I, st, this) if this[0] == 'p' else this, ('r', 'scheme')): return None
            out = []
            for s, t in I.split(st, ('at', 'http', True)):
                s.mem[HTTP] = con(1 if t else 0)
                if ci['name'] == 'compare': out.append((s, ZERO if t else ONE))
                else: out.append((s, ('b', t != ci['name'].endswith('!='))))
            return out
        h.observe(['QString::compare', 'operator==', 'operator!=', 'QString::operator==', 'QString::operator!='], scheme)
        # the pool
        def inpool(this): return this is not None and this[0] == 'p' and this[1] == POOL
        def key(I, st, args, site):
            if text(I, st, args[0]) != AUTH: rule.bad(st, 'looks for a client of another server', site)
        def find(I, st, ci, this, args, site):
            if not inpool(this): return None
            key(I, st, args, site); out = []
            for s, t in I.split(st, ('at', 'pool hit', True)):
                out.append((s, ('agg', ('hit' if t else 'end',), ())))
            return out
        h.observe(['*::find', '*::constFind', '*::lowerBound'], find)
        h.observe(['*::end', '*::constEnd', '*::cend'], lambda I, st, ci, this, args, site: [(st, ('agg', ('end',), ()))] if inpool(this) else None)
        def itcmp(I, st, ci, this, args, site):
            xs = [whole(I, st, x) for x in ([this] if this is not None else []) + list(args)]
            if len(xs) == 2 and all(x[0] == 'agg' and x[1] in (('hit',), ('end',)) for x in xs): return [(st, ('b', (xs[0][1] == xs[1][1]) == ci['name'].endswith('==')))]
            return scheme(I, st, ci, this, args, site) if this is None or this[0] == 'p' and len(xs) == 2 and xs[0][0] == 's' else None
        h.observe(['%s::%s::operator%s' % (k, i, o) for k in ('QHash', 'QMultiHash', 'QMap', 'QMultiMap') for i in ('iterator', 'const_iterator') for o in ('!=', '==')], itcmp)
        def deref(I, st, ci, this, args, site):
            x = whole(I, st, this)
            if x[0] != 'agg' or x[1] not in (('hit',), ('end',)): return None
            if x[1] == ('end',): rule.bad(st, 'uses a client that it did not find', site); return []
            l = (('r', 'pool entry'),); st.mem[l] = ('p', PC); Rule.put(st, 'pooled', True)
            return [(st, ('p', l) if ci['ret'].endswith('&') else ('p', PC))]
        h.observe(['%s::%s::%s' % (k, i, o) for k in ('QHash', 'QMultiHash', 'QMap', 'QMultiMap') for i in ('iterator', 'const_iterator') for o in ('value', 'operator*')], deref)
        def erase(I, st, ci, this, args, site):
            if not inpool(this): return None
            x = whole(I, st, args[0]) if args else None
            if ci['name'] == 'erase' and not (x and x[1] == ('hit',)): rule.bad(st, 'removes a client that it does not use from the pool', site)
            elif ci['name'] == 'remove' and len(args) < 2: rule.bad(st, 'removes all the clients of a server from the pool', site)
            if ci['name'] == 'clear': rule.bad(st, 'empties the pool', site)
            up(st, 'erased'); return [(st, I.fresh(ci['ret'], st.fresh('erase', tuple(site))))]
        h.observe(['*::erase', '*::remove', '*::clear'], erase)
        def take(I, st, ci, this, args, site):
            if not inpool(this): return None
            key(I, st, args, site); out = []
            for s, t in I.split(st, ('at', 'pool hit', True)):
                if t:
                    Rule.put(s, 'pooled', True)
                    if ci['name'] == 'take': up(s, 'erased')
                    s.lit[('null', PC)] = False
                out.append((s, ('p', PC) if t else ('n',)))
            return out
        h.observe(['*::take', '*::value'], take)
        def contains(I, st, ci, this, args, site):
            if not inpool(this): return None
            key(I, st, args, site); return [(s, ('b', t)) for s, t in I.split(st, ('at', 'pool hit', True))]
        h.observe(['*::contains'], contains)
        def insert(I, st, ci, this, args, site):
            if inpool(this): rule.bad(st, 'puts a client into the pool that has a request to serve', site)
            elif this is not None and this[0] == 'p' and this[1] == OWN:
                if ptr(I, st, args[0]) == ('p', Rule.get(st, 'new')) and text(I, st, args[1]) == AUTH: Rule.put(st, 'owned', True)
                else: rule.bad(st, 'notes a client under another server than its own', site)
            else: return None
            return [(st, I.fresh(ci['ret'], st.fresh('ins', tuple(site))))]
        h.observe(['*::insert', '*::insertMulti', '*::replace'], insert)
        def onnew(I, st, loc, t, site):
            if strip(t) == CLIENT or P.derives(strip(t), CLIENT):
                if Rule.get(st, 'new'): rule.bad(st, 'makes two clients for a request', site)
                Rule.put(st, 'new', loc); tot['made'] += 1
        rule.on_new = onnew
        def connected(I, st, ci, this, args, site):
            n = Rule.get(st, 'new')
            if n and args and args[0] == ('p', n) and any(a == ('p', THIS) for a in args): Rule.put(st, 'connected', True)
            return [(st, I.fresh(ci['ret'], st.fresh('conn', tuple(site))))]
        h.observe(['QObject::connect'], connected)
        # the reply
        replies = [k for k in P.records if P.derives(k, 'QNetworkReply')]
        def rep(I, st, ci, this, args, site):
            if not args or len(args) < 3 or this is None: return None
            if Rule.get(st, 'reply'): rule.bad(st, 'makes two replies', site)
            if Rule.get(st, 'n'): rule.bad(st, 'makes the reply after its request was started', site)
            Rule.put(st, 'reply', True); Rule.put(st, 'replyof', args[0])
            if args[1] != con(ops[opname]): rule.bad(st, 'makes a reply for another operation', site)
            if args[2] != ('p', REQ) and whole(I, st, args[2]) != whole(I, st, ('p', REQ)): rule.bad(st, 'makes a reply for another request', site)
            return [(st, ('agg', ('reply',), ()))]
        h.observe(['%s::%s' % (k, k.split('::')[-1]) for k in replies], rep)
        # what is sent
        def rawlist(I, st, ci, this, args, site): return [(st, ('agg', ('rawlist',), ()))]
        h.observe(['QNetworkRequest::rawHeaderList'], rawlist)
        def raw(I, st, ci, this, args, site):
            e = elem_of(I, st, args[0], 'rawlist')
            if DEBUG: print('RAWH', args, e)
            v = ('s', (('S', ('rawvalue', e)),)) if e is not None else opaque_str(st.fresh('raw', tuple(site)))
            return [(st, v)]
        h.observe(['QNetworkRequest::rawHeader'], raw)
        h.observe(['QNetworkAccessManager::cookieJar'], lambda I, st, ci, this, args, site: [(s, ('n',) if t else ('p', (('o', 'jar'),))) for s, t in I.split(st, atom('null', (('o', 'jar'),)))])
        def cookies(I, st, ci, this, args, site):
            if not isurl(I, st, args[0]): rule.bad(st, 'sends the cookies of another url', site)
            Rule.put(st, 'asked', True); return [(st, ('agg', ('cookielist',), ()))]
        h.observe(['*::cookiesForUrl'], cookies)
        def form(I, st, ci, this, args, site):
            if DEBUG: print('FORM', this, whole(I, st, this))
            e = idx(I, st, this) if nested(this, 'cookielist') or nested(whole(I, st, this), 'cookielist') else None
            if e is None: return None
            v = ('s', (('S', ('rawcookie', e)),)); st.assume(cle(ONE, slen(v)))
            return [(st, v)]
        h.observe(['QNetworkCookie::toRawForm'], form)
        def on_append(I, st, loc, v, site):
            for g in v[1]:
                if g[0] == 'S' and isinstance(g[1], tuple) and g[1][:1] == ('rawcookie',):
                    tot['cookies'] += 1
                    z = st.decide(ceq(st.mem[CK], ZERO))
                    if z is not True and Rule.get(st, 'sep') is not True: rule.bad(st, 'sends two cookies without a separator', site)
                    plusone(st, CK, g[1][1]); Rule.put(st, 'sep', False); Rule.put(st, 'jarloc', loc)
                elif g == ('L', b'; ') and (Rule.get(st, 'sep') is not True): Rule.put(st, 'sep', True)
                elif Rule.get(st, 'jarloc') == loc: rule.bad(st, 'sends something else than its cookies', site)
        rule.on_append = on_append
        def seq(I, st, op, loc, v, site):
            if DEBUG: print('HDR', op, v)
            if op != 'append': return
            a, b = (I.getstr(st, v[1] + (m,)) if v[0] == 'p' else None for m in ('first', 'second'))
            if v[0] == 'agg':
                d = dict(v[2]) if v[2] else {}
                a, b = d.get(('first',)), d.get(('second',))
                if DEBUG: print('HDR', v)
            if a is None or b is None or a[0] != 's': return
            tot['headers'] += 1
            if a == lit(b'Cookie'):
                up(st, 'cookieheader')
                if b != I.getstr(st, Rule.get(st, 'jarloc')) if Rule.get(st, 'jarloc') else not nested(b, 'rawcookie'): rule.bad(st, 'sends other cookies than those of the jar', site)
                return
            e = elem_of(I, st, a, 'rawlist')
            if e is None: rule.bad(st, 'adds a header that the request does not have', site); return
            if not (b[0] == 's' and len(b[1]) == 1 and b[1][0][0] == 'S' and b[1][0][1][:1] == ('rawvalue',) and st.decide(ceq(b[1][0][1][1], e)) is True): rule.bad(st, 'sends a header with another value than its own', site)
            plusone(st, N, e)
        rule.on_seq = seq
        h.observe(['QIODevice::readAll', '*::readAll'], lambda I, st, ci, this, args, site: (up(st, 'bodyread'), [(st, opaque_str(('r', 'body')))])[1] if this == ('p', OUT) else None)
        h.observe(['QNetworkRequest::attribute'], lambda I, st, ci, this, args, site: [(st, ('agg', ('attr', args[0]), ()))])
        h.observe(['QVariant::toByteArray'], lambda I, st, ci, this, args, site: [(st, opaque_str(('r', 'verb')))] if nested(whole(I, st, this), 'attr') else None)
        def send(I, st, ci, this, args, site):
            tot['requests'] += 1; st.note(ci['name'], 'line', site.line)
            up(st, 'n')
            want = {('p', PC)} if Rule.get(st, 'pooled') else {('p', Rule.get(st, 'new'))}
            if this not in want: rule.bad(st, 'uses another client than the one it took', site)
            if Rule.get(st, 'replyof') != this: rule.bad(st, 'starts the request on a client that its reply does not listen to', site)
            if Rule.get(st, 'pooled'):
                tot['reused'] += 1
                if Rule.get(st, 'erased', 0) != 1: rule.bad(st, 'leaves a client in the pool that serves a request', site)
            else:
                if not Rule.get(st, 'connected'): rule.bad(st, 'makes a client that never comes back', site)
                if not Rule.get(st, 'owned'): rule.bad(st, 'makes a client without noting its server', site)
            name = ci['name']; a = list(args)
            if name == 'request' and len(a) >= 3:
                m = text(I, st, a[0]); a = a[1:]
                good = m == opaque_str(('r', 'verb')) if opname == 'CustomOperation' else m == lit({'head': b'HEAD', 'get': b'GET', 'put': b'PUT', 'post': b'POST', 'deleteResource': b'DELETE'}[VERB[opname]])
            else: good = name == VERB[opname]
            if not good: rule.bad(st, 'sends %s for %s' % (name, opname), site)
            if not isurl(I, st, a[0]): rule.bad(st, 'sends the request to another url', site)
            size = sym(('size', ('rawlist',)), 0, INTMAX)
            if st.decide(ceq(st.mem[N], size)) is not True: rule.bad(st, 'does not send every header of the request exactly once', site)
            if Rule.get(st, 'asked'):
                cs = sym(('size', ('cookielist',)), 0, INTMAX)
                if st.decide(ceq(st.mem[CK], cs)) is not True: rule.bad(st, 'does not send every cookie exactly once', site)
                if not Rule.get(st, 'cookieheader') and st.decide(ceq(cs, ZERO)) is False: rule.bad(st, 'does not send its cookies', site)
            elif st.lit.get(('null', (('o', 'jar'),))) is not True: rule.bad(st, 'does not send its cookies', site)
            if opname in ('PutOperation', 'PostOperation', 'CustomOperation'):
                d = text(I, st, a[2]) if len(a) > 2 else EMPTY
                none = st.lit.get(('null', OUT)) is True
                if none and st.decide(ceq(slen(d), ZERO)) is not True or not none and (d != opaque_str(('r', 'body')) or Rule.get(st, 'bodyread') != 1): rule.bad(st, 'sends other data than it was given', site)
            return [(st, ('void',))]
        h.observe([CLIENT + '::' + v for v in set(VERB.values())], send)
        def base(I, st, ci, this, args, site):
            up(st, 'n'); tot['bases'] += 1
            if st.mem.get(HTTP) != ZERO: rule.bad(st, 'leaves a request for http to the base class', site)
            if args[0] != con(ops[opname]) or args[1] != ('p', REQ) or args[2] != ('p', OUT) and args[2][0] != 'n': rule.bad(st, 'makes another request than the one it was given', site)
            l = (('o', 'base reply'),); st.lit[('null', l)] = False
            Rule.put(st, 'based', True); return [(st, ('p', l))]
        h.observe(['QNetworkAccessManager::createRequest'], base)
        st = h.state(NAM)
        st.mem[N] = st.mem[CK] = ZERO
        # keeps what is known about the sizes when the lists go out of scope
        for n in ('rawlist', 'cookielist'): st.mem[G(('sizeof', n))] = sym(('size', (n,)), 0, INTMAX)
        st.lit[('null', PC)] = False
        args = [con(ops[opname]), ('p', REQ), ('p', OUT)]
        for s, v in h.run(fn, st, args):
            tot['paths'] += 1
            if Rule.get(s, 'n', 0) != 1: rule.bad(s, 'does not make the request exactly once')
            elif Rule.get(s, 'based'):
                if v != ('p', (('o', 'base reply'),)): rule.bad(s, 'returns another reply than the one of the request')
                if Rule.get(s, 'erased'): rule.bad(s, 'loses a client')
            else:
                if v[0] != 'p' or s.mem.get(v[1] + ('$class',), (0, 0))[1] not in replies: rule.bad(s, 'does not return the reply of the request')
                if s.mem.get(HTTP) != ONE: rule.bad(s, 'speaks http for another scheme')
        c.rules.append('%s (%s): %d paths' % (fn.n, opname, h.paths))
    for fn in [f for f in P.fns.values() if f.cls == NAM and f.name == 'client_finished']:
        rule = R(c, P, fn); h = Harness(P, rule); I = h.I
        SND = (('o', 'sender'),)
        h.observe(['QObject::sender'], lambda I, st, ci, this, args, site: [(st, ('p', SND))])
        def at(this, l): return this is not None and this[0] == 'p' and this[1] == l
        def look(I, st, ci, this, args, site):
            if not at(this, OWN): return None
            if ptr(I, st, args[0]) != ('p', SND): rule.bad(st, 'looks up another client', site)
            if ci['name'] == 'take': Rule.put(st, 'forgot', True)
            return [(st, AUTH)]
        h.observe(['*::value', '*::take', '*::operator[]'], look)
        def put(I, st, ci, this, args, site):
            if not at(this, POOL): return None
            if ci['name'] in ('replace',): rule.bad(st, 'replaces a client in the pool', site)
            if text(I, st, args[0]) != AUTH: rule.bad(st, 'puts a client into the pool of another server', site)
            if ptr(I, st, args[1]) != ('p', SND): rule.bad(st, 'puts another client into the pool', site)
            Rule.put(st, 'put', min(2, Rule.get(st, 'put', 0) + 1)); tot['returned'] += 1
            return [(st, I.fresh(ci['ret'], st.fresh('ins', tuple(site))))]
        h.observe(['*::insert', '*::insertMulti', '*::replace'], put)
        def gone(I, st, ci, this, args, site):
            if this == ('p', SND): Rule.put(st, 'gone', min(2, Rule.get(st, 'gone', 0) + 1))
            else: rule.bad(st, 'deletes something else than the client', site)
            return [(st, ('void',))]
        h.observe(['QObject::deleteLater'], gone)
        rule.on_delete = lambda I, st, p, i, site: rule.bad(st, 'deletes a client that is still emitting finished()', site)
        st = h.state(NAM); st.lit[('null', SND)] = False
        for s, v in h.run(fn, st):
            tot['paths'] += 1
            p, g = Rule.get(s, 'put', 0), Rule.get(s, 'gone', 0)
            if p + g != 1: rule.bad(s, 'does not put the client back or dispose of it exactly once')
            if g and s.decide(ceq(slen(AUTH), ZERO)) is False: rule.bad(s, 'disposes of a client that could be reused')
            if Rule.get(s, 'forgot') and p: rule.bad(s, 'forgets the server of a client in the pool')
        c.rules.append('%s: %d paths' % (fn.n, h.paths))
    c.need('paths', tot['paths'], 14); c.need('requests', tot['requests'], 6); c.need('reused_clients', tot['reused'], 6); c.need('new_clients', tot['made'], 6); c.need('base_requests', tot['bases'], 6); c.need('headers', tot['headers'], 2); c.need('cookies', tot['cookies'], 1); c.need('returned_clients', tot['returned'], 1)
    c.assumptions += ['QHash stores what it is given; operations other than those of the public interface (UnknownOperation) are not covered']

def elem_of(I, st, v, name):
    """index of the element of the list with this name that a value was taken from"""
    if nested(v, name) or v[0] == 'p' and nested(whole(I, st, v), name) or v[0] == 'p' and nested(text(I, st, v), name): pass
    else: return None
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == '[]': return x[1]
            for y in x:
                r = go(y)
                if r is not None: return r
        return None
    for x in (v, text(I, st, v)):
        r = go(x)
        if r is not None: return r
    return None
