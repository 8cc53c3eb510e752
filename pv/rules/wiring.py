"""String-based signal/slot connections."""
import re
from ..harness import *

def norm(t):
    t = re.sub(r'\s+', ' ', t.strip())
    t = re.sub(r'^const (.*?) ?&$', r'\1', t)
    t = re.sub(r'^const (?!.*[*&])', '', t)
    return t.replace(' ', '').replace('Pillow::', '').replace('longlong', 'qint64').replace('unsignedlonglong', 'quint64')
def parse(s):
    m = re.match(r'^([0-9])?\s*(\w+)\s*\((.*)\)\s*$', s)
    if not m: return None
    args = m.group(3).strip(); out = []; depth = 0; cur = ''
    for ch in args:
        if ch == ',' and depth == 0: out.append(cur); cur = ''
        else:
            depth += {'<': 1, '>': -1}.get(ch, 0); cur += ch
    if cur.strip(): out.append(cur)
    return m.group(1), m.group(2), [norm(a) for a in out]
def lookup(P, cls, name, args, kinds):
    """declared signals/slots of cls (or a class derived from it) that the normalised signature denotes"""
    for c in P.all_subs(cls):
        for m, ci in P.methods(c):
            if ci['name'] != name or ci['qt'] not in kinds: continue
            ps = [norm(p) for p in ci['params'] if 'QPrivateSignal' not in p]
            nd = ci.get('ndefault') or 0
            for k in range(len(ps) - nd, len(ps) + 1):
                if k >= 0 and ps[:k] == args: return m
    return None

CONN = ('QObject::connect', 'QTimer::singleShot')
def cls_of(P, t):
    t = strip(t)
    return t[:-1].strip() if t.endswith('*') else t

class Edges(Rule):
    pass
def role(st, v):
    if v[0] != 'p': return '?'
    l = v[1]
    if l == THIS: return 'this'
    if len(l) == 1 and l[0][0] == 'o' and isinstance(l[0][1], str): return l[0][1]
    c = st.mem.get(l + ('$class',))
    if c is not None and c[0] == 'cls': return 'new ' + c[1]
    return repr(l)[:120]

def edges_of(P, h, fn, setup=None):
    """per abstract path: the connections made, as (sender, signal, receiver, slot)"""
    def conn(I, st, ci, this, args, site):
        a = [x for x in args]
        def txt(v):
            if v[0] == 'cl' and isconst(v[2]): return v[1][v[2][1]:].split(b'\0')[0].decode()
            if v[0] == 'f': return '1' + P.callees[v[1]]['name'] + '()'
            return '?'
        if len(a) >= 4 and a[2][0] == 'p': e = (role(st, a[0]), txt(a[1]), role(st, a[2]), txt(a[3]))
        elif len(a) >= 3: e = (role(st, a[0]), txt(a[1]), 'this' if this is None else role(st, this), txt(a[2]))
        else: return None
        q = [parse(x) for x in (e[1], e[3])]
        e = (e[0], q[0][1] if q[0] else e[1], e[2], q[1][1] if q[1] else e[3])
        Rule.put(st, 'edges', Rule.get(st, 'edges', frozenset()) | {e})
        return [(st, ('agg', ('connection',), ()))]
    h.observe(['QObject::connect'], conn)
    st = h.state(fn.cls)
    if fn.info.get('ctor'): st.mem[THIS] = ('undef',)
    args = [h.arg(t, i) for i, t in enumerate(fn.params)]
    for a in args:
        if a[0] == 'p' and a[1][0][0] == 'o': st.lit[('null', a[1])] = False
    if setup: setup(st, args)
    return h.run(fn, st, args)

# function -> list of (sender role, signal, receiver role, slot, condition on the path)
REQUIRED = [
 ('Pillow::HttpServerPrivate::createConnection', [('new Pillow::HttpConnection', 'requestReady', None, 'requestReady'), ('new Pillow::HttpConnection', 'closed', None, 'connection_closed')]),
 ('Pillow::HttpLocalServer::HttpLocalServer', [('this', 'newConnection', 'this', 'this_newConnection')]),
 ('Pillow::HttpClient::HttpClient', [('new QTcpSocket', 'error', 'this', 'device_error'), ('new QTcpSocket', 'connected', 'this', 'device_connected'), ('new QTcpSocket', 'readyRead', 'this', 'device_readyRead')]),
 ('Pillow::NetworkReply::NetworkReply', [('arg0', 'headersCompleted', 'this', 'client_headersCompleted'), ('arg0', 'contentReadyRead', 'this', 'client_contentReadyRead'), ('arg0', 'finished', 'this', 'client_finished')]),
 ('Pillow::HttpHandlerProxyPipe::HttpHandlerProxyPipe', [('arg0', 'requestCompleted', 'this', 'teardown'), ('arg0', 'closed', 'this', 'teardown'), ('arg0', 'destroyed', 'this', 'teardown'),
                                                       ('arg1', 'readyRead', 'this', 'proxiedReply_readyRead'), ('arg1', 'finished', 'this', 'proxiedReply_finished'), ('arg1', 'destroyed', 'this', 'teardown')]),
 ('Pillow::HttpHandlerFileTransfer::HttpHandlerFileTransfer', [('arg0', 'destroyed', 'this', 'deleteLater'), ('arg1', 'requestCompleted', 'this', 'deleteLater'), ('arg1', 'closed', 'this', 'deleteLater'), ('arg1', 'destroyed', 'this', 'deleteLater'), (None, 'bytesWritten', 'this', 'writeNextPayload')]),
]

def wiring(c, P):
    n = 0
    for m, fn in sorted(P.fns.items()):
        if not fn.file.endswith(('.cpp', '.h')): continue
        D = None
        for i, ci in P.calls(fn):
            if ci['n'] not in CONN: continue
            D = D or defs(fn)
            lits = [(k, literal(D, t)) for k, t in enumerate(i['a'])]
            strs = [(k, s) for k, s in lits if s is not None]
            where = P.loc(fn, i['l'])
            if ci['n'] == 'QTimer::singleShot':
                k, s = strs[0] if strs else (None, None)
                if s is None: continue
                n += 1
                p = parse(s); cl = cls_of(P, i['at'][k - 1])
                if p is None or lookup(P, cl, p[1], p[2], ('slot', 'signal')) is None: c.violation('%s:%s' % (fn.n, s), where, '%s: timer slot %s does not exist in %s' % (fn.n, s, cl))
                c.rules.append('%s: timer -> %s' % (where, s)); continue
            if len(strs) < 2: continue
            n += 1
            (ks, sig), (kr, slot) = strs[:2]
            scls = cls_of(P, i['at'][ks - 1])
            rcls = cls_of(P, i['at'][kr - 1]) if kr - ks > 1 else (cls_of(P, fn.cls))
            ps, pr = parse(sig), parse(slot)
            c.rules.append('%s: %s %s -> %s %s' % (where, scls, sig, rcls, slot))
            key = '%s:%s->%s' % (fn.n, sig, slot)
            if ps is None or pr is None: c.violation(key, where, '%s: malformed signature in connection %s -> %s' % (fn.n, sig, slot)); continue
            if ps[0] != '2' or lookup(P, scls, ps[1], ps[2], ('signal',)) is None: c.violation(key, where, '%s: %s has no signal %s(%s)' % (fn.n, scls, ps[1], ','.join(ps[2]))); continue
            known = rcls if rcls != 'QObject' else None
            if known and lookup(P, rcls, pr[1], pr[2], ('slot', 'signal', 'invokable')) is None: c.violation(key, where, '%s: %s has no slot %s(%s)' % (fn.n, rcls, pr[1], ','.join(pr[2]))); continue
            if not known:
                # the receiver is one of the project classes passed as a plain QObject: every class that hands itself over must declare the member
                owners = receivers(P, fn)
                for o in owners:
                    if lookup(P, o, pr[1], pr[2], ('slot', 'signal', 'invokable')) is None: c.violation(key + '@' + o, where, '%s: %s has no member %s(%s)' % (fn.n, o, pr[1], ','.join(pr[2])))
            if pr[2] != ps[2][:len(pr[2])]: c.violation(key, where, '%s: slot %s takes arguments the signal %s does not carry' % (fn.n, slot, sig))
    c.need('connections', n, 30 if not c.found else 0)
    # edges on every path
    ne = 0; np = 0
    for q, req in REQUIRED:
        fns = [f for f in P.find_all(q) if not f.info.get('copy')]
        if not fns: raise AnalysisBroken('anchor vanished: ' + q)
        for fn in fns:
            h = Harness(P, Rule(c))
            for s, _ in edges_of(P, h, fn):
                np += 1
                have = Rule.get(s, 'edges', frozenset())
                for e in req:
                    ne += 1
                    if not any((e[0] is None or e[0] == x[0]) and e[1] == x[1] and (e[2] is None or e[2] == x[2]) and e[3] == x[3] for x in have):
                        c.violation('edge:%s:%s->%s' % (q, e[1], e[3]), P.loc(fn, fn.line), 'a path through %s never connects %s of %s to %s' % (q, e[1], e[0], e[3]))
    # device events reach the connection
    fn = P.find('Pillow::HttpConnection::initialize')
    h = Harness(P, Rule(c))
    h.I.noinline |= {'Pillow::HttpConnectionPrivate::initialize'}
    kinds = set()
    for s, _ in edges_of(P, h, fn):
        have = {(x[1], x[3]) for x in Rule.get(s, 'edges', frozenset()) if x[0] == 'arg0'}
        if not have:
            # nothing connected: only right when the connection already had this device
            if s.decide(('at', ('peq',) , True)) is None and not same_device(P, s): c.violation('edge:initialize:none', P.loc(fn, fn.line), 'a path through HttpConnection::initialize takes a new input device without connecting its events')
            continue
        np += 1
        dev = device_kind(s)
        kinds.add(dev)
        need = [('readyRead', 'processInput')] + {'socket': [('disconnected', 'close')], 'local': [('disconnected', 'close'), ('readChannelFinished', 'close')], 'other': [('aboutToClose', 'close')]}[dev]
        for e in need:
            ne += 1
            if e not in have: c.violation('edge:initialize:%s:%s' % (dev, e[0]), P.loc(fn, fn.line), 'with a %s input device HttpConnection::initialize never connects %s to %s' % (dev, e[0], e[1]))
    for f in [P.find('Pillow::HttpConnectionPrivate::transitionToFlushing')]:
        h = Harness(P, Rule(c))
        for s, _ in edges_of(P, h, f):
            pass
    c.need('device_kinds', len(kinds), 3 if not c.found else 0)
    c.cov['edge_obligations'] = ne; c.cov['paths'] = np

def same_device(P, s):
    return any(a[0] == 'peq' and v for a, v in s.lit.items())
def device_kind(s):
    k = 'other'
    for a, v in s.lit.items():
        if a[0] in ('isa', 'null') and 'QLocalSocket' in repr(a) and (v if a[0] == 'isa' else not v): k = 'local'
    for a, v in s.lit.items():
        if a[0] in ('isa', 'null') and 'QAbstractSocket' in repr(a) and (v if a[0] == 'isa' else not v): k = 'socket'
    return k
def receivers(P, fn):
    """project classes that pass themselves as the QObject of fn's class"""
    out = set()
    for m, f in P.fns.items():
        for i, ci in P.calls(f):
            if ci.get('ctor') and ci.get('cls') == fn.cls and f.cls and f.cls != fn.cls: out.add(f.cls)
    return sorted(out)
