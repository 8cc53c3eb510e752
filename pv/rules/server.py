"""Servers: one pooled connection object per accepted socket, taken back when it closes (C23); TLS before HTTP (C24)."""
from ..harness import *
from .. import models
from ..check import path_of
CONN = 'Pillow::HttpConnection'

def pool_class(P):
    """the class that owns the list of reserve connections, and the list member"""
    for n, r in sorted(P.records.items()):
        for f in r.get('fields', []):
            t = f['type'].replace(' ', '')
            if t.startswith(('QList<', 'QVector<', 'QStack<', 'QQueue<')) and 'HttpConnection*' in t and n.startswith('Pillow::HttpServer'): return n, f['name']
    raise AnalysisBroken('anchor vanished: the list of reserve connections')

class Pool(Rule):
    """ghosts per connection: 'pool' (in the reserve), 'out' (taken from it), 'made' (new), 'gone' (deleted)"""
    def __init__(self, c, P, fn, member): self.check = c; self.P = P; self.fn = fn; self.member = member; self.pops = 0; self.puts = 0; self.inits = 0; self.fails = 0
    def bad(self, st, what, site=None):
        self.check.violation('%s %s' % (self.fn.n, what), self.P.where(site, self.fn), '%s %s' % (self.fn.n, what), path_of(st))
    def mine(self, loc): return any(c == self.member for c in loc)
    def on_seq(self, I, st, op, loc, v, site):
        if not self.mine(loc): return
        if op == 'pop':
            self.pops += 1
            if v is not None and v[0] == 'p':
                Rule.put(st, ('c', v[1]), 'out'); st.note('leaves the reserve', 'line', site.line)
            else: self.bad(st, 'loses a connection of the reserve', site)
        elif op == 'append':
            self.puts += 1
            if v[0] != 'p': self.bad(st, 'puts something that may be no connection into the reserve', site); return
            o = Rule.get(st, ('c', v[1]))
            if o is None and element_of(v, self.member): o = 'pool'
            if o == 'pool': self.bad(st, 'puts the same connection into the reserve twice', site)
            if o == 'gone': self.bad(st, 'puts a deleted connection into the reserve', site)
            if o == 'busy': self.bad(st, 'puts a connection that is in use into the reserve', site)
            self.settle(st, v[1], 'pool'); st.note('enters the reserve', 'line', site.line)
        else: st.flag('pool:' + op)
    def settle(self, st, loc, what):
        """connections other than the one the operation is about are forgotten once their fate is settled"""
        if Rule.get(st, 'subject') == loc: Rule.put(st, ('c', loc), what)
        else: st.mem.pop(G(('c', loc)), None)
    def on_new(self, I, st, loc, t, site):
        if strip(t) == CONN: Rule.put(st, ('c', loc), 'made')
        else: Rule.put(st, ('o', loc), 'live')
    def on_delete(self, I, st, p, ins, site):
        if p[0] != 'p': return
        if Rule.get(st, ('o', p[1])) == 'live': Rule.put(st, ('o', p[1]), 'gone'); return
        o = Rule.get(st, ('c', p[1]))
        if o is None and element_of(p, self.member): o = 'pool'
        if o == 'pool': self.bad(st, 'deletes a connection that is still in the reserve', site)
        if o == 'arg': self.bad(st, 'deletes a connection while it emits closed()', site)
        if o == 'gone': self.bad(st, 'deletes a connection twice', site)
        if o is not None: self.settle(st, p[1], 'gone')
def element_of(p, member): return p[0] == 'p' and nested(p[1], member) and nested(p[1], '[]')
def nested(v, x):
    if v == x: return True
    return isinstance(v, (tuple, frozenset)) and any(nested(y, x) for y in v)

def harness(P, c, fn, member):
    rule = Pool(c, P, fn, member); h = Harness(P, rule, max_states=6000)
    h.seal(CONN, 'Pillow::HttpConnectionPrivate')
    def later(I, st, ci, this, args, site):
        if this is None or this[0] != 'p': return [(st, ('void',))]
        l = this[1]; st.note('deleteLater', 'line', site.line)
        if Rule.get(st, ('o', l)) == 'live': Rule.put(st, ('o', l), 'gone')
        o = Rule.get(st, ('c', l))
        if o is None and element_of(this, member): o = 'pool'
        if o == 'pool': rule.bad(st, 'deletes a connection that is still in the reserve', site)
        elif o is not None: rule.settle(st, l, 'gone')
        if l == (('o', ('dev', Rule.get(st, 'subject'))),): Rule.put(st, ('later', l), min(2, Rule.get(st, ('later', l), 0) + 1))
        return [(st, ('void',))]
    def indev(I, st, ci, this, args, site): return [(st, ('p', (('o', ('dev', this[1])),)))] if this[0] == 'p' else None
    def init(I, st, ci, this, args, site):
        rule.inits += 1
        Rule.put(st, 'inits', min(2, Rule.get(st, 'inits', 0) + 1)); st.note('initialize', 'line', site.line)
        if this[0] != 'p': return [(st, ('void',))]
        o = Rule.get(st, ('c', this[1]))
        if o == 'gone': rule.bad(st, 'initialises a deleted connection', site)
        elif o == 'busy': rule.bad(st, 'initialises a connection that is already in use', site)
        elif o not in ('out', 'made'): rule.bad(st, 'initialises a connection that is still in the reserve', site)
        Rule.put(st, ('c', this[1]), 'busy'); Rule.put(st, 'pair', (args[0], args[1]))
        for a in args[:2]:
            if a[0] == 'p' and Rule.get(st, ('o', a[1])) == 'gone': rule.bad(st, 'gives a deleted socket to a connection', site)
        Rule.put(st, 'tls@init', Rule.get(st, 'tls')); Rule.put(st, 'descr@init', Rule.get(st, 'descr'))
        return [(st, ('void',))]
    def descr(I, st, ci, this, args, site):
        b = st.copy()
        Rule.put(st, 'descr', (this[1], True)); Rule.put(b, 'descr', (this[1], False)); b.note('setSocketDescriptor fails', 'line', site.line)
        if args[0] != I.fresh(fn.params[0], ('arg', 0)): rule.bad(st, 'opens another descriptor than the accepted one', site)
        return [(st, ('b', True)), (b, ('b', False))]
    h.observe(['QObject::deleteLater'], later); h.observe([CONN + '::inputDevice', CONN + '::outputDevice'], indev); h.observe([CONN + '::initialize'], init)
    h.observe(['*::setSocketDescriptor'], descr)
    def nextp(I, st, ci, this, args, site):
        p = ('p', (('o', st.fresh('pending', tuple(site))),)); st.lit[('null', p[1])] = False
        Rule.put(st, 'pending', p)
        Rule.put(st, 'npend', Rule.get(st, 'npend', 0) + 1)
        return [(st, p)]
    h.observe(['*::nextPendingConnection'], nextp)
    return h, rule

def pool(c, P):
    cls, member = pool_class(P)
    # what the pool starts with bounds it
    caps = set(); paths = 0; pops = puts = inits = 0; nfn = 0
    ctors = [f for f in P.fns.values() if f.cls == cls and f.info.get('ctor') and not f.info.get('copy')]
    for f in ctors:
        h, rule = harness(P, c, f, member)
        st = h.state(cls); st.mem[THIS] = ('undef',)
        for s, _ in h.run(f, st):
            paths += 1
            n = models.csize(h.I, s, THIS + (member,)); lo, hi = s.interval(n)
            if hi == inf or hi > 10**6: rule.bad(s, 'fills the reserve without bound')
            else: caps.add(hi)
        nfn += 1; puts += rule.puts
    cap = con(max(caps | {0}))
    if not caps and not c.found: raise AnalysisBroken('the reserve has no construction bound')
    holders = {f2.cls for f2 in P.fns.values() if f2.cls and any(b == cls for b in [strip(x['type'].replace('*', '').strip()) for x in P.records.get(f2.cls, {}).get('fields', [])])}
    def start(h, fn):
        st = h.state(fn.cls)
        I = h.I
        loc = THIS + (member,)
        if fn.cls != cls:
            d = [x['name'] for x in P.records[holder(P, fn.cls, cls)]['fields'] if strip(x['type'].replace('*', '').strip()) == cls][0]
            p = I.load(st, THIS + (d,), cls + ' *'); st.lit[('null', p[1])] = False
            loc = p[1] + (member,)
        st.assume(cle(models.csize(I, st, loc), cap))
        return st, loc
    for m, fn in sorted(P.fns.items()):
        if fn.cls != cls and not holder(P, fn.cls, cls) or fn.info.get('ctor') or fn.info.get('dtor') or '~' in fn.n: continue
        nfn += 1
        h, rule = harness(P, c, fn, member)
        st, loc = start(h, fn)
        args = [h.arg(t, i) for i, t in enumerate(fn.params)]
        carg = None
        for a, t in zip(args, fn.params):
            if strip(t.replace('*', '').strip()) == CONN and a[0] == 'p':
                carg = a[1]; st.lit[('null', a[1])] = False; Rule.put(st, ('c', a[1]), 'arg'); Rule.put(st, 'subject', a[1])
        n0 = models.csize(h.I, st, loc)
        for s, v in h.run(fn, st, args):
            paths += 1
            if s.flags & {f for f in s.flags if f.startswith('pool:')}: c.count('unresolved_paths'); continue
            n = models.csize(h.I, s, loc)
            if s.decide(cle(n, cap)) is not True: rule.bad(s, 'lets the reserve grow beyond its initial size')
            cs = {l[1][1]: x[1] for l, x in s.mem.items() if l[0] == ('G',) and isinstance(l[1], tuple) and l[1][0] == 'c'}
            for l, o in cs.items():
                if o in ('out', 'made') and not (v[0] == 'p' and v[1] == l): rule.bad(s, 'loses a connection object')
            if v[0] == 'p' and strip(fn.ret.replace('*', '').strip()) == CONN:
                o = cs.get(v[1])
                if o in (None, 'pool'): rule.bad(s, 'hands out a connection that stays in the reserve')
                if o == 'gone': rule.bad(s, 'hands out a deleted connection')
            if carg is not None and cs.get(carg) != 'pool' and (fn.cls == cls or is_slot(fn)): rule.bad(s, 'does not take a closed connection back into the reserve')
            if carg is not None and fn.cls != cls and is_slot(fn):
                k = Rule.get(s, ('later', (('o', ('dev', carg)),)), 0)
                if k != 1: rule.bad(s, 'does not schedule the deletion of the socket of a closed connection exactly once')
            d = Rule.get(s, 'descr'); k = Rule.get(s, 'inits', 0)
            socks = {l[1][1]: x[1] for l, x in s.mem.items() if l[0] == ('G',) and isinstance(l[1], tuple) and l[1][0] == 'o'}
            if d is not None:
                inits += 1
                loc2, ok = d
                if ok:
                    if k != 1: rule.bad(s, 'does not initialise exactly one connection for an accepted socket')
                    elif Rule.get(s, 'pair') != (('p', loc2), ('p', loc2)): rule.bad(s, 'initialises the connection with another device than the accepted socket')
                    elif Rule.get(s, 'descr@init') != d: rule.bad(s, 'initialises the connection before the socket is open')
                    if socks.get(loc2) == 'gone': rule.bad(s, 'deletes the socket of a running connection')
                else:
                    if k: rule.bad(s, 'initialises a connection although the socket could not be opened')
                    if socks.get(loc2) == 'live': rule.bad(s, 'never releases a socket that could not be opened')
            pend = Rule.get(s, 'pending')
            if pend is not None and d is None:
                inits += 1
                if k != 1 or Rule.get(s, 'npend') != 1: rule.bad(s, 'does not initialise exactly one connection for an accepted socket')
                elif Rule.get(s, 'pair') != (pend, pend): rule.bad(s, 'initialises the connection with another device than the accepted socket')
        pops += rule.pops; puts += rule.puts
    c.need('functions', nfn, 5); c.need('accept_paths', inits, 3); c.need('takes', pops, 1); c.need('returns', puts, 2)
    c.cov['paths'] = paths; c.cov['reserve_bound'] = cap[1]
    c.assumptions += ['a connection that emits closed() is not in the reserve (it was taken before initialize)', 'the destructor of a server runs last']

def holder(P, n, cls, depth=0):
    """the (base) class of n with a pointer to the pool"""
    if n is None: return None
    for b in P.bases(n):
        for f in P.records.get(b, {}).get('fields', []):
            if strip(f['type'].replace('*', '').strip()) == cls: return b
    return None
def is_slot(fn): return fn.params and CONN in fn.params[0] and fn.ret == 'void'

def tls(c, P):
    n = 0; inits = 0
    base = [m for m, f in P.fns.items() if f.name == 'incomingConnection' and f.cls]
    classes = [x for x in sorted(P.records) if x.startswith('Pillow::') and any('QSsl' in f['type'] for f in P.records[x].get('fields', []))]
    cls, member = pool_class(P)
    for k in classes:
        if not P.derives(k, 'QTcpServer'): continue
        fs = [f for f in P.fns.values() if f.cls == k and f.name == 'incomingConnection']
        if not fs: c.violation('%s incomingConnection' % k, 'pillowcore', '%s accepts connections with the plain implementation of its base class' % k); continue
        for fn in fs:
            n += 1
            h, rule = harness(P, c, fn, member)
            def start(I, st, ci, this, args, site):
                t = Rule.get(st, 'tls', ()); Rule.put(st, 'tls', t + (('start', this[1]),)); st.note(ci['name'], 'line', site.line); return [(st, ('void',))]
            def val(I, st, a, pt):
                if a[0] == 'p': return I.keyof(st, a[1])
                return a[1] if a[0] == 'agg' else a
            def key(I, st, ci, this, args, site):
                t = Rule.get(st, 'tls', ()); Rule.put(st, 'tls', t + ((ci['name'], this[1], val(I, st, args[0], ci['params'][0])),)); return [(st, ('void',))]
            h.observe(['QSslSocket::startServerEncryption'], start)
            h.observe(['QSslSocket::setPrivateKey', 'QSslSocket::setLocalCertificate'], key)
            def dev(I, st, ci, this, args, site): rule.bad(st, '%s weakens the encrypted socket' % ci['name'], site); return [(st, ('void',))]
            h.observe(['QSslSocket::ignoreSslErrors', 'QSslSocket::startClientEncryption'], dev)
            st = h.state(fn.cls)
            K = [f['name'] for f in P.records[k]['fields'] if f['type'].endswith('QSslKey')]; C = [f['name'] for f in P.records[k]['fields'] if f['type'].endswith('QSslCertificate')]
            for s, v in h.run(fn, st):
                if not Rule.get(s, 'inits', 0): continue
                inits += 1
                t = Rule.get(s, 'tls@init') or (); a, b = Rule.get(s, 'pair')
                if a[0] != 'p' or a != b or s.mem.get(a[1] + ('$class',)) != ('cls', 'QSslSocket'): rule.bad(s, 'serves HTTP on something else than the encrypted socket'); continue
                x = a[1]
                i = t.index(('start', x)) if ('start', x) in t else None
                if i is None: rule.bad(s, 'serves HTTP on a socket before its encryption was started'); continue
                have = {e[0]: e[2] for e in t[:i] if len(e) == 3 and e[1] == x}
                if have.get('setPrivateKey') not in [h.I.keyof(s, THIS + (f,)) for f in K]: rule.bad(s, 'starts the encryption without the private key of the server')
                if have.get('setLocalCertificate') not in [h.I.keyof(s, THIS + (f,)) for f in C]: rule.bad(s, 'starts the encryption without the certificate of the server')
    c.need('tls_servers', n, 1); c.need('served_paths', inits, 1)
    c.assumptions.append('QSslSocket sends and accepts application data only encrypted once startServerEncryption was called')
