"""Properties of HttpConnection's wire protocol and life cycle: one modular fixpoint over its operations, one rule set per
property.  A violation is reported for every property whose statement it contradicts."""
import re
from ..connop import ConnOp
from ..protocol import Protocol
from ..extract import AnalysisBroken

# (property the monitor files it under, message pattern) -> further properties whose statement the same fact contradicts
ALSO = [
    ('C06', r'returns without writing a response head', ('C01', 'C04')),
    ('C06', r'requestCompleted\(\) before any response head', ('C01', 'C04')),
    ('C06', r'bytes written while the exchange is', ('C04',)),
    ('C06', r'bytes written while the exchange is (completed|closed|failed)', ('C02', 'C05')),
    ('C06', r'connection is left in state', ('C05',)),
    ('C06', r'connection is left in state (SendingContent|SendingHeaders|ReceivingContent|ReceivingHeaders|Completed) although the exchange is failed', ('C07',)),
    ('C06', r'while the exchange is failed', ('C07',)),
    ('C06', r'connection is left in state .* although the exchange is sending content', ('C02',)),
    ('C05', r'connection is left in state', ('C06',)),
    ('C05', r'end cannot be recognised', ('C04',)),
    ('C05', r'two Connection headers', ('C04',)),
    ('C04', r'two Content-Length headers', ('C02',)),
    ('C04', r'announced together with Content-Length', ('C02',)),
    ('C04', r'caller header relayed without', ('C02', 'C05')),
    ('C04', r'chunk (size|data)|terminating chunk|chunked content', ('C02',)),
    ('C02', r'declared content has been sent but the request', ('C06',)),
    ('C02', r'request completed before', ('C06',)),
    ('C02', r'more content written', ('C04',)),
    ('C16', r'Content-Length header', ('C02', 'C04')), ('C16', r'refuses content', ('C02',)),
    ('C07', r'while a request is being received', ('C06',)),
    ('C01', r'closed|requestCompleted', ('C06',)),
    ('C03', r'', ('C02',)),
]

def explored(c, P):
    M = ConnOp(P, Protocol())
    M.explore(limit=840 if c.tier == 'quick' else 3000, jobs=8)
    return M

def run(pid, kinds):
    def check(c, P):
        M = explored(c, P)
        for (prop, where, msg), (flags, trace) in sorted(M.viol.items()):
            ps = {prop}
            for p, rx, more in ALSO:
                if p == prop and re.search(rx, msg): ps |= set(more)
            if pid not in ps: continue
            fn, _, line = where.rpartition(':')
            f = P.find(fn) if fn else None
            c.violation('%s :: %s' % (fn, msg), P.loc(f, int(line)) if f is not None and line.isdigit() else where, msg, trace)
        c.need('boundary_states', len(M.master), 30); c.need('operation_obligations', M.obligations, 120)
        c.need('body_framings', len({k[1][1] for k in M.master if k[1][0] == 2}), 3); c.need('persistent_states', sum(1 for k in M.master if k[1][0] == 2 and k[1][2]), 4)
        c.need('head_request_states', sum(1 for k in M.master if k[1][0] == 2 and k[1][3]), 2)
        c.cov['tasks_to_fixpoint'] = M.tasks; c.cov['operation_outcomes'] = M.outs
        c.cov['unresolved_reports'] = len(M.dropped)
        for k in kinds: c.need('%s_events' % k, sum(v for x, v in M.counts.items() if x[0] == k), 5)
        for k in sorted(M.master, key=repr)[:40]: c.rules.append('state %s %s' % (k[0], k[1:]))
        c.assumptions += ['Qt containers, devices and the signal mechanism behave as documented (modelled)', 'the HTTP parser reports positions inside the bytes it was given (C39, C40)',
                          'applications call the connection only through its public interface']
    return check

c01 = run('C01', ('op', 'signal')); c02 = run('C02', ('wire', 'op')); c03 = run('C03', ('wire',)); c04 = run('C04', ('wire',))
c05 = run('C05', ('wire', 'signal')); c06 = run('C06', ('signal', 'op')); c07 = run('C07', ('wire', 'signal')); c16 = run('C16', ('wire',))
