"""No function of the library waits: who calls what can block, over the resolved call graph."""
import re
from ..harness import *

EXACT = {'sleep', 'usleep', 'nanosleep', 'clock_nanosleep', 'poll', 'ppoll', 'select', 'pselect', 'epoll_wait', 'pause', 'sigsuspend', 'sem_wait', 'sem_timedwait',
         'pthread_join', 'pthread_cond_wait', 'pthread_cond_timedwait', 'wait', 'waitpid', 'system', 'recv', 'accept', 'flock', 'getchar', 'std::this_thread::yield',
         'QThread::sleep', 'QThread::msleep', 'QThread::usleep', 'QThread::wait', 'QWaitCondition::wait', 'QSemaphore::acquire', 'QProcess::execute', 'QThreadPool::waitForDone',
         'QEventLoop::exec', 'QEventLoop::processEvents', 'QCoreApplication::exec', 'QCoreApplication::processEvents', 'QGuiApplication::exec', 'QApplication::exec',
         'QThread::exec', 'QTest::qWait', 'QTest::qSleep', 'QHostInfo::fromName', 'QFutureInterfaceBase::waitForFinished', 'QAbstractEventDispatcher::processEvents'}
def waits(ci):
    q = ci['n']; name = ci['name']
    if q in EXACT or q.lstrip(':') in EXACT: return True
    if re.match(r'std::(this_thread::sleep_\w+|condition_variable(_any)?::wait\w*|thread::join|future<.*>::(get|wait\w*))$', q): return True
    return bool(re.match(r'waitFor[A-Z]\w*$', name)) and not ci.get('proj')

def blocking(c, P):
    sites = 0; fns = 0; conns = 0
    callers = {}
    for f in P.fns.values():
        fns += 1
        defs = {i.get('d'): i for b in f.blocks for i in b if 'd' in i}
        for i, ci in P.calls(f):
            sites += 1
            callers.setdefault(i['f'], []).append((f, i))
            for k, p in enumerate(ci.get('params') or ()):
                if 'ConnectionType' in p and k < len(i.get('a', ())):
                    conns += 1
                    d = defs.get(i['a'][k], {})
                    if 'BlockingQueued' in str(d) or d.get('v') == 3: c.violation('%s queued' % f.n, P.loc(f, i['l']), '%s makes a connection that blocks the sender until the receiver has run' % f.n)
    def chain(m, seen=()):
        for f, i in callers.get(m, ()):
            if f.m in seen: continue
            return chain(f.m, seen + (f.m,)) + ['%s (%s)' % (f.n, P.loc(f, i['l']))]
        return []
    for m, cs in sorted(callers.items()):
        ci = P.callees[m]
        if not waits(ci): continue
        for f, i in cs:
            c.violation('%s %s' % (f.n, ci['n']), P.loc(f, i['l']), '%s waits in %s' % (f.n, ci['n']), chain(f.m) + ['%s (%s)' % (f.n, P.loc(f, i['l'])), ci['n']])
    c.rules.append('%d functions, %d call sites, none resolves to a callee that waits for another thread, a device, time or a nested event loop' % (fns, sites))
    c.need('functions', fns, 300); c.need('call_sites', sites, 1500); c.need('connection_types', conns, 10)
    c.assumptions += ['functions supplied by the user (slots, handler functions, scripts) and the Qt calls that never wait for the peer are outside of the obligation']
