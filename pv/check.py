"""Common driver of the checks: exit codes, VIOLATION / KNOWN-FINDING lines, evidence and report files."""
import importlib, json, os, sys, time, traceback
from .extract import AnalysisBroken, VERIF
from .ai import Budget

KNOWN = os.path.join(VERIF, 'known-findings.txt')
sys.setrecursionlimit(20000)

class Check:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.found = {}; self.cov = {}; self.samples = []; self.assumptions = []; self.rules = []
    def violation(self, key, loc, text, path=()):
        """key identifies the construct independently of line numbers"""
        if key not in self.found: self.found[key] = {'key': key, 'where': loc, 'what': text, 'path': list(path)}
    def count(self, n, k=1): self.cov[n] = self.cov.get(n, 0) + k
    def need(self, what, got, least):
        """instance floor: a rule that matches less than confirmed by hand gives no answer"""
        self.cov[what] = got
        if got < least: raise AnalysisBroken('%s: %d instances analysed, at least %d expected' % (what, got, least))
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith('known: property=%s ' % pid): continue
            key, _, text = l[len('known: property=%s ' % pid):].partition(' :: ')
            out[key.strip()] = text.strip()
    return out

def path_of(st, limit=40):
    out = []; t = st.trace
    while t is not None and len(out) < limit:
        out.append(' '.join(str(x) for x in t[1])); t = t[0]
    return out[::-1]

def main(argv):
    pid = argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    from .registry import RULES
    mod, fun, rule = RULES[pid]
    t0 = time.time()
    c = Check(pid, tier)
    try:
        from .program import Program
        prog = Program()
        c.cov['functions_extracted'] = len(prog.fns)
        f = getattr(importlib.import_module('pv.rules.' + mod), fun)
        f(c, prog)
    except (AnalysisBroken, Budget) as e:
        if not c.found:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); return 2
        c.cov['aborted'] = str(e)
    except Exception:
        if not c.found:
            traceback.print_exc(); print('ANALYSIS-BROKEN property=%s internal error' % pid); return 2
        c.cov['aborted'] = traceback.format_exc()[-600:]
    kn = known(pid); rc = 0
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    new = [v for k, v in sorted(c.found.items()) if k not in kn]
    for k in sorted(c.found):
        if k in kn: print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, kn[k]))
    if new:
        rp = os.path.join(ev, pid + '.violations.json')
        json.dump(new, open(rp, 'w'), indent=1)
        for v in new[:20]:
            print('%s: %s [%s]' % (v['where'], v['what'], rule))
            for p in v['path'][-12:]: print('    ' + p[:200])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    cov = dict(c.cov)
    cov['rule'] = rule
    if c.rules: cov['instances'] = c.rules[:60]
    cov['explanation'] = 'static analysis of /repo\'s current sources: ' + rule + '; ' + ', '.join('%s=%s' % (k, v) for k, v in sorted(c.cov.items()) if isinstance(v, (int, str)))[:900]
    if c.samples: cov['samples'] = c.samples
    json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov, 'assumptions': c.assumptions,
               'violations': len(new), 'wall_s': round(time.time() - t0, 2)}, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print('property=%s %s  %s  (%.1fs)' % (pid, 'VIOLATED' if rc else 'holds', ', '.join('%s=%s' % (k, v) for k, v in sorted(c.cov.items()) if isinstance(v, int)), time.time() - t0))
    return rc
if __name__ == '__main__': sys.exit(main(sys.argv))
