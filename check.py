#!/usr/bin/env python3
"""check.py PROPERTY : decides one property of /verif/properties.jsonl over /repo's current sources.
exit 0 held / 1 violated (VIOLATION line) / 2 the analysis itself could not give an answer."""
import gc, importlib, json, os, sys, time, traceback
gc.disable()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib')); sys.path.insert(0, os.path.join(HERE, 'rules'))
import facts, kdb

class Ctx(object):
    def __init__(self, pid, repo, tier):
        self.pid = pid; self.repo = repo; self.tier = tier
        self.counts = {}; self.floors = {}; self.viol = {}; self.samples = []; self.notes = []
        self.dbs = {}; self.obl = 0; self.rules = []
    def db(self, mode='release'):
        if mode not in self.dbs:
            files, recs = self.load(mode)
            self.dbs[mode] = kdb.DB(recs, self.repo)
            self.counts['%s_units' % mode] = len(files); self.counts['%s_functions' % mode] = len(self.dbs[mode].funcs)
        return self.dbs[mode]
    def load(self, mode):
        c = os.environ.get('KFACTS_CACHE')
        if c:      # development only: reuse an extraction made from the same tree
            import pickle
            p = os.path.join(c, mode + '.pkl')
            if os.path.exists(p): return pickle.load(open(p, 'rb'))
            r = facts.extract(self.repo, mode); pickle.dump(r, open(p, 'wb')); return r
        return facts.extract(self.repo, mode)
    def rule(self, text): self.rules.append(text)
    def count(self, what, n=1): self.counts[what] = self.counts.get(what, 0) + n
    def obligation(self, kind, sample=None):
        """one rule instance examined"""
        self.obl += 1; self.count('obligations:' + kind)
        if sample and sum(1 for s in self.samples if s.startswith(kind)) < 3: self.samples.append('%s: %s' % (kind, sample))
    def floor(self, what, n):
        """the number of instances confirmed by hand, with slack for refactoring"""
        self.floors[what] = n
    def violation(self, rule, fn, construct, loc, msg, shape=None):
        """key = rule | function | construct: no line numbers.  shape: the construct without the names of locals, what a known finding is listed by"""
        key = '%s | %s | %s' % (rule, fn, construct)
        self.viol.setdefault(key, (loc, msg, '%s | %s | %s' % (rule, fn, shape) if shape else key))
    def broken(self, msg): raise facts.AnalysisBroken(msg)

def known(pid):
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if line.startswith('known: property=%s ' % pid):
                body = line[len('known: property=%s ' % pid):]
                key, _, what = body.partition(' :: ')
                out.setdefault(key.strip(), []).append(what.strip())
    return out

def main():
    pid = sys.argv[1]; repo = os.environ.get('KITER_REPO', '/repo'); tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    t0 = time.time(); ctx = Ctx(pid, repo, tier)
    ev = os.path.join(HERE, 'evidence', pid + '.json'); os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        mod = importlib.import_module(pid.lower())
        mod.check(ctx)
        for what, n in ctx.floors.items():
            have = ctx.counts.get(what, 0)
            if have < n: raise facts.AnalysisBroken('only %d instances of "%s" found, at least %d expected: the rule no longer sees its anchors' % (have, what, n))
    except facts.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); sys.exit(2)
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s internal error' % pid); sys.exit(2)
    kn = {}; listed = known(pid)      # as many violations of a listed shape as there are lines for it
    for k, v in sorted(ctx.viol.items(), key=lambda kv: str(kv[1][0])):
        if listed.get(v[2]): kn[k] = listed[v[2]].pop(0)
    new = {k: v for k, v in ctx.viol.items() if k not in kn}
    for k in sorted(ctx.viol):
        if k in kn: print('KNOWN-FINDING: property=%s %s (%s) %s' % (pid, k, ctx.viol[k][0], kn[k]))
    units = {m: ctx.counts.get(m + '_units') for m in ctx.dbs}
    cov = {'explanation': 'static analysis of /repo/src: ' + '; '.join(ctx.rules), 'analysed': {k: v for k, v in ctx.counts.items()},
           'obligations': ctx.obl, 'discharged': ctx.obl - len(ctx.viol) if ctx.obl >= len(ctx.viol) else 0, 'instance_floors': ctx.floors, 'samples': ctx.samples[:40],
           'checker_cmd': 'python3 check.py %s' % pid, 'known_findings': sorted(k for k in ctx.viol if k in kn),
           'trusted_base': ['clang 18 front end and CFG builder', 'lib/kdb.py, lib/engine.py', 'rules/%s.py' % pid.lower()], 'notes': ctx.notes}
    json.dump({'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': getattr(mod, 'LEVEL', 'other'),
               'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}, open(ev, 'w'), indent=1)
    print('property %s: %d obligations over %s; %d known, %d new violations; %.1f s' % (pid, ctx.obl, ', '.join('%s mode: %s units' % u for u in units.items()), len(ctx.viol) - len(new), len(new), time.time() - t0))
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as fh:
            for k in sorted(new):
                line = '%s: [%s] %s' % (new[k][0], k, new[k][1]); fh.write(line + '\n'); print('  ' + line)
        print('VIOLATION property=%s replay=%s' % (pid, rp)); sys.exit(1)
    sys.exit(0)
if __name__ == '__main__':
    main()
