"""C13: nothing an algorithm computes depends on what ran before it in the same process."""
from kdb import *
import statics, registry
LEVEL = 'other'
ASSUMPTIONS = ['the verbosity settings, the command registry and the stopwatch are process-wide by design', 'a variable emptied or assigned as a whole before its first use carries nothing over']
SETTINGS = ('commons::VERBOSE_', 'KiterRegistry<')

def check(ctx):
    db = ctx.db(); S = statics.Statics(db)
    ctx.rule('reset-before-use: forward must-analysis with call summaries of every modifiable variable of static storage, from every command and every function without caller')
    ctx.rule('the initial value of a static local depends on nothing of the call that happens to come first')
    keys = set()
    for k, v in S.vars.items():
        ctx.count('mutable_statics')
        if v['name'].startswith(SETTINGS) or (v['local'] is not None and v['local'].name.startswith(SETTINGS)): ctx.count('settings'); continue
        if 'timespec' in v['ctype'] or 'chrono' in v['ctype'] or 'mutex' in v['ctype']: ctx.count('clock'); continue
        if not S.modified(k): ctx.obligation('never-modified', '%s at %s' % (k[0], v['loc'])); continue
        if S.names_only(k): ctx.obligation('names-only', '%s at %s' % (k[0], v['loc'])); continue
        keys.add(k)
    exposes, resets = S.solve(keys)
    regd = {e['func'].key for e in registry.entries(db) if e['func'] is not None}
    for f in db.funcs.values():
        if f.key not in exposes: continue
        for k in sorted(set(exposes[f.key]) | resets[f.key]): ctx.obligation('reset-order', '%s in %s' % (k[0], f.name))
        up = db.callers.get(f.key, set()) - {f.key}
        below = db.reach([f.key])
        if f.short.startswith('operator') or (f.key not in regd and not (up <= below)): continue
        for k, (n, via) in sorted(exposes[f.key].items()):
            tail = ''
            g = f
            for _ in range(12):       # where the use really is
                if not via: break
                t = next((t for t in db.targets(n) if k in exposes.get(t.key, ())), None)
                if t is None: break
                n, via = exposes[t.key][k]; g = t
            ctx.violation('carried-over', g.name, k[0], n.loc(), '%s may still hold what an earlier run left in it when it is used here (reached from %s without a reset)' % (k[0], f.name))
    # first-call initialisers, constant ones included
    for f in db.funcs.values():
        for d, v in f.vars.items():
            if not v.get('static') or v['init'] is None: continue
            ctx.obligation('static-initialiser', '%s at %s' % (v['name'], v['node'].loc()))
            for n in v['init'].walk():
                if n.k == 'CXXThisExpr' or (n.k == 'DeclRefExpr' and n.decl in f.vars and not f.vars[n.decl].get('static') and not ('const ' in f.vars[n.decl]['type'] and n.get('cv') is not None)):
                    ctx.violation('first-call', f.name, v['name'], n.loc(), 'the static variable %s keeps the value of the first call: its initial value depends on %s' % (v['name'], n.text())); break
    ctx.floor('mutable_statics', 8); ctx.floor('obligations:static-initialiser', 3)
