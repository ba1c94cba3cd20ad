"""C16: a step that failed is never taken for a result."""
from kdb import *
from engine import *
import verdicts
LEVEL = 'other'
ASSUMPTIONS = ['GLPK gives return code 0 when a run completed, and the six documented solution statuses', 'solvers kept in containers or class members are not followed']

def check(ctx):
    db = ctx.db(); M = verdicts.Model(db)
    ctx.rule('typestate of linear programs: solution values are read only where the solve is known to have succeeded, through calls that read for their caller')
    ctx.rule('typestate of results with a validity mark: sizes are read only where the mark was tested true; valid results are made only from solved programs and never from a constant zero')
    ctx.rule('outputs of generators that can fail are used only where the verdict was true, and a failed inner verdict makes the outer verdict false')
    ctx.rule('the solver reports success only on paths where every run returned 0 and the last status is feasible or optimal (enumeration of the documented codes)')
    if not M.solves or not M.reads: ctx.broken('no solver verdict / solution reads found')
    for f, n in M.weak: ctx.violation('valid-test', f.name, n.text()[:90], n.loc(), 'calls results valid that were never made valid', shape(f, n)[:110])
    requires = {}
    for rnd in range(4):
        before = dict(requires)
        flows = {}
        for f in db.funcs.values():
            if f.cls == verdicts.SOLVER: continue
            rel = False
            for n in f.calls(True):
                ts = {t.key for t in db.targets(n)} | {n.callee}
                if ts & M.solves or ts & M.reads or ts & set(M.gens) or ts & set(requires) or any(ts & (d['value'] | d['sets'] | set(d['ctors'])) for d in M.valid.values()): rel = True; break
            if not rel or not f.blocks: continue
            fl = verdicts.Flow(M, f, requires); flows[f.key] = fl
            e = Engine(db, fl); e.run(f, [mk(None)])
            if e.overflow: ctx.broken('state overflow in ' + f.name)
            if fl.needs: requires[f.key] = set(fl.needs)
        if requires == before: break
    for k, fl in flows.items():
        f = db.funcs[k]
        if f.cls in M.valid: continue
        for (kind, i), n in fl.sites.items(): ctx.obligation(kind, '%s at %s' % (n.text()[:70], n.loc()))
        for (rule, tx), (n, msg) in fl.hits.items(): ctx.violation(rule, f.name, tx, n.loc(), msg, shape(f, n)[:110])
        # a verdict nobody looks at
        for n in f.calls():
            if n.k in CTORS: continue
            ts = {t.key for t in db.targets(n)}
            if not (ts & M.solves or ts & set(M.gens)): continue
            p = n.parent; c = n
            while p is not None and p.k in TRANSP: c, p = p, p.parent
            if p is None or p.k == 'CompoundStmt' or (p.k in XCASTS and p.type == 'void'): ctx.violation('verdict-dropped', f.name, n.text()[:90], n.loc(), 'the verdict of this step is dropped', shape(f, n)[:110])
    for f in db.funcs.values():
        if f.cls in M.valid or f.cls == verdicts.SOLVER: continue
        for n in f.walk(True):
            if n.k in CTORS:
                for rn, d in M.valid.items():
                    if d['ctors'].get(n.callee) != '1': continue
                    for m in n.walk():
                        if m.k in CALLS and {t.key for t in db.targets(m)} & d['value'] and m.obj() is not None and m.obj().strip().k != 'DeclRefExpr':
                            ctx.violation('valid-laundered', f.name, n.text()[:90], n.loc(), 'the size of a result nobody tested is made a valid result', shape(f, n)[:110])
            # all steps have to succeed: x = x || step() forgets the failed ones
            if n.k == 'BinaryOperator' and n.op == '=' and n.kids[0].strip().k == 'DeclRefExpr':
                r = n.kids[1].strip()
                if r.k == 'BinaryOperator' and r.op in ('||', '|') and any(k.strip().k == 'DeclRefExpr' and k.strip().decl == n.kids[0].strip().decl for k in r.kids):
                    for m in r.walk():
                        if m.k in CALLS and m.k not in CTORS and {t.key for t in db.targets(m)} & (M.solves | set(M.gens)): ctx.violation('verdict-lost', f.name, n.text()[:90], n.loc(), 'one step that succeeds hides the ones that fail', shape(f, n)[:110])
    own = [f for f in db.funcs.values() if any(n.k == 'CallExpr' and n.cname in verdicts.RUNS for n in f.walk())]
    for f in own:
        S = verdicts.Solve(db); e = Engine(db, S)
        if f.retctype != 'bool': continue
        e.run(f, [mk(None)])
        if e.overflow: ctx.broken('state overflow in ' + f.name)
        for n in S.sites.values(): ctx.obligation('solver-code', '%s at %s' % (n.text()[:60], n.loc()))
        for n, why in S.hits: ctx.violation('solver-verdict', f.name, n.text()[:60] or 'return', n.loc(), 'reports success where a run failed or the last status is not feasible or optimal' if why == 'bad' else 'reports success without asking for the status of the last run')
    ctx.floor('obligations:solve', 5); ctx.floor('obligations:solution-read', 10); ctx.floor('obligations:result-read', 4); ctx.floor('obligations:solver-code', 4)
