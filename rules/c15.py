"""C15: quantities multiplied or divided with one another belong to the same end of a channel."""
from kdb import *
import ends
LEVEL = 'other'
ASSUMPTIONS = ['a quantity is tied to an end by the accessor it comes from, through locals that are assigned once and through parameters', 'the two ends of a channel are taken as different tasks']

def check(ctx):
    db = ctx.db()
    ctx.rule('end inference over products and quotients: per-task quantities (repetition count, phase count, K, Zi, durations) and rates in one term belong to one task; ratios and products of the same quantity of both ends, and production divided by consumption, are allowed')
    T = {}
    def of(f):
        if f.key not in T: T[f.key] = ends.Terms(db, f)
        return T[f.key]
    for f in db.funcs.values():
        if not any(ends.isdf(n) or n.op in ('*', '/', '*=', '/=') for n in f.walk(True)): continue
        t = of(f)
        for n, leaves in t.terms():
            tied = [l for l in leaves if l.what]
            if any(l.par is not None for l in leaves):
                for ck in db.callers.get(f.key, ()):
                    cf = db.funcs[ck]
                    if ck == f.key: continue
                    for call in cf.walk(True):
                        if call.k in CALLS and call.callee == f.key:
                            for up in ends.lift(t, call, of(cf), leaves): judge(ctx, cf, of(cf).R, call, up, n)
            if len(tied) >= 2: judge(ctx, f, t.R, n, tied, n)
    ctx.floor('obligations:term', 60)

def judge(ctx, f, R, n, leaves, inner):
    tied = [l for l in leaves if l.what]
    if len(tied) < 2: return
    if any(l.cls is None for l in tied): ctx.count('not_tied'); 
    ctx.obligation('term', '%s at %s: %s' % (n.text()[:70], n.loc(), ', '.join(sorted({l.node.text()[:40] for l in tied}))))
    c = ends.conflict(R, tied)
    if c:
        a, b = sorted(x.node.text()[:60] for x in c)
        ctx.violation('mixed-ends', f.name, inner.text()[:90], n.loc(), '%s and %s belong to the two ends of a channel but are combined in one term' % (a, b), '%s * %s' % (a, b))
