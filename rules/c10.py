"""C10: rates and durations are addressed with the phases of the task they belong to."""
from kdb import *
import phases
LEVEL = 'other'
ASSUMPTIONS = ['an index is tied to a task by the bound of its loop, a modulo or the count it is computed from; indices tied to nothing are not judged', 'the two ends of a channel are taken as different tasks']

def check(ctx):
    db = ctx.db()
    ctx.rule('endpoint-role inference: vertices and channel ends merged into classes per function; the index of every per-phase access (rates, durations, per-phase vectors, per-phase map keys) must range over the phases of the end the value belongs to')
    ctx.rule('interval of counted indices: from 1 to the phase count for accessors, from 0 to the size less one for vectors')
    for f in db.funcs.values():
        if not any(n.k in CALLS and (n.cname or '').startswith('models::Dataflow::') for n in f.walk(True)): continue
        R = phases.of(db, f)
        for what, n, need, got in R.sites():
            j = R.judge(need, got)
            if j is None:
                ctx.count('not_tied:' + what)
                if what == 'vector' and need and got and not ({k for _, k in need} & {k for _, k in got}): j = 'holds values of the %s phases' % '/'.join('initial' if k == 'i' else 'periodic' for _, k in got)
                elif what == 'vector' and got and not need:
                    want = phases.SETTER[phases.last(n)][1]
                    if all(k != want for _, k in got): j = 'holds values of the %s phases' % '/'.join('initial' if k == 'i' else 'periodic' for _, k in got)
            else: ctx.obligation(what, '%s at %s' % (n.text()[:60], n.loc()))
            if j is not None and j is not True: ctx.violation('wrong-phases', f.name, n.text()[:90], n.loc(), 'the %s %s' % ('vector' if what == 'vector' else 'index', j), shape(f, n)[:110])
            if what not in ('access', 'subscript', 'event-phase', 'event-execution'): continue
            idx = n if what.startswith('event') else n.args()[0] if n.k == 'CXXMemberCallExpr' and what == 'subscript' else n.args()[1]
            iv = R.interval(idx, n)
            if iv is None or j is not True: continue
            lo, hi, v = iv
            if what == 'event-phase' and lo >= 1 and not any(k == 'p' for _, k in got): ctx.violation('wrong-phases', f.name, n.text()[:90], n.loc(), 'an event of a phase above 0 is counted with the number of initial phases', shape(f, n)[:110])
            base = 0 if what == 'subscript' else 1
            if lo < base and v.k == 'DeclRefExpr': lo = R.low_guard(v.decl, n, lo - off(idx)) + off(idx)
            ctx.obligation('interval', '%s at %s: from %s to count%+d' % (n.text()[:60], n.loc(), lo, hi))
            if lo < base: ctx.violation('index-range', f.name, n.text()[:90], n.loc(), 'the index starts at %d, phases are counted from %d here' % (lo, base), shape(f, n)[:110])
            if hi > base - 1: ctx.violation('index-range', f.name, n.text()[:90], n.loc(), 'the index runs %d past the last phase' % (hi - base + 1), shape(f, n)[:110])
        counted_loops(ctx, f, R); initial_factor(ctx, f, R)
    ctx.floor('obligations:loop', 30); ctx.floor('obligations:access', 90); ctx.floor('obligations:pair', 30); ctx.floor('obligations:interval', 60)

def off(n):
    n = n.strip(); o = 0
    while n.k == 'BinaryOperator' and n.op in ('+', '-'):
        a, b = n.kids[0].strip(), n.kids[1].strip()
        if b.get('cv') is not None: o += int(b.get('cv')) * (1 if n.op == '+' else -1); n = a
        elif a.get('cv') is not None: o += int(a.get('cv')); n = b
        else: break
    return o


def counted_loops(ctx, f, R):
    """a loop over phases counted from 0 ends before the phase count, one that includes it starts at 1"""
    for d, bs in R.bounds.items():
        for loop, b, c in bs:
            if loop.k != 'ForStmt' or b.macros: continue
            s = b.strip()
            if s.k == 'DeclRefExpr' and s.decl in f.vars and R.single(s.decl) is not None and not f.writes_direct.get(s.decl): s = R.single(s.decl).strip()
            if not (phases.isdf(s) and phases.COUNT.get(phases.last(s), (0, 'n'))[1] in 'pi'): continue
            init = [x for x in R.defs.get(d, ()) if x is not None]
            mine = loop.sub('init')
            if mine is not None: init = [x for x in init if any(y is x for y in mine.walk())] or init
            if not init or any(x.strip().get('cv') is None and x.get('cv') is None for x in init): continue
            ws = [w for w in f.writes_direct.get(d, ()) if not (w.k == 'BinaryOperator' and w.op == '=')]
            if any(w.k != 'UnaryOperator' or w.op != '++' for w in ws) or not ws: continue
            lo = min(int(x.get('cv') if x.get('cv') is not None else x.strip().get('cv')) for x in init)
            left = c.kids[0].strip().k == 'DeclRefExpr' and c.kids[0].strip().decl == d
            op = c.op if left else {'<=': '>=', '>=': '<=', '<': '>', '>': '<', '!=': '!='}[c.op]
            ctx.obligation('loop', '%s at %s: from %d, %s' % (c.text()[:60], loop.loc(), lo, op))
            if op == '<=' and lo < 1: ctx.violation('index-range', f.name, c.text()[:90], loop.loc(), 'counts from %d to the number of phases: one more than there are' % lo, shape(f, c)[:110])

def initial_factor(ctx, f, R):
    """initial phases happen once: their number is no factor of what repeats"""
    for n in f.walk(True):
        if not (n.k == 'BinaryOperator' and n.op in ('*', '/', '%') or n.k == 'CompoundAssignOperator' and n.op in ('*=', '/=', '%=')): continue
        for k in n.kids:
            s = k.strip()
            if s.k == 'DeclRefExpr' and s.decl in f.vars and R.single(s.decl) is not None and not f.writes_direct.get(s.decl): s = R.single(s.decl).strip()
            if phases.isdf(s) and phases.COUNT.get(phases.last(s), (0, 0))[1] == 'i':
                ctx.violation('initial-factor', f.name, n.text()[:90], n.loc(), 'the number of initial phases is used where the phases that repeat are meant', shape(f, n)[:110])
