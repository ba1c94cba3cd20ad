"""C20: orders are strict and equalities see what identifies a value."""
from dfcommon import *
import orders as O
LEVEL = 'other'
ASSUMPTIONS = ['comparison functions with loops are judged on equal objects only (irreflexivity / reflexivity)']
SORTERS = ('sort', 'stable_sort', 'min_element', 'max_element', 'lower_bound', 'upper_bound', 'nth_element', 'partial_sort', 'is_sorted')
ORDERED = ('std::set<', 'std::map<', 'std::priority_queue<', 'std::multiset<', 'std::multimap<', 'std::function<bool')

def boolish(f): return f.retctype.replace('const ', '') == 'bool'
def same2(f):
    ps = [f.types[p['t']][1].replace('const ', '').rstrip(' &') for p in f.params]
    return len(ps) == 2 and ps[0] == ps[1]

def strict_orders(db):
    """(label, where, Judge) of everything used as a strict order"""
    out = {}; fwd = set()
    for f in db.funcs.values():
        if f.short in ('operator<', 'operator>') and boolish(f) and f.blocks and (same2(f) or (len(f.params) == 1 and f.cls and f.cls in f.types[f.params[0]['t']][1])):
            l, r = O.decls(f); out[f.key] = (f.name, f.loc(), O.Judge(db, f, l, r))
        for n in f.nodes:
            if n.k != 'LambdaExpr': continue
            lp = n.get('lparams') or []
            if len(lp) != 2 or f.types[lp[0]['t']][1].replace('const ', '').rstrip(' &') != f.types[lp[1]['t']][1].replace('const ', '').rstrip(' &'): continue
            p = n.parent
            while p is not None and not (p.k in CALLS or p.k in CTORS and any(p.ctype.startswith(x) for x in ORDERED)) and p.k != 'DeclStmt': p = p.parent
            if p is None: continue
            use = (p.k in CALLS and (p.cname or '').split('::')[-1] in SORTERS) or (p.k in CTORS) or (p.k == 'DeclStmt' and any(f.vars[v['d']]['ctype'].startswith(ORDERED) for v in p.d['vars'] if v['d'] in f.vars))
            b = n.sub('lbody')
            if not use or b is None: continue
            rets = [m for m in b.walk() if m.k == 'ReturnStmt']
            if len(rets) == 1 and rets[0].kids and rets[0].kids[0] is not None:
                e = rets[0].kids[0].strip()
                if e.k in CALLS and e.k != 'CXXOperatorCallExpr' and len(e.args()) == 2: fwd.update(t.key for t in db.targets(e) if t.blocks and same2(t))
                elif not [m for m in b.walk() if m.k in ('IfStmt',) + tuple(LOOPS)]:
                    out[(f.key, n.i)] = ('%s (comparison)' % f.name, n.loc(), O.Judge(db, f, lp[0]['d'], lp[1]['d'], rets[0].kids[0]))
        for d, v in f.vars.items(): pass
    for f in db.funcs.values():
        if f.short in ('lessthan', 'less', 'compare', 'lessThan') and boolish(f) and same2(f) and f.blocks: fwd.add(f.key)
    for k in fwd:
        f = db.funcs[k]; l, r = O.decls(f); out.setdefault(k, (f.name, f.loc(), O.Judge(db, f, l, r)))
    return out

def reads(db, f, cls, depth=4, seen=None):
    """data members of cls read by a method, through its own methods"""
    seen = seen if seen is not None else set()
    if f.key in seen or depth == 0: return set()
    seen.add(f.key); out = set()
    for n in f.walk():
        if n.k == 'MemberExpr' and n.get('dk') != 'CXXMethod' and (f.cls == cls or cls in (n.kids[0].ctype if n.kids and n.kids[0] is not None else '')): out.add(n.name)
        if n.k in CALLS:
            for t in db.targets(n):
                if t.cls == cls: out |= reads(db, t, cls, depth - 1, seen)
    return out

IDENTITY = {'State': ('getPhase', 'getTokens', 'getRemExecTime'), 'StorageDistribution': ('getChannelQuantity',),
            'models::SchedulingEvent': ('getTaskId', 'getTaskPhase', 'getTaskOc')}
WHY = {'State': 'phases, tokens and remaining execution times decide what happens next: states that differ in one of them are not a recurrence',
       'StorageDistribution': 'distributions with different channel sizes are different', 'models::SchedulingEvent': 'events of different task, phase or execution are different'}

def check(ctx):
    db = ctx.db()
    ctx.rule('every function or lambda used as an order (operator<, sort, sorted containers and queues) is interpreted over the abstraction less/equal/greater of each compared quantity: equal objects are never ordered; without loops the result must be a strict weak order')
    strict = strict_orders(db)
    for k, (name, loc, j) in sorted(strict.items(), key=str):
        ctx.obligation('order', '%s at %s' % (name, loc))
        if True in j.equal_case(): ctx.violation('not-strict', name, 'equal objects', loc, 'can order an object before an equal one: sorted containers, queues and sort require a strict order'); continue
        for n, a, b in j.c.mixed: ctx.violation('mixed-comparison', name, text(n)[:80], loc, 'compares %s of one object with %s of the other' % (a, b))
        t = j.table()
        if t is None: ctx.count('loop_or_opaque'); continue
        why = O.strict(t[1], len(t[0]))
        if why: ctx.violation('not-strict', name, why, loc, '%s (compared quantities: %s)' % (why, ', '.join(t[0])))
        else: ctx.count('fully_decided')
    ctx.rule('operator== holds on equal objects and operator!= does not; where both exist they are opposite; where < and == exist, unordered means equal')
    eq = {}; ne = {}; lt = {}
    for f in db.funcs.values():
        if f.short in ('operator==', 'operator!=', 'operator<') and boolish(f) and f.blocks and (same2(f) or (len(f.params) == 1 and f.cls)):
            l, r = O.decls(f); ty = f.types[f.params[-1]['t']][1].replace('const ', '').rstrip(' &')
            if len(f.params) == 1 and f.cls != ty: continue
            {'operator==': eq, 'operator!=': ne, 'operator<': lt}[f.short][ty] = (f, O.Judge(db, f, l, r))
    for ty, (f, j) in sorted(eq.items()):
        ctx.obligation('equality', '%s at %s' % (f.name, f.loc()))
        if False in j.equal_case(): ctx.violation('not-reflexive', f.name, ty, f.loc(), 'can find an object different from an equal one')
        for n, a, b in j.c.mixed: ctx.violation('mixed-comparison', f.name, text(n)[:80], f.loc(), 'compares %s of one object with %s of the other' % (a, b))
    for ty, (f, j) in sorted(ne.items()):
        ctx.obligation('inequality', '%s at %s' % (f.name, f.loc()))
        if True in j.equal_case(): ctx.violation('not-reflexive', f.name, ty, f.loc(), 'can find an object different from an equal one')
        if ty in eq:
            a, b = j.table(), eq[ty][1].table()
            if a and b:
                if a[0] != b[0]: ctx.violation('equality-mismatch', f.name, ty, f.loc(), '!= looks at %s, == at %s' % (a[0], b[0]))
                elif any(a[1].get(v) == b[1].get(v) for v in a[1]): ctx.violation('equality-mismatch', f.name, ty, f.loc(), '!= is not the opposite of ==')
    for ty, (f, j) in sorted(lt.items()):
        if ty not in eq: continue
        a, b = j.table(), eq[ty][1].table()
        if not a or not b: continue
        ctx.obligation('order-equality', ty)
        if any(k not in a[0] and any(x.startswith(k + '.') for x in a[0]) for k in b[0]): ctx.count('compared_by_library'); continue
        for vec in a[1]:
            if not a[1][vec] and not a[1].get(tuple(-x for x in vec)):
                d = dict(zip(a[0], vec))
                if any(d.get(k, 1) != 0 for k in b[0]) :
                    ctx.violation('order-equality', f.name, ty, f.loc(), 'objects that differ in %s are neither before nor after each other: a sorted container keeps only one of them' % [k for k in b[0] if d.get(k, 1) != 0]); break
    ctx.rule('operator== of a simulation state, an event and a storage distribution reads everything their getters report as identifying')
    for cls, getters in IDENTITY.items():
        fs = [f for f in db.funcs.values() if f.short in ('operator==', 'operator<') and (f.cls == cls or any(cls in f.types[p['t']][1] for p in f.params)) and f.blocks]
        for f in fs:
            have = reads(db, f, cls)
            for g in getters:
                for h in db.by_name.get(cls + '::' + g, []):
                    need = reads(db, h, cls); ctx.obligation('identity', '%s of %s' % (g, f.name))
                    if need and not need & have: ctx.violation('identity', f.name, g, f.loc(), 'does not look at %s (%s): %s' % (', '.join(sorted(need)), g, WHY[cls]))
    ctx.floor('obligations:order', 6); ctx.floor('fully_decided', 3); ctx.floor('obligations:equality', 5); ctx.floor('obligations:identity', 6)
