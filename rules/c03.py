"""C03: derived values are readable only once they were computed successfully."""
from dfcommon import *
LEVEL = 'other'
ASSUMPTIONS = ['a refused read ends the operation (process exit in release builds, exception in debug builds)']

class QueryHooks(flags.FlagHooks):
    """the computation of the repetition vector raises the mark exactly when it reports success"""
    def transfer(self, eng, f, n, st):
        if n.k == 'CallExpr' and (n.cname or '').split('::')[-1] == 'computeRepetitionVector':
            u = st.user
            if u[2]: return [st.set(('n', n.i), True)]
            return [st.with_user((True, u[1], True, u[3])).set(('n', n.i), True), st.with_user((True, u[1], False, u[3])).set(('n', n.i), False)]
        return flags.FlagHooks.transfer(self, eng, f, n, st)

class ReadHooks(flags.FlagHooks):
    """adds an event 'early:TAG' when a derived property is read while its flag is false"""
    def __init__(self, db, fields, der):
        flags.FlagHooks.__init__(self, db, fields); self.der = der
    def transfer(self, eng, f, n, st):
        t = gm.get_tag(n)
        if t in self.der and not is_put_target(f, n):
            u = st.user
            if not u[1 if self.der[t] == 'norm' else 2]:
                st = st.with_user(u[:3] + (u[3] | {'early:' + t},))
        return flags.FlagHooks.transfer(self, eng, f, n, st)

def is_put_target(f, n):
    for p in f.parents(n):
        if gm.put_tag(p): return True
        if p.k in CALLS: return False
    return False

def check(ctx):
    db = ctx.db(); fields = gm.flag_fields(db); der = derived_tags(db)
    ctx.rule('every Dataflow method that reads a repetition count, Zi or alpha is interpreted from every state: no normal exit may follow a read made while the corresponding value was not marked as computed')
    h = ReadHooks(db, fields, der)
    for f in methods(db):
        tags = {gm.get_tag(n) for n in f.walk() if gm.get_tag(n) in der and not is_put_target(f, n)}
        if not tags: 
            # only callers of readers: they inherit the refusal
            continue
        ctx.obligation('reader', '%s at %s' % (f.short, f.loc()))
        for u in START:
            for x in h.summary(f, u):
                for e in x[3]:
                    if e.startswith('early:'): ctx.violation('early-read', f.name, e[6:], f.loc(), 'returns %s although it was not computed (norm=%d rep=%d)' % ((e[6:],) + u[1:3]))
    ctx.floor('obligations:reader', 3)
    ctx.rule('the queries is_read_only/is_normalized/has_repetition_vector return the stored mark itself; a mark is raised only by its setter')
    for api, role, i in (('is_read_only', 'readonly', 0), ('is_normalized', 'norm', 1), ('has_repetition_vector', 'rep', 2)):
        f = gm.only(db, api); ctx.obligation('query', f.loc())
        for u in START:
            hh = flags.FlagHooks(db, fields); hh.top = f; hh.stack = [f.key]
            for s in Engine(db, hh).run(f, [mk(u)]):
                if s.get(('ret',)) is not None and s.get(('ret',)) != u[i]: ctx.violation('query-wrong', f.name, role, f.loc(), 'does not answer with the stored mark')
    for f in db.by_name.get(gm.CLS + '::is_consistent', ()):
        ctx.obligation('query', f.loc())
        for u in START:
            hh = QueryHooks(db, fields); hh.top = f; hh.stack = [f.key]
            for s in Engine(db, hh).run(f, [mk(u)]):
                if s.get(('ret',)) is not None and s.get(('ret',)) != s.user[2]: ctx.violation('query-wrong', f.name, 'rep', f.loc(), 'does not answer with the mark (started with it %s)' % ('up' if u[2] else 'down'))
    marks = {}
    for f in methods(db, const=False):
        for u in START:
            for x in h.summary(f, u):
                for i, role in ((1, 'norm'), (2, 'rep')):
                    if x[i] and not u[i]: marks.setdefault(role, {})[f.key] = f
    # functions that raise the mark of a graph: nobody but the two computations
    verdicts(ctx, db, marks)
    import conflicts
    conflicts.check(ctx, db, compute_roots(db))

def verdicts(ctx, db, marks):
    ctx.rule('a computation raises its mark only on a path on which every fallible step (a step returning false) on that graph succeeded, and returns true only with the mark raised; the outcome of a fallible step is never dropped unless the step reports failure through a by-reference result the caller tests')
    apis = {'rep': ('computeRepetitionVector',), 'norm': ('algorithms::normalize',)}
    roots = {}
    for role in ('rep', 'norm'):
        for nm in apis[role]:
            for f in db.by_name.get(nm, ()): roots[f.key] = role
    if len(roots) < 2: ctx.broken('the two computations were not found')
    for f in db.funcs.values():
        if f.cls == gm.CLS: continue
        for n in f.calls():
            for role, fs in marks.items():
                if n.callee in fs and fs[n.callee].short not in ('is_consistent',):
                    ctx.obligation('mark-raised', '%s at %s' % (f.short, n.loc()))
                    if not only_from(db, f, roots, role): ctx.violation('mark-raised-elsewhere', f.name, n.cname.split('::')[-1], n.loc(), 'marks a derived value as computed outside the computation')
    ctx.floor('obligations:mark-raised', 2)
    for key, role in roots.items():
        f = db.funcs[key]
        v = VerdictHooks(db, set(marks.get(role, {})), f)
        exits = Engine(db, v).run(f, [mk((False, False))])
        ctx.obligation('verdict', f.loc())
        for n, why in v.bad: ctx.violation('mark-after-failure', f.name, n.cname.split('::')[-1], n.loc(), why)
        for s in exits:
            if s.get(('ret',)) and not s.user[0] and not s.get(('already',)): ctx.violation('success-without-mark', f.name, 'return true', f.loc(), 'can return true without having marked the graph')
            if s.get(('ret',)) is False and s.user[0]: ctx.violation('failure-with-mark', f.name, 'return false', f.loc(), 'can report failure although the graph is marked as computed')
            if s.user[1] and s.get(('ret',)): ctx.violation('failure-swallowed', f.name, 'return true', f.loc(), 'can return true although a step of the computation failed')
    # dropped verdicts of fallible steps inside the computations
    closure = db.reach(list(roots))
    for k in closure:
        f = db.funcs.get(k)
        if f is None or f.cls == gm.CLS or f.relfile.startswith('..'): continue
        for n in f.calls():
            for t in db.targets(n):
                if is_bool(t.retctype) and fallible(t) and dataflow_param(t) is not None:
                    ctx.obligation('step-verdict', '%s at %s' % (t.short, n.loc()))
                    if dropped(n) and not signalled(db, f, n, t):
                        ctx.violation('verdict-dropped', f.name, t.short, n.loc(), 'ignores the outcome of %s, which returns false on inconsistent graphs' % t.short)

def only_from(db, f, roots, role, seen=None):
    """f is the computation itself or a helper called only from it"""
    if roots.get(f.key) == role: return True
    seen = seen or set()
    if f.key in seen: return True
    seen.add(f.key)
    cs = db.callers.get(f.key, ())
    return bool(cs) and all(only_from(db, db.funcs[c], roots, role, seen) for c in cs)

def fallible(t):
    return any(n.k == 'ReturnStmt' and n.kids and n.kids[0] is not None and not const_true(n.kids[0]) for n in t.walk())
def const_true(n):
    n = n.strip(); return n.k == 'CXXBoolLiteralExpr' and bool(n.get('v'))
def dataflow_param(t):
    for i, p in enumerate(t.params):
        if 'models::Dataflow' in t.types[p['t']][1]: return i
    return None
def dropped(n):
    m = n
    while m.parent is not None and m.parent.k in TRANSP | XCASTS: m = m.parent
    p = m.parent
    if p is None: return True
    if p.k in ('CompoundStmt', 'CaseStmt', 'DefaultStmt', 'LabelStmt'): return True
    if p.k in ('IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt'):
        return p.sub('cond') is not m and p.sub('cond') is not n
    if p.k == 'BinaryOperator' and p.op == ',' and p.kids[0] is m: return True
    return False

def signalled(db, f, n, t):
    """every 'return false' of t leaves a by-reference result in a state that the caller tests after the call:
       the same argument object is tested afterwards in a condition of the caller that leads to a false return"""
    for i, p in enumerate(t.params):
        ct = t.types[p['t']][1]
        if not (ct.endswith('&') and not ct.startswith('const ')): continue
        a = n.args()[i].strip() if i < len(n.args()) else None
        if a is None or a.k != 'DeclRefExpr': continue
        # t: each false return is preceded, on all paths, by clear() of p -- or is guarded by a test of p itself
        ok = True
        for r in t.walk():
            if r.k == 'ReturnStmt' and r.kids and not const_true(r.kids[0]):
                if not cleared_before(t, r, p['d']) and not guarded_by(t, r, p['d']): ok = False
        if not ok: continue
        # caller: a condition that reads the argument follows the call on every path
        for c in f.walk():
            if c.k == 'IfStmt' and c.sub('cond') is not None and mentions(f, c.sub('cond'), a.decl) and f.dominates(n, c.sub('cond')):
                th = c.sub('then')
                if th is not None and any(r.k == 'ReturnStmt' and r.kids and not const_true(r.kids[0]) for r in th.walk()): return True
    return False
def mentions(f, e, d):
    for m in e.walk():
        if m.k == 'DeclRefExpr':
            if m.decl == d: return True
            v = f.vars.get(m.decl)
            if v and v['init'] is not None and not v['param'] and any(x.k == 'DeclRefExpr' and x.decl == d for x in v['init'].walk()): return True
    return False
def cleared_before(t, r, d):
    return any(m.k == 'CXXMemberCallExpr' and m.cname and m.cname.split('::')[-1] == 'clear' and m.obj() is not None and m.obj().strip().decl == d and t.dominates(m, r) for m in t.walk())
def guarded_by(t, r, d):
    """the return happens only where an element of d was found equal to a constant: the state the caller's own test recognises"""
    kid = r
    for p in t.parents(r):
        if p.k == 'IfStmt' and p.sub('cond') is not None:
            c = p.sub('cond').strip(); th = p.sub('then')
            inthen = th is not None and any(x is kid for x in th.walk())
            for q in conjuncts(c):
                if q.op == ('==' if inthen else '!='):
                    a, b = q.args() if q.k == 'CXXOperatorCallExpr' else q.kids[:2]
                    if mentions(t, a, d) and constant(t, b) or mentions(t, b, d) and constant(t, a): return True
        kid = p
    return False
def conjuncts(c):
    c = c.strip()
    if c.k == 'BinaryOperator' and c.op == '&&': return conjuncts(c.kids[0]) + conjuncts(c.kids[1])
    return [c] if c.k in ('BinaryOperator', 'CXXOperatorCallExpr') else []
def constant(t, e): return not any(m.k == 'DeclRefExpr' and m.decl in t.vars or m.k == 'CXXThisExpr' for m in e.walk())

class VerdictHooks(Hooks):
    """user = (mark raised, a fallible step failed)"""
    def __init__(self, db, setters, f):
        self.db = db; self.setters = setters; self.f = f; self.bad = []
        self.gdecl = f.params[dataflow_param(f)]['d'] if dataflow_param(f) is not None else None
        self.depth = 0
    def is_step(self, n):
        for t in self.db.targets(n):
            if is_bool(t.retctype) and t.cls != gm.CLS and dataflow_param(t) is not None and fallible(t): return t
        return None
    def transfer(self, eng, f, n, st):
        if n.k in CALLS:
            if n.callee in self.setters:
                if st.user[1]: self.bad.append((n, 'marks the graph as computed on a path on which a step of the computation failed'))
                return [st.with_user((True, st.user[1]))]
            t = self.is_step(n)
            if t is not None and not dropped(n):
                return [st.set(('n', n.i), True), st.with_user((st.user[0], True)).set(('n', n.i), False)]
            if n.cname and n.cname.split('::')[-1] in ('has_repetition_vector', 'is_normalized') :
                return [st.set(('n', n.i), True).set(('already',), True), st.set(('n', n.i), False)]
            # helper that finishes the computation: analysed in place
            for t in self.db.targets(n):
                if t.cls != gm.CLS and self.depth < 3 and any(m.callee in self.setters for m in t.calls()):
                    self.depth += 1
                    out = []
                    for s in Engine(self.db, self).run(t, [mk(st.user)]):
                        x = st.with_user(s.user)
                        if s.get(('ret',)) is not None: x = x.set(('n', n.i), s.get(('ret',)))
                        out.append(x)
                    self.depth -= 1
                    return out
        return [st]
