"""C01: changing a graph discards everything that was derived from its old shape."""
from dfcommon import *
LEVEL = 'other'
ASSUMPTIONS = ['Dataflow::g is private, so every change goes through a Dataflow method (checked: getG() non-const is not public)',
               'a derived value is anything computed by computeRepetitionVector, algorithms::normalize, or stored by a look-up method of Dataflow']

def check(ctx):
    db = ctx.db(); fields = gm.flag_fields(db); der = derived_tags(db)
    read, closure = tags_read(db, compute_roots(db))
    cs = caches(db)
    cache_reads = {}
    for m, fs in cs.items():
        t, _ = tags_read(db, fs); cache_reads[m] = t
    inputs = (read - set(der))
    ctx.count('derived_input_properties', len(inputs)); ctx.floor('derived_input_properties', 5)
    ctx.notes.append('properties the derived values depend on: %s; caches: %s' % (sorted(inputs), sorted(cs)))
    ctx.rule('typestate: every non-const Dataflow method is interpreted over the flag states allowed by "done => read-only"; after a write to a property read (transitively) by computeRepetitionVector/normalize, both done flags must be false at every normal exit, and every cache filled from such a property must have been cleared')
    h = flags.FlagHooks(db, fields)
    mutators = 0
    rec = db.records.get(gm.CLS)
    for f in methods(db, const=False):
        wrote = False
        for u in START:
            for x in h.summary(f, u):
                ro, norm, rep, ev = x
                structural = [e for e in ev if e.startswith('graph:')]
                hits = [e for e in ev if e.startswith('put:') and (e[4:] in inputs or e[4:] == '?')]
                if structural or hits:
                    wrote = True
                    which = ', '.join(sorted(structural + hits))
                    if rep: ctx.violation('stale-repetition-vector', f.name, which, f.loc(), 'changes %s but can return with the repetition vector still marked as computed (entered with read-only=%d norm=%d rep=%d)' % ((which,) + u[:3]))
                    if norm: ctx.violation('stale-normalization', f.name, which, f.loc(), 'changes %s but can return with the normalization still marked as computed (entered with read-only=%d norm=%d rep=%d)' % ((which,) + u[:3]))
                    for c, tags in cache_reads.items():
                        dep = structural or [e for e in hits if e[4:] in tags]
                        if dep and ('clear:' + c) not in ev:
                            ctx.violation('stale-cache', f.name, c, f.loc(), 'changes %s but leaves the cache %s (filled from it by %s) untouched' % (', '.join(sorted(dep)), c, cs[c][0].short))
        if wrote: mutators += 1; ctx.obligation('mutator', '%s at %s' % (f.short, f.loc()))
    ctx.floor('obligations:mutator', 9)
    # what is remembered about one task or channel is found again under that task or channel only
    ctx.rule('a remembered value is stored and looked up under a key that tells tasks (channels) apart: the id of the task (channel) asked about, not a value several of them share')
    for m, fs in cs.items():
        for f in methods(db, const=None):
            for n, key in cache_keys(f, m):
                ctx.obligation('cache-key', '%s of %s at %s: %s' % (m, f.short, n.loc(), key.text()[:50]))
                bad = shared_key(f, key)
                if bad: ctx.violation('cache-key', f.name, '%s[%s]' % (m, key.text()[:60]), n.loc(), 'what was computed for one %s is stored or looked up under %s, which others share' % (bad[0], bad[1]))
    # the reset itself
    f = gm.only(db, 'reset_computation')
    ctx.rule('reset_computation() leaves every flag false from every state')
    for u in START:
        for x in h.summary(f, u):
            for i, r in enumerate(('read-only', 'normalization', 'repetition vector')):
                if x[i]: ctx.violation('reset-incomplete', f.name, r, f.loc(), 'can return with the %s flag still set' % r)
    ctx.obligation('reset', f.loc())
    # invariant done => read-only on every method; flags raised only after the graph was frozen
    ctx.rule('"done" flags are only ever raised on a graph that is read-only: every caller of set_repetition_vector/set_normalize froze the same graph on every path before')
    raisers = {}
    for g in methods(db, const=False):
        for u in START:
            for x in h.summary(g, u):
                if (x[1] and not u[1]) or (x[2] and not u[2]): raisers.setdefault(g.key, g)
                if g.key not in raisers and (x[1] or x[2]) and not x[0]:
                    ctx.violation('done-but-writable', g.name, 'flags', g.loc(), 'can leave the graph writable while a derived value is still marked as computed')
    for g in list(raisers.values()):
        if not any(gg.key == g.key for gg in raisers.values()): continue
    setters = {k for k, g in raisers.items() if not any(db.targets(c) and any(t.short in ('computeRepetitionVector', 'normalize') for t in db.targets(c)) for c in g.calls())}
    freeze = gm.only(db, 'set_read_only').key
    isro = gm.only(db, 'is_read_only').key
    for f in db.funcs.values():
        for n in f.calls():
            if n.callee in setters:
                obj = obj_key(n.obj())
                ctx.obligation('raise-done', '%s calls %s at %s' % (f.short, n.cname.split('::')[-1], n.loc()))
                ok = any(m.callee == freeze and obj_key(m.obj()) == obj and f.dominates(m, n) for m in f.calls())
                if not ok: ok = frozen_by_callee(db, f, n, obj, freeze)
                if not ok: ctx.violation('done-before-frozen', f.name, n.cname.split('::')[-1], n.loc(), 'marks a derived value as computed on a graph that was not made read-only on every path before: later changes to it are accepted by setPreload/setters without notice')
    ctx.floor('obligations:raise-done', 2)
    # who else may touch the graph
    ctx.rule('the underlying boost graph is reachable for writing from Dataflow methods only')
    for g in db.by_name.get(gm.CLS + '::getG', []):
        if not g.rec.get('const') and g.rec.get('access') == 0:
            ctx.violation('graph-exposed', g.name, 'getG', g.loc(), 'hands out the mutable graph publicly')
    # hidden memory of derived data outside the class
    ctx.rule('no function reachable from the derived computations keeps state in a static or global variable')
    gl = {}
    for k in closure | {f.key for fs in cs.values() for f in fs}:
        f = db.funcs.get(k)
        if f is None: continue
        for d, v in f.vars.items():
            if v.get('static') and not v['ctype'].startswith('const '):
                ctx.violation('hidden-memo', f.name, v['name'], f.loc(), 'static local "%s" survives changes of the graph' % v['name'])
    ctx.count('functions_in_derived_closure', len(closure))

def obj_key(o):
    if o is None: return None
    o = o.strip()
    if o.k == 'DeclRefExpr': return ('v', o.decl)
    if o.k == 'CXXThisExpr': return ('this',)
    return ('t', o.text())

def frozen_by_callee(db, f, n, obj, freeze):
    """a helper called before on the same graph freezes it on all its paths"""
    for m in f.calls():
        if m is n or not f.dominates(m, n): continue
        for t in db.targets(m):
            for i, a in enumerate(m.args()):
                if a is not None and obj_key(a) == obj and i < len(t.params):
                    pd = t.params[i]['d']
                    if must_call(db, t, pd, freeze): return True
    return False
def must_call(db, t, pd, key, depth=3):
    if depth == 0 or not t.blocks: return False
    hit = set()
    for m in t.calls():
        if m.callee == key and obj_key(m.obj()) == ('v', pd): hit.add(t.pos(m))
    if not hit: return False
    # every path entry->exit meets a hit
    bl = {p[0] for p in hit if p}
    seen = set(); st = [t.entry]
    while st:
        b = st.pop()
        if b in seen or b in bl: continue
        seen.add(b)
        if b == t.exit: return False
        st.extend(s for s in t.blocks[b].succ if s is not None)
    return True

KEYED = ('find', 'count', 'at', 'insert', 'emplace', 'insert_or_assign', 'try_emplace', 'erase', 'contains', 'lower_bound')
def cache_keys(f, m):
    """(node, key expression) of every access to the member m by key"""
    for n in f.walk():
        if n.k == 'CXXMemberCallExpr' and n.obj() is not None and n.cname and gm.this_member(n.obj()) == m and n.cname.split('::')[-1] in KEYED and n.args():
            a = n.args()[0].strip()
            for x in [a] + list(a.walk()):      # insert(make_pair(key, value)) / insert(pair(key, value)) / insert({key, value})
                if x.k in CALLS and x.cname and x.cname.split('::')[-1] == 'make_pair' and len(x.args()) == 2: a = x.args()[0]; break
                if (x.k in CTORS or x.k == 'InitListExpr') and len([k for k in x.kids if k is not None]) == 2: a = [k for k in x.kids if k is not None][0]; break
            yield n, a
        if n.k == 'CXXOperatorCallExpr' and n.op == '[]' and gm.this_member(n.args()[0]) == m: yield n, n.args()[1]
INJECTIVE = ('getEdgeId', 'getVertexId', 'getEdgeName', 'getVertexName')
def shared_key(f, key, depth=6):
    """(entity, text) when the key is a property of an entity parameter that does not identify it"""
    n = key
    while n is not None and depth:
        depth -= 1; n = n.strip()
        if n.k in XCASTS and n.kids: n = n.kids[0]; continue
        k = [x for x in n.kids if x is not None]
        if n.k in CTORS and len(k) == 1: n = k[0]; continue
        if n.k == 'DeclRefExpr':
            v = f.vars.get(n.decl)
            if v is None or v.get('param'): return None
            d = [x for x in f.walk() if x.k == 'VarDecl' and x.decl == n.decl and x.kids and x.kids[0] is not None]
            n = d[0].kids[0] if d else None; continue
        if n.k == 'CXXMemberCallExpr' and n.cname and n.cname.startswith(gm.CLS) and n.args():
            if n.cname.split('::')[-1] in INJECTIVE: n = n.args()[0]; continue
            a = n.args()[0].strip()
            for x in [a] + list(a.walk()):
                if x.k == 'DeclRefExpr' and f.vars.get(x.decl, {}).get('param'):
                    t = f.vars[x.decl]['ctype'].replace('const ', '').strip(' &').split('::')[-1]
                    if t in ('Vertex', 'Edge'): return ('task' if t == 'Vertex' else 'channel'), n.text()
        return None
    return None
