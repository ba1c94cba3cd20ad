"""C21: what was stored is what is read back."""
from kdb import *
import facts, graphmodel as gm
from canon import *
LEVEL = 'other'
ASSUMPTIONS = ['values computed by loops or functions whose result has no closed form are not judged', 'the property lists of boost return what was put into them']
P0, P1 = ('p', 0), ('p', 1)
OPAQUE = ('?', 'call', 'v', 'g', 'new', 'map', 'not', 'empty', 'find', 'deref', 'begin', 'end', 'lit', 'f')
def judged(c):
    """an expression over parameters and stored properties only"""
    if isinstance(c, tuple):
        if c and isinstance(c[0], str):
            if c[0] in OPAQUE: return False
            return all(judged(x) for x in c[1:])
        return all(judged(x) for x in c)
    return True
def show(c):
    if not isinstance(c, tuple): return str(c)
    if not c: return '()'
    h = c[0]
    if h == 'p': return 'parameter %d' % (c[1] + 1)
    if h == 'm': return c[1]
    if h == 'tag': return '%s(%s)' % (c[1], show(c[2]))
    if h == 'at': return '%s[%s]' % (show(c[1]), show(c[2]))
    if h == 'f': return '%s.%s' % (show(c[1]), c[2])
    if h == 'lin': return ' + '.join(['%s%s' % ('' if k == 1 else '%s*' % k, show(t)) for t, k in c[2]] + ([str(c[1])] if c[1] else []))
    if h == 'enum': return c[1]
    if h == 'rec': return '%s{%s}' % (c[1], ', '.join('%s: %s' % (k, show(v)) for k, v in c[2]))
    if h in ('%', '/', '*', '+') and len(c) == 3: return '(%s %s %s)' % (show(c[1]), h, show(c[2]))
    return '%s(%s)' % (h if isinstance(h, str) else show(h), ', '.join(show(x) for x in c[1:]))

class Class21(object):
    """methods of one class by name and number of parameters"""
    def __init__(self, db, C, cls):
        self.db = db; self.C = C; self.cls = cls; self.m = {}
        for f in db.funcs.values():
            if f.cls == cls and f.blocks and not f.is_ctor and not f.is_dtor: self.m.setdefault((f.short, len(f.params)), []).append(f)
    def one(self, name, n):
        fs = self.m.get((name, n), ())
        return fs[0] if fs else None
    def stores(self, f, tagged=True): return list(self.C.stores(f, self.C.root(f)))
    def values(self, f): return [v for _, v in self.C.returns(f, self.C.root(f))]

def slot_of(kind, slot, key):
    """what a getter returns when it reads that store"""
    return ('tag', slot, key) if kind == 'tag' else slot

def parts(c):
    yield c
    if isinstance(c, tuple):
        for x in c: yield from parts(x)

def pairs(ctx, K):
    """setX(k..., v) / getX(k...): same slot, value unchanged"""
    C = K.C; used = {}
    for (name, n), fs in sorted(K.m.items()):
        if not name.startswith('set') or n == 0: continue
        for f in fs:
            gs = K.m.get(('get' + name[3:], n - 1), [])
            if not gs and name.endswith('Unsafe'): gs = K.m.get(('get' + name[3:-6], n - 1), [])
            if not gs: continue
            v = ('p', n - 1)
            st = [s for s in K.stores(f) if s[0] in ('tag', 'm')]
            for g in gs:
                got = {x for x in K.values(g)}
                if len(got) != 1: continue
                got = got.pop()
                if isinstance(got, tuple) and got[:1] in (('sum',), ('size',)) or any(got != w and w in parts(got) for w in [slot_of(s[0], s[1], s[2]) for s in st if s[3] == v]): continue      # part of a stored vector: judged below
                if not (judged(got) or (C.member(got) and known(got))): continue
                here = [s for s in st if slot_of(s[0], s[1], s[2]) == got]
                ctx.obligation('pair', '%s -> %s -> %s' % (f.name, show(got), g.short))
                if not here:
                    whole = [slot_of(s[0], s[1], s[2]) for s in st if s[3] == v and judged(s[3])]
                    unk = [s for s in st if s[0] == '?' or s[1] == '?' or (s[2] is not None and not known(s[2])) or not known(s[1])]
                    if whole: ctx.violation('other-slot', g.name, show(got), g.loc(), '%s returns %s but %s stores its value in %s' % (g.short, show(got), f.short, ', '.join(sorted(map(show, whole)))))
                    elif st and not unk and not opaque_calls(K, f): ctx.violation('not-stored', f.name, show(got), f.loc(), '%s reads %s, which %s does not store' % (g.short, show(got), f.short))
                    continue
                for s in here:
                    if s[3] != v and judged(s[3]): ctx.violation('changed-value', f.name, show(s[3]), s[4].loc(), '%s stores %s instead of the value it is given' % (f.short, show(s[3])))
                good = [s for s in here if s[3] == v or not judged(s[3])]
                if good:
                    used.setdefault(got[1] if got[0] == 'tag' else repr(got), set()).add((name[3:].replace('Unsafe', ''), f))
                    if not any(s[5] for s in good) and not allowed_skip(K, f, [s[4] for s in good]):
                        ctx.violation('not-always-stored', f.name, show(got), f.loc(), '%s can return without storing the value and without an error' % f.short)
    for slot, us in sorted(used.items()):
        if len({x for x, _ in us}) > 1:
            ns = sorted({f.short for _, f in us})
            ctx.violation('shared-slot', K.cls, '%s: %s' % (slot, ', '.join(ns)), sorted(us, key=lambda x: x[0])[0][1].loc(), '%s store different things in the same place' % ' and '.join(ns))

def opaque_calls(K, f):
    """calls that could store something this analysis does not follow"""
    for n in f.walk():
        if n.k in CALLS and n.k != 'CXXOperatorCallExpr':
            ts = K.db.targets(n)
            if any(t.cls != f.cls and any('&' in t.types[p['t']][1] and 'const' not in t.types[p['t']][1] for p in t.params) for t in ts): return True
    return False
def allowed_skip(K, f, nodes):
    """the value is not stored only where a search for the same id found the object itself (exceptions carry the other case)"""
    return any(n.k == 'CXXTryStmt' for n in f.walk())

def reach_for(f, C, env, sub):
    """blocks reachable when the parameters in sub have the given values"""
    B = f.blocks; st = [f.entry]; seen = set()
    def ev(c):
        if isinstance(c, (int, float)): return c
        if c in sub: return sub[c]
        k, t = lin(c)
        if isinstance(c, tuple) and c[:1] == ('lin',) and all(x in sub for x in t): return k + sum(a * sub[x] for x, a in t.items())
        return None
    def truth(c):
        r = C.compare(c, f, env)
        if r is None: return None
        x, y = ev(r[1]), ev(r[2])
        if x is None or y is None: return None
        return {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[r[0]]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); blk = B[b]; c = blk.tcond
        out = list(blk.succ)
        if c is not None and len(out) == 2:
            t = truth(c)
            if t is not None: out = [out[0] if t else out[1]]
        st += [x for x in out if x is not None]
    return seen, truth

def expect(ctx, K, g, allowed, what, when=None):
    """every judged result of g is one of the allowed ones; when: {value of the last parameter: allowed results}"""
    if g is None: return
    C = K.C; env = C.root(g); rs = C.returns(g, env)
    if not rs: return
    ctx.obligation('family', '%s is %s' % (g.name, what))
    for n, v in rs:
        if v not in allowed and judged(v): ctx.violation('wrong-element', g.name, show(v), n.loc(), 'returns %s where %s is expected' % (show(v), what))
    if when:
        last = ('p', len(g.params) - 1)
        for k, ok in when.items():
            bl, truth = reach_for(g, C, env, {last: k})
            for n, v, ch in C.alternatives(g, env):
                if any(truth(c) not in (None, b) for c, b in ch): continue
                p = g.pos(n)
                if p and p[0] in bl and v in allowed and v not in ok:
                    ctx.violation('wrong-branch', g.name, '%s for %d' % (show(v), k), n.loc(), 'with %s = %d the result is %s' % (g.params[-1].get('n') or 'the last parameter', k, show(v)))

def at_all(whole, phases):
    k = add(P1, -1); n = ('size', whole)
    return {('at', whole, k), ('at', whole, ('%', k, n))} | {('at', whole, ('%', k, q)) for q in phases}

def whole_slot(K, f):
    """the property in which a setter of vectors keeps its argument"""
    s = [x for x in K.stores(f) if x[0] == 'tag' and x[2] == P0 and x[3] == P1]
    return s[0][1] if s else None

def refusal(ctx, K, f, cnt, end, label, zero_ok=True):
    """the setter refuses vectors whose size differs from the number of phases the task already has"""
    C = K.C; env = C.root(f)
    want = {repr(('size', P1)), repr(('tag', cnt, end))}
    found = {'cmp': 0}
    def compares(g, e, b, w):
        c = g.blocks[b].tcond
        r = C.compare(c, g, e) if c is not None and len(g.blocks[b].succ) == 2 else None
        return r if r and {repr(r[1]), repr(r[2])} == w else None
    def refuses(g, e, w, depth=2):
        """every path of g to its normal end decided that the sizes agree (or that there is no count yet)"""
        st = [g.entry]; seen = set()
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            if b == g.exit: return False
            blk = g.blocks[b]
            if any(n.k in CALLS and n.callee in K.db.noreturn for n in blk.elems): continue
            if depth and any(n.k == 'CXXMemberCallExpr' and any(t.blocks and refuses(t, C.bind(t, [C.expr(x, g, e) for x in n.args()], e.get('this')), w, depth - 1) for t in K.db.targets(n) if t.cls == g.cls and t.key != g.key) for n in blk.elems): continue
            r = compares(g, e, b, w)
            if r and r[0] in ('==', '!='):
                found['cmp'] += 1; bad = blk.succ[0 if r[0] == '!=' else 1]
                if bad is not None: st.append(bad)      # unequal: must not get to the end
                continue
            out = list(enumerate(blk.succ))
            c = blk.tcond; z = C.compare(c, g, e) if zero_ok and c is not None and len(blk.succ) == 2 else None
            if z:
                q = [x for x in z[1:] if repr(x) == repr(('tag', cnt, end))]; o = [x for x in z[1:] if isinstance(x, (int, float))]
                if len(q) == 1 and len(o) == 1:
                    x, y = (1, o[0]) if z[1] == q[0] else (o[0], 1)
                    t = {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[z[0]]
                    x, y = (2, o[0]) if z[1] == q[0] else (o[0], 2)
                    t2 = {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[z[0]]
                    if t == t2: out = [out[0] if t else out[1]]
            for _, x in out:
                if x is not None: st.append(x)
        return True
    ctx.obligation('refusal', '%s compares the size of its argument with %s' % (f.name, show(('tag', cnt, end))))
    if not refuses(f, env, want):
        ctx.violation('size-not-refused', f.name, label, f.loc(), 'a vector whose size is not %s can be stored' % show(('tag', cnt, end)))
    # the number of phases compared with is the one from before the call
    for s in K.stores(f):
        if s[0] == 'tag' and s[1] == cnt:
            p = f.pos(s[4])
            for b in f.blocks:
                if not compares(f, env, b, want): continue
                rd = reads_of(f, f.blocks[b].tcond)
                for q in rd:
                    if p and q and before(f, p, q): ctx.violation('compared-after-store', f.name, label, s[4].loc(), 'the number of phases is stored before the size is compared with it')

def reads_of(f, c):
    """positions at which the operands of a condition are read"""
    out = []
    for n in c.walk():
        n2 = n.strip()
        if n2.k == 'DeclRefExpr' and n2.decl in f.vars and f.vars[n2.decl]['init'] is not None: out += [f.pos(f.vars[n2.decl]['init'])]
        elif n2.k in CALLS and not [k for k in n2.walk() if k is not n2 and k.k == 'DeclRefExpr' and k.decl in f.vars and not f.vars[k.decl]['param']]: out.append(f.pos(n2))
    return [p for p in out if p]
def before(f, p, q):
    if p[0] == q[0]: return p[1] < q[1]
    st = [p[0]]; seen = set()
    while st:
        b = st.pop()
        for x in f.blocks[b].succ:
            if x is not None and x not in seen:
                if x == q[0]: return True
                seen.add(x); st.append(x)
    return False

def dataflow(ctx, K):
    C = K.C; M = K.one
    cnt = {}
    for nm in ('setPhasesQuantity', 'setInitPhasesQuantity'):
        f = M(nm, 2)
        if f is None: raise facts.AnalysisBroken('no %s' % nm)
        t = whole_slot(K, f)
        if t is None: raise facts.AnalysisBroken('%s keeps its argument nowhere' % nm)
        cnt[nm] = t
    for setter, end, init, vec, size, at, total, iname in (
        ('setEdgeInPhases', 'source', False, 'getEdgeInVector', 'getEdgeInPhasesCount', 'getEdgeInPhase', 'getEdgeIn', 'setEdgeInInitPhases'),
        ('setEdgeOutPhases', 'target', False, 'getEdgeOutVector', 'getEdgeOutPhasesCount', 'getEdgeOutPhase', 'getEdgeOut', 'setEdgeOutInitPhases'),
        ('setEdgeInInitPhases', 'source', True, 'getEdgeInitInVector', 'getEdgeInInitPhasesCount', 'getEdgeInInitPhase', None, None),
        ('setEdgeOutInitPhases', 'target', True, 'getEdgeInitOutVector', 'getEdgeOutInitPhasesCount', 'getEdgeOutInitPhase', None, None),
        ('setVertexDuration', None, False, 'getVertexPhaseDuration', None, 'getVertexDuration', 'getVertexTotalDuration', 'setVertexInitDuration'),
        ('setVertexInitDuration', None, True, 'getVertexInitPhaseDuration', None, 'getVertexInitDuration', None, None)):
        f = M(setter, 2)
        if f is None: raise facts.AnalysisBroken('no %s' % setter)
        T = whole_slot(K, f)
        st = K.stores(f)
        if T is None:
            vals = [s[3] for s in st if s[0] == 'tag' and s[2] == P0 and judged(s[3]) and s[3] not in (0, ('sum', P1))]
            for v in vals: ctx.violation('changed-value', f.name, show(v), f.loc(), '%s stores %s instead of the vector it is given' % (setter, show(v)))
            if not vals: ctx.count('unfollowed')
            continue
        whole = ('tag', T, P0); ends = P0 if end is None else (end, P0)
        q = cnt['setInitPhasesQuantity' if init else 'setPhasesQuantity']
        nphases = {('tag', q, ends)}
        if not any(s[5] for s in st if s[0] == 'tag' and s[1] == T and s[2] == P0 and s[3] == P1): ctx.violation('not-always-stored', f.name, T, f.loc(), 'can return without storing the vector')
        for s in st:
            if s[0] == 'tag' and s[1] == T and (s[3] != P1 and judged(s[3]) or s[2] != P0 and judged(s[2])): ctx.violation('changed-value', f.name, show(s[3]), s[4].loc(), 'stores %s for %s' % (show(s[3]), show(s[2])))
        expect(ctx, K, M(vec, 1), {whole}, 'the stored vector')
        if size: expect(ctx, K, M(size, 1), {('size', whole)} | nphases, 'the size of the stored vector')
        el = at_all(whole, nphases)
        if init: expect(ctx, K, M(at, 2), el, 'element k-1 of the stored vector')
        else:
            fi = M(iname, 2); TI = whole_slot(K, fi) if fi else None
            if TI:
                wi = ('tag', TI, P0); ni = {('size', wi), ('tag', cnt['setInitPhasesQuantity'], ends)}
                eli = {('at', wi, add(add(P1, x), -1)) for x in ni}
                expect(ctx, K, M(at, 2), el | eli, 'element k-1 of the stored vector (initial phases up to 0)', {1: el, 2: el, 3: el, 0: eli, -1: eli, -2: eli})
        if total:
            g = M(total, 1); S = {('sum', P1)}
            summed = [s for s in st if s[0] == 'tag' and s[2] == P0 and s[3] == ('sum', P1)]
            ok = {('sum', whole)} | {('tag', s[1], P0) for s in summed if s[5]}
            vals = set(K.values(g)) if g else set()
            for v in vals:
                ctx.obligation('total', '%s returns %s' % (total, show(v)))
                if v in ok: continue
                if isinstance(v, tuple) and v[:1] == ('tag',) and v[2] == P0:
                    mine = [s for s in st if s[0] == 'tag' and s[1] == v[1]]
                    if mine and any(not known(s[3]) for s in mine): ctx.count('unfollowed'); continue
                    ctx.violation('wrong-total', f.name, '%s %s' % (total, ', '.join(sorted(show(s[3]) for s in mine)) or 'not stored'), f.loc(), '%s returns %s, where %s stores %s' % (total, show(v), setter, ', '.join(sorted(show(s[3]) for s in mine)) or 'nothing'))
                elif judged(v): ctx.violation('wrong-total', g.name, show(v), g.loc(), 'returns %s, not the sum of the stored vector' % show(v))
        if end is not None:
            c = [s for s in st if s[0] == 'tag' and s[1] == q]
            ctx.obligation('phase-count', '%s sets the number of phases of the %s' % (f.name, end))
            for s in c:
                if s[3] != ('size', P1) and judged(s[3]) or s[2] != ends and judged(s[2]): ctx.violation('wrong-phase-count', f.name, '%s for %s' % (show(s[3]), show(s[2])), s[4].loc(), 'the number of phases of %s becomes %s' % (show(s[2]), show(s[3])))
            if not any(s[5] for s in c if s[3] == ('size', P1) and s[2] == ends) and not any(not known(s[3]) or not known(s[2]) for s in c):
                ctx.violation('phase-count-not-stored', f.name, end, f.loc(), 'can return without setting the number of phases of its %s to the size of the vector' % end)
        refusal(ctx, K, f, q, ends, setter, zero_ok=end is not None)
    # ---- the shape of the graph
    for nm, n, want in (('getEdgeSource', 1, {('source', P0)}), ('getEdgeTarget', 1, {('target', P0)})): prim(ctx, K, nm, n, want, {'source', 'target'})
    for nm, n, want in (('getInputEdges', 1, 'in_edges'), ('in_edges', 1, 'in_edges'), ('getOutputEdges', 1, 'out_edges'), ('out_edges', 1, 'out_edges'), ('getVertexInDegree', 1, 'in_degree'),
                        ('getVertexOutDegree', 1, 'out_degree'), ('getVerticesCount', 0, 'num_vertices'), ('getEdgesCount', 0, 'num_edges'), ('getVertices', 0, 'vertices'), ('getEdges', 0, 'edges')): graphcall(ctx, K, nm, n, want)
    # ---- channels and tasks are created between the given tasks, with the given id and name
    eid = K.values(M('getEdgeId', 1))[0] if M('getEdgeId', 1) else None
    ename = K.values(M('getEdgeName', 1))[0] if M('getEdgeName', 1) else None
    vid = K.values(M('getVertexId', 1))[0] if M('getVertexId', 1) else None
    vname = K.values(M('getVertexName', 1))[0] if M('getVertexName', 1) else None
    for (nm, n), fs in sorted(K.m.items()):
        if nm not in ('addEdge', 'addEdgeUnsafe', 'addVertex', 'addUnsafeVertex'): continue
        for f in fs:
            st = K.stores(f); created(ctx, K, f, st, 'add_edge' if 'Edge' in nm else 'add_vertex')
            for i, p in enumerate(f.params):
                ty = f.types[p['t']][1]
                if 'Vertex' in ty: continue
                isname = 'basic_string' in ty
                slot = (ename if isname else eid) if 'Edge' in nm else (vname if isname else vid)
                if slot is None or slot[0] != 'tag' or not ('basic_string' in ty or re.search(r'\b(long|int|short)\b', ty)): continue
                here = [s for s in st if s[0] == 'tag' and s[1] == slot[1]]
                ctx.obligation('creation', '%s stores parameter %d as %s' % (f.name, i + 1, slot[1]))
                if not any(s[3] == ('p', i) for s in here) and not any(not known(s[3]) for s in here):
                    ctx.violation('lost-parameter', f.name, 'parameter %d' % (i + 1), f.loc(), 'the %s given is not stored in %s' % ('name' if isname else 'id', slot[1]))

def created(ctx, K, f, st, op):
    c = [s for s in st if s[0] == 'struct' and s[1] == op]
    if op == 'add_edge':
        for s in c:
            ctx.obligation('creation', '%s connects %s' % (f.name, show(s[2])))
            if s[2] != (P0, P1) and all(judged(x) for x in s[2]): ctx.violation('wrong-ends', f.name, show(s[2]), s[4].loc(), 'connects %s instead of its first and second parameter' % ' to '.join(show(x) for x in s[2]))
    if c and not any(s[5] for s in c): ctx.count('creation_conditional')

def prim(ctx, K, nm, n, want, family):
    for g in K.m.get((nm, n), ()):
        for v in K.values(g):
            ctx.obligation('primitive', '%s returns %s' % (g.name, show(v)))
            if v not in want and isinstance(v, tuple) and v[:1] and v[0] in family: ctx.violation('wrong-end', g.name, show(v), g.loc(), 'returns the %s' % show(v))
GRAPHCALLS = {'in_edges', 'out_edges', 'in_degree', 'out_degree', 'degree', 'num_vertices', 'num_edges', 'vertices', 'edges'}
def graphcall(ctx, K, nm, n, want):
    """the boost query behind a query of the model, and its argument"""
    def heads(c):
        if isinstance(c, tuple):
            if c[:1] == ('call',) and c[1] in GRAPHCALLS: yield c
            for x in c: yield from heads(x)
    for g in K.m.get((nm, n), ()):
        hs = [h for v in K.values(g) for h in heads(v)]
        if not hs: continue
        ctx.obligation('primitive', '%s asks %s' % (g.name, ', '.join(sorted({h[1] for h in hs}))))
        for h in hs:
            if h[1] != want: ctx.violation('wrong-query', g.name, h[1], g.loc(), 'returns %s of the graph, not %s' % (h[1], want))
            elif n == 1 and P0 not in h: ctx.violation('wrong-query', g.name, show(h), g.loc(), 'does not ask about its parameter')

def eventgraph(ctx, K, db):
    """an event or constraint put into an event graph is the one found there"""
    M = K.one; C = K.C
    for nm, n, want in (('getSource', 1, {('source', P0)}), ('getTarget', 1, {('target', P0)})): prim(ctx, K, nm, n, want, {'source', 'target'})
    for nm, n, want in (('getInputs', 1, 'in_edges'), ('getOutputs', 1, 'out_edges'), ('getInDegree', 1, 'in_degree'), ('getOutDegree', 1, 'out_degree'), ('getEvents', 0, 'vertices'), ('getConstraints', 0, 'edges'), ('getEventCount', 0, 'num_vertices'), ('getConstraintsCount', 0, 'num_edges')): graphcall(ctx, K, nm, n, want)
    ge = M('getEvent', 1); gc = M('getConstraint', 1)
    if ge is None or gc is None: raise facts.AnalysisBroken('EventGraph::getEvent / getConstraint not found')
    O = Canon(db, opaque=True)
    ev = [v for _, v in O.returns(ge, O.root(ge))]
    if len(ev) != 1 or ev[0][:1] != ('rec',): ctx.count('unfollowed'); return
    fields = {m: v[1] for m, v in ev[0][2] if isinstance(v, tuple) and v[:1] == ('tag',) and v[2] == P0}      # field -> property
    for (nm, n), fs in sorted(K.m.items()):
        if nm not in ('addEvent', 'addEventGroup'): continue
        for f in fs:
            if nm == 'addEvent': src = {m: ('f', P0, m) for m in fields}
            st = list(O.stores(f, O.root(f)))
            tags = {}; keys = []
            for s in st:
                if s[0] == 'tag': tags.setdefault(s[1], []).append(s)
                if s[0] == 'm' and isinstance(s[1], tuple) and s[1][0] == 'at': keys.append(s)
            made = {s[2] for m, t in fields.items() for s in tags.get(t, ())}
            for s in keys:
                if s[3] not in made: continue
                k = s[1][2]
                for m, t in sorted(fields.items()):
                    kv = ('f', k, m) if k == P0 else O.field(k, m)
                    ctx.obligation('round-trip', '%s: %s of the key is property %s' % (f.name, m, t))
                    vals = [x[3] for x in tags.get(t, ()) if x[2] == s[3]]
                    if kv == ('?',) or any(not known(x) for x in vals): ctx.count('unfollowed'); continue
                    if not vals: ctx.violation('lost-field', f.name, m, f.loc(), 'the %s of the event is not stored in %s, where getEvent reads it' % (m, t))
                    for x in vals:
                        if x != kv: ctx.violation('wrong-field', f.name, '%s: %s' % (m, show(x)), s[4].loc(), 'the event is registered with %s = %s but its vertex says %s' % (m, show(kv), show(x)))
            if not keys and tags: ctx.violation('not-registered', f.name, 'key', f.loc(), 'the new event cannot be found by its task, phase and execution')
    cv = [v for _, v in C.returns(gc, C.root(gc))]
    if len(cv) != 1 or cv[0][:1] != ('rec',): ctx.count('unfollowed'); return
    want = dict(cv[0][2])
    ends = {m: ev for m, ev in want.items() if isinstance(ev, tuple) and ev[:1] == ('rec',)}
    add1 = M('addEventConstraint', 1)
    if add1 is None: return
    env = O.root(add1); st = list(O.stores(add1, env))
    e = [s for s in st if s[0] == 'struct' and s[1] == 'add_edge']
    for s in e:
        for i, side in enumerate(('source', 'target')):
            # which field of the constraint names this end, and which field getConstraint fills from it
            src = s[2][i]
            ctx.obligation('round-trip', '%s: %s is %s' % (add1.name, side, show(src)))
            if not (isinstance(src, tuple) and src[:1] == ('at',) and isinstance(src[2], tuple) and src[2][:2] == ('f', P0)): ctx.count('unfollowed'); continue
            back = ends.get(src[2][2])
            if back is None: continue
            got = {v[2] for m, v in back[2] if isinstance(v, tuple) and v[:1] == ('tag',)}
            if got and got != {(side, P0)}: ctx.violation('wrong-field', gc.name, '%s: %s' % (src[2][2], show(tuple(got))), gc.loc(), 'getConstraint fills %s from %s, addEventConstraint puts it at the %s' % (src[2][2], show(tuple(got)), side))
    for m, v in sorted(want.items()):
        if m in ends: continue
        ctx.obligation('round-trip', '%s: %s is read from %s' % (gc.name, m, show(v)))
        if not (isinstance(v, tuple) and v[:1] == ('tag',)): ctx.count('unfollowed'); continue
        vals = [s[3] for s in st if s[0] == 'tag' and s[1] == v[1]]
        if any(not known(x) for x in vals): ctx.count('unfollowed'); continue
        if not vals: ctx.violation('lost-field', add1.name, m, add1.loc(), '%s of the constraint is not stored' % m)
        for x in vals:
            if x != ('f', P0, m): ctx.violation('wrong-field', add1.name, '%s: %s' % (m, show(x)), add1.loc(), 'what getConstraint returns as %s was stored from %s' % (m, show(x)))

def storage(ctx, K):
    """the size of a storage distribution is the sum of the sizes of its channels"""
    C = K.C; g = K.one('getDistributionSize', 0); q = K.one('getChannelQuantity', 1)
    if g is None or q is None: raise facts.AnalysisBroken('StorageDistribution::getDistributionSize / getChannelQuantity not found')
    gv = K.values(g); qv = K.values(q)
    if len(gv) != 1 or len(qv) != 1 or gv[0][:1] != ('m',): ctx.count('unfollowed'); return
    size = gv[0]; ch = qv[0]      # ch = field path over at(m, p0)
    path = []; x = ch
    while isinstance(x, tuple) and x[0] == 'f': path.append(x[2]); x = x[1]
    if not (isinstance(x, tuple) and x[0] == 'at'): ctx.count('unfollowed'); return
    total = ('sum', ('each', x[1], '.'.join(['second'] + path[::-1])))
    for f in sorted(K.db.funcs.values(), key=lambda f: f.name):
        if f.cls != K.cls or not f.blocks: continue
        st = K.stores(f)
        ws = [s for s in st if s[0] == 'm' and slotpath(s[1]) == slotpath(ch)]
        if f.short.startswith('setDistributionSize'): continue
        for s in st:
            if s[0] == 'm' and s[1] == size and judged(s[3]) and s[3] != total and not f.is_ctor: ctx.violation('wrong-size', f.name, show(s[3]), s[4].loc(), 'the size of the distribution becomes %s, not the sum of the sizes of all channels' % show(s[3]))
        if not ws: continue
        if f.is_ctor: continue
        ctx.obligation('storage', '%s changes a channel and the size of the distribution' % f.name)
        ups = [s for s in st if s[0] == 'm' and s[1] == size]
        if any(not known(s[3]) for s in ups): ctx.count('unfollowed'); continue
        for w in ws:
            ok = [s for s in ups if s[3] == total or s[3] == add(add(size, add_val(w)), ch, -1)]
            p = f.pos(w[4])
            if w[4] in [s[4] for s in ok]: continue
            if not ok or not p or not C.must(f, C.root(f), [s[4] for s in ok], start=None if not p else p[0]) and not samelater(f, p, ok):
                ctx.violation('stale-size', f.name, show(ch), w[4].loc(), 'the size of a channel changes but the size of the distribution is not recomputed on every path afterwards')
            elif any(f.pos(s[4]) and f.pos(s[4])[0] == p[0] and f.pos(s[4])[1] < p[1] for s in ok) and not samelater(f, p, ok): ctx.violation('stale-size', f.name, show(ch), w[4].loc(), 'the size of the distribution is computed before the channel changes')
def add_val(w): return w[3]
def samelater(f, p, ok): return any(f.pos(s[4]) and f.pos(s[4])[0] == p[0] and f.pos(s[4])[1] > p[1] for s in ok)
def slotpath(x):
    out = []
    while isinstance(x, tuple) and x and x[0] in ('f', 'at', 'deref'):
        out.append(x[2] if x[0] == 'f' else x[0]); x = x[1]
    return (x,) + tuple(out[::-1])

CLASSES = ('models::Dataflow', 'models::EventGraph', 'State', 'StorageDistribution', 'Actor', 'models::SchedulingEvent', 'models::Scheduling', 'Edge', 'Vertex')
def check(ctx):
    db = ctx.db(); C = Canon(db)
    ctx.rule('symbolic summary of every setter and getter (what is stored where, what is returned, in terms of the parameters): setX stores its value unchanged, on every path, in the slot getX reads; no two properties share a slot')
    classes = sorted({f.cls for f in db.funcs.values() if f.cls and not f.cls.startswith(('std::', 'boost::', '__')) and '<' not in f.cls})
    for c in classes: pairs(ctx, Class21(db, C, c))
    ctx.rule('vector properties: element, size, total and number of phases are those of the stored vector; vectors whose size is not the number of phases are refused; new channels connect the given tasks in the given direction and keep the given id and name')
    D = Class21(db, C, 'models::Dataflow')
    dataflow(ctx, D)
    ctx.rule('event graph: what getEvent and getConstraint read is what addEvent, addEventGroup and addEventConstraint stored; storage distributions: every change of a channel recomputes the total size')
    eventgraph(ctx, Class21(db, C, 'models::EventGraph'), db)
    storage(ctx, Class21(db, C, 'StorageDistribution'))
    ctx.floor('obligations:pair', 30); ctx.floor('obligations:family', 8); ctx.floor('obligations:refusal', 4); ctx.floor('obligations:creation', 8); ctx.floor('obligations:round-trip', 8)
