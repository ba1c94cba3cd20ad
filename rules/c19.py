"""C19: handles are used with the graph they came from."""
from dfcommon import *
import handles as H
LEVEL = 'other'
ASSUMPTIONS = ['a handle whose origin is not visible (members, containers filled elsewhere) is not judged']

def copies(db, f, G):
    """graph variables that are copies of another: {copy root: original root}"""
    out = {}
    for d, s in G.src.items():
        for y in s:
            for c in y.walk():
                if c.k in CTORS and H.graph_type(c.ctype) and c.args() and c.args()[0] is not None and H.graph_type(c.args()[0].strip().ctype):
                    r = G.root(c.args()[0])
                    if r is not None: out.setdefault(('v', d), set()).add(r)
    return out

def related(db, f, a, b, depth=3):
    """is one graph a copy of the other: made so here, or by every caller?"""
    G = H.graphs(db, f); cp = copies(db, f, G)
    if a in cp.get(b, ()) or b in cp.get(a, ()): return True
    pi = {p['d']: i for i, p in enumerate(f.params)}
    if depth == 0 or a[0] != 'v' or b[0] != 'v' or a[1] not in pi or b[1] not in pi: return False
    i, j = pi[a[1]], pi[b[1]]; n = 0
    for k in db.callers.get(f.key, ()):
        c = db.funcs[k]; GC = H.graphs(db, c)
        for m in c.calls(True):
            if f not in db.targets(m): continue
            args = m.args(); n += 1
            if max(i, j) >= len(args): return False
            x, y = GC.root(args[i]), GC.root(args[j])
            if x is None or y is None or not (x == y or related(db, c, x, y, depth - 1)): return False
    return n > 0

def uses(db, memo, f, depth=3):
    """[(graph parameter, handle parameter, writes?)] demanded by f of its caller"""
    if f.key in memo: return memo[f.key]
    memo[f.key] = set(); out = set(); G = H.graphs(db, f)
    pi = {p['d']: i for i, p in enumerate(f.params)}
    for n, r, hs, w in demands(db, memo, f, G):
        if r is None or r[0] != 'v' or r[1] not in pi: continue
        for a in hs:
            o = set(G.origins(a))
            if o and all(x[0] == 'param' and x[1] in pi for x in o):
                for x in o: out.add((pi[r[1]], pi[x[1]], w))
    memo[f.key] = out
    return out

def demands(db, memo, f, G):
    """calls that use handles with a graph: (call, graph root, handles, writes?)"""
    for n in f.calls(True):
        if H.dfcall(n):
            hs = [a for a in n.args() if a is not None and H.kind_of(a.ctype)]
            if hs: yield n, G.root(n.obj()), hs, not n.get('cconst')
        elif n.k in CALLS:
            for t in db.targets(n):
                if t.cls == gm.CLS: continue
                args = n.args()
                for g, h, w in uses(db, memo, t):
                    if g < len(args) and h < len(args) and args[g] is not None and args[h] is not None: yield n, G.root(args[g]), [args[h]], w

def check(ctx):
    db = ctx.db(); memo = {}
    ctx.rule('origin analysis: every task or channel handle passed to a method of a graph (directly or through a called function) must originate from that graph, or from a graph it is a direct copy of and then only to read')
    for f in db.funcs.values():
        if f.cls == gm.CLS: continue
        G = H.graphs(db, f)
        for n, r, hs, w in demands(db, memo, f, G):
            if r is None: ctx.count('graph_not_visible'); continue
            for a in hs:
                gs = {G.graphs_of_origin(o) for o in G.origins(a)} - {None}
                if not gs: ctx.count('origin_not_visible'); continue
                ctx.obligation('handle', '%s at %s' % (n.text()[:70], n.loc()))
                for g in gs - {r}:
                    if not w and related(db, f, g, r): ctx.count('read_through_copy'); continue
                    nm = lambda x: f.vars[x[1]]['name'] if x[0] == 'v' else 'this'
                    ctx.violation('foreign-handle', f.name, n.text()[:90], n.loc(), 'a handle obtained from graph "%s" is used with graph "%s"' % (nm(g), nm(r)))
    ctx.floor('obligations:handle', 700)
