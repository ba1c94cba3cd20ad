"""C11: ids of tasks and of channels are not confused, and what is indexed by ids has room for every id"""
import idkinds as K, graphmodel as gm
from kdb import *
LEVEL = 'other'
ASSUMPTIONS = ['values are followed through variables, parameters, results, members and containers without regard to the order of statements',
               'a vector and the ids that index it are taken to belong to the same graph']
CMPS = ('<', '>', '<=', '>=', '==', '!=')
def name_of(db, s):
    t = s; suf = ''
    while t[0] in ('el', 'ky', 'el?'): suf += {'el': '[]', 'ky': '.key', 'el?': '.key'}[t[0]]; t = t[1]
    if t[0] == 'v': return db.funcs[t[1]].name, db.funcs[t[1]].vars[t[2]]['name'] + suf
    if t[0] == 'm': return t[1], t[2] + suf
    if t[0] == 'r': return db.funcs[t[1]].name, 'result' + suf
    return 'global', str(t[-1]) + suf
def ids(ks): return {k for k, o in ks if k in ('T', 'E')}
def short(f): return f.name.split('::')[-1]

def check(ctx):
    db = ctx.db(); k = K.Kinds(db)
    ctx.rule('a vector indexed by ids is sized by the bound of the ids of that kind')
    ctx.rule('look-ups by id get ids of their kind; containers are keyed by ids of one kind; ids of different kinds, or task ids and numbers of tasks, are not compared')
    seen = set()
    for s, xs in sorted(k.index.items(), key=str):
        use = [(f, n, i, {(a, o) for a, o in k.of(f, i) if a in ('T', 'E')}) for f, n, i in xs]
        use = [u for u in use if u[3]]
        if not use: continue
        fn, nm = name_of(db, s)
        kinds = set().union(*[ids(u[3]) for u in use])
        if len(kinds) > 1 and s[0] != 'r' and not param(db, s):
            ctx.violation('mixed-index', fn, nm, use[0][1].loc(), '%s is indexed by task ids and by channel ids' % nm)
        sizes = [(f, n, k.of(f, e), d) for f, n, e, d in k.size_of(s)]
        known = [(f, n, z, d) for f, n, z, d in sizes if z]
        ctx.obligation('vector indexed by ids' if known else 'vector indexed by ids (size not tied to a graph)', '%s in %s, %d uses' % (nm, fn, len(use)))
        for f, n, z, d in known:
            for u in use:
                for a, o in u[3]:
                    bad = [q for q in z if q[0] != 'b' + a or q[1] + d < o]
                    if bad and (s, n.i, a) not in seen:
                        seen.add((s, n.i, a)); q = bad[0]
                        ctx.violation('size', short(f), '%s of %s sized by %s' % (nm, fn.split('::')[-1], K.NAME[q[0]]), n.loc(),
                                      'the vector %s gets its size from a %s%s here and is indexed by a %s%s at %s' % (nm, K.NAME[q[0]], ' (%+d)' % (q[1] + d) if q[1] + d else '', K.NAME[a], ' (%+d)' % o if o else '', u[1].loc()))
    for s, v in sorted(k.kinds.items(), key=str):
        if s[0] not in ('el', 'ky', 'el?') or not v: continue
        if len(ids(v)) > 1 and not param(db, s) and base(s)[0] in ('v', 'm'):
            fn, nm = name_of(db, s)
            ctx.violation('mixed-container', fn, nm, '', 'task ids and channel ids both reach %s' % nm)
        if ids(v) and base(s)[0] in ('v', 'm') and not param(db, s): ctx.obligation('container of ids')
    for f in db.funcs.values():
        for n in f.walk(True):
            if n.k in CALLS and K.last(n) in K.CONSUME and (n.cname or '').startswith(gm.CLS) and n.args():
                want = K.CONSUME[K.last(n)]; a = n.args()[-1]
                if a is None: continue
                have = ids({q for q in k.of(f, a) if q[1] == 0}); other = {q[0] for q in k.of(f, a) if q[0] in ('nT', 'nE')}
                ctx.obligation('look-up by id' if have else 'look-up by id (origin of the id not visible)', '%s: %s' % (n.loc(), n.text()[:60]))
                if have and want not in have:
                    ctx.violation('wrong-id', short(f), n.text()[:80], n.loc(), 'a %s is looked up with a %s' % (K.NAME[want], ' or '.join(K.NAME[q] for q in sorted(have))), shape=K.last(n))
            if n.k == 'BinaryOperator' and n.op in CMPS:
                x = k.of(f, n.kids[0]); y = k.of(f, n.kids[1])
                if not x or not y: continue
                px = {q[0] for q in x}; py = {q[0] for q in y}
                if len(px) > 1 or len(py) > 1: continue
                p = {px.pop(), py.pop()}
                if p & {'T', 'E'}: ctx.obligation('comparison of ids')
                if p in ({'T', 'E'}, {'T', 'nT'}, {'T', 'nE'}, {'T', 'bE'}, {'E', 'bT'}, {'E', 'nT'}):
                    ctx.violation('comparison', short(f), n.text()[:80], n.loc(), 'a %s is compared with a %s' % tuple(K.NAME[q] for q in sorted(p)))
    ctx.floor('obligations:vector indexed by ids', 15); ctx.floor('obligations:look-up by id', 20)
def base(s):
    while s[0] in ('el', 'ky', 'el?'): s = s[1]
    return s
def param(db, s):
    b = base(s)
    if b[0] != 'v': return False
    f = db.funcs[b[1]]
    return any(p['d'] == b[2] for p in f.params)
