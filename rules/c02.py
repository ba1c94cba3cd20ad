"""C02: a frozen graph refuses every edit."""
from dfcommon import *
LEVEL = 'other'
ASSUMPTIONS = ['the refusal ends the operation (process exit in release builds, exception in debug builds)',
               'descriptive attachments that no analysis of the graph reads as part of the graph stay writable: source file name, attached network-on-chip']
EXEMPT_API = ('setFilename', 'setNoC')

def exempt_members(db):
    out = set()
    for api in EXEMPT_API:
        for f in db.by_name.get(gm.CLS + '::' + api, ()):
            for n in f.walk():
                l = None
                if n.k == 'BinaryOperator' and n.op == '=': l = n.kids[0]
                if n.k == 'CXXOperatorCallExpr' and n.op == '=': l = n.args()[0]
                m = gm.this_member(l) if l is not None else None
                if m: out.add(m)
    return out

def check(ctx):
    db = ctx.db(); fields = gm.flag_fields(db); der = derived_tags(db)
    ok = exempt_members(db) | set(caches(db))
    ctx.notes.append('members outside the frozen state: %s' % sorted(ok))
    ctx.rule('typestate: every Dataflow method is interpreted from every state in which the graph is frozen; no path that wrote a graph property, the graph structure or a descriptive member may reach a normal exit')
    h = flags.FlagHooks(db, fields)
    for f in methods(db):
        if f.retctype.endswith('&') and False: continue
        wrote = False
        for u in START:
            if u[0]: continue
            if any(relevant(e, der, ok) for x in h.summary(f, u) for e in x[3]): wrote = True
        for u in START:
            if not u[0]: continue
            for x in h.summary(f, u):
                ev = [e for e in x[3] if relevant(e, der, ok)]
                if ev:
                    wrote = True
                    for e in sorted(ev): ctx.violation('frozen-graph-written', f.name, e, f.loc(), 'can return normally after changing %s although the graph was frozen when it was called (norm=%d rep=%d)' % ((e,) + u[1:3]))
        if wrote: ctx.obligation('edit-operation', '%s at %s' % (f.short, f.loc()))
    ctx.floor('obligations:edit-operation', 20)
    ctx.rule('the setters of derived values refuse to overwrite a value already marked as computed')
    for f in methods(db, const=False):
        tags = {e for u in START for x in h.summary(f, u) for e in x[3] if e.startswith('put:') and e[4:] in der}
        if not tags: continue
        ctx.obligation('derived-setter', '%s at %s' % (f.short, f.loc()))
        for u in START:
            for x in h.summary(f, u):
                for e in x[3]:
                    if e.startswith('put:') and e[4:] in der:
                        role = der[e[4:]]
                        if u[1 if role == 'norm' else 2]: ctx.violation('computed-value-overwritten', f.name, e, f.loc(), 'overwrites %s although it is already marked as computed' % e[4:])
    ctx.floor('obligations:derived-setter', 3)
    ctx.rule('the underlying graph is handed out for writing to Dataflow methods only, and no method casts constness away')
    for g in db.by_name.get(gm.CLS + '::getG', []):
        ctx.obligation('graph-access', g.loc())
        if not g.rec.get('const') and g.rec.get('access') == 0:
            ctx.violation('graph-exposed', g.name, 'getG', g.loc(), 'hands out the mutable graph publicly')
    for f in methods(db):
        for n in f.walk():
            if n.k == 'CXXConstCastExpr': ctx.violation('const-cast', f.name, n.text(), n.loc(), 'casts constness away inside the graph class')
    ctx.rule('freezing really freezes: set_read_only and the two computations leave the graph frozen; only reset_computation and edit operations of an unfrozen graph clear the mark')
    fz = gm.only(db, 'set_read_only')
    for u in START:
        for x in h.summary(fz, u):
            if not x[0]: ctx.violation('not-frozen', fz.name, 'read-only flag', fz.loc(), 'can return with the graph still writable')
    ctx.obligation('freeze', fz.loc())
    unlock = gm.only(db, 'reset_computation').key
    for f in methods(db, const=False):
        if f.key == unlock: continue
        for u in START:
            if not u[0]: continue
            for x in h.summary(f, u):
                if not x[0]: ctx.violation('silently-unfrozen', f.name, 'read-only flag', f.loc(), 'returns with a frozen graph made writable again')

def relevant(e, der, ok):
    if e.startswith('put:'): return e[4:] not in der
    if e.startswith('graph:'): return True
    if e.startswith('member:'): return e[7:] not in ok
    return False
