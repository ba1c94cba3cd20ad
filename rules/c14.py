"""C14: nothing is read before it was given a value."""
from kdb import *
import definit
LEVEL = 'other'
ASSUMPTIONS = ['a variable handed to a function by non-const reference is taken as set by it', 'repeated tests of the same comparison agree while no operand changes']
VENDORED = ('howard_cycle_ratio.hpp',)

def check(ctx):
    db = ctx.db()
    ctx.rule('definite assignment: every read of a local scalar, enum, pointer, or scalar field of a local class without constructor is preceded by an assignment on every path (branch outcomes of repeated comparisons and boolean flags tracked)')
    bare = definit.bare_locals(db)
    for f in db.funcs.values():
        if not f.blocks: continue
        hits, n = definit.uninit_reads(db, f, bare.get(f.key, {}))
        ctx.count('functions')
        for _ in range(n): ctx.obligation('variable-without-initialiser', f.short)
        for n, d in hits:
            nm = f.vars[d]['name'] if not isinstance(d, tuple) else '%s.%s' % (f.vars[d[0]]['name'], d[1])
            ctx.violation('read-before-set', f.name, nm, n.loc(), '"%s" can be read here before it was given a value' % nm)
        if f.retctype not in ('void', ''):
            ctx.obligation('returning-function', f.short)
            if definit.falls_off(db, f): ctx.violation('missing-return', f.name, f.short, f.loc(), 'the end of a function that returns a value can be reached without a return')
    ctx.rule('every constructor sets every scalar or pointer member, or no method reads the member before setting it')
    m, t = definit.members_unset(db)
    for _ in range(t): ctx.obligation('constructor-member')
    for rec, c, x, why in m: ctx.violation('member-not-set', c.name, '%s::%s' % (rec.name.split('::')[-1], x), c.loc(), 'member "%s" has no value after this constructor; %s' % (x, why))
    ctx.floor('obligations:variable-without-initialiser', 40); ctx.floor('obligations:returning-function', 500); ctx.floor('obligations:constructor-member', 80)
