"""C17: a look-up that finds nothing is never used as if it had."""
from kdb import *
from engine import *
import lookups, nullness
LEVEL = 'other'
ASSUMPTIONS = ['look-ups whose result is passed on as an iterator without being dereferenced are not followed across functions', 'erase(find(k)) is taken to follow from an invariant of the code unless k is known to be absent']

# functions outside the sources whose result is documented to be null when there is nothing to return
EXTERNAL = ('getenv', 'xmlReadFile', 'xmlReadMemory', 'xmlParseFile', 'xmlParseMemory', 'xmlDocGetRootElement', 'xmlGetProp', 'xmlBufferCreate', 'fopen', 'popen', 'fgets', 'strchr', 'strrchr', 'strstr', 'strtok', 'strpbrk', 'dlopen', 'dlsym')

def check(ctx):
    db = ctx.db()
    ctx.rule('path-sensitive found/not-found facts for find()/count() on standard containers: an iterator may be dereferenced only where the look-up is known to have succeeded')
    L = lookups.Lookups(db)
    for f in db.funcs.values():
        if f.blocks and L.relevant(f):
            ctx.count('functions_interpreted')
            if L.run(f).overflow: ctx.notes.append('not interpreted to the end: %s' % f.name)
    for k, loc in L.sites.items(): ctx.obligation('lookup', '%s at %s' % (db.funcs[k[0]].short, loc))
    for f, n, c, msg in L.hits: ctx.violation('unchecked-lookup', f.name, lookups.show(c), n.loc(), msg)
    ctx.rule('nullness: a pointer that a look-up or loader may return as null is dereferenced, or handed to code that dereferences it, only where it was compared with null')
    N = nullness.Nullness(db, EXTERNAL)
    for f in db.funcs.values():
        if f.blocks and N.relevant(f): ctx.count('functions_interpreted'); N.run(f)
    for k, i in N.sites: ctx.obligation('nullable', '%s at %s' % (db.funcs[k].short, db.funcs[k].nodes[i].loc()))
    for f, n, d, w in N.hits: ctx.violation('null-used', f.name, f.vars[d]['name'] if d is not None else n.text()[:60], n.loc(), 'a pointer that may be null here is %s' % w)
    ctx.floor('obligations:lookup', 100); ctx.floor('obligations:nullable', 2); ctx.floor('functions_interpreted', 100)
