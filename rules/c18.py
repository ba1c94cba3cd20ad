"""C18: handles and iterations are not used after the edit that spoiled them."""
from dfcommon import *
import handles as H
LEVEL = 'other'
ASSUMPTIONS = ['models::Dataflow stores tasks in a vector and channels in a list (boost adjacency_list<vecS, vecS, bidirectionalS>): removing a task renumbers the later ones',
               'a graph is edited through the Dataflow methods only (C01)']
WHAT = {'rmV': 'a task was removed', 'rmE': 'a channel was removed', 'addE': 'a channel was added'}

def check(ctx):
    db = ctx.db()
    ctx.rule('typestate with call summaries: in every function that removes a task or a channel or adds a channel (itself or through a call), no task handle, no iteration over the same graph and no container of task handles obtained before the removal of a task, no removed channel and no iteration standing on it, and no iteration over the channels of a task that got a new channel is used again before it is re-assigned')
    ed = H.Edits(db)
    def rep(f, n, x):
        s = f.nodes[x[2]]; v = f.vars[x[0]]; it = x[0] in st.it
        ctx.violation('spoiled-iteration' if it else 'stale-handle', f.name, '%s after %s' % (text(n), s.text()[:60]), n.loc(),
                      '%s "%s" is used here after %s at line %d' % ('the iteration' if it else 'the handle', v['name'], WHAT[x[1]], s.line))
    st = H.Stale(db, ed, rep)
    layout(ctx, db)
    for f in db.funcs.values():
        if f.cls == gm.CLS: continue
        if st.run(f):
            ctx.count('editing_functions'); ctx.count('handles_followed', len(st.h)); ctx.count('iterations_followed', len(st.it))
            for i in st.sites: ctx.obligation('edit', '%s at %s' % (f.nodes[i].text()[:60], f.nodes[i].loc()))
            if st.over: ctx.notes.append('not interpreted to the end: %s' % f.name); ctx.count('abandoned')
    ctx.floor('editing_functions', 20); ctx.floor('obligations:edit', 40)
    if ctx.counts.get('abandoned', 0) > 3: ctx.broken('the interpreter gave up on %d functions' % ctx.counts['abandoned'])

def layout(ctx, db):
    """the container choice the rule relies on"""
    f = gm.only(db, 'removeVertex')
    ok = any('vecS' in t[0] + t[1] and 'bidirectionalS' in t[0] + t[1] for t in f.types)
    ctx.notes.append('graph storage: %s' % ('vector of tasks, as assumed' if ok else 'not recognised'))
