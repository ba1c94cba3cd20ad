"""C04: every command keeps to the graph protocol: compute before read, re-open before edit."""
from dfcommon import *
import graphstate as G, registry
LEVEL = 'other'
ASSUMPTIONS = ['graphs reached through containers, members of other classes or reassigned pointers are not tracked (no report on them)',
               'loops may run zero times']

def check(ctx):
    db = ctx.db(); fields = gm.flag_fields(db)
    ctx.rule('interprocedural typestate: every registered command is interpreted from a fresh graph and from every frozen/computed state; the state of each graph variable (frozen, normalised, repetition vector) follows assignments, copies, calls and branch conditions; no call may be reached in a state in which its callee cannot return normally because a value was not computed, and no edit may be refused on every path of a command started on a fresh graph')
    cur = {}; pending = []
    def report(h, f, n, t, b2, stack):
        if f.cls == gm.CLS: return                      # refused inside the class: its caller is the culprit
        edit = any(st[0] for k, r, st in b2) and not (t.cls == gm.CLS and t.rec.get('const'))      # the graph was already frozen: may be a refused edit
        if not cur['fresh'] and edit: return
        chain = ' > '.join([cur['cmd']] + [db.funcs[x[0]].short for x in stack])
        st = '; '.join('graph %s: frozen=%d normalised=%d repetition vector=%d' % ((k[0],) + s) for k, r, s in b2)
        if cur.get('lib') and not edit: return
        if edit: pending.append((f, n, t, st, chain)); return
        ctx.violation('protocol', f.name, t.short, n.loc(), '%s cannot return normally here (%s) on the path %s' % (t.short, st, chain))
    h = G.GraphState(db, fields, report)
    es = registry.entries(db)
    for e in es:
        f = e['func']
        if f is None: continue
        cur['cmd'] = e['cmd'] or e['funname']
        gp = [p for p in f.params if G.graph_ptr(f.types[p['t']][1])]
        ctx.obligation('command', '%s -> %s at %s:%d' % (e['cmd'], e['funname'], e['file'], e['line']))
        for u in ENTRY:
            cur['fresh'] = not any(u)
            if not cur['fresh'] and not gp: break
            h.memo_for(cur['fresh'])
            r = h.summary(f, frozenset((('v', p['d']), tuple(bool(x) for x in u)) for p in gp[:1]))
            if r is None: ctx.count('abandoned')
    # entry points of the library that no command reaches: only refused edits, from a fresh and from a computed graph
    for f in sorted(db.funcs.values(), key=lambda f: (f.file or '', f.line or 0)):
        if not f.blocks or f.key in h.analysed or f.cls == gm.CLS or db.callers.get(f.key): continue
        gp = [p for p in f.params if G.graph_ptr(f.types[p['t']][1])]
        if not gp: continue
        cur['cmd'] = f.short; cur['fresh'] = True; ctx.count('library_entry_points')
        for u in ((0, 0, 0), (1, 0, 1), (1, 1, 1)):
            cur['lib'] = True; h.memo_for(('lib', u))
            h.summary(f, frozenset((('v', p['d']), tuple(bool(x) for x in u)) for p in gp[:1]))
    for f, n, t, st, chain in pending:                  # refused edits: only where no path at all gets through
        if (f.key, n.i) not in h.passed:
            ctx.violation('protocol', f.name, t.short, n.loc(), '%s never returns normally here (%s), e.g. on the path %s' % (t.short, st, chain))
    ctx.count('functions_interpreted', len(h.analysed)); ctx.count('call_sites_with_graph_state', len(h.sites))
    ctx.floor('obligations:command', 35); ctx.floor('functions_interpreted', 200); ctx.floor('call_sites_with_graph_state', 500)
    if h.overflow: ctx.notes.append('not interpreted to the end (too many states): %s' % sorted(db.funcs[k].name for k in h.overflow))
    if len(h.overflow) > 3: ctx.broken('the interpreter gave up on %d functions' % len(h.overflow))
