"""C08: what is written to a graph file is what is read from it"""
import re, collections
from kdb import *
from engine import *
import xmlio, graphmodel, c05
LEVEL = 'other'
ASSUMPTIONS = ['libxml2 returns the texts it was given', 'text streams read back a number they wrote with max_digits10 digits']
last = xmlio.last
DERIVED = {'vertex_phasecount', 'vertex_initphasecount', 'edge_total_input', 'edge_total_output'}
ENDS = {'<source>', '<target>'}
KEYS = {'edge_index', 'vertex_index2'}

def segs(alt, delims):
    """an alternative cut at the separators the reader cuts at"""
    out = [[]]
    for p in alt:
        if p[0] == 'lit' and p[1] in delims: out.append([])
        else: out[-1].append(p)
    return out
def fits(part, i, N):
    if part is None: return True
    d, k, n = part
    if k != str(i): return False
    return n == '?' or (n.startswith('!') and n[1:] != str(N)) or n == str(N)
def cond_guards(f, n):
    """(condition node, branch) of the if statements around a node"""
    c = n; p = n.parent
    while p is not None:
        if p.k == 'IfStmt':
            ks = [x for x in p.kids if x is not None]; cn = p.sub('cond') or ks[0]
            if c is not cn: yield cn, (p.sub('then') or ks[1]) is c
        c = p; p = p.parent
def const(n):
    n = n.strip(); v = n.get('cv', n.get('v')) if n.k in ('IntegerLiteral', 'DeclRefExpr', 'UnaryOperator', 'CharacterLiteral') or n.get('cv') is not None else None
    try: return int(v)
    except (TypeError, ValueError): return None
def drops(n, pos):
    """does the condition let through only some of the values that say something?  -> reason or None"""
    n = n.strip()
    if n.k == 'UnaryOperator' and n.op == '!': return drops(n.kids[0], not pos)
    if n.k == 'CXXMemberCallExpr' and last(n) == 'empty': return 'only when it is empty' if pos else None
    if n.k in ('BinaryOperator',) and n.op in ('>', '>=', '<', '<=', '==', '!='):
        a, b, op = n.kids[0], n.kids[1], n.op
        if const(b) is None and const(a) is not None: a, b, op = b, a, {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op)
        c = const(b)
        if c is None: return None
        if not pos: op = {'>': '<=', '<=': '>', '<': '>=', '>=': '<', '==': '!=', '!=': '=='}[op]
        if op == '>' and c >= 1 or op == '>=' and c >= 2: return 'only when it is above %d' % (c if op == '>' else c - 1)
        if op in ('<', '<='): return 'only when it is below a bound'
        if op == '==': return 'only when it is %d' % c
        return None
    if n.k in ('BinaryOperator',) and n.op in ('&&', '||'):
        for k in n.kids:
            r = drops(k, pos)
            if r: return r
        return None
    return None if pos else ('only when it is zero' if n.k in ('DeclRefExpr', 'CXXMemberCallExpr') and not n.ctype.endswith('*') else None)

def check(ctx):
    db = ctx.db(); T = xmlio.Tags(db)
    wroots = [f for f in db.funcs.values() if any(n.k == 'CallExpr' and (n.cname or '').startswith('xmlTextWriterStartDocument') for n in f.walk(True))]
    rroots = [f for f in db.funcs.values() if any(n.k == 'CallExpr' and last(n) == 'xmlDocGetRootElement' for n in f.walk(True))]
    if not wroots or not rroots: ctx.broken('no XML writer / reader found')
    W = xmlio.Writer(db, T)
    for f in wroots: W.root(f)
    R = xmlio.Reader(db, T); R.roots(rroots)
    ctx.count('writer functions', len(W.funcs)); ctx.count('reader functions', len(R.funcs)); ctx.count('reader flows', len(R.events))
    ctx.rule('every element opened is closed, on every path, before the next one on the same level')
    for n, kind, why in W.bad: ctx.violation(kind, n.f.name, n.text()[:60] if n.k in CALLS else 'end', n.loc(), why)
    # ---- writer: sites
    sites = {}
    for stack, n, f, a, alts, fr in W.attrs:
        if not stack: ctx.violation('nesting', f.name, str(a), n.loc(), 'an attribute is written outside of any element'); continue
        s = sites.setdefault(stack[-1], {'path': tuple(x[0] for x in stack), 'attrs': {}, 'f': f})
        if a is None: ctx.count('attributes with computed names'); continue
        s['attrs'].setdefault(a, (set(), n, fr)); s['attrs'][a][0].update(alts)
    # ---- reader: (element, attribute) -> [(part, conds, tags, method, value?, narrow, node)]
    read = {}
    for (e, a, p, w), m, i, tags, conds in R.events:
        n = R.nodes[((e, a, p, w), m, i)]; mm = T.method(n)
        if e == '?' or mm is None: continue
        value = i == len(n.args()) - 1 or m.startswith('addEdge')
        if not value: continue
        tg = set(tags)
        if m.startswith('addEdge'): tg = {'<source>'} if i == 0 else {'<target>'} if i == 1 else {'edge_name'}
        cs = frozenset((x, y, z) for x, y, z in conds if x == e and z)
        read.setdefault((e, a), []).append((p, cs, frozenset(tg), m, w, n))
    sets = set().union(*[t for l in read.values() for _, _, t, m, _, _ in l if not m.startswith('get')]) if read else set()
    agreed = set(); written = {}
    ctx.rule('an attribute is stored into the property it was written from')
    elems = {}
    for (el, site), s in sorted(sites.items(), key=lambda x: (x[1]['path'], str(x[0]))):
        elems.setdefault(el, []).append(s)
        lits = {a: {''.join(p[1] for p in alt) for alt in alts} for a, (alts, n, fr) in s['attrs'].items() if alts and all(p[0] == 'lit' for alt in alts for p in alt)}
        for a, (alts, n, fr) in sorted(s['attrs'].items()):
            rs = [r for r in read.get((el, a), ()) if all(y not in s['attrs'] or y not in lits or z in lits[y] for _, y, z in r[1])]
            delims = {r[0][0] for r in rs if r[0]}
            for alt in alts:
                ss = segs(alt, delims); ctx.obligation('written value', '%s %s.%s: %s' % (n.loc(), '/'.join(s['path']), a, ' '.join(p[1] for p in alt)))
                for i, seg in enumerate(ss):
                    pure = all(p[0] == 'tag' for p in seg)   # a text made up around a property is not that property
                    w = {p[1] for p in seg if p[0] == 'tag'} if pure else set(); wp = w - ENDS - KEYS; we = w & ENDS
                    for t in wp: written.setdefault(t, (n, el, a))
                    mine = [r for r in rs if fits(r[0], i, len(ss))]
                    rt = set().union(*[r[2] for r in mine]) if mine else set()
                    rp = {t for t in rt - ENDS - DERIVED if not t.endswith('port_name')}; re_ = rt & ENDS
                    if wp & rp: agreed |= wp & rp
                    if wp and rp and not wp & rp:
                        ctx.violation('mismatch', n.f.name, '%s.%s' % (el, a), n.loc(), 'writes %s where the reader (%s) takes %s%s' % (', '.join(sorted(wp)), ', '.join(sorted({r[3] + ' at ' + r[5].loc() for r in mine if not r[3].startswith('get') or r[2] & rp})), ', '.join(sorted(rp)), ' (part %d of %d)' % (i + 1, len(ss)) if len(ss) > 1 else ''))
                    if wp and len(ss) > 1 and not mine and rs: ctx.violation('mismatch', n.f.name, '%s.%s' % (el, a), n.loc(), 'part %d of %d (%s) is not read' % (i + 1, len(ss), ', '.join(sorted(wp))))
                    if we and re_ and not we & re_: ctx.violation('ends', n.f.name, '%s.%s' % (el, a), n.loc(), 'writes the task at the %s where the reader takes the task at the %s' % (', '.join(sorted(we)), ', '.join(sorted(re_))))
                    agreed |= we & re_
                    dl = R.delims.get((el, a), set())
                    for t in wp:
                        for c in W.seps.get(t, ()):
                            if rs and c not in dl and not c.isspace() and (len(delims) or dl): ctx.violation('separator', n.f.name, '%s.%s' % (el, a), n.loc(), "items are separated by '%s', which the reader does not cut at" % c)
    ctx.rule('every property that is written is read again, and every one that is read was written')
    for t, (n, el, a) in sorted(written.items()):
        ctx.obligation('written property', t)
        if t in agreed: continue
        if t in sets: ctx.violation('lost', n.f.name, t, n.loc(), '%s is written but the reader takes it from elsewhere' % t)
        elif any(T.of(m) & {t} and m.short.startswith('set') for m in db.funcs.values() if m.cls == graphmodel.CLS):
            if a not in R.compared.get(el, set()) or any(e == el for e, _ in read) and (el, a) not in read: ctx.violation('lost', n.f.name, t, n.loc(), '%s is written as %s of %s but never read' % (t, a, el))
    for (el, a), rs in sorted(read.items()):
        for p, cs, tg, m, w, n in rs:
            for t in tg - DERIVED:
                if m.startswith('get') or t.endswith('port_name'): continue
                ctx.obligation('read property', '%s %s.%s -> %s' % (n.loc(), el, a, t))
                if t not in agreed: ctx.violation('unwritten', n.f.name, t, n.loc(), '%s is read from %s of %s, where the writer does not put it' % (t, a, el))
    for e in sorted(ENDS):
        if any(e in r[2] for rs in read.values() for r in rs) and e not in agreed: ctx.violation('ends', wroots[0].name, e, wroots[0].loc(), 'the task at the %s of a channel is not written where it is read' % e)
    ctx.rule('a port is found by the name its channel gives')
    for (el, a), rs in sorted(read.items()):
        for p, cs, tg, m, w, n in rs:
            for t in tg:
                if not t.endswith('port_name') or not m.startswith('get'): continue
                ports = set().union(*[s['attrs'][a][0] for s in elems.get(el, ()) if a in s['attrs'] and all(y in s['attrs'] and {''.join(q[1] for q in al) for al in s['attrs'][y][0]} == {z} for _, y, z in cs)] or [set()])
                chans = set()
                for (e2, a2), r2 in read.items():
                    if any(t in x[2] and not x[3].startswith('get') for x in r2): chans |= set().union(*[s['attrs'][a2][0] for s in elems.get(e2, ()) if a2 in s['attrs']] or [set()])
                ctx.obligation('port names', '%s by %s' % (m, t))
                if ports and chans and ports != chans: ctx.violation('port', n.f.name, t, n.loc(), 'ports are named %s but their channels say %s' % (show(ports), show(chans)))
    ctx.rule('a channel is read as a limit on re-entrancy only if it is a loop with one token')
    for f in db.funcs.values():
        if f.key not in R.funcs and f not in rroots: continue
        for n in f.walk(True):
            if n.k == 'CXXMemberCallExpr' and last(n) == 'setReentrancyFactor' and const(n.args()[-1]):
                for c, pos in cond_guards(f, n):
                    for t in (db.targets(c.strip()) if c.strip().k in CALLS and pos else []):
                        for cs, eqs, r in R.trues.get(t.key, {}).values():
                            ctx.obligation('re-entrancy loop recognised', r.loc())
                            if not any(a == 'initialTokens' and z == '1' for e, a, z in cs): ctx.violation('absorbed', t.name, 'initialTokens', r.loc(), 'a channel whose number of initial tokens is not known to be 1 is read as a limit on re-entrancy')
                            if not any({'srcActor', 'dstActor'} <= {a for e, a in q} for q in eqs): ctx.violation('absorbed', t.name, 'srcActor', r.loc(), 'a channel between two tasks may be read as a limit on re-entrancy')
    ctx.rule('nothing that says something is left out')
    tagsin = lambda c, fr: {q[1] for m in c.walk() if m.k == 'DeclRefExpr' or T.method(m) is not None for al in W.alts(m, fr) for q in al if q[0] == 'tag'}
    carried = set(written) | ENDS; alone = set(); optional = {}
    for stack, n, f, a, alts, fr in W.attrs:
        wt = {q[1] for al in alts for q in al if q[0] == 'tag'}; pure = wt & set(written) and all(q[0] == 'tag' or q[1] in ';,' for al in alts for q in al)
        for c, pos, f2 in guard(ctx, tagsin, n, fr, '%s' % a):
            tc = tagsin(c, f2)
            if not tc: continue
            if not tc & carried: alone |= tc; continue
            if pure and not tc & carried <= wt: ctx.violation('left-out', f.name, '%s.%s' % (stack[-1][0] if stack else '', a), c.loc(), 'whether %s is written depends on %s' % (', '.join(sorted(wt)), ', '.join(sorted(tc & carried - wt))))
            elif pure and stack: optional[(stack[-1][0], a)] = wt
    for (fk, i, num), (n, fr) in W.sites.items():
        for c, pos, f2 in guard(ctx, tagsin, n, fr, xmlio.literal(n.args()[1], fr) or ''): pass
    for w, fr in W.assigns.values():
        a = w.args() if w.k == 'CXXOperatorCallExpr' else w.kids; wt = {q[1] for al in W.alts(a[1], fr) for q in al if q[0] == 'tag'}
        for c, pos, f2 in guard(ctx, tagsin, w, fr, 'a part of a value'):
            tc = tagsin(c, f2) & carried
            if tc and wt and not tc <= wt: ctx.violation('left-out', w.f.name, w.text()[:60], c.loc(), 'whether %s is written depends on %s' % (', '.join(sorted(wt)), ', '.join(sorted(tc - wt))))
    reading(ctx, db, T, R, read, optional, alone)
    ctx.rule('lists are written with a separator before every item but the first, and no item is passed over')
    lists(ctx, db, W, R); whole(ctx, db, wroots, W)
    ctx.rule('numbers are written and read with all their digits')
    digits(ctx, db, W); narrowing(ctx, db, T, W, R, read)
    ctx.rule('a generated script gives each setter the property it sets')
    script(ctx, db, T, W)
    ctx.floor('obligations:written value', 20); ctx.floor('obligations:written property', 10); ctx.floor('obligations:read property', 12); ctx.floor('obligations:port names', 2); ctx.floor('obligations:number written', 1)
def chain(n):
    """operands of a chain of <<, in order"""
    n = n.strip()
    if n.k == 'CXXOperatorCallExpr' and n.op == '<<': return chain(n.args()[0]) + [n.args()[1]]
    if n.k == 'CXXMemberCallExpr' and (n.cname or '').endswith('operator<<'): return chain(n.obj()) + list(n.args())
    return [n]
def script(ctx, db, T, W):
    setters = {}
    for f in db.funcs.values():
        if f.cls == graphmodel.CLS and f.short.startswith(('set', 'add')): setters.setdefault(f.short, set()).update(T.of(f))
    for f in db.funcs.values():
        if not f.blocks: continue
        for n in f.walk(True):
            if not ((n.k == 'CXXOperatorCallExpr' and n.op == '<<') or (n.k == 'CXXMemberCallExpr' and (n.cname or '').endswith('operator<<'))): continue
            p = n.parent
            while p is not None and p.k in TRANSP | {'MemberExpr'}: p = p.parent
            if p is not None and (p.k == 'CXXOperatorCallExpr' and p.op == '<<' or p.k == 'CXXMemberCallExpr' and (p.cname or '').endswith('operator<<')) and n in chain(p): continue
            ops = chain(n); text = ''
            for o in ops[1:]:
                l = xmlio.literal(o, xmlio.Frame(f)) if 'char' in o.strip().ctype or 'string' in o.strip().ctype else None
                if l is not None: text += l; continue
                m = re.search(r'->\s*(set\w+)\s*\(\s*\w+\s*,\s*"?$', text) or re.search(r'->\s*(addVertex)\s*\(\s*$', text); e = re.search(r'->\s*addEdge\s*\((.*)$', text, re.S)
                if not m and not e: text += '0'; continue
                tags = {q[1] for al in W.alts(o, xmlio.Frame(f)) for q in al if q[0] == 'tag'}
                if m and m[1] in setters:
                    ctx.obligation('script setter', '%s %s' % (o.loc(), m[1]))
                    end = '<source>' if re.match('setEdgeIn', m[1]) else '<target>' if re.match('setEdgeOut', m[1]) else None
                    for c, pos in control(f, o):
                        tc = {q[1] for x in c.walk() if x.k == 'DeclRefExpr' or T.method(x) is not None for al in W.alts(x, xmlio.Frame(f)) for q in al if q[0] == 'tag'}
                        if end and tc & ENDS and end not in tc: ctx.violation('script', f.name, m[1], c.loc(), '%s is printed depending on the task at the other end' % m[1])
                        r = drops(resolve(c), pos)
                        if r and tc: ctx.violation('script', f.name, m[1], c.loc(), '%s is printed %s' % (m[1], r))
                    if tags and setters[m[1]] and not tags & setters[m[1]]: ctx.violation('script', f.name, m[1], o.loc(), '%s is given %s' % (m[1], ', '.join(sorted(tags))))
                elif e and tags & ENDS:
                    want = '<target>' if ',' in e[1] else '<source>'
                    ctx.obligation('script setter', '%s addEdge' % o.loc())
                    if want not in tags: ctx.violation('script', f.name, 'addEdge', o.loc(), 'addEdge is given the %s first where the %s is due' % (', '.join(sorted(tags & ENDS)), want))
                text += '0'
def show(s): return ' or '.join(sorted('+'.join(p[1] for p in al) for al in s))
def control(f, n):
    """(condition, outcome) pairs that decide whether a node is reached: enclosing ifs, and earlier ways out of the enclosing loops and of the function"""
    for x in cond_guards(f, n): yield x
    inside = {x.i for x in f.parents(n)}
    for x in f.walk():
        if x.k in ('ContinueStmt', 'BreakStmt', 'ReturnStmt') and x.line < n.line:
            l = innermost(f, x)
            if x.k != 'ReturnStmt' and (l is None or l.i not in inside): continue
            for c, pos in cond_guards(f, x):
                if x.k == 'ReturnStmt' or any(y is l for y in f.parents(c)): yield c, not pos
def guard(ctx, tagsin, n, fr, what):
    """the conditions of a write, through the calls that lead to it"""
    out = []
    while n is not None:
        for c, pos in control(fr.f, n):
            ctx.obligation('condition of writing', c.loc()); out.append((c, pos, fr))
            r = drops(resolve(c), pos) or relation(c, fr, tagsin)
            if r: ctx.violation('left-out', fr.f.name, what, n.loc(), '%s is written %s' % (what, r))
        n, fr = fr.call, fr.up
    return out
def resolve(c):
    c = c.strip()
    if c.k == 'DeclRefExpr' and c.decl in c.f.vars and not c.f.writes.get(c.decl) and c.ctype.replace('const ', '') == 'bool':
        i = c.f.vars[c.decl]['init']
        if i is not None: return resolve(i)
    return c
def relation(c, fr, tagsin):
    for m in resolve(c).walk():
        if m.k == 'BinaryOperator' and m.op in ('<', '>', '<=', '>=', '==', '!=') and all(const(k) is None for k in m.kids) and all(tagsin(k, fr) for k in m.kids): return 'only when %s' % m.text()[:60]
def reading(ctx, db, T, R, read, optional, alone):
    ctx.rule('what is read is stored whatever the other attributes say, and what is left out when it is zero is read as zero')
    funcs = [f for f in db.funcs.values() if f.key in R.funcs]
    attrs = collections.defaultdict(set)
    for (fk, c, d), flds in R.taint.items():
        for k, ss in flds.items(): attrs[(fk, d)] |= {(e, a) for e, a, p, w in ss}
    carrying = {ea for ea, rs in read.items() if any(not r[3].startswith('get') for r in rs)}
    nodes = {}
    for (el, a), rs in read.items():
        for p, cs, tg, m, w, n in rs:
            if not m.startswith('get'): nodes.setdefault((n.f.key, n.i), (n, m, set()))[2].add((el, a))
    setters = {}
    for (fk, i), (n, m, src) in sorted(nodes.items()):
        f = n.f; setters.setdefault(m, set()).update(src)
        for c, pos in control(f, n):
            ctx.obligation('condition of reading', c.loc())
            o = set()
            for x in c.walk():
                if x.k == 'DeclRefExpr': o |= attrs.get((f.key, x.decl), set())
            r = drops(resolve(c), pos) if o and not any(last(x) in ('strcmp', 'xmlStrEqual', 'xmlStrcmp', 'strncmp', 'compare') for x in c.walk() if x.k in CALLS) else None
            if r: ctx.violation('left-out', f.name, m, n.loc(), '%s is called %s' % (m, r))
            o = {x for x in o & carrying if (x[0], x[1]) not in src}
            if o and src & carrying and not m.startswith('add') and any(x.k in CALLS and last(x) in ('size', 'empty', 'operator==', 'operator!=', 'compare', 'strcmp', 'length') for x in c.walk()) and not any(last(x) in CONVS for x in c.walk() if x.k in CALLS):
                ctx.violation('left-out', f.name, m, n.loc(), 'whether %s is called depends on %s' % (m, ', '.join('%s of %s' % (y, x) for x, y in sorted(o))))
    for f in funcs:
        for n in f.walk():
            if n.k == 'CXXMemberCallExpr' and T.method(n) is not None and n.args():
                m = T.method(n).short; k = const(n.args()[-1])
                for ea in setters.get(m, ()):
                    if ea in optional and k:
                        ctx.violation('default', f.name, m, n.loc(), '%s of %s is left out when it is zero, and then read as %s' % (ea[1], ea[0], k))
                if alone & T.of(T.method(n)) and m.startswith('set') and k is not None:
                    rec = any(pos and any(t.key in R.trues for x in c.walk() if x.k in CALLS for t in db.targets(x)) for c, pos in cond_guards(f, n))
                    ctx.obligation('property of a task that is written as a loop', '%s %s' % (n.loc(), m))
                    if rec and k == 0 or not rec and k != 0: ctx.violation('default', f.name, m, n.loc(), '%s is set to %d %s the loop that stands for it was found' % (', '.join(sorted(alone & T.of(T.method(n)))), k, 'where' if rec else 'before'))
        for d, v in f.vars.items():
            for ea in attrs.get((f.key, d), set()) & set(optional):
                if 'basic_string' not in v['ctype'] or v['param']: continue
                ws = ([v['init']] if v['init'] is not None else []) + [w.args()[1] for w in f.nodes if w.k == 'CXXOperatorCallExpr' and w.op == '=' and w.args()[0].strip().k == 'DeclRefExpr' and w.args()[0].strip().decl == d]
                for w in ws:
                    l = xmlio.literal(w, xmlio.Frame(f))
                    if l and l.strip('0') != '': ctx.violation('default', f.name, '%s.%s' % ea, w.loc(), '%s of %s is left out when it is zero, and then read as %s' % (ea[1], ea[0], l))
    ctx.rule('every part of a value that was taken apart is looked at')
    done = set()
    for (fk, c, d), flds in R.taint.items():
        ks = {k for k in flds if k and not k.startswith('=')}
        f = db.funcs.get(fk)
        if len(ks) < 2 or f is None or (fk, d) in done: continue
        done.add((fk, d)); uses = [x for x in f.walk(True) if x.k == 'DeclRefExpr' and x.decl == d]
        seen = set(); wholly = False
        for x in uses:
            p = x.parent
            while p is not None and p.k in TRANSP: p = p.parent
            if p is not None and p.k == 'MemberExpr': seen.add(p.name)
            else: wholly = True
        ctx.obligation('parts of a value', '%s %s' % (f.loc(), f.vars[d]['name'] if d in f.vars else ''))
        if not wholly and ks - seen: ctx.violation('part', f.name, ', '.join(sorted(ks - seen)), f.loc(), 'the part %s of a value that was read is not looked at' % ', '.join(sorted(ks - seen)))
    ctx.rule('the number of phases read is the number of durations read')
    for cnt, dur in (('vertex_phasecount', 'vertex_phaseduration'), ('vertex_initphasecount', 'vertex_initphaseduration')):
        pc = {(ea, r[0]) for ea, rs in read.items() for r in rs if cnt in r[2] and not r[3].startswith('get') and dur not in r[2] and re.search('Quantity|Count', r[3])}
        pd = {(ea, r[0]) for ea, rs in read.items() for r in rs if dur in r[2] and not r[3].startswith('get')}
        ctx.obligation('phase counts', '%s: %d' % (cnt, len(pc)))
        if pd and not pc: ctx.violation('phases', 'reader', cnt, '', '%s is stored but never %s' % (dur, cnt))
        elif pc != pd: ctx.violation('phases', 'reader', cnt, '', '%s is taken from %s and %s from %s' % (cnt, sorted(pc, key=repr), dur, sorted(pd, key=repr)))
CONVS = {'operator->', 'getVertexByName'}
def lists(ctx, db, W, R):
    fs = [f for f in db.funcs.values() if f.key in W.funcs or f.key in R.funcs or f.short in ('generate_kiter',) or f.short.startswith('split')]
    for f in fs:
        for l in f.walk(True):
            if l.k != 'ForStmt': continue
            h = header(f, l)
            if h is None: continue
            v, start, op, bound = h
            for c in l.sub('body').walk() if l.sub('body') is not None else ():
                if c.k != 'IfStmt': continue
                cn = (c.sub('cond') or [x for x in c.kids if x is not None][0]).strip()
                if cn.k != 'BinaryOperator' or cn.op not in ('<', '>', '<=', '>=', '==', '!='): continue
                a, b = cn.kids[0].strip(), cn.kids[1].strip()
                if a.k == 'DeclRefExpr' and a.decl == v and const(b) is not None: val = lambda i: test(cn.op, i, const(b))
                elif b.k == 'DeclRefExpr' and b.decl == v and const(a) is not None: val = lambda i: test(cn.op, const(a), i)
                else: continue
                th = c.sub('then') or c.kids[1]
                if not any(xmlio.lit(x) == ',' for x in th.walk()) or c.sub('else') is not None: continue
                ctx.obligation('separator', c.loc())
                if [val(start + i) for i in range(3)] != [False, True, True]: ctx.violation('separator', f.name, 'separator', c.loc(), 'the separator is not written before every item but the first')
            # coverage
            o, eq = bound
            for x in l.sub('body').walk() if l.sub('body') is not None else ():
                a = x.args() if x.k == 'CXXOperatorCallExpr' and x.op == '[]' else [x.obj()] + list(x.args()) if x.k == 'CXXMemberCallExpr' and last(x) == 'at' else None
                if not a or a[0] is None or text(a[0].strip()) != o: continue
                k = offset(a[1], v)
                if k is None: continue
                ctx.obligation('items of a list', l.loc())
                lo = start + k; hi = {'<': -1, '<=': 0, '!=': -1}.get(op)
                if hi is None: continue
                if lo != 0 or hi + eq + k != -1: ctx.violation('items', f.name, o, l.loc(), 'the loop does not run over all items of %s: from %d to size%+d' % (o, lo, hi + eq + k))
def test(op, a, b): return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
def offset(n, v):
    n = n.strip()
    if n.k == 'DeclRefExpr' and n.decl == v: return 0
    if n.k == 'BinaryOperator' and n.op in '+-' and n.kids[0].strip().k == 'DeclRefExpr' and n.kids[0].strip().decl == v and const(n.kids[1]) is not None: return const(n.kids[1]) * (1 if n.op == '+' else -1)
    return None
def header(f, l):
    """(variable, first value, operator, (container text, added constant)) of a counting loop up to the size of a container"""
    i, c = l.sub('init'), l.sub('cond')
    if i is None or c is None: return None
    ds = [v for n in i.walk() if n.k == 'DeclStmt' for v in n.d['vars']]
    if len(ds) != 1: return None
    d = ds[0]['d']; x = f.vars[d]['init']; x = const(x) if x is not None else None
    c = c.strip()
    if x is None or c.k != 'BinaryOperator' or c.op not in ('<', '<=', '!='): return None
    if c.kids[0].strip().k != 'DeclRefExpr' or c.kids[0].strip().decl != d: return None
    b = c.kids[1].strip(); add = 0
    if b.k == 'BinaryOperator' and b.op in '+-' and const(b.kids[1]) is not None: add = const(b.kids[1]) * (1 if b.op == '+' else -1); b = b.kids[0].strip()
    o = text(b.obj().strip()) if b.k == 'CXXMemberCallExpr' and last(b) == 'size' and b.obj() is not None else None
    return d, x, c.op, (o, add)
def whole(ctx, db, wroots, W):
    ctx.rule('the whole text is handed out, into a file of its own')
    callers = {f.key: f for f in wroots}
    for f in db.funcs.values():
        if any(t.key in callers for n in f.walk() if n.k in CALLS for t in db.targets(n)) and f.key not in callers and any('ofstream' in v['ctype'] for v in f.vars.values()): callers[f.key] = f
    for f in callers.values():
        ctx.obligation('whole text', f.name)
        for n in f.walk():
            if n.k == 'CXXMemberCallExpr' and last(n) in ('substr', 'resize', 'erase', 'pop_back') and 'basic_string' in (n.obj().ctype if n.obj() is not None else ''): ctx.violation('cut', f.name, last(n), n.loc(), 'the text is cut by %s' % n.text()[:60])
            if n.k in CTORS and 'basic_string<char' in n.ctype and len([a for a in n.kids if a is not None and a.k != 'CXXDefaultArgExpr']) >= 2:
                a = n.kids[1].strip()
                if 'content' in n.kids[0].text() and not (a.k == 'MemberExpr' and a.name == 'use' or a.k in CALLS and last(a) in ('xmlBufferLength', 'strlen', 'xmlStrlen') or 'allocator' in a.ctype): ctx.violation('cut', f.name, 'length', n.loc(), 'the text is cut to %s' % a.text()[:60])
            if n.k in CALLS | CTORS and any(a is not None and re.search(r'\b(app|ate|in)\b', a.text()) and 'openmode' in a.ctype.lower() + a.type.lower() or a is not None and a.strip().k == 'DeclRefExpr' and a.strip().name == 'app' for a in n.kids):
                ctx.violation('cut', f.name, 'append', n.loc(), 'the file is not started anew')
def innermost(f, n):
    for l in f.parents(n):
        if l.k in LOOPS: return l
FLOATS = {'float': 9, 'double': 17, 'long double': 21}
def isf(ct): return ct.replace('const ', '').replace('&', '').strip() if ct.replace('const ', '').replace('&', '').strip() in FLOATS else None
def digits(ctx, db, W):
    """floating point values of the graph are turned into text with enough digits"""
    precise = {}
    def sets_precision(f):
        best = 0
        for n in f.walk(True):
            if n.k in CALLS and last(n) in ('setprecision', 'precision') and n.args():
                v = n.args()[0].strip(); v = v.get('cv', v.get('v'))
                try: best = max(best, int(v))
                except (TypeError, ValueError): best = max(best, 0)
        return best
    def conv(f, depth=0, seen=()):
        """(node, type, digits) of the text conversions of floating values in f"""
        p = sets_precision(f)
        for n in f.walk(True):
            if n.k == 'CXXMemberCallExpr' and n.cname and n.cname.endswith('::operator<<') or n.k == 'CXXOperatorCallExpr' and n.op == '<<':
                a = n.args()[-1] if n.args() else None
                if a is not None and isf(a.ctype) and 'stream' in (n.args()[0] if n.k == 'CXXOperatorCallExpr' else n.obj()).ctype: yield n, isf(a.ctype), p
            elif n.k == 'CallExpr' and last(n) == 'to_string' and n.args() and isf(n.args()[0].ctype): yield n, isf(n.args()[0].ctype), 0
            elif n.k in CALLS and depth < 3:
                for t in db.targets(n):
                    if t.key in W.funcs or t.key in seen or t.cls == graphmodel.CLS: continue
                    if any(isf(x.strip().ctype) for x in n.args() if x is not None) and 'basic_string' in t.retctype:
                        for m, ty, d in conv(t, depth + 1, seen + (t.key,)): yield n, ty, d
    fs = [f for f in db.funcs.values() if f.key in W.funcs]
    for f in fs:
        for n, ty, d in conv(f):
            ctx.obligation('number written', n.loc())
            if d < FLOATS[ty]: ctx.violation('digits', f.name, 'floating value', n.loc(), 'a %s is written with %s digits, %d are needed to read it back' % (ty, d or 6, FLOATS[ty]))
def narrowing(ctx, db, T, W, R, read):
    for (el, a), rs in sorted(read.items()):
        for p, cs, tg, m, w, n in rs:
            if m.startswith('get') or not w: continue
            mm = T.method(n); ct = mm.types[mm.params[-1]['t']][1]
            if 'double' in ct and w in ('long', 'unsigned long', 'long long', 'unsigned long long') or 'long' in ct and w not in ('bool', 'long', 'unsigned long', 'long long', 'unsigned long long') or ('int' in ct and w in ('short', 'unsigned short', 'float')):
                ctx.violation('narrow', n.f.name, '%s.%s' % (el, a), n.loc(), 'the number is read as %s, the property is %s' % (w, ct))
    for f in db.funcs.values():
        if f.key not in W.funcs: continue
        for n in f.walk(True):
            if n.k in XCASTS | {'ImplicitCastExpr'} and n.kids and n.kids[0] is not None:
                t = n.ctype.replace('const ', ''); s = n.kids[0].ctype.replace('const ', '')
                if t in ('long', 'unsigned long', 'long long', 'unsigned long long') and s in FLOATS and n.get('cv') is None:
                    q = n.kids[0].strip()
                    if not c05.integral_guard(f, n, q) and not c05.tested_integral(f, n, q) and not (q.k in CALLS and last(q) in c05.ROUND): ctx.violation('narrow', f.name, n.text()[:60], n.loc(), 'a value that need not be a whole number is cut to %s before it is written' % t)
                if t in ('int', 'unsigned int', 'short', 'char', 'unsigned char', 'float') and s in ('long', 'unsigned long', 'long double', 'long long', 'unsigned long long', 'double') and n.get('cv') is None:
                    if any(x.k in CALLS and T.method(x) is not None or x.k == 'DeclRefExpr' for x in n.walk()): ctx.violation('narrow', f.name, n.text()[:60], n.loc(), 'the number is cut to %s before it is written' % t)
