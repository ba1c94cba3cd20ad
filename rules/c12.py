"""C12: ids and names identify tasks and channels"""
from dfcommon import *
LEVEL = 'other'
ASSUMPTIONS = ['the only exceptions that reach the handlers around the look-ups are those of the look-ups themselves',
               'the look-ups visit every task or channel (the iteration macro is taken as complete)']
GETTERS = {'getVertexId': 'task id', 'getEdgeId': 'channel id', 'getVertexName': 'task name', 'getEdgeName': 'channel name'}
BOUNDS = {'getVertexId': 'getMaxVertexId', 'getEdgeId': 'getMaxEdgeId'}
def last(n): return (n.cname or '').split('::')[-1]
def ref(n):
    n = n.strip()
    if n.k in CTORS and len([c for c in n.kids if c is not None]) == 1: return ref(n.kids[0])
    return n.decl if n.k == 'DeclRefExpr' else None
def elem(n):
    """x.v / x.e / x -> decl of x"""
    n = n.strip()
    if n.k == 'MemberExpr' and n.kids and n.kids[0] is not None: return elem(n.kids[0])
    return ref(n)
def eq_parts(n):
    if n.k == 'CXXOperatorCallExpr' and n.op in ('==', '!=') and len(n.args()) == 2: return n.op, n.args()[0], n.args()[1]
    if n.k == 'BinaryOperator' and n.op in ('==', '!='): return n.op, n.kids[0], n.kids[1]
    if n.k == 'CXXRewrittenBinaryOperator' and n.kids: return eq_parts(n.kids[0])
    return None

class Scan(Hooks):
    """look-up functions: what they return has the property asked for"""
    def __init__(self, db, getters, looks):
        self.db = db; self.getters = getters; self.looks = looks; self.bad = []; self.ok = 0
    def is_get(self, f, n):
        n = n.strip()
        if n.k in CALLS and last(n) in self.getters and len(n.args()) == 1: return ref(n.args()[0])
        if n.k == 'DeclRefExpr' and n.decl in f.vars and f.vars[n.decl]['init'] is not None and len(f.writes.get(n.decl, ())) == 0:
            i = f.vars[n.decl]['init'].strip()
            while i.k in CTORS and len([c for c in i.kids if c is not None]) == 1: i = i.kids[0].strip()
            return self.is_get(f, i) if i.k in CALLS else None
        return None
    def value(self, eng, f, n, st):
        e = eq_parts(n)
        if e is None: return None
        op, a, b = e
        par = {p['d'] for p in f.params}
        for x, y in ((a, b), (b, a)):
            d = self.is_get(f, x)
            if d is not None and ref(y) in par: return [(op == '==', mk(d, st.env)), (op != '==', mk(None, st.env))]
        return None
    def transfer(self, eng, f, n, st):
        # the iteration moves on: the element variable is given a new value
        if n.k == 'CXXOperatorCallExpr' and n.op == '=' and st.user is not None and ref(n.args()[0]) == st.user: return [mk(None, st.env)]
        if n.k == 'BinaryOperator' and n.op == '=' and st.user is not None and ref(n.kids[0]) == st.user: return [mk(None, st.env)]
        return [st]
    def ret(self, eng, f, n, st, val):
        if not n.kids or n.kids[0] is None: return
        e = n.kids[0].strip()
        while e.k in CTORS and len([c for c in e.kids if c is not None]) == 1: e = e.kids[0].strip()
        if e.k in CALLS and last(e) in self.looks: self.ok += 1; return
        d = ref(e)
        if d is None or st.user != d: self.bad.append(n)
        else: self.ok += 1

class Put(Hooks):
    """user state: (phase, covered).  phase: 'un' nothing known, 'asked' / 'throw' at the look-up, ('found', var), 'absent', 'self', 'other'"""
    def __init__(self, db, tag, lookup, ctr, obligated):
        self.db = db; self.tag = tag; self.lookup = lookup; self.ctr = ctr; self.obligated = obligated
        self.bad = []; self.uncov = []; self.sites = []; self.stack = []; self.memo = {}
    def roles(self, f): return self.role.get(f.key, (None, None))
    def phase(self, st, p): return mk((p,) + st.user[1:], st.env)
    def cover(self, st, c): return mk((st.user[0], c), st.env)
    def is_lookup(self, f, n):
        n = n.strip()
        return n.k in CALLS and last(n) == self.lookup and n.args() and ref(n.args()[-1]) == self.roles(f)[1]
    def transfer(self, eng, f, n, st):
        el, idd = self.roles(f)
        if self.is_lookup(f, n): return [self.phase(st, 'asked'), self.phase(st, 'throw')]
        if n.k == 'DeclStmt':
            for v in n.d['vars']:
                var = f.vars.get(v['d'])
                if var and var['init'] is not None and any(self.is_lookup(f, x) for x in tree(var['init'])) and st.user[0] == 'asked': st = self.phase(st, ('found', v['d']))
            return [st]
        if n.k in ('CXXOperatorCallExpr', 'BinaryOperator') and n.op == '=':
            l, r = (n.args()[0], n.args()[1]) if n.k != 'BinaryOperator' else (n.kids[0], n.kids[1])
            if st.user[0] == 'asked' and any(self.is_lookup(f, x) for x in tree(r)) and ref(l) is not None: return [self.phase(st, ('found', ref(l)))]
            if self.ctr and gm.this_member(l) == self.ctr and idd is not None and at_least(f, r, idd, 1): return [self.cover(st, True)]
            return [st]
        hit = None
        if gm.put_tag(n) == self.tag and len(n.args()) == 4:
            if elem(n.args()[2]) == el and ref(n.args()[3]) == idd: hit = 'put'
            else: self.bad.append((f, n, 'writes the property of another element or another value than the ones checked')); return [st]
        elif n.k in CALLS:
            for t in self.db.targets(n):
                if t.key in self.obligated and t.cls == gm.CLS and t.key != f.key:
                    oe, oi = self.obligated[t.key]; m = dict(zip([p['d'] for p in t.params], n.args()))
                    if ref(m.get(oe)) == el and ref(m.get(oi)) == idd: hit = t
                elif t.cls == gm.CLS and t.blocks and idd is not None and any(a is not None and ref(a) == idd for a in n.args()) and last(n) != self.lookup and self.may_look(t):
                    return self.call(eng, f, n, t, st)
        if hit is not None:
            self.sites.append((f, n))
            if st.user[0] not in ('absent', 'self'): self.bad.append((f, n, 'un' if st.user[0] == 'un' else 'reached although another element may have it'))
            st = mk((('put', st.user[0]), st.user[1] or hit != 'put'), st.env)
        return [st]
    def may_look(self, t): return any(last(c) == self.lookup for c in t.calls())
    def call(self, eng, f, n, t, st):
        if t.key in self.stack or len(self.stack) > 3: return [st]
        el, idd = self.roles(f); m = {}
        for p, a in zip(t.params, n.args()):
            if a is not None and ref(a) == idd: m['i'] = p['d']
            elif a is not None and ref(a) == el: m['e'] = p['d']
        old = self.role.get(t.key); self.role[t.key] = (m.get('e'), m.get('i')); self.stack.append(t.key)
        outs = []
        for x in Engine(self.db, self).run(t, [mk((st.user[0], st.user[1]))]):
            r = x.get(('ret',)); ph = x.user[0]
            if isinstance(ph, tuple) and ph[0] == 'found': ph = 'other'
            y = mk((ph, x.user[1]), st.env)
            outs.append(y.set(('n', n.i), r) if r is not None else y)
        self.stack.pop()
        if old is None: self.role.pop(t.key, None)
        else: self.role[t.key] = old
        return outs
    def value(self, eng, f, n, st):
        el, idd = self.roles(f); e = eq_parts(n)
        if e is not None:
            op, a, b = e
            for x, y in ((a, b), (b, a)):
                if elem(y) == el and el is not None:
                    hit = (isinstance(st.user[0], tuple) and st.user[0][0] == 'found' and elem(x) == st.user[0][1]) or (st.user[0] == 'asked' and self.is_lookup(f, x))
                    if hit: return [(op == '==', self.phase(st, 'self')), (op != '==', self.phase(st, 'other'))]
        if n.k == 'BinaryOperator' and n.op in ('<', '<=', '>', '>=') and self.ctr and idd is not None:
            l, r, op = n.kids[0], n.kids[1], n.op
            if gm.this_member(r) == self.ctr or is_getter_of(self.db, r, self.ctr): pass
            elif gm.this_member(l) == self.ctr or is_getter_of(self.db, l, self.ctr): l, r, op = r, l, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
            else: return None
            d = ref(l) == idd
            if d and op == '<': return [(True, self.cover(st, True)), (False, st)]
            if d and op == '>=': return [(False, self.cover(st, True)), (True, st)]
        return None
    def edge(self, eng, f, blk, d, st):
        tryb = f.blocks[d].term is not None and f.blocks[d].term.k == 'CXXTryStmt'
        if blk.term is not None and blk.term.k == 'CXXTryStmt':
            return st if f.blocks[d].label is not None and f.blocks[d].label.k == 'CXXCatchStmt' else None
        if st.user[0] == 'throw': return self.phase(st, 'absent') if tryb else None
        return None if tryb else st
def tree(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None: continue
        yield x; st.extend(x.kids)
def at_least(f, e, idd, k):
    """expression e is at least idd + k"""
    e = e.strip()
    if e.k in CALLS and last(e) == 'max': return any(a is not None and at_least(f, a, idd, k) for a in e.args())
    if e.k == 'BinaryOperator' and e.op == '+':
        for a, b in (e.kids, e.kids[::-1]):
            b = b.strip()
            if b.k == 'IntegerLiteral' and at_least(f, a, idd, k - int(b.get('v'))): return True
        return False
    if e.k == 'ConditionalOperator': return False
    return k <= 0 and ref(e) == idd
def is_getter_of(db, n, m):
    n = n.strip()
    if n.k not in CALLS: return False
    return any(t.cls == gm.CLS and returns_member(t) == m for t in db.targets(n))
def returns_member(f):
    for n in f.walk():
        if n.k == 'ReturnStmt' and n.kids and n.kids[0] is not None:
            m = gm.this_member(n.kids[0])
            if m: return m
    return None

def check(ctx):
    db = ctx.db(); ms = methods(db)
    ctx.rule('a look-up by id or name returns an element only when that element has the id or name')
    getters = {}
    for g in GETTERS:
        f = gm.only(db, g); tags = {gm.get_tag(n) for n in f.walk() if gm.get_tag(n)}
        if len(tags) != 1: ctx.broken('%s reads %s' % (g, tags))
        getters[g] = tags.pop()
    looks = {}
    for g in GETTERS:
        el = gm.only(db, g).params[0]; et = base_type(gm.only(db, g), el)
        for f in ms:
            if base_ret(f) != et or len(f.params) != 1: continue
            if any(n.k in CALLS and last(n) == g for n in f.walk()) and f.rec.get('const'): looks.setdefault(g, []).append(f)
    for g, fs in looks.items():
        for f in fs:
            h = Scan(db, {g}, {x.short.split('::')[-1] for x in fs}); Engine(db, h).run(f, [mk(None)])
            ctx.obligation('look-up', '%s at %s' % (f.short, f.loc()))
            for n in h.bad: ctx.violation('look-up', f.name, n.text()[:80], n.loc(), 'returns an element that need not have the %s asked for' % GETTERS[g], shape='result')
    if set(looks) != set(GETTERS): ctx.broken('look-ups found only for %s' % sorted(looks))
    ctx.rule('an id or name is given to an element only after a look-up showed that no other element has it')
    ctx.rule('the bound of the ids stays above every id that was given')
    for g in GETTERS:
        tag = getters[g]; lk = looks[g][0].short.split('::')[-1]
        ctr = returns_member(gm.only(db, BOUNDS[g])) if g in BOUNDS else None
        if g in BOUNDS and ctr is None: ctx.broken('%s returns no member' % BOUNDS[g])
        obligated = {}; done = set(); rounds = 0; ever = set()
        while rounds < 6:
            rounds += 1; new = {}
            for f in ms:
                if f.key in done: continue
                puts = [n for n in f.walk() if gm.put_tag(n) == tag and len(n.args()) == 4]
                roles = None
                for n in puts: roles = (elem(n.args()[2]), ref(n.args()[3]))
                fw = [(n, t) for n in f.calls() for t in db.targets(n) if t.key in obligated and t.key != f.key]
                for n, t in fw:
                    m = dict(zip([p['d'] for p in t.params], n.args())); oe, oi = obligated[t.key]
                    if roles is None and m.get(oe) is not None: roles = (ref(m[oe]), ref(m[oi]) if m.get(oi) is not None else None)
                if not puts and not fw: continue
                if fw or puts: done.add(f.key)
                if roles is None or roles[0] is None or roles[1] is None:
                    ctx.violation('unchecked', f.name, GETTERS[g], f.loc(), 'gives a %s that is not a value the function could have looked up before' % GETTERS[g]); continue
                h = Put(db, tag, lk, ctr, obligated); h.role = {f.key: roles}
                ex = Engine(db, h).run(f, [mk(('un', False))])
                ctx.obligation('giving a ' + GETTERS[g], '%s at %s' % (f.short, f.loc()))
                for ff, n, why in h.bad:
                    if why == 'un' and ff is f:
                        if roles[1] in {p['d'] for p in f.params} and roles[0] in {p['d'] for p in f.params}: new[f.key] = roles; continue
                        why = 'no look-up was made before'
                    ctx.violation('unchecked', f.name, GETTERS[g], n.loc(), 'gives a task or channel a %s without knowing that no other has it: %s' % (GETTERS[g], why))
                for x in ex:
                    if not (isinstance(x.user[0], tuple) and x.user[0][0] == 'put') and x.user[0] != 'self':
                        ctx.violation('not-given', f.name, GETTERS[g], f.loc(), 'can return normally without having given the %s%s' % (GETTERS[g], ', although another element has it' if x.user[0] == 'other' else ''))
                if ctr:
                    for x in ex:
                        if isinstance(x.user[0], tuple) and x.user[0][0] == 'put' and not x.user[1]:
                            ctx.violation('bound', f.name, ctr, f.loc(), 'returns with %s not known to be above the %s it gave' % (ctr, GETTERS[g]))
            # a checked setter is no longer a way around the look-up
            obligated = {k: v for k, v in new.items()}
            ever |= set(new)
            if not obligated: break
        if ctr: counter(ctx, db, ms, ctr, g)
        for f in db.funcs.values():       # a setter that leaves the look-up to its caller is for the class only
            if f.cls == gm.CLS: continue
            for n in f.calls():
                for t in db.targets(n):
                    if t.key in ever: ctx.violation('unchecked', f.name, t.short.split('::')[-1], n.loc(), 'gives a %s through %s, which does not look whether another has it' % (GETTERS[g], t.short))
    ctx.floor('obligations:look-up', 4); ctx.floor('obligations:giving a task id', 1); ctx.floor('obligations:giving a channel id', 1)
    ctx.floor('obligations:giving a task name', 1); ctx.floor('obligations:giving a channel name', 1)
def base_type(f, p): return f.types[p['t']][1].replace('const ', '').rstrip(' &')
def base_ret(f): return f.retctype.replace('const ', '').rstrip(' &')

class Ctr(Hooks):
    """the bound is never lowered.  user: expressions known to be at or above the bound"""
    def __init__(self, db, ctr): self.db = db; self.ctr = ctr; self.bad = []; self.n = 0
    def value(self, eng, f, n, st):
        if n.k == 'BinaryOperator' and n.op in ('<', '<=', '>', '>='):
            l, r, op = n.kids[0], n.kids[1], n.op
            if gm.this_member(l) == self.ctr: l, r, op = r, l, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
            if gm.this_member(r) != self.ctr: return None
            t = frozenset(st.user | {l.strip().text()})
            if op in ('>', '>='): return [(True, mk(t, st.env)), (False, st)]
            return [(False, mk(t, st.env)), (True, st)]
        return None
    def transfer(self, eng, f, n, st):
        if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op in ('=', '+=', '-=') and gm.this_member(n.kids[0]) == self.ctr:
            self.n += 1
            if n.op == '-=' or n.op == '=' and not self.up(f, n.kids[1], st): self.bad.append((f, n))
            return [mk(frozenset(), st.env)]
        if n.k == 'UnaryOperator' and n.op in ('++', '--') and gm.this_member(n.kids[0]) == self.ctr:
            self.n += 1
            if n.op == '--': self.bad.append((f, n))
            return [mk(frozenset(), st.env)]
        return [st]
    def up(self, f, e, st):
        e = e.strip()
        if gm.this_member(e) == self.ctr or e.text() in st.user: return True
        if e.k in CALLS and last(e) == 'max': return any(a is not None and self.up(f, a, st) for a in e.args())
        if e.k == 'BinaryOperator' and e.op == '+': return any(self.up(f, a, st) and b.strip().k == 'IntegerLiteral' for a, b in (e.kids, e.kids[::-1]))
        return False
def counter(ctx, db, ms, ctr, g):
    for f in ms:
        if f.short.split('::')[-1] == 'operator=': continue
        h = Ctr(db, ctr); Engine(db, h).run(f, [mk(frozenset())])
        if h.n: ctx.obligation('change of the id bound', '%s at %s' % (f.short, f.loc()))
        for ff, n in h.bad: ctx.violation('bound-lowered', f.name, ctr, n.loc(), '%s can be set below an id that is in use' % ctr)
