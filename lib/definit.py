"""definite assignment of scalar locals, missing returns, members left unset by constructors"""
from kdb import *
from engine import *
SCALAR = {'bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double'}
def scalar(db, ct):
    t = ct.replace('const ', '').strip()
    return t in SCALAR or t.endswith('*') or t in db.enums or t.split(' ')[-1] in db.enums

def writes_to(f, n):
    """(decl, weak) a node assigns"""
    out = []
    if n.k == 'BinaryOperator' and n.op == '=':
        t = n.kids[0].strip()
        if t.k == 'DeclRefExpr': out.append((t.decl, False))
    elif n.k == 'UnaryOperator' and n.op == '&':
        t = n.kids[0].strip()
        if t.k == 'DeclRefExpr': out.append((t.decl, False))
    elif n.k == 'DeclStmt':
        for v in n.d['vars']:
            var = f.vars.get(v['d'])
            if var is not None and var['init'] is not None:
                out.append((v['d'], False))
                if var['ctype'].endswith('&'):
                    t = var['init'].strip()
                    if t.k == 'DeclRefExpr': out.append((t.decl, False))
    elif n.k == 'CXXOperatorCallExpr' and n.op == '>>' and len(n.args()) == 2:
        t = n.args()[1].strip()
        if t.k == 'DeclRefExpr': out.append((t.decl, not checked_stream(n)))
    elif n.k == 'CXXMemberCallExpr' and (n.cname or '').endswith('operator>>') and n.args():
        t = n.args()[0].strip()
        if t.k == 'DeclRefExpr': out.append((t.decl, not checked_stream(n)))
    elif n.k in CALLS or n.k in CTORS:
        args = n.args(); pts = n.get('cpt', ())
        if n.k == 'CXXOperatorCallExpr' and len(args) == len(pts) + 1: args = args[1:]
        for a, p in zip(args, pts):
            if a is None: continue
            ct = f.types[p][1]
            if ct.endswith('&') and not ct.startswith('const '):
                t = a.strip()
                if t.k == 'DeclRefExpr': out.append((t.decl, False))
    elif n.k == 'LambdaExpr':
        b = n.sub('lbody')
        if b is not None:
            for m in b.walk(True):
                if m.k != 'LambdaExpr': out.extend(writes_to(f, m))
    return out
def checked_stream(n):
    p = n.parent
    while p is not None:
        if p.k in ('IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'ConditionalOperator') or p.k == 'UnaryOperator' and p.op == '!' or p.k == 'BinaryOperator': return True
        if p.k in ('CompoundStmt', 'DeclStmt'): return False
        p = p.parent
    return False

def field_of(n):
    """(decl, field) of local.field"""
    n = n.strip()
    if n.k == 'MemberExpr' and not n.get('arrow') and n.kids and n.kids[0] is not None and n.kids[0].strip().k == 'DeclRefExpr': return (n.kids[0].strip().decl, n.name)
    return None
NEEDS = {}
def method_event(db, f, n, cand):
    """what a member call does to the fields of a bare class variable"""
    o = n.obj()
    if o is None or o.strip().k != 'DeclRefExpr': return []
    out = []
    for c in cand:
        if isinstance(c, tuple) and c[0] == o.strip().decl:
            t = f.vars[c[0]]['ctype'].replace('const ', '').strip()
            if t not in db.records: continue
            if (t, c[1]) not in NEEDS: NEEDS[(t, c[1])] = Needs(db, db.records[t], c[1])
            nd = NEEDS[(t, c[1])]
            for g in db.targets(n):
                if g.key in nd.need: out.append(('r', c))
                elif g.key in nd.must: out.append(('w', c))
    return out
def field_event(f, n, cand, db=None):
    """('r'|'w', key) a node does to the fields of bare class variables"""
    if n.k == 'CXXMemberCallExpr' and db is not None: return method_event(db, f, n, cand)
    if n.k == 'MemberExpr':
        k = field_of(n)
        if k in cand: return [('r', k)] if is_read(f, n) else []
    if n.k == 'BinaryOperator' and n.op == '=':
        k = field_of(n.kids[0])
        if k in cand: return [('w', k)]
    if n.k == 'UnaryOperator' and n.op == '&' and field_of(n.kids[0]) in cand: return [('w', field_of(n.kids[0]))]
    if n.k == 'DeclRefExpr':
        ks = [k for k in cand if isinstance(k, tuple) and k[0] == n.decl]
        if not ks: return []
        m = n
        while m.parent is not None and m.parent.k in TRANSP: m = m.parent
        p = m.parent
        if p is None or p.k == 'MemberExpr': return []
        if p.k == 'ReturnStmt' or p.k in CTORS and (p.get('copy') or p.get('move')): return [('r', k) for k in ks]
        if p.k == 'CXXOperatorCallExpr' and p.op == '=' and p.args()[0] is m: return [('w', k) for k in ks]
        if p.k in CALLS or p.k in CTORS:
            args = p.args(); pts = p.get('cpt', ())
            if p.k == 'CXXOperatorCallExpr' and len(args) == len(pts) + 1: args = args[1:]
            for a, q in zip(args, pts):
                if a is m:
                    ct = f.types[q][1]
                    return [('w' if ct.endswith('&') and not ct.endswith('&&') and not ct.startswith('const ') else 'r', k) for k in ks]
        return [('w', k) for k in ks]
    return []

def is_read(f, n):
    """a mention of a variable that reads its value"""
    m = n
    while m.parent is not None and m.parent.k in TRANSP and m.parent.get('ck') != 'LValueToRValue': m = m.parent
    p = m.parent
    if p is None: return True
    if p.k == 'BinaryOperator' and p.op == '=' and p.kids[0] is m: return False
    if p.k == 'UnaryOperator' and p.op == '&': return False
    if p.k in ('DeclStmt',): return False
    if p.k == 'UnaryExprOrTypeTraitExpr': return False
    return p.k in TRANSP or p.k == 'CompoundAssignOperator' or p.k == 'UnaryOperator' and p.op in ('++', '--')

def uninit_reads(db, f, bare={}):
    """list of (node, decl) reads reachable without an assignment"""
    cand = {d for d, v in f.vars.items() if not v['param'] and not v.get('lamparam') and v['init'] is None and not v.get('static') and v['node'] is not None and v['node'].k == 'DeclStmt' and scalar(db, v['ctype'])}
    # range-for variables and catch parameters are set by the language
    for n in f.nodes:
        if n.k == 'CXXForRangeStmt':
            for m in n.kids:
                if m is not None and m.k == 'DeclStmt': cand -= {v['d'] for v in m.d['vars']}
    cand = {d for d in cand if f.pos(f.vars[d]['node']) is not None}
    cand |= {(d, x) for d, fs in bare.items() for x in fs if f.pos(f.vars[d]['node']) is not None}
    if not cand or not f.blocks: return [], 0
    B = f.blocks
    inn = {f.entry: frozenset()}        # variables possibly unset
    out = {}
    work = [f.entry]; hits = {}
    def run(b, s, rec):
        s = set(s)
        for e in B[b].elems:
            if rec and e.k == 'DeclRefExpr' and e.decl in s and is_read(f, e): hits.setdefault(e.decl, e)
            if e.k == 'DeclStmt':
                for v in e.d['vars']:
                    s.update(c for c in cand if c == v['d'] or isinstance(c, tuple) and c[0] == v['d'])
            for d, weak in writes_to(f, e):
                if not weak: s.discard(d)
            if bare:
                for ev, c in field_event(f, e, cand, db):
                    if ev == 'w': s.discard(c)
                    elif rec and c in s: hits.setdefault(c, e)
            if e.k in CALLS and e.callee in db.noreturn: return None
        return frozenset(s)
    while work:
        b = work.pop()
        o = run(b, inn[b], False)
        if o is None: continue
        for t in B[b].succ:
            if t is None: continue
            n = inn.get(t)
            m = o if n is None else n | o
            if m != n: inn[t] = m; work.append(t)
    for b in inn: run(b, inn[b], True)
    out = []
    for d, n in hits.items():
        r = Refine(db, f, d); eng = Engine(db, r); eng.LIMIT = 60000; eng.run(f, [mk(None)])
        if eng.overflow: continue           # too many paths to tell: give the benefit of the doubt
        if r.hit is not None: out.append((r.hit, d))
    return out, len(cand)

def atom(f, e):
    """canonical text of a side-effect free operand over locals and constants"""
    e = e.strip()
    while e.k in CTORS and len([c for c in e.kids if c is not None]) == 1: e = e.kids[0].strip()
    if e.k == 'DeclRefExpr' and e.decl in f.vars: return '#%s#' % e.decl
    if e.get('cv') is not None: return str(e.get('cv'))
    if e.k == 'CXXNullPtrLiteralExpr' or e.k == 'GNUNullExpr': return '0'
    if e.k == 'MemberExpr' and e.kids and e.kids[0] is not None and not e.get('arrow'):
        a = atom(f, e.kids[0]); return a and a + '.' + e.name
    if e.k == 'CXXMemberCallExpr' and e.obj() is not None and e.get('cconst') and not e.args():
        a = atom(f, e.obj()); return a and '%s.%s()' % (a, (e.cname or '').split('::')[-1])
    if e.k == 'CXXMemberCallExpr' and e.obj() is not None and (e.cname or '').split('::')[-1] in ('begin', 'end', 'size', 'empty') and not e.args():
        a = atom(f, e.obj()); return a and '%s.%s()' % (a, (e.cname or '').split('::')[-1])
    return None
NEG = {'!=': '==', '>=': '<', '<=': '>'}
def condition(f, n):
    """(canonical text, polarity) of a comparison of two operands"""
    n = n.strip()
    if n.k == 'CXXRewrittenBinaryOperator': return None
    if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op in ('==', '!=', '<', '>', '<=', '>='):
        ks = n.kids if n.k == 'BinaryOperator' else n.args()
        if len(ks) != 2: return None
        a, b = atom(f, ks[0]), atom(f, ks[1]); op = n.op
        if a is None or b is None: return None
        if op in ('>', '<='): a, b = b, a; op = {'>': '<', '<=': '>='}[op]
        if op in ('==', '!=') and a > b: a, b = b, a
        return ('%s %s %s' % (a, NEG.get(op, op), b), op not in NEG)
    a = atom(f, n)
    return ('%s?' % a, True) if a is not None and '#' in a and not is_bool(n.ctype) else None

class Refine(Hooks):
    """one variable, with the outcomes of repeated comparisons remembered until an operand changes"""
    def __init__(self, db, f, d):
        self.d = d; self.hit = None; self.f = f; self.db = db
        self.w = collections.defaultdict(set)
        for dd, ns in f.writes.items():
            for n in ns: self.w[n.i].add(dd)
        seen = collections.Counter()
        for n in f.nodes:
            c = condition(f, n) if n.k in ('BinaryOperator', 'CXXOperatorCallExpr', 'DeclRefExpr', 'CXXMemberCallExpr') else None
            if c: seen[c[0]] += 1
        self.rep = {c for c, k in seen.items() if k > 1}
    def value(self, eng, f, n, st):
        c = condition(f, n)
        if c is None or c[0] not in self.rep: return None
        v = st.get(('c', c[0]))
        if v is not None: return [(v == c[1], st)]
        return [(b, st.set(('c', c[0]), b == c[1])) for b in (True, False)]
    def transfer(self, eng, f, n, st):
        if n.k == 'DeclRefExpr' and n.decl == self.d and st.user == 'unset' and is_read(f, n) and (self.hit is None or n.line < self.hit.line): self.hit = n
        if n.k == 'DeclStmt':
            for v in n.d['vars']:
                if v['d'] == self.d or isinstance(self.d, tuple) and self.d[0] == v['d']: st = st.with_user('unset')
                st = self.forget(st, v['d'])
        for dd in self.w.get(n.i, ()): st = self.forget(st, dd)
        for d, weak in writes_to(f, n):
            if d == self.d and not weak: st = st.with_user(None)
        if isinstance(self.d, tuple):
            for ev, c in field_event(f, n, {self.d}, self.db):
                if ev == 'w': st = st.with_user(None)
                elif st.user == 'unset' and (self.hit is None or n.line < self.hit.line): self.hit = n
        return [st]
    def forget(self, st, d):
        t = '#%s#' % d
        e = frozenset((k, v) for k, v in st.env if not (k[0] == 'c' and t in k[1]))
        return State((st.user, e)) if len(e) != len(st.env) else st

def falls_off(db, f):
    """a value-returning function whose end is reachable without a return"""
    if f.retctype in ('void', '') or f.is_ctor or f.is_dtor or not f.blocks or f.short == 'main': return False
    B = f.blocks; seen = {f.entry}; st = [f.entry]
    while st:
        b = B[st.pop()]
        if b.id == f.exit: continue
        if b.nr or any(e.k in CALLS and e.callee in db.noreturn or e.k == 'CXXThrowExpr' for e in b.elems): continue
        has = any(e.k == 'ReturnStmt' for e in b.elems)
        for s in b.succ:
            if s is None: continue
            if s == f.exit and not has: return True
            if s not in seen: seen.add(s); st.append(s)
    return False

def this_member(n):
    n = n.strip()
    return n.name if n.k == 'MemberExpr' and n.kids and n.kids[0] is not None and n.kids[0].strip().k == 'CXXThisExpr' else None

class Needs(object):
    """which methods read a member before this very call has set it"""
    def __init__(self, db, rec, field):
        self.db = db; self.field = field
        self.ms = {f.key: f for f in db.funcs.values() if f.cls == rec.name and f.blocks}
        self.must = set(); self.need = set()
        while True:
            old = (len(self.must), len(self.need))
            for f in self.ms.values():
                m, r = self.scan(f)
                if m: self.must.add(f.key)
                if r: self.need.add(f.key)
            if old == (len(self.must), len(self.need)): break
    def scan(self, f):
        B = f.blocks; start = any(i.get('f') == self.field for i in f.rec.get('inits', ()))
        inn = {f.entry: start}; work = [f.entry]; need = False; outs = []
        while work:
            b = work.pop(); s = inn[b]
            for e in B[b].elems:
                if e.k == 'MemberExpr' and this_member(e) == self.field and not s:
                    p = e.parent
                    while p is not None and p.k in TRANSP and p.get('ck') != 'LValueToRValue': p = p.parent
                    if not (p is not None and p.k == 'BinaryOperator' and p.op == '=' and p.kids[0].strip() is e): need = True
                if e.k == 'BinaryOperator' and e.op == '=' and this_member(e.kids[0]) == self.field: s = True
                if e.k in CALLS or e.k in CTORS:
                    for t in self.db.targets(e):
                        if not s and t.key in self.need: need = True
                    ts = self.db.targets(e)
                    if ts and all(t.key in self.must for t in ts): s = True
            if b == f.exit: outs.append(s)
            for t in B[b].succ:
                if t is None: continue
                n = inn.get(t)
                m = s if n is None else n and s
                if m != n: inn[t] = m; work.append(t)
        return (inn.get(f.exit, True), need)

def members_unset(db):
    """(class, ctor, field) scalar members no initialiser or constructor body sets although a method may read them first"""
    out = []; total = 0
    for rec in db.records.values():
        fields = [x for x in rec.rec.get('fields', ()) if x.get('triv') and x.get('i', -1) in (-1, None)]
        ctors = [f for f in db.funcs.values() if f.is_ctor and f.cls == rec.name]
        if not fields: continue
        for c in ctors:
            if c.rec.get('copyctor') and any(i.get('f') is None and not i.get('b') for i in c.rec.get('inits', ())): continue
            if any(i.get('del') for i in c.rec.get('inits', ())): continue
            for x in fields:
                total += 1
                nd = Needs(db, rec, x['n'])
                if c.key in nd.must: continue
                if c.key in nd.need: out.append((rec, c, x['n'], 'the constructor itself reads it')); continue
                rd = [f for k, f in nd.ms.items() if k in nd.need and f.rec.get('access', 0) == 0 and not f.is_ctor]
                ext = [f for f in db.funcs.values() if f.key not in nd.ms for n in f.nodes if n.k == 'MemberExpr' and n.name == x['n'] and n.kids and n.kids[0] is not None and n.kids[0].strip().ctype.replace('const ', '').strip(' *&') == rec.name]
                if rd or ext: out.append((rec, c, x['n'], 'read by ' + (rd or ext)[0].name))
    return out, total

def bare_locals(db):
    """(function, variable, fields) variables of a class without constructor, left without a value"""
    bare = {}
    ct = {f.cls for f in db.funcs.values() if f.is_ctor}
    for rec in db.records.values():
        fs = [x['n'] for x in rec.rec.get('fields', ()) if x.get('triv') and x.get('i', -1) in (-1, None)]
        if fs and rec.name not in ct: bare[rec.name] = fs
    out = collections.defaultdict(dict)
    for f in db.funcs.values():
        for d, v in f.vars.items():
            i = v['init']
            t = v['ctype'].replace('const ', '').strip()
            if t in bare and i is not None and not v['param'] and i.k in CTORS and i.get('defc') and not [c for c in i.kids if c is not None]: out[f.key][d] = bare[t]
    return out
