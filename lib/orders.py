"""Comparison functions, interpreted over the abstraction "how does each quantity of the left object compare with the
same quantity of the right one" (less, equal, greater).  Exact for comparison functions without loops."""
from kdb import *
from engine import *
import itertools
CMP = {'==', '!=', '<', '>', '<=', '>='}
def holds(op, s): return {'==': s == 0, '!=': s != 0, '<': s < 0, '>': s > 0, '<=': s <= 0, '>=': s >= 0}[op]

class Compare(Hooks):
    """env.user: frozenset of (key, value): ('s', key) -> sign, ('p', side, key, op, const) -> bool, 'x' -> True when a condition was not understood"""
    def __init__(self, db, f, left, right, inline=3):
        self.db = db; self.f = f; self.left = left; self.right = right; self.inline = inline
        self.res = set(); self.keys = set(); self.mixed = []
    def sides(self, n):
        s = set()
        for m in n.walk():
            if m.k == 'CXXThisExpr': s |= {'a'} if self.left is None else set()
            elif m.k == 'DeclRefExpr' and m.decl in self.f.vars:
                if m.decl == self.left: s.add('a')
                elif m.decl == self.right: s.add('b')
                elif not self.f.vars[m.decl]['param']:
                    i = self.f.vars[m.decl]['init']
                    if i is not None and not self.f.writes.get(m.decl): s |= self.sides(i)
        return s
    def written(self, n):
        return any(m.k == 'DeclRefExpr' and m.decl in self.f.vars and self.f.writes.get(m.decl) and not self.f.vars[m.decl]['param'] for m in n.walk())
    def key(self, n, depth=0):
        """text with the object replaced by $"""
        n = n.strip()
        if n.k == 'CXXThisExpr': return '$'
        if n.k == 'DeclRefExpr':
            if n.decl in (self.left, self.right): return '$'
            if n.decl in self.f.vars and depth < 6:
                i = self.f.vars[n.decl]['init']
                if i is not None and not self.f.writes.get(n.decl): return self.key(i, depth + 1)
            return n.name or '?'
        if n.k == 'MemberExpr':
            return (self.key(n.kids[0], depth) if n.kids and n.kids[0] is not None else '$') + '.' + n.name
        if n.k == 'CXXMemberCallExpr':
            g = self.getter(n)
            o = self.key(n.obj(), depth) if n.obj() is not None else '$'
            if g is not None and not n.args(): return o + '.' + g
            return o + '.' + (n.cname or '?').split('::')[-1] + '(' + ','.join(self.key(a, depth) for a in n.args() if a is not None) + ')'
        if n.k == 'CXXOperatorCallExpr' and n.op == '[]': return self.key(n.args()[0], depth) + '[' + self.key(n.args()[1], depth) + ']'
        if n.k in CALLS: return (n.cname or '?') + '(' + ','.join(self.key(a, depth) for a in n.args() if a is not None) + ')'
        if n.k in ('IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr'): return str(n.get('v'))
        return n.k + (n.op or '') + '(' + ','.join(self.key(c, depth) for c in n.kids if c is not None) + ')'
    def getter(self, n):
        for t in self.db.targets(n):
            r = [m for m in t.walk() if m.k == 'ReturnStmt']
            if len(r) == 1 and r[0].kids and r[0].kids[0] is not None:
                x = r[0].kids[0].strip()
                if x.k == 'MemberExpr' and x.kids and x.kids[0] is not None and x.kids[0].strip().k == 'CXXThisExpr': return x.name
        return None
    def lookup(self, st, k):
        for a, v in st.user:
            if a == k: return v
        return None
    def set(self, st, k, v): return st.with_user(st.user | {(k, v)})
    def loopcond(self, n):
        p = n
        while p is not None:
            q = p.parent
            if q is not None and q.k in LOOPS and (q.sub('cond') is p or q.get('cond') == p.i): return True
            if q is not None and q.k in ('ForStmt', 'WhileStmt', 'DoStmt') and p in q.kids and p is not q.sub('body') and p.k not in ('CompoundStmt', 'IfStmt', 'ReturnStmt'): return True
            if q is None or q.k in ('IfStmt', 'ReturnStmt', 'CompoundStmt'): return False
            p = q
        return False
    def value(self, eng, f, n, st):
        op = n.op; ks = None
        if n.k == 'BinaryOperator' and op in CMP: ks = n.kids
        elif n.k == 'CXXOperatorCallExpr' and op in CMP and len(n.args()) == 2: ks = n.args()
        if ks is None:
            if n.k in ('BinaryOperator',) and op in ('&&', '||'): return None
            if n.k in ('UnaryOperator', 'CXXBoolLiteralExpr') or n.k == 'DeclRefExpr': return None
            if n.k in CALLS and n.cname and n.cname.split('::')[-1] in ('operator==', 'operator<', 'operator>', 'operator!=') :
                op = n.cname.split('operator')[-1]; ks = ([n.obj()] if n.obj() is not None else []) + n.args()
                if len(ks) != 2: ks = None
            if ks is None: return self.unknown(n, st)
        a, b = ks
        sa, sb = self.sides(a), self.sides(b)
        if self.written(a) and not sa or self.written(b) and not sb:
            if not (sa or sb) or not self.loopcond(n): return self.unknown(n, st)
        if len(sa) == 1 and len(sb) == 1 and sa != sb:
            ka, kb = self.key(a), self.key(b)
            if ka == kb:
                self.keys.add(ka); out = []; s = self.lookup(st, ('s', ka))
                flip = -1 if sa == {'b'} else 1
                for v in ((s,) if s is not None else (-1, 0, 1)):
                    out.append((holds(op, v * flip), st if s is not None else self.set(st, ('s', ka), v)))
                return out
            self.mixed.append((n, ka, kb)); return self.unknown(n, st)
        c = b.strip() if sa else a.strip()
        if len(sa | sb) == 1 and c.k in ('IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr'):
            side = list(sa | sb)[0]; k = self.key(a if sa else b); cst = str(c.get('v')); o = op if sa else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            neg = o in ('!=', '>=', '<='); o = {'!=': '==', '>=': '<', '<=': '>'}.get(o, o)
            cur = self.lookup(st, ('p', side, k, o, cst))
            if cur is None and self.lookup(st, ('s', k)) == 0: cur = self.lookup(st, ('p', 'b' if side == 'a' else 'a', k, o, cst))
            return [((v != neg), self.set(st, ('p', side, k, o, cst), v)) for v in ((cur,) if cur is not None else (True, False))]
        return self.unknown(n, st)
    def unknown(self, n, st):
        if not is_bool(n.ctype): return None
        s = st if self.loopcond(n) else self.set(st, 'x', True)
        return [(True, s), (False, s)]
    def ret(self, eng, f, n, st, val): self.res.add((frozenset(x for x in st.user), val))
    def run(self, fixed=None):
        """fixed: sign given to every quantity"""
        self.fixed = fixed
        eng = Engine(self.db, self); eng.LIMIT = 40000
        if fixed is not None:
            orig = self.lookup
            self.lookup = lambda st, k: fixed if k[0] == 's' else orig(st, k)
        eng.run(self.f, [mk(frozenset())])
        self.over = eng.overflow
        return self.res
def has_loop(f): return any(n.k in LOOPS for n in f.walk())

def decls(f):
    ps = [p['d'] for p in f.params]
    return (None, ps[0]) if len(ps) == 1 else (ps[0], ps[1])
class Judge(object):
    """one comparison function or comparison lambda"""
    def __init__(self, db, f, left, right, expr=None):
        self.db = db; self.f = f; self.left = left; self.right = right; self.expr = expr
    def results(self, fixed=None):
        c = Compare(self.db, self.f, self.left, self.right); self.c = c
        if self.expr is None: r = c.run(fixed)
        else:
            if fixed is not None:
                orig = c.lookup; c.lookup = lambda st, k: fixed if k[0] == 's' else orig(st, k)
            r = {(s.user, v) for v, s in Engine(self.db, c).full_logical(self.f, self.expr, mk(frozenset()))}
        return r
    def loops(self): return self.expr is None and has_loop(self.f)
    def equal_case(self):
        """verdicts when left and right agree on everything (understood paths only)"""
        return {v for u, v in self.results(0) if ('x', True) not in u}
    def table(self):
        """sign vector -> verdict, or None when it is not a pure function of the signs"""
        if self.loops(): return None
        res = self.results(); keys = sorted(self.c.keys)
        if self.c.mixed or len(keys) > 4 or not keys: return None
        T = {}
        for u, v in res:
            d = dict((k[1], x) for k, x in ((a, b) for a, b in u if a != 'x') if k[0] == 's')
            if any(a == 'x' or a[0] == 'p' for a, b in u): return None
            for vec in itertools.product((-1, 0, 1), repeat=len(keys)):
                if all(d.get(k, x) == x for k, x in zip(keys, vec)):
                    if T.get(vec, v) != v: return None
                    T[vec] = v
        return keys, T
def sign(x, y): return (x > y) - (x < y)
def strict(T, n):
    """first broken law of a strict weak order, else None"""
    z = (0,) * n
    if T.get(z): return 'an object is ordered before itself'
    for v in T:
        if T[v] and T.get(tuple(-x for x in v)): return 'two objects are each ordered before the other'
    vals = list(itertools.product(range(3), repeat=n))
    rel = lambda p, q: T[tuple(sign(a, b) for a, b in zip(p, q))]
    if n <= 3:
        for p in vals:
            for q in vals:
                pq = rel(p, q); e1 = not pq and not rel(q, p)
                if not pq and not e1: continue
                for r in vals:
                    if pq and rel(q, r) and not rel(p, r): return 'the order is not transitive'
                    if e1 and not rel(q, r) and not rel(r, q) and (rel(p, r) or rel(r, p)): return 'being unordered is not transitive'
    return None
