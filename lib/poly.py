"""Rational polynomials over symbolic atoms, and the symbolic value of an expression at its place in the control flow.

Locals are followed through reaching definitions; sums built up in (nested) loops get a closed form."""
from fractions import Fraction
from kdb import *
import itertools

# a polynomial: tuple of (monomial, coefficient); a monomial: tuple of (atom, exponent)
_K = {}
def _key(x):
    try: return _K[x]
    except KeyError:
        r = _K[x] = repr(x); return r
def mk_poly(d): return tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: _key(x[0])))
def const(c): return mk_poly({(): Fraction(c)})
ZERO = (); ONE = const(1)
def atom(a, e=1): return mk_poly({((a, e),): Fraction(1)})
def padd(a, b, s=1):
    d = dict(a)
    for m, c in b: d[m] = d.get(m, 0) + s * c
    return mk_poly(d)
def mono_mul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=_key))
def pmul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            k = mono_mul(m, n); d[k] = d.get(k, 0) + c * e
    return mk_poly(d)
def pdiv(a, b):
    if not b: return atom(('div0',))
    if len(b) == 1:
        (m, c), = b
        return pmul(a, (((tuple((x, -e) for x, e in m)), Fraction(1) / c),))
    if a == b: return ONE
    return pmul(a, atom(('inv', b)))
def pneg(a): return padd(ZERO, a, -1)
def is_const(p): return all(m == () for m, c in p)
def cval(p): return p[0][1] if p else Fraction(0)
def atoms(p):
    return {a for m, c in p for a, e in m}
def deep(p):
    """all atoms, also those inside atoms"""
    out = set(); st = [p]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str): out.add(x)
            st.extend(x)
    return out
def show(p):
    if not p: return '0'
    out = []
    for m, c in p:
        f = '*'.join(['%s%s' % (sh(a), '' if e == 1 else '^%s' % e) for a, e in m])
        s = ('%s' % c if not f else f if c == 1 else '-' + f if c == -1 else '%s*%s' % (c, f))
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')
def sh(a):
    if isinstance(a, tuple) and a and isinstance(a[0], str):
        if a[0] in ('v', 'lv'): return a[-1]
        if a[0] == 'w': return '%s(%s)' % ({'in': 'prod', 'out': 'cons'}[a[1]], show(a[3]))
        if a[0] == 'T': return 'total_%s(..%s)' % ({'in': 'prod', 'out': 'cons'}[a[1]], show(a[3]))
        if a[0] in ('src', 'dst', 'in', 'out', 'M', 'step'): return a[0] if a[0] != 'M' else 'tokens'
        if a[0] in ('phi', 'N', 'K', 'dur'): return '%s(%s)' % (a[0], sh(a[1]))
        return '%s(%s)' % (a[0], ', '.join(show(x) if is_poly(x) else sh(x) for x in a[1:]))
    return str(a)
def is_poly(x): return isinstance(x, tuple) and (x == () or all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], Fraction) for y in x))

def last(n): return (n.cname or '').split('::')[-1]
UNK = lambda n: atom(('?', n.f.key, n.i))

class Sym(object):
    """values of expressions; subclasses give meaning to calls"""
    def __init__(self, db): self.db = db; self.memo = {}; self.busy = set(); self.rd = {}
    # ---- reaching definitions
    def defs_at(self, f, d):
        k = (f.key, d)
        if k not in self.rd:
            m = {}
            for n in f.writes.get(d, ()):
                if n.k == 'CXXMemberCallExpr' and (last(n) in ('begin', 'end', 'at', 'find', 'size') ): continue
                p = f.pos(n)
                if p: m.setdefault(p[0], []).append((p[1], n))
            v = f.vars.get(d)
            if v and v['node'] is not None:
                p = f.pos(v['node'])
                if p: m.setdefault(p[0], []).append((p[1], v['node']))
            for b in m: m[b].sort(key=lambda x: x[0])
            self.rd[k] = m
        return self.rd[k]
    def reaching(self, f, d, n):
        p = f.pos(n)
        if p is None: return None
        m = self.defs_at(f, d); out = []; seen = set(); st = [(p[0], p[1], True)]
        while st:
            b, i, first = st.pop()
            hit = [x for q, x in m.get(b, ()) if (not first or q < i) and x is not n]
            if hit:
                if hit[-1] not in out: out.append(hit[-1])
                continue
            for q in f.blocks[b].pred:
                if q not in seen: seen.add(q); st.append((q, 0, False))
        return out
    # ---- loops
    def loops_of(self, n):
        return [p for p in n.f.parents(n) if p.k in LOOPS][::-1]
    def loop_var(self, f, L):
        """(decl, first value, last value) of a counting loop"""
        k = ('loop', f.key, L.i)
        if k in self.memo: return self.memo[k]
        self.memo[k] = None
        c = L.sub('cond')
        if c is None or L.k == 'CXXForRangeStmt': return None
        c = c.strip()
        if c.k == 'BinaryOperator' and c.op == '&&': return None
        if c.k != 'BinaryOperator' or c.op not in ('<', '<=', '>', '>=', '!='): return None
        for x, y, op in ((c.kids[0], c.kids[1], c.op), (c.kids[1], c.kids[0], {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(c.op, c.op))):
            x = x.strip()
            if x.k != 'DeclRefExpr' or op not in ('<', '<=', '!='): continue
            d = x.decl
            steps = [n for n in f.writes_direct.get(d, ()) if L in list(f.parents(n))]
            if len(steps) != 1 or not self.is_step(f, steps[0]): continue
            R = [r for r in self.reaching(f, d, c) if r is not steps[0]]
            if len(R) != 1: continue
            lo = self.def_value(f, R[0], d, {})
            hi = self.ev(y, f, {})
            if op != '<=': hi = padd(hi, ONE, -1)
            self.memo[k] = (d, lo, hi); break
        return self.memo[k]
    def is_step(self, f, n):
        if n.k == 'UnaryOperator': return n.op == '++'
        if n.k == 'CompoundAssignOperator': return n.op == '+=' and self.ev(n.kids[1], f, {}) == ONE
        if n.k == 'BinaryOperator' and n.op == '=':
            b = n.kids[1].strip()
            if b.k == 'BinaryOperator' and b.op == '+':
                x, y = b.kids[0].strip(), b.kids[1].strip(); d = n.kids[0].strip().decl
                return (x.k == 'DeclRefExpr' and x.decl == d and self.ev(y, f, {}) == ONE) or (y.k == 'DeclRefExpr' and y.decl == d and self.ev(x, f, {}) == ONE)
        return False
    def def_value(self, f, r, d, env):
        if r.k == 'DeclStmt':
            v = f.vars[d]
            return self.ev(v['init'], f, env) if v['init'] is not None else atom(('v', f.key, d, v['name']))
        if r.k == 'BinaryOperator' and r.op == '=' and r.kids[0].strip().k == 'DeclRefExpr': return self.ev(r.kids[1], f, env)
        return UNK(r)
    # ---- variables
    def var(self, n, f, env):
        d = n.decl; v = f.vars.get(d); name = v['name'] if v else n.name
        if d in env: return env[d]
        if v is None: return atom(('g', n.name))
        opaque = atom(('v', f.key, d, name))
        if v.get('param') or v.get('lamparam'): return opaque
        k = (f.key, d, n.i)
        if k in self.busy: return opaque
        self.busy.add(k)
        try:
            R = self.reaching(f, d, n)
            if R is None: return opaque
            if len(R) == 1:
                r = R[0]
                if r.k == 'DeclStmt': return self.def_value(f, r, d, env) if v['init'] is not None else opaque
                if r.k == 'BinaryOperator' and r.op == '=' and r.kids[0].strip().k == 'DeclRefExpr' and self.inc_of(f, r, d) is None: return self.def_value(f, r, d, env)
                e = self.inc_of(f, r, d)
                if e is not None: return self.acc(f, d, r, e, n, True, env, opaque)
                return opaque
            if len(R) == 2:
                for z, s in (R, R[::-1]):
                    e = self.inc_of(f, s, d)
                    if self.inc_of(f, z, d) is not None or z.k not in ('DeclStmt', 'BinaryOperator'): continue
                    if e is not None:
                        if self.is_step(f, s):
                            Ls = [L for L in self.loops_of(n) if self.loop_var(f, L) and self.loop_var(f, L)[0] == d]
                            if Ls: return atom(('lv', f.key, d, name))
                        return self.acc(f, d, s, e, n, False, env, opaque)
                    if s.k == 'BinaryOperator' and s.op == '=' and s.kids[0].strip().k == 'DeclRefExpr': 
                        x = self.previous(f, d, z, s, n, env)
                        if x is not None: return x
            return opaque
        finally: self.busy.discard(k)
    def inc_of(self, f, r, d):
        """what a write adds to the variable"""
        if r.k == 'UnaryOperator' and r.op == '++': return ('one', r)
        if r.k == 'CompoundAssignOperator' and r.op == '+=' and r.kids[0].strip().k == 'DeclRefExpr': return ('e', r.kids[1])
        if r.k == 'BinaryOperator' and r.op == '=' and r.kids[1].strip().k == 'BinaryOperator' and r.kids[1].strip().op == '+':
            b = r.kids[1].strip()
            for x, y in ((b.kids[0], b.kids[1]), (b.kids[1], b.kids[0])):
                if x.strip().k == 'DeclRefExpr' and x.strip().decl == d: return ('e', y)
        return None
    def acc(self, f, d, s, e, use, once, env, opaque):
        """a sum: s adds e in every round; once: only the last addition reaches the use"""
        Z = [r for r in (self.reaching(f, d, s) or []) if r is not s]
        if len(Z) != 1 or Z[0].k not in ('DeclStmt', 'BinaryOperator') or self.inc_of(f, Z[0], d) is not None: return self.odd(f, d, use)
        z = Z[0]
        if self.conditional(s): return self.odd(f, d, use)
        start = self.def_value(f, z, d, env)
        zl = self.loops_of(z); ls = [L for L in self.loops_of(s) if L not in zl]
        ev = ONE if e[0] == 'one' else self.ev(e[1], f, env)
        if not ls: return padd(start, ev)
        vs = [self.loop_var(f, L) for L in ls]
        if None in vs: return self.odd(f, d, use)
        lvs = [(f.key, v[0], f.vars[v[0]]['name']) for v in vs]
        ul = self.loops_of(use); j = len([L for L in ls if L in ul])
        rest = ev
        for v, lv in list(zip(vs, lvs))[:j - 1 if j == len(ls) else j - 1:-1] if False else []: pass
        # full rounds of the loops the use is not in
        for x in range(len(ls) - 1, j - 1, -1):
            rest = self.total(rest, ('lv',) + lvs[x], vs[x][1], vs[x][2])
            if rest is None: return self.odd(f, d, use)
        if j == len(ls): incl = once
        else:
            inner = ls[j]
            c = inner.sub('cond'); incl = c is not None and f.dominates(c, use)
        if j == 0: return padd(start, rest) if incl else start
        # rounds of the loops around the use
        cur = rest; p = self.total(rest, ('lv',) + lvs[j - 1], vs[j - 1][1], atom(('lv',) + lvs[j - 1]))
        if p is None: return self.odd(f, d, use)
        out = p; full = rest
        for x in range(j - 1, 0, -1):
            full = self.total(full, ('lv',) + lvs[x], vs[x][1], vs[x][2])
            if full is None: return self.odd(f, d, use)
            q = self.total(full, ('lv',) + lvs[x - 1], vs[x - 1][1], padd(atom(('lv',) + lvs[x - 1]), ONE, -1))
            if q is None: return self.odd(f, d, use)
            out = padd(out, q)
        if not incl: out = padd(out, cur, -1)
        return padd(start, out)
    def previous(self, f, d, z, s, use, env):
        """the value another sum had at the end of the last round: u = 0; loop { v += e; use(u); u = v }"""
        x = s.kids[1].strip()
        if x.k != 'DeclRefExpr' or x.decl not in f.vars: return None
        R = self.reaching(f, x.decl, x)
        if len(R or ()) != 1: return self.odd(f, d, use)
        e = self.inc_of(f, R[0], x.decl)
        if e is None: return None
        Z = [r for r in (self.reaching(f, x.decl, R[0]) or []) if r is not R[0]]
        if len(Z) != 1 or self.inc_of(f, Z[0], x.decl) is not None: return self.odd(f, d, use)
        if self.def_value(f, Z[0], x.decl, env) != self.def_value(f, z, d, env): return self.odd(f, d, use)
        L1, L2, LU = self.loops_of(R[0]), self.loops_of(s), self.loops_of(use)
        if not L1 or not L2 or L1[-1] is not L2[-1] or L1[-1] not in LU or self.conditional(s) or self.conditional(R[0]): return self.odd(f, d, use)
        if self.loops_of(z) != self.loops_of(Z[0]): return self.odd(f, d, use)
        if not (f.dominates(R[0], use) and f.dominates(R[0], s)) or f.dominates(s, use): return self.odd(f, d, use)
        incl = self.acc(f, x.decl, R[0], e, use, True, env, None)
        ev = ONE if e[0] == 'one' else self.ev(e[1], f, env)
        return padd(incl, ev, -1)
    def conditional(self, n):
        """not done in every round of the innermost loop"""
        c = n
        for p in n.f.parents(n):
            if p.k in LOOPS: return False
            if p.k in ('IfStmt', 'ConditionalOperator', 'SwitchStmt') and p.sub('cond') is not c: return True
            c = p
        return False
    def odd(self, f, d, use): return atom(('odd', f.key, d, f.vars[d]['name']))
    def total(self, e, lv, lo, hi):
        """sum of e for lv = lo .. hi"""
        out = ZERO; n = padd(padd(hi, lo, -1), ONE)
        for m, c in e:
            dep = [(a, x) for a, x in m if a == lv or lv in deep(a)]
            rest = ((tuple((a, x) for a, x in m if (a, x) not in dep), c),)
            if not dep: out = padd(out, pmul(rest, n)); continue
            if len(dep) == 1 and dep[0][1] == 1:
                s = self.series(dep[0][0], lv, lo, hi)
                if s is not None: out = padd(out, pmul(rest, s)); continue
            return None
        return out
    def series(self, a, lv, lo, hi): return None
    # ---- expressions
    def ev(self, n, f, env):
        if n is None: return atom(('?',))
        n = n.strip()
        if n.k in ('IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr') or (n.get('cv') is not None and n.k not in CALLS):
            v = n.get('cv') if n.get('cv') is not None else n.get('v')
            try: return const(Fraction(str(v)))
            except (ValueError, ZeroDivisionError):
                try: return const(Fraction(float(v)).limit_denominator(10**9))
                except (ValueError, TypeError, OverflowError): return atom(('lit', str(v)))
        if n.k == 'DeclRefExpr': return self.var(n, f, env)
        if n.k == 'UnaryOperator':
            if n.op == '-': return pneg(self.ev(n.kids[0], f, env))
            if n.op in ('+', '*', '&'): return self.ev(n.kids[0], f, env)
            return UNK(n)
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op in ('+', '-', '*', '/', '%'):
            k = [x for x in (n.kids if n.k == 'BinaryOperator' else n.args()) if x is not None]
            if len(k) == 2:
                a, b = [self.ev(x, f, env) for x in k]
                if n.op == '+': return padd(a, b)
                if n.op == '-': return padd(a, b, -1)
                if n.op == '*': return pmul(a, b)
                if n.op == '/': return pdiv(a, b)
                return atom(('mod', a, b))
            if len(k) == 1 and n.op == '*': return self.ev(k[0], f, env)
        if n.k == 'ConditionalOperator':
            c = n.kids[0].strip(); a, b = self.ev(n.kids[1], f, env), self.ev(n.kids[2], f, env)
            if a == b: return a
            if c.k == 'BinaryOperator' and c.op in ('<', '<=', '>', '>=', '==', '!='):
                return atom(('cond', c.op, padd(self.ev(c.kids[0], f, env), self.ev(c.kids[1], f, env), -1), a, b))
            return atom(('cond', '?', a, b))
        if n.k in CTORS or n.k == 'CXXFunctionalCastExpr':
            k = [x for x in n.kids if x is not None]
            if len(k) == 1: return self.ev(k[0], f, env)
            return UNK(n)
        if n.k == 'InitListExpr':
            k = [x for x in n.kids if x is not None]
            return self.ev(k[0], f, env) if len(k) == 1 else UNK(n)
        if n.k == 'MemberExpr' and n.kids and n.kids[0] is not None:
            if n.kids[0].strip().k == 'CXXThisExpr': return atom(('m', n.name))
            b = self.ev(n.kids[0], f, env)
            return atom(('f', b, n.name))
        if n.k in CALLS:
            r = self.meaning(n, f, env)
            if r is not None: return r
            r = self.inline(n, f, env)
            return r if r is not None else UNK(n)
        return UNK(n)
    def meaning(self, n, f, env):
        l = last(n); a = n.args()
        if n.k == 'CallExpr' and l in ('floor', 'ceil') and (n.cname or '').startswith('std') and len(a) == 1: return atom(('fl' if l == 'floor' else 'ce', self.ev(a[0], f, env)))
        if n.k == 'CallExpr' and l in ('floor', 'ceil') and len(a) == 1 and n.cname in ('floor', 'ceil'): return atom(('fl' if l == 'floor' else 'ce', self.ev(a[0], f, env)))
        if n.k == 'CallExpr' and l in ('max', 'min') and len(a) == 2:
            x = [self.ev(y, f, env) for y in a]
            return x[0] if x[0] == x[1] else atom((l,) + tuple(sorted(x, key=_key)))
        if n.k == 'CallExpr' and l == 'gcd' and len(a) == 2: return atom(('gcd',) + tuple(sorted((self.ev(y, f, env) for y in a), key=_key)))
        return None
    def inline(self, n, f, env, depth=[0]):
        ts = self.db.targets(n)
        if len(ts) != 1 or not ts[0].blocks or depth[0] > 4: return None
        t = ts[0]
        rs = [r for r in t.walk() if r.k == 'ReturnStmt' and r.kids and r.kids[0] is not None]
        if len(rs) != 1: return None
        a = n.args(); e2 = {}
        for i, p in enumerate(t.params): e2[p['d']] = self.ev(a[i], f, env) if i < len(a) and a[i] is not None else atom(('?',))
        depth[0] += 1
        try: return self.ev(rs[0].kids[0], t, e2)
        finally: depth[0] -= 1
