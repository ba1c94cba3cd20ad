"""Which end of a channel the quantities multiplied and divided in one term belong to.

Factors of a term are traced through single-assignment locals, casts, sums (distributed) and parameters (at each call)
to the per-task and per-end quantities of a graph; the ends are the classes of phases.Roles."""
import re, itertools
from kdb import *
import phases
from phases import last, isdf
# accessor -> end of the channel whose quantity it is (None: of the task itself)
FACT = {'getNi': None, 'getPhasesQuantity': None, 'getInitPhasesQuantity': None, 'getZi': None, 'getVertexTotalDuration': None, 'getReentrancyFactor': None,
        'getEdgeIn': 's', 'getEdgeOut': 't', 'getEdgeInPhase': 's', 'getEdgeOutPhase': 't', 'getNormIn': 's', 'getNormOut': 't',
        'getEdgeInPhasesCount': 's', 'getEdgeOutPhasesCount': 't', 'getVertexDuration': None}
SAME = {'getEdgeInPhasesCount': 'getPhasesQuantity', 'getEdgeOutPhasesCount': 'getPhasesQuantity', 'getVertexDuration': 'getVertexTotalDuration'}
RATES = ({'getEdgeIn', 'getEdgeInPhase', 'getNormIn'}, {'getEdgeOut', 'getEdgeOutPhase', 'getNormOut'})
NUM = ('long', 'int', 'unsigned long', 'unsigned int', 'double', 'long double', 'float', 'long long', 'unsigned long long', '__int128')
LIMIT = 64

def number(ct): return ct.replace('const ', '').strip(' &') in NUM or 'Fraction' in ct or 'rational' in ct
class Leaf(object):
    """what: quantity, sign: +1 factor / -1 divisor, cls: end class, ent: ('v'|'s'|'t', node) naming the end, node"""
    __slots__ = ('what', 'sign', 'cls', 'node', 'par')
    def __init__(self, what, sign, cls, node, par=None): self.what = what; self.sign = sign; self.cls = cls; self.node = node; self.par = par
class Terms(object):
    def __init__(self, db, f): self.db = db; self.f = f; self.R = phases.of(db, f)
    def core(self, n):
        while n is not None:
            n = n.strip()
            if n.k in XCASTS and n.kids: n = n.kids[0]; continue
            k = [x for x in n.kids if x is not None]
            if n.k in CTORS and len(k) == 1: n = k[0]; continue
            return n
        return None
    def leaf(self, n):
        """(quantity, class) of a per-end quantity"""
        R = self.R
        if isdf(n) and last(n) in FACT and n.args():
            e = FACT[last(n)]; a = n.args()[0]
            return SAME.get(last(n), last(n)), (R.vkey(a) if e is None else R.end(e, R.ekey(a)))
        if n.k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr') and (n.op == '[]' or last(n) == 'at'):
            o, i = (n.obj(), n.args()[0]) if n.k == 'CXXMemberCallExpr' else n.args()[:2]
            if o is not None and number(n.ctype):
                o = o.strip(); c = o.ctype.replace('const ', '')
                k = R.vkey(i) if re.search(r'map<(models::)?Vertex,', c) else R.idkey(i) if re.search(r'(map<(unsigned )?long,|vector<)', c) else None
                if k is not None: return 'values of ' + (o.name or o.text())[:40], k
        return None
    def expand(self, n, sign=1, guard=()):
        """list of alternatives (distributed sums), each a list of leaves"""
        n = self.core(n)
        if n is None: return [[]]
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op in ('*', '/'):
            a, b = n.kids if n.k == 'BinaryOperator' else (n.args() + [None, None])[:2]
            if a is None or b is None: return [[]]
            A = self.expand(a, sign, guard); B = self.expand(b, sign if n.op == '*' else -sign, guard)
            out = [x + y for x in A for y in B]
            return out[:LIMIT]
        if n.k == 'UnaryOperator' and n.op in '-+': return self.expand(n.kids[0], sign, guard)
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op in ('+', '-'):
            a, b = n.kids if n.k == 'BinaryOperator' else (n.args() + [None, None])[:2]
            if a is None or b is None: return [[]]
            return (self.expand(a, sign, guard) + self.expand(b, sign, guard))[:LIMIT]
        if n.k == 'ConditionalOperator': return (self.expand(n.kids[1], sign, guard) + self.expand(n.kids[2], sign, guard))[:LIMIT]
        if n.k in CALLS and last(n) == 'division' and len(n.args()) == 2:
            return [x + y for x in self.expand(n.args()[0], sign, guard) for y in self.expand(n.args()[1], -sign, guard)][:LIMIT]
        if n.k in CALLS and last(n) in ('ceil', 'floor', 'round') and len(n.args()) == 1: return self.expand(n.args()[0], sign, guard)
        l = self.leaf(n)
        if l is not None: return [[Leaf(l[0], sign, l[1], n)]]
        if n.k == 'DeclRefExpr' and n.decl in self.f.vars and n.decl not in guard:
            v = self.f.vars[n.decl]; d = self.R.defs.get(n.decl, [])
            if v.get('param'):
                if d == [None] and number(v['ctype']): return [[Leaf(None, sign, None, n, n.decl)]]
                return [[]]
            if len(d) == 1 and d[0] is not None and not self.stepped(n.decl): return self.expand(d[0], sign, guard + (n.decl,))
        return [[]]
    def stepped(self, decl):
        """changed by ++, += and the like"""
        if not hasattr(self, 'steps'):
            self.steps = set()
            for n in self.f.walk(True):
                if n.k == 'CompoundAssignOperator' and n.kids[0].strip().k == 'DeclRefExpr': self.steps.add(n.kids[0].strip().decl)
                if n.k == 'UnaryOperator' and n.op in ('++', '--') and n.kids[0].strip().k == 'DeclRefExpr': self.steps.add(n.kids[0].strip().decl)
        return decl in self.steps
    def roots(self):
        for n in self.f.walk(True):
            if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op in ('*', '/') and len([k for k in n.kids if k is not None]) >= 2:
                p = n.parent
                while p is not None and (p.k in TRANSP or p.k in XCASTS): p = p.parent
                if p is not None and p.k == 'BinaryOperator' and p.op in ('*', '/'): continue
                yield n
            if n.k == 'CompoundAssignOperator' and n.op in ('*=', '/='): yield n
    def terms(self):
        for n in self.roots():
            alts = self.expand(n) if n.k != 'CompoundAssignOperator' else [x + y for x in self.expand(n.kids[0]) for y in self.expand(n.kids[1], 1 if n.op == '*=' else -1)]
            for a in alts:
                if len(a) >= 2: yield n, a

def conflict(R, leaves):
    """two leaves whose ends are the two ends of one channel, unless the term is a ratio or product of the same quantities of both"""
    t = [l for l in leaves if l.what and l.cls is not None]
    for a, b in itertools.combinations(sorted({l.cls for l in t}, key=str), 2):
        if not R.distinct(a, b): continue
        A = sorted(l.what for l in t if l.cls == a); B = sorted(l.what for l in t if l.cls == b)
        if A == B: continue
        if any(x.sign != y.sign and any(x.what in RATES[i] and y.what in RATES[1 - i] for i in (0, 1)) for x in t if x.cls == a for y in t if y.cls == b): continue
        if any(x.sign != y.sign and x.what == y.what for x in t if x.cls == a for y in t if y.cls == b): continue
        x = [l for l in t if l.cls == a][0]; y = [l for l in t if l.cls == b][0]
        return x, y
    return None

def lift(T, call, C, leaves):
    """the leaves of a term of T.f seen from a call of T.f in C.f (alternatives)"""
    args = call.args(); pos = {p['d']: i for i, p in enumerate(T.f.params)}
    outs = [[]]
    for l in leaves:
        if l.par is not None:
            a = args[pos[l.par]] if pos[l.par] < len(args) else None
            alts = C.expand(a, l.sign) if a is not None else [[]]
            outs = [o + x for o in outs for x in alts][:LIMIT]; continue
        k = None
        for d, i in pos.items():
            a = args[i] if i < len(args) else None
            if a is None or l.cls is None: continue
            t = T.f.vars[d]['ctype'].replace('const ', '').strip(' &')
            if t.endswith('Vertex') and T.R.find(('v', d)) == l.cls: k = C.R.vkey(a)
            if t.endswith('Edge'):
                for s in 'st':
                    if T.R.end(s, ('e', d)) == l.cls: k = C.R.end(s, C.R.ekey(a))
        outs = [o + [Leaf(l.what, l.sign, k, l.node)] for o in outs]
    return outs
