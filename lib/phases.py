"""Whose phases an index ranges over: endpoint roles of phase indices, phase counts and per-phase vectors.

Per function: vertices and channel ends are merged into classes (declarations, addEdge, in/out-edge loops); an index is
tied to a class by the bound of its loop, by a modulo, or by the count it is computed from."""
from kdb import *
def last(n): return (n.cname or '').split('::')[-1] if n.k in CALLS else ''
def isdf(n): return n.k == 'CXXMemberCallExpr' and (n.cname or '').startswith('models::Dataflow::')
# accessor -> (end of the channel or None for the task itself, kind of phases)
ACCESS = {'getEdgeInPhase': ('s', 'p'), 'getEdgeOutPhase': ('t', 'p'), 'getNormIn': ('s', 'p'), 'getNormOut': ('t', 'p'),
          'getEdgeInInitPhase': ('s', 'i'), 'getEdgeOutInitPhase': ('t', 'i'), 'getVertexDuration': (None, 'p'), 'getVertexInitDuration': (None, 'i')}
COUNT = {'getEdgeInPhasesCount': ('s', 'p'), 'getEdgeOutPhasesCount': ('t', 'p'), 'getEdgeInInitPhasesCount': ('s', 'i'), 'getEdgeOutInitPhasesCount': ('t', 'i'),
         'getNi': (None, 'n'), 'getPhasesQuantity': (None, 'p'), 'getInitPhasesQuantity': (None, 'i')}
VECTOR = {'getEdgeInVector': ('s', 'p'), 'getEdgeOutVector': ('t', 'p'), 'getEdgeInitInVector': ('s', 'i'), 'getEdgeInitOutVector': ('t', 'i'),
          'getVertexPhaseDuration': (None, 'p'), 'getVertexInitPhaseDuration': (None, 'i')}
SETTER = {'setEdgeInPhases': ('s', 'p'), 'setEdgeOutPhases': ('t', 'p'), 'setEdgeInInitPhases': ('s', 'i'), 'setEdgeOutInitPhases': ('t', 'i'),
          'setVertexDuration': (None, 'p'), 'setVertexInitDuration': (None, 'i')}
LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt')

KIND = {'i': 'initial phases', 'p': 'periodic phases', 'n': 'executions per iteration', 'k': 'executions of the schedule', 'P': 'phases', 'K': 'executions'}
def fits(need, got): return need == '*' or need == got or got in {'P': 'pi', 'K': 'kn', 'p': 'kn'}.get(need, '')
_cache = {}
def of(db, f):
    k = (id(db), f.key)
    if k not in _cache: _cache[k] = Roles(db, f)
    return _cache[k]
class Roles(object):
    def __init__(self, db, f):
        self.busy = False; self.db = db; self.f = f; self.par = {}; self.edges = set(); self.defs = {}; self.guard = set()
        for d, v in f.vars.items():
            if v['init'] is not None: self.defs.setdefault(d, []).append(v['init'])
            if v.get('param'): self.defs.setdefault(d, []).append(None)
        for n in f.walk(True):
            if n.k == 'BinaryOperator' and n.op == '=' and n.kids[0].strip().k == 'DeclRefExpr': self.defs.setdefault(n.kids[0].strip().decl, []).append(n.kids[1])
            if n.k == 'CXXOperatorCallExpr' and n.op == '=' and n.args()[0].strip().k == 'DeclRefExpr': self.defs.setdefault(n.args()[0].strip().decl, []).append(n.args()[1])
        for d, v in f.vars.items():
            if ('Edge' in v['ctype'] or 'edge_desc_impl' in v['ctype']) and 'Event' not in v['ctype']: self.edge_facts(d)
        self.bounds = {}; self.tests = {}
        for n in f.walk(True):
            if n.k == 'IfStmt' and n.sub('cond') is not None and not n.macros: self.loop_bounds(n, n.sub('cond'), self.tests)
            if n.k in LOOPS and n.sub('cond') is not None: self.loop_bounds(n, n.sub('cond'))
    # ---- classes
    def find(self, k):
        while self.par.get(k, k) != k: k = self.par[k]
        return k
    def union(self, a, b):
        if a is None or b is None: return
        a, b = self.find(a), self.find(b)
        if a != b: self.par[a] = b
    def peel(self, n):
        while n is not None:
            n = n.strip()
            if n.k in CTORS and len([c for c in n.kids if c is not None]) == 1: n = [c for c in n.kids if c is not None][0]; continue
            if n.k in CALLS and last(n) in ('it2Vertex', 'it2Edge') and n.args(): n = n.args()[0]; continue
            return n
        return None
    def single(self, d):
        """the only value a local is ever given, else None"""
        x = [y for y in self.defs.get(d, ())]
        return x[0] if len(x) == 1 and not self.f.vars[d].get('param') else None
    def iterated(self, n):
        """it2X(p##count): the loop variable of an iteration macro"""
        n = n.strip() if n is not None else None
        while n is not None and n.k in CTORS and len([c for c in n.kids if c is not None]) == 1: n = [c for c in n.kids if c is not None][0].strip()
        if n is None: return False
        if n.k == 'ConditionalOperator': return self.iterated(n.kids[1])
        if n.k in CTORS: return True
        return n.k in CALLS and last(n) in ('it2Vertex', 'it2Edge', 'null_vertex')
    def stable(self, d):
        x = self.defs.get(d, ())
        if len(x) <= 1: return True
        return all(self.iterated(y) for y in x)
    def ekey(self, n):
        n = self.peel(n)
        if n is None: return None
        if n.k == 'DeclRefExpr' and n.decl in self.f.vars:
            s = self.single(n.decl)
            if s is not None:
                s = self.peel(s)
                if s is not None and s.k == 'DeclRefExpr' and s.decl in self.f.vars and s.decl != n.decl and 'iterator' not in s.type: return self.ekey(s)
            if not self.stable(n.decl): return None
            self.edges.add(('e', n.decl)); return ('e', n.decl)
        return None
    def end(self, s, e): return self.find(('end', s, e)) if e is not None else None
    def vkey(self, n):
        n = self.peel(n)
        if n is None: return None
        if n.k == 'DeclRefExpr' and n.decl in self.f.vars:
            d = n.decl
            if not self.stable(d): return None
            s = self.single(d)
            if s is not None and ('d', d) not in self.guard:
                self.guard.add(('d', d))
                r = self.vkey(s) if not self.iterated(s) else None
                self.guard.discard(('d', d))
                if r is not None: return r
            return self.find(('v', d))
        if n.k == 'MemberExpr' and n.kids and n.kids[0] is not None and n.kids[0].strip().k == 'CXXThisExpr': return self.find(('m', n.name))
        if isdf(n) and last(n) == 'getEdgeSource': return self.end('s', self.ekey(n.args()[0]))
        if isdf(n) and last(n) == 'getEdgeTarget': return self.end('t', self.ekey(n.args()[0]))
        return None
    def idkey(self, n):
        """the task a task id belongs to"""
        n = self.peel(n)
        if n is None: return None
        if isdf(n) and last(n) == 'getVertexId': return self.vkey(n.args()[0])
        if n.k == 'DeclRefExpr' and n.decl in self.f.vars and self.single(n.decl) is not None: return self.idkey(self.single(n.decl))
        return None
    def edge_facts(self, d):
        for x in self.defs.get(d, ()):
            n = self.peel(x) if x is not None else None
            if n is not None and n.k == 'ConditionalOperator': n = self.peel(n.kids[1])
            if n is None: continue
            e = ('e', d)
            if isdf(n) and last(n) in ('addEdge', 'addEdgeUnsafe') and len(n.args()) > 1 and len(self.defs[d]) == 1:
                self.edges.add(e); self.union(('end', 's', e), self.vkey(n.args()[0])); self.union(('end', 't', e), self.vkey(n.args()[1]))
            src = self.range_of(n, d)
            if src is not None and self.stable(d):
                self.edges.add(e); self.union(('end', src[0], e), self.vkey(src[1]))
    def range_of(self, n, d):
        """the vertex whose in/out edges the loop variable enumerates"""
        for _ in range(12):
            if n is None: return None
            n = self.peel(n)
            if n is None: return None
            if isdf(n):
                m = last(n)
                if m in ('getInputEdges', 'in_edges'): return 't', n.args()[0]
                if m in ('getOutputEdges', 'out_edges'): return 's', n.args()[0]
                return None
            if n.k == 'MemberExpr' and n.kids: n = n.kids[0]; continue
            if n.k == 'CXXOperatorCallExpr' and n.op == '*': n = n.args()[0]; continue
            if n.k == 'UnaryOperator' and n.op == '*': n = n.kids[0]; continue
            if n.k == 'CXXMemberCallExpr' and last(n) in ('begin', 'cbegin'): n = n.obj(); continue
            if n.k == 'DeclRefExpr' and n.decl in self.f.vars:
                v = self.f.vars[n.decl]
                if v['init'] is None: return None
                n = v['init']; continue
            return None
        return None
    def distinct(self, a, b):
        """the two classes are the two ends of some channel"""
        if a is None or b is None or a == b: return False
        return any({self.end('s', e), self.end('t', e)} == {a, b} for e in self.edges)
    # ---- counts, vectors, indices: sets of (class, kind)
    def ref(self, spec, ent):
        e, kind = spec
        k = self.vkey(ent) if e is None else self.end(e, self.ekey(ent))
        return {(k, kind)} if k is not None else set()
    def var(self, n, fn):
        d = n.decl
        if d not in self.f.vars or (fn.__name__, d) in self.guard: return set()
        self.guard.add((fn.__name__, d)); out = set()
        for x in self.defs.get(d, ()):
            if x is not None: out |= fn(x)
        self.guard.discard((fn.__name__, d)); return out
    def count(self, n):
        n = n.strip()
        if isdf(n) and last(n) in COUNT: return self.ref(COUNT[last(n)], n.args()[0])
        if n.k == 'CXXMemberCallExpr' and last(n) == 'size': return self.vector(n.obj())
        if n.k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr') and (n.op == '[]' or last(n) == 'at'):
            o, i = (n.obj(), n.args()[0]) if n.k == 'CXXMemberCallExpr' else n.args()[:2]
            if o is not None and re.search(r'map<(models::)?Vertex,', o.strip().ctype.replace('const ', '')) and n.ctype.replace('const ', '').strip(' &') == 'long':
                k = self.vkey(i); return {(k, 'k')} if k is not None else set()
        if n.k == 'DeclRefExpr': return self.var(n, self.count) or self.from_callers(n.decl)
        if n.k in CTORS and len(n.kids) == 1 and n.kids[0] is not None: return self.count(n.kids[0])
        if n.k == 'BinaryOperator' and n.op == '*': return self.count(n.kids[0]) | self.count(n.kids[1])
        if n.k == 'BinaryOperator' and n.op in ('+', '-'):
            a, b = self.count(n.kids[0]), self.count(n.kids[1])
            if a and b or n.op == '-' and b: return set()
            return a or b
        if n.k == 'ConditionalOperator': return self.count(n.kids[1]) | self.count(n.kids[2])
        return set()
    def from_callers(self, d):
        """a parameter that is the same task's count at every call"""
        v = self.f.vars.get(d)
        if v is None or not v.get('param') or len(self.defs.get(d, ())) > 1 or v['ctype'].replace('const ', '').strip(' &') not in ('long', 'int', 'unsigned long', 'unsigned int'): return set()
        pos = [i for i, p in enumerate(self.f.params) if p['d'] == d][0]; out = None
        for ck in self.db.callers.get(self.f.key, ()):
            cf = self.db.funcs[ck]
            if ck == self.f.key or ('call', ck) in self.guard: return set()
            R = of(self.db, cf)
            if R.busy: return set()
            R.busy = True
            try:
                for n in cf.walk(True):
                    if n.k in CALLS and n.callee == self.f.key and pos < len(n.args()):
                        here = set()
                        for cls, kind in R.count(n.args()[pos]):
                            for i, p in enumerate(self.f.params):
                                a = n.args()[i] if i < len(n.args()) else None
                                if a is None: continue
                                t = self.f.vars[p['d']]['ctype']
                                if t.replace('const ', '').strip(' &').endswith('models::Vertex') and R.vkey(a) == cls: here.add((self.find(('v', p['d'])), kind))
                                if t.replace('const ', '').strip(' &').endswith('models::Edge'):
                                    e = R.ekey(a)
                                    for s in 'st':
                                        if e is not None and R.end(s, e) == cls: self.edges.add(('e', p['d'])); here.add((self.end(s, ('e', p['d'])), kind))
                        out = here if out is None else out & here
            finally: R.busy = False
        return out or set()
    def vector(self, n):
        if n is None: return set()
        n = n.strip()
        if isdf(n) and last(n) in VECTOR: return self.ref(VECTOR[last(n)], n.args()[0])
        if n.k in CTORS:
            ks = [c for c in n.kids if c is not None and c.k != 'CXXDefaultArgExpr']
            if not ks: return set()
            if 'vector' not in n.ctype: return set()
            if 'vector' in ks[0].strip().ctype: return self.vector(ks[0])
            return self.count(ks[0]) if ks[0].strip().ctype.replace('const ', '') in ('int', 'long', 'unsigned long', 'unsigned int') else set()
        if n.k == 'DeclRefExpr' and n.decl in self.f.vars and 'vector' in self.f.vars[n.decl]['ctype']:
            if ('vec', n.decl) in self.guard: return set()
            out = set(self.var(n, self.vector)); self.guard.add(('vec', n.decl))
            for m in self.f.walk(True):
                if m.k == 'CXXMemberCallExpr' and last(m) in ('push_back', 'emplace_back') and m.obj() is not None and m.obj().strip().k == 'DeclRefExpr' and m.obj().strip().decl == n.decl:
                    for p in self.f.parents(m):
                        if p.k in LOOPS:
                            for d, c in self.bounds_of(p): out |= c
                            break
                if m.k == 'CXXMemberCallExpr' and last(m) in ('resize', 'assign') and m.obj() is not None and m.obj().strip().k == 'DeclRefExpr' and m.obj().strip().decl == n.decl and m.args(): out |= self.count(m.args()[0])
            self.guard.discard(('vec', n.decl)); return out
        return set()
    def loop_bounds(self, loop, c, into=None):
        into = self.bounds if into is None else into
        c = c.strip()
        if c.k == 'BinaryOperator' and c.op in ('&&', '||'):
            self.loop_bounds(loop, c.kids[0], into); self.loop_bounds(loop, c.kids[1], into); return
        if c.k == 'BinaryOperator' and c.op in ('<', '<=', '!=', '>', '>='):
            for a, b in ((c.kids[0], c.kids[1]), (c.kids[1], c.kids[0])):
                a = a.strip()
                if a.k == 'DeclRefExpr' and a.decl in self.f.vars and not self.count_like(a): into.setdefault(a.decl, []).append((loop, b, c))
    def count_like(self, a): return not self.f.writes_direct.get(a.decl) and self.single(a.decl) is not None and bool(self.count(a))
    def bounds_of(self, loop):
        for d, bs in self.bounds.items():
            for l, b, c in bs:
                if l is loop:
                    r = self.count(b)
                    if r: yield d, r
    def index(self, n, at=None):
        n = n.strip()
        if n.get('cv') is not None and n.k != 'DeclRefExpr': return set()
        if n.k in CTORS and len(n.kids) == 1 and n.kids[0] is not None: return self.index(n.kids[0], at)
        if n.k == 'BinaryOperator' and n.op in ('+', '-'):
            a, b = n.kids
            if b.strip().get('cv') is not None: return self.index(a, at)
            if n.op == '+' and a.strip().get('cv') is not None: return self.index(b, at)
            return set()
        if n.k == 'BinaryOperator' and n.op == '%': return self.count(n.kids[1])
        if n.k == 'ConditionalOperator': return self.index(n.kids[1], at) | self.index(n.kids[2], at)
        if isdf(n) and last(n) in COUNT: return self.count(n)
        if n.k == 'DeclRefExpr' and n.decl in self.f.vars:
            d = n.decl; bs = self.bounds.get(d, []) or [t for t in self.tests.get(d, []) if self.count(t[1])]
            if at is not None:
                up = set(map(id, self.f.parents(at)))
                enc = [b for b in bs if id(b[0]) in up]
                bs = enc or bs
            out = set()
            if ('ixb', d) not in self.guard:
                self.guard.add(('ixb', d))
                for l, b, c in bs: out |= self.count(b) or self.index(b, at)
                self.guard.discard(('ixb', d))
            if out: return out
            for x in self.defs.get(d, ()):
                if x is None or ('ix', d) in self.guard: continue
                self.guard.add(('ix', d)); out |= self.index(x, at) or self.count(x); self.guard.discard(('ix', d))
            return out
        return set()
    def branches(self, x):
        x = x.strip()
        if x.k == 'ConditionalOperator': return self.branches(x.kids[1]) + self.branches(x.kids[2])
        if x.k == 'DeclRefExpr' and x.decl in self.f.vars and self.single(x.decl) is not None and self.single(x.decl).strip().k == 'ConditionalOperator' and not self.f.writes_direct.get(x.decl): return self.branches(self.single(x.decl))
        return [x]
    # ---- obligations: (what, node, required set, found set)
    def sites(self):
        for n in self.f.walk(True):
            if isdf(n) and last(n) in ACCESS and len(n.args()) > 1 and n.args()[1] is not None:
                for x in self.branches(n.args()[1]): yield 'access', n, self.ref(ACCESS[last(n)], n.args()[0]), self.index(x, n)
            if isdf(n) and last(n) in SETTER and len(n.args()) > 1:
                yield 'vector', n, self.ref(SETTER[last(n)], n.args()[0]), self.vector(n.args()[1])
            if n.k in CALLS or n.k in CTORS:
                a = None
                if last(n) == 'getEventGraphVertex' or n.k in CTORS and n.ctype.replace('const ', '').endswith('SchedulingEvent'): a = [x for x in n.args() if x is not None and x.k != 'CXXDefaultArgExpr']
                if a and len(a) > 1 and 'Event' not in a[0].strip().ctype:
                    k = self.idkey(a[0])
                    if k is not None:
                        if len(a) == 3: yield 'event-phase', a[1], {(k, 'P')}, self.index(a[1], n)
                        yield 'event-execution', a[-1], {(k, 'K')}, self.index(a[-1], n)
            o = i = None
            if n.k == 'CXXOperatorCallExpr' and n.op == '[]' and len(n.args()) > 1: o, i = n.args()[0], n.args()[1]
            if n.k == 'CXXMemberCallExpr' and last(n) == 'at' and n.args(): o, i = n.obj(), n.args()[0]
            if o is not None and 'vector' in o.strip().ctype:
                r = self.vector(o)
                if r: yield 'subscript', n, r, self.index(i, n)
            if n.k in CALLS and last(n) == 'make_pair' and len(n.args()) == 2 and 'Vertex' in n.args()[0].strip().ctype:
                k = self.vkey(n.args()[0])
                if k is not None: yield 'pair', n, {(k, '*')}, self.index(n.args()[1], n)
    def judge(self, need, got):
        """None: nothing known; True: agrees; else a reason"""
        if not need or not got: return None
        for k, kind in need:
            if any(g == k and fits(kind, gk) for g, gk in got): return True
        for k, kind in need:
            for g, gk in got:
                if self.distinct(k, g): return 'ranges over the phases of the task at the other end of the channel'
                if g == k and not fits(kind, gk): return 'ranges over the %s of the task where its %s are meant' % (KIND[gk], KIND[kind])
        return None

    # ---- interval of an index: (lowest constant or None, offset of the highest value from the count or None)
    def interval(self, n, at):
        n = n.strip(); off = 0
        while n.k == 'BinaryOperator' and n.op in ('+', '-'):
            a, b = n.kids[0].strip(), n.kids[1].strip()
            if b.get('cv') is not None: off += int(b.get('cv')) * (1 if n.op == '+' else -1); n = a
            elif n.op == '+' and a.get('cv') is not None: off += int(a.get('cv')); n = b
            else: return None
        if n.k == 'BinaryOperator' and n.op == '%' and self.count(n.kids[1]): return off, off - 1, n
        if n.k != 'DeclRefExpr' or n.decl not in self.f.vars: return None
        d = n.decl; up = set(map(id, self.f.parents(at)))
        bs = [b for b in self.bounds.get(d, []) if id(b[0]) in up and self.count(b[1])]
        if len(bs) != 1 or bs[0][0].k != 'ForStmt' or bs[0][2].kids[0].strip().get('x') is not None: return None
        loop, b, c = bs[0]
        # counted up by one from a constant, nowhere else modified
        ws = self.f.writes_direct.get(d, [])
        ups = [w for w in ws if w.k == 'UnaryOperator' and w.op == '++']
        inits = [x for x in self.defs.get(d, ()) if x is not None]
        if any(w.k == 'UnaryOperator' and w.op != '++' or w.k == 'CompoundAssignOperator' for w in ws) or not ups: return None
        lows = [int(x.strip().get('cv') if x.strip().get('cv') is not None else x.get('cv')) for x in inits if x.get('cv') is not None or x.strip().get('cv') is not None]
        if len(lows) != len(inits) or not lows: return None
        lo = min(lows)
        left = c.kids[0].strip().k == 'DeclRefExpr' and c.kids[0].strip().decl == d
        op = c.op if left else {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!='}[c.op]
        if op not in ('<', '<=', '!='): return None
        bo = self.const_off(b)
        if bo is None: return None
        hi = bo + (0 if op == '<=' else -1)
        return lo + off, hi + off, n
    def const_off(self, b):
        """b = count + constant -> the constant"""
        b = b.strip(); off = 0
        for _ in range(4):
            if b.k == 'BinaryOperator' and b.op in ('+', '-') and b.kids[1].strip().get('cv') is not None:
                off += int(b.kids[1].strip().get('cv')) * (1 if b.op == '+' else -1); b = b.kids[0].strip(); continue
            if b.k == 'DeclRefExpr' and b.decl in self.f.vars and self.single(b.decl) is not None and not self.f.writes_direct.get(b.decl): b = self.single(b.decl).strip(); continue
            break
        if isdf(b) and last(b) in COUNT or b.k == 'CXXMemberCallExpr' and last(b) == 'size': return off
        return None
    def low_guard(self, d, at, lo):
        """the lowest value of the variable at this point, given the tests around it"""
        kid = at
        for p in self.f.parents(at):
            if p.k in LOOPS and any(b[0] is p for b in self.bounds.get(d, [])): break
            conds = []
            if p.k == 'IfStmt' and p.sub('cond') is not None and p.sub('cond') is not kid:
                conds = [(p.sub('cond'), p.sub('then') is kid)]
            if p.k == 'ConditionalOperator' and p.kids[0] is not kid: conds = [(p.kids[0], p.kids[1] is kid)]
            if p.k == 'BinaryOperator' and p.op in ('&&', '||') and p.kids[1] is kid: conds = [(p.kids[0], p.op == '&&')]
            if p.k == 'CompoundStmt':
                for s in p.kids:
                    if s is kid or s is None: break
                    if s.k == 'IfStmt' and s.sub('cond') is not None and s.sub('then') is not None and s.sub('else') is None:
                        t = s.sub('then'); t = t.kids[-1] if t.k == 'CompoundStmt' and t.kids else t
                        if t is not None and t.k in ('ContinueStmt', 'ReturnStmt', 'BreakStmt'): conds.append((s.sub('cond'), False))
            for c, pos in conds: lo = self.refine(c, pos, d, lo)
            kid = p
        return lo
    def refine(self, c, pos, d, lo):
        c = c.strip()
        if c.k == 'UnaryOperator' and c.op == '!': return self.refine(c.kids[0], not pos, d, lo)
        if c.k == 'BinaryOperator' and c.op in ('&&', '||'):
            if (c.op == '&&') == pos:
                lo = self.refine(c.kids[0], pos, d, lo); lo = self.refine(c.kids[1], pos, d, lo)
            return lo
        if c.k != 'BinaryOperator' or len(c.kids) != 2: return lo
        a, b, op = c.kids[0].strip(), c.kids[1].strip(), c.op
        if b.k == 'DeclRefExpr' and b.decl == d: a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if not (a.k == 'DeclRefExpr' and a.decl == d) or b.get('cv') is None: return lo
        v = int(b.get('cv'))
        if not pos: op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}.get(op, op)
        if op == '>': return max(lo, v + 1)
        if op == '>=': return max(lo, v)
        if op == '!=' and v == lo: return lo + 1
        if op == '==': return max(lo, v)
        return lo
