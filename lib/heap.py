"""Effects of functions on objects reached from their parameters: which slot, under which key, gets which value, under which conditions.

Channels are identified by where they come from: ('edge', 'in'|'out'|'all', task, n) for the n-th loop over the inputs, outputs or all channels."""
from canon import *
import collections
Eff = collections.namedtuple('Eff', 'op slot key value node guards f')
QUERIES = {'getInputEdges': 'in', 'in_edges': 'in', 'getOutputEdges': 'out', 'out_edges': 'out', 'getEdges': 'all', 'edges': 'all'}
TASKQ = {'getVertices': 'task', 'vertices': 'task'}
RANGELOOPS = ('CXXForRangeStmt',)
class Heap(Canon):
    def __init__(self, db, depth=5, roles=None): Canon.__init__(self, db, depth, True); self.roles = roles or {}; self.dom = {}
    # ---- where the channels and tasks of a function come from
    def sources(self, f, d, env, seen=None):
        """the graph queries a local takes its values from: {(kind, canonical argument)} or None"""
        seen = seen if seen is not None else set()
        if d in seen: return set()
        seen.add(d); v = f.vars.get(d)
        if v is None or v.get('param'): return {('?', None)}
        out = set()
        vals = [v['init']] if v['init'] is not None else []
        for n in f.writes_direct.get(d, ()):
            if n.k == 'BinaryOperator' and n.op == '=': vals.append(n.kids[1])
        for n in f.nodes:
            if n.k == 'CXXOperatorCallExpr' and n.op == '=' and n.args() and n.args()[0].strip().k == 'DeclRefExpr' and n.args()[0].strip().decl == d: vals.append(n.args()[1])
        for x in vals: out |= self.from_expr(f, x, env, seen)
        return out
    def from_expr(self, f, x, env, seen):
        x = x.strip()
        if x.k == 'CXXMemberCallExpr' and (last(x) in QUERIES or last(x) in TASKQ) and ('Dataflow' in (x.cname or '')):
            a = x.args()
            return {((QUERIES.get(last(x)) or TASKQ[last(x)]), self.expr(a[0], f, env) if a else None)}
        if x.k == 'DeclRefExpr':
            if x.decl in env and env[x.decl] != Q:
                c = env[x.decl]
                return {('c', c)}
            return self.sources(f, x.decl, env, seen) if x.decl in f.vars else {('?', None)}
        if x.k in CTORS and not [k for k in x.kids if k is not None]: return set()      # a handle to nothing
        if x.k in ('MemberExpr', 'UnaryOperator', 'ConditionalOperator') or x.k in CTORS or x.k in XCASTS or x.k in TRANSP or x.k == 'CXXOperatorCallExpr' or (x.k in CALLS and last(x) in ('it2Edge', 'it2Vertex', 'begin', 'end', 'cbegin', 'cend')):
            ks = x.kids[1:] if x.k == 'ConditionalOperator' else ([x.obj()] if x.k == 'CXXMemberCallExpr' else x.args() if x.k in CALLS else x.kids)
            if x.k == 'MemberExpr' and x.kids and x.kids[0].strip().k == 'CXXThisExpr': return {('m', x.name)}
            out = set()
            for k in ks:
                if k is not None: out |= self.from_expr(f, k, env, seen)
            return out
        return {('?', None)}
    def domains(self, f, env):
        """env plus a value for every channel, task or map entry a loop runs over"""
        e2 = dict(env)
        for d, v in sorted(f.vars.items()):
            if v.get('param') or d in e2: continue
            t = v['ctype'].replace('const ', '').strip(' &')
            s = t.split('::')[-1]
            if s in ('Edge', 'Vertex'):
                src = self.sources(f, d, env)
                if len(src) == 1:
                    k, a = src.pop()
                    if k in ('in', 'out', 'all', 'task'):
                        e2[d] = ('edge' if k != 'task' else 'vert', k, a, (f.key, d))
        for n in f.walk(True):
            if n.k == 'CXXForRangeStmt':
                lv = [x for x in n.walk() if x.k == 'DeclStmt']
                r = n.sub('range')
                for x in lv:
                    for v in x.d['vars']:
                        d = v['d']
                        if d in e2 or f.vars[d]['name'].startswith('__'): continue
                        src = self.sources(f, d, e2)
                        if len(src) == 1:
                            k, a = list(src)[0]
                            if k == 'm': e2[d] = ('entry', a, (f.key, d))
        return e2
    def field(self, b, name):
        if isinstance(b, tuple) and b[:1] == ('entry',) and name == 'first':
            r = self.roles.get(b[1])
            return ('edge', r, ('m', 'actor'), b[2]) if r else ('f', b, 'first')
        if isinstance(b, tuple) and b[:1] == ('entry',) and name == 'second': return ('at', ('m', b[1]), self.field(b, 'first'))
        if isinstance(b, tuple) and b[:2] == ('new', 'pair') and len(b) == 4: return b[2] if name == 'first' else b[3] if name == 'second' else Q
        return Canon.field(self, b, name)
    def expr(self, n, f, env, depth=None):
        if n is not None:
            m = n.strip()
            if (m.k in CTORS or m.k == 'InitListExpr') and m.ctype.replace('const ', '').startswith('std::pair<'):
                k = [x for x in m.kids if x is not None]
                if len(k) == 2: return ('new', 'pair', self.expr(k[0], f, env, depth), self.expr(k[1], f, env, depth))
            if m.k == 'CallExpr' and last(m) == 'make_pair' and len(m.args()) == 2: return ('new', 'pair') + tuple(self.expr(x, f, env, depth) for x in m.args())
            if m.k == 'CXXMemberCallExpr' and last(m) in ('front', 'begin') and m.obj() is not None and (m.cname or '').startswith('std::') and last(m) == 'front': return ('at', self.expr(m.obj(), f, env, depth), 0)
        return Canon.expr(self, n, f, env, depth)
    # ---- effects
    def effects(self, f, env, depth=4, guards=(), top=None):
        env = self.domains(f, env)
        for n in f.walk():
            g = None
            if n.k in ('BinaryOperator', 'CXXOperatorCallExpr', 'CompoundAssignOperator') and n.op in ('=', '+=', '-='):
                a = n.args() if n.k == 'CXXOperatorCallExpr' else n.kids
                t = self.expr(a[0], f, env)
                if self.outside(t):
                    v = self.expr(a[1], f, env)
                    if n.op == '+=': v = add(t, v)
                    if n.op == '-=': v = add(t, v, -1)
                    yield Eff('set', t, None, v, top or n, guards + tuple(self.guards(f, n, env)), f)
            elif n.k == 'UnaryOperator' and n.op in ('++', '--'):
                t = self.expr(n.kids[0], f, env)
                if self.outside(t): yield Eff('set', t, None, add(t, 1 if n.op == '++' else -1), top or n, guards + tuple(self.guards(f, n, env)), f)
            elif n.k == 'CXXMemberCallExpr' and n.obj() is not None and (n.cname or '').startswith('std::') and last(n) in ('push_back', 'emplace_back', 'push_front', 'pop_front', 'pop_back', 'erase', 'clear', 'insert', 'emplace', 'push', 'pop'):
                t = self.expr(n.obj(), f, env)
                if self.outside(t): yield Eff(last(n), t, None, tuple(self.expr(x, f, env) for x in n.args()), top or n, guards + tuple(self.guards(f, n, env)), f)
            elif n.k in CALLS and depth:
                ts = self.db.targets(n)
                if not ts or ts[0].key == f.key: continue
                t = ts[0]; this = self.expr(n.obj(), f, env) if n.k == 'CXXMemberCallExpr' and n.obj() is not None else None
                if t.rec.get('const'): continue
                if t.cls not in TRACKED and not any(('State' in t.types[p['t']][1]) for p in t.params): continue
                e2 = self.bind(t, [self.expr(x, f, env) for x in n.args()], this)
                for x in self.effects(t, e2, depth - 1, guards + tuple(self.guards(f, n, env)), top or n): yield x
    def outside(self, t):
        """a place in an object that outlives the call"""
        while isinstance(t, tuple) and t and t[0] in ('at', 'f', 'deref', 'each'): t = t[1]
        return isinstance(t, tuple) and t[:1] in (('m',), ('p',), ('this',))
    def guards(self, f, n, env):
        """(condition node, outcome, canonical comparison) of the ifs around n, and of the jumps out of its loops before it"""
        out = []; c = n; p = n.parent
        while p is not None:
            if p.k == 'IfStmt' and not self.debug(p):
                cond = p.sub('cond')
                if cond is not None and c is not cond: out.append(self.guard(f, cond, c is not p.sub('else'), env))
            elif p.k == 'ConditionalOperator' and c is not p.kids[0]: out.append(self.guard(f, p.kids[0], c is p.kids[1], env))
            elif p.k == 'CompoundStmt':
                for s in p.kids:
                    if s is c: break
                    if s is None: continue
                    for j in s.walk():
                        if j.k in ('ContinueStmt', 'BreakStmt', 'ReturnStmt') and self.leaves(j, s) and not self.debug(s):
                            q = j.parent; cc = j
                            while q is not None and q is not p:
                                if q.k == 'IfStmt' and cc is not q.sub('cond'): out.append(self.guard(f, q.sub('cond'), cc is q.sub('else'), env))
                                cc = q; q = q.parent
            c = p; p = p.parent
        return out
    def leaves(self, j, s):
        if j.k == 'ReturnStmt': return True
        q = j.parent
        while q is not None and q is not s.parent:
            if q.k in LOOPS or q.k == 'CXXForRangeStmt' or (q.k == 'SwitchStmt' and j.k == 'BreakStmt'): return False
            q = q.parent
        return True
    def debug(self, p): return any('VERBOSE' in m or 'assert' in m for m in p.macros)
    def debug_in(self, n):
        p = n
        while p is not None:
            if p.macros and any('VERBOSE' in m or m == 'assert' for m in p.macros): return True
            p = p.parent
        return False
    def guard(self, f, cond, pol, env):
        r = self.compare(cond, f, env)
        if r is None:
            c = cond.strip(); pol2 = pol
            while c.k == 'UnaryOperator' and c.op == '!': c = c.kids[0].strip(); pol2 = not pol2
            return (cond, pol2, ('true', self.expr(c, f, env)))
        return (cond, pol, r)
TRACKED = {'State', 'Actor'}
