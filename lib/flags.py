"""Abstract interpretation of the three computation flags of models::Dataflow.
user state = (readonly, norm, rep, events) with events a frozenset of write events performed so far."""
from kdb import *
from engine import *
import graphmodel as gm

def own_key(f, n, depth=3):
    """erases the entry of the channel the method is about"""
    a = [x for x in n.args() if x is not None]
    if len(a) != 1: return False
    e = a[0].strip()
    while e.k == 'DeclRefExpr' and depth and e.decl in f.vars and f.vars[e.decl]['init'] is not None: e = f.vars[e.decl]['init'].strip(); depth -= 1
    if e.k not in CALLS or (e.cname or '').split('::')[-1] != 'getEdgeId': return False
    return any(m.k == 'DeclRefExpr' and m.decl in {p['d'] for p in f.params} for m in e.walk())

class FlagHooks(Hooks):
    def __init__(self, db, fields, on_write=None, on_read=None):
        self.db = db; self.role = {v: k for k, v in fields.items()}; self.idx = {'readonly': 0, 'norm': 1, 'rep': 2}
        self.on_write = on_write; self.on_read = on_read; self.memo = {}; self.depth = 0; self.stack = []
    def tracks(self, f, d, var): return True
    def write(self, f, n, st, ev):
        if self.on_write: self.on_write(self.top, f, n, st.user, ev)
        u = st.user
        return [st.with_user(u[:3] + (u[3] | {ev},))]
    def transfer(self, eng, f, n, st):
        u = st.user
        # assignment to a member of this
        if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='):
            m = gm.this_member(n.kids[0])
            if m in self.role:
                i = self.idx[self.role[m]]
                out = []
                for v, s in eng.full_logical(f, n.kids[1], st):
                    w = list(s.user); w[i] = v; out.append(s.with_user(tuple(w)))
                return out
            if m is not None: return self.write(f, n, st, 'member:' + m)
        if n.k == 'CXXOperatorCallExpr' and n.op == '=':
            m = gm.this_member(n.args()[0])
            if m is not None: return self.write(f, n, st, 'member:' + m)
        if n.k == 'CXXMemberCallExpr' and not n.get('cconst') and n.obj() is not None:
            m = gm.this_member(n.obj())
            if m is not None and m not in self.role:
                last = n.cname.split('::')[-1]
                if last in ('clear', 'erase', 'insert', 'emplace', 'push_back', 'swap', 'resize', 'assign', 'operator[]'):
                    if last == 'clear' or last == 'erase' and own_key(f, n): return self.write(f, n, st, 'clear:' + m)
                    return self.write(f, n, st, 'member:' + m)
        t = gm.put_tag(n)
        if t: return self.write(f, n, st, 'put:' + t)
        t = gm.struct_op(n)
        if t: return self.write(f, n, st, 'graph:' + t)
        if self.on_read:
            t = gm.get_tag(n)
            if t: self.on_read(self.top, f, n, st.user, t)
        # call of another method on the same object
        if n.k == 'CXXMemberCallExpr' and n.obj() is not None and n.obj().strip().k == 'CXXThisExpr':
            for callee in self.db.targets(n):
                if callee.cls == gm.CLS and callee.key not in self.stack:
                    out = []
                    for s2 in self.call(eng, callee, st.user):
                        x = st.with_user(s2[0])
                        if s2[1] is not None: x = x.set(('n', n.i), s2[1])
                        out.append(x)
                    return out
            return [st]
        return [st]
    def value(self, eng, f, n, st):
        m = gm.this_member(n) if n.k == 'MemberExpr' else None
        if m in self.role: return [(st.user[self.idx[self.role[m]]], st)]
        return None
    def call(self, eng, callee, u):
        k = (callee.key, u, self.top.key if self.on_write or self.on_read else None)
        if k in self.memo: return self.memo[k]
        self.stack.append(callee.key)
        sub = Engine(self.db, self)
        r = {(s.user, s.get(('ret',))) for s in sub.run(callee, [mk(u)])}
        self.stack.pop()
        self.memo[k] = r
        return r
    def summary(self, f, u):
        """exit user states of method f started in u"""
        self.top = f; self.stack = [f.key]
        return {s.user for s in Engine(self.db, self).run(f, [mk(u)])}
