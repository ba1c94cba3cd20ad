"""Interprocedural typestate of graph objects: which of (frozen, normalised, repetition vector) hold for every graph
variable, on every path.  Every Dataflow method is interpreted from its body; nothing about the protocol is hard-wired."""
from kdb import *
from engine import *
import graphmodel as gm

def graph_type(ct):
    t = ct.replace('const', '').replace('*', '').replace('&', '').strip()
    return t == gm.CLS
def graph_ptr(ct): return graph_type(ct) and ('*' in ct or '&' in ct)

class GraphState(Hooks):
    def __init__(self, db, fields, report):
        self.db = db; self.role = {v: i for i, v in enumerate(fields[r] for r in ('readonly', 'norm', 'rep'))}
        self.report = report; self.memo = {}; self.stack = []; self.relevant = {}; self.overflow = set(); self.analysed = set(); self.sites = set()
        self.passed = set()
    def memo_for(self, kind):
        """separate summaries per kind of entry, so that every entry kind reports its own sites"""
        self.memos = getattr(self, 'memos', {}); self.memo = self.memos.setdefault(kind, {})
    # ---- graph expressions
    def root(self, f, n, depth=0):
        if n is None or depth > 8: return None
        n = n.strip()
        if n.k == 'CXXThisExpr': return ('this',) if f.cls == gm.CLS else None
        if n.k == 'UnaryOperator' and n.op in ('*', '&'): return self.root(f, n.kids[0], depth + 1)
        if n.k == 'DeclRefExpr' and n.decl in f.vars:
            v = f.vars[n.decl]
            if not graph_type(v['ctype']): return None
            if v['init'] is not None and not v['param'] and n.decl not in f.writes_direct:
                i = v['init'].strip()
                if graph_ptr(v['ctype']) and (i.k in ('DeclRefExpr', 'CXXThisExpr') or (i.k == 'UnaryOperator' and i.op in '*&')):
                    return self.root(f, v['init'], depth + 1)
            return ('v', n.decl)
        if n.k in CALLS: return ('n', n.i)
        return None
    def get(self, st, r):
        if r is None: return None
        for k, v in st.user:
            if k == r: return v
        return None
    def put(self, st, r, v):
        u = frozenset((k, x) for k, x in st.user if k != r)
        if v is not None: u = u | {(r, v)}
        return st.with_user(u)
    def tracks(self, f, d, var):
        k = (f.key, d)
        if k not in self.relevant:
            self.relevant[k] = any(self.touches(f, x) for x in self.sources(f, d))
        return self.relevant[k]
    def sources(self, f, d):
        v = f.vars[d]
        if v['init'] is not None: yield v['init']
        for w in f.writes_direct.get(d, ()):
            for c in w.kids[1:]:
                if c is not None: yield c
    def touches(self, f, e):
        for m in e.walk():
            if m.k in CALLS and any(graph_type(a.ctype) for a in [x for x in m.args() if x is not None] + ([m.obj()] if m.obj() is not None else [])):
                return True
        return False
    # ---- transfer
    def transfer(self, eng, f, n, st):
        # flags of this
        if f.cls == gm.CLS and n.k == 'BinaryOperator' and n.op == '=':
            m = gm.this_member(n.kids[0])
            if m in self.role:
                cur = self.get(st, ('this',))
                if cur is None: return [st]
                out = []
                for v, s in eng.full_logical(f, n.kids[1], st):
                    w = list(self.get(s, ('this',))); w[self.role[m]] = v; out.append(self.put(s, ('this',), tuple(w)))
                return out
        if n.k == 'DeclStmt':
            for v in n.d['vars']:
                var = f.vars.get(v['d'])
                if var and graph_type(var['ctype']):
                    st = self.bind(f, ('v', v['d']), var['init'], st, self.root(f, None) )
            return [st]
        if n.k == 'BinaryOperator' and n.op == '=' and n.kids[0].strip().k == 'DeclRefExpr' and graph_ptr(n.kids[0].strip().ctype):
            return [self.bind(f, ('v', n.kids[0].strip().decl), n.kids[1], st, 'assign')]
        if n.k == 'ReturnStmt': return [st]
        if n.k in CALLS or n.k == 'CXXConstructExpr':
            return self.call(eng, f, n, st)
        return [st]
    def bind(self, f, r, init, st, how):
        if init is None: return self.put(st, r, None)
        i = init.strip(False)
        while i.k in TRANSP and i.kids and i.kids[0] is not None: i = i.kids[0]
        i2 = init.strip()
        if i2.k == 'CXXNewExpr' or i.k in CTORS:
            c = i if i.k in CTORS else next((x for x in i2.walk() if x.k in CTORS), None)
            if c is not None and graph_type(c.ctype):
                if c.get('copy') or (c.args() and c.args()[0] is not None and graph_type(c.args()[0].strip().ctype)):
                    return self.put(st, r, self.get(st, self.root(f, c.args()[0])))
                return self.put(st, r, (False, False, False))
            return self.put(st, r, None)
        src = self.root(f, init)
        if src is not None and src[0] == 'n': return self.put(st, r, self.get(st, src))
        if src == r: return st
        if src is not None and how != 'assign' and self.root_of_decl(f, r) == src: return st      # pure alias
        if src is not None:                                                                        # re-pointed: both unknown
            st = self.put(st, src, None)
        return self.put(st, r, None)
    def root_of_decl(self, f, r):
        v = f.vars[r[1]]
        if v['init'] is None or r[1] in f.writes_direct: return r
        i = v['init'].strip()
        if i.k in ('DeclRefExpr', 'CXXThisExpr') or (i.k == 'UnaryOperator' and i.op in '*&'):
            return self.root(f, v['init']) or r
        return r
    def call(self, eng, f, n, st):
        ts = [t for t in self.db.targets(n) if t.blocks]
        if not ts: return [st]
        o = n.obj()
        member = o is not None and graph_type(o.strip().ctype)
        roots = {}
        args = n.args()
        if n.k == 'CXXOperatorCallExpr': return [st]
        outs = []
        for t in ts:
            binding = []
            if member and t.cls == gm.CLS: binding.append((('this',), self.root(f, o)))
            for p, a in zip(t.params, args):
                ct = t.types[p['t']][1]
                if graph_ptr(ct) and a is not None: binding.append((('v', p['d']), self.root(f, a)))
            seen = set(); b2 = []
            for k, r in binding:
                s = self.get(st, r)
                if s is None or r in seen: continue
                seen.add(r); b2.append((k, r, s))
            returns_graph = graph_ptr(t.retctype)
            if not b2 and not returns_graph:
                outs.append(st); continue
            res = self.summary(t, frozenset((k, s) for k, r, s in b2))
            if res is None: outs.append(st); continue
            self.sites.add((f.key, n.i))
            if not res:
                self.report(self, f, n, t, b2, self.stack)
                continue
            self.passed.add((f.key, n.i))
            for u, ret in res:
                d = dict(u); x = st
                for k, r, s in b2: x = self.put(x, r, d.get(k))
                if ret is not None: x = x.set(('n', n.i), ret)
                if returns_graph: x = self.put(x, ('n', n.i), d.get(('ret',)))
                outs.append(x)
        return list(dict.fromkeys(outs))
    def summary(self, t, u):
        k = (t.key, u)
        if k in self.memo: return self.memo[k]
        if any(x[0] == t.key for x in self.stack) or len(self.stack) > 25: return None
        self.stack.append((t.key, u)); self.analysed.add(t.key)
        eng = Engine(self.db, self)
        eng.LIMIT = 60000
        keys = {x[0] for x in u}
        exits = eng.run(t, [mk(u)])
        self.stack.pop()
        if eng.overflow: self.overflow.add(t.key); self.memo[k] = None; return None
        r = set()
        for s in exits:
            d = frozenset((a, b) for a, b in s.user if a in keys or a == ('ret',))
            r.add((d, s.get(('ret',)) if is_bool(t.retctype) else None))
        self.memo[k] = r
        return r
    def ret(self, eng, f, n, st, val): pass
    def value(self, eng, f, n, st):
        if f.cls == gm.CLS and n.k == 'MemberExpr':
            m = gm.this_member(n)
            if m in self.role:
                cur = self.get(st, ('this',))
                if cur is not None: return [(cur[self.role[m]], st)]
        return None
