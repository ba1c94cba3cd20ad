"""Path-sensitive nullness of local pointers that come from a source that can yield null."""
from kdb import *
from engine import *

def is_handle(ct): return ct.replace('const', '').strip(' &').split('::')[-1] in ('Edge', 'Vertex')
def is_ptr(ct): return ct.replace('const', '').rstrip().endswith('*') or is_handle(ct)
def default_handle(n):
    """the handle that designates nothing: built without arguments"""
    n = n.strip()
    while n.k in CTORS and len([c for c in n.kids if c is not None and c.k != 'CXXDefaultArgExpr']) == 1: n = [c for c in n.kids if c is not None and c.k != 'CXXDefaultArgExpr'][0].strip()
    return n.k in CTORS and is_handle(n.ctype) and not [c for c in n.kids if c is not None and c.k != 'CXXDefaultArgExpr']
def through(n):
    n = n.strip()
    while n.k in CTORS and is_handle(n.ctype) and len([c for c in n.kids if c is not None]) == 1 and n.kids[0].k != 'CXXDefaultArgExpr': n = n.kids[0].strip()
    return n
def null_lit(n):
    n = n.strip()
    if default_handle(n): return True
    return n.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or (n.k == 'IntegerLiteral' and str(n.get('v')) == '0')

class Nullness(Hooks):
    """state: env ('v', decl) -> bool: True = non-null (so that "if (p)" is the engine's own boolean reading)"""
    def __init__(self, db, external=()):
        self.db = db; self.maynull = {}; self.external = set(external); self.hits = []; self.sites = set(); self.atcall = {}; self.lu = {}
        self.solve()
    def ptr_var(self, f, n):
        n = through(n)
        if n.k == 'DeclRefExpr' and n.decl in f.vars and is_ptr(f.vars[n.decl]['ctype']) and (not is_handle(f.vars[n.decl]['ctype']) or n.decl in self.looked_up(f)): return n.decl
        return None
    def looked_up(self, f):
        """handle variables that take, somewhere in the function, the result of a look-up that may find nothing"""
        c = self.lu.get(f.key)
        if c is None or c[0] != len(self.maynull):
            out = set()
            for v in f.vars.items():
                if is_handle(v[1]['ctype']) and v[1]['init'] is not None and self.source(f, v[1]['init']) == 'maybe': out.add(v[0])
            for n in f.nodes:
                if n.k == 'CXXOperatorCallExpr' and n.op == '=' and len(n.args()) == 2 and n.args()[0].strip().k == 'DeclRefExpr' and is_handle(n.args()[0].strip().ctype) and self.source(f, n.args()[1]) == 'maybe': out.add(n.args()[0].strip().decl)
            c = self.lu[f.key] = (len(self.maynull), out)
        return c[1]
    def source(self, f, e):
        """'null' | 'maybe' | None"""
        e = through(e)
        if null_lit(e): return 'null'
        if e.k in CALLS:
            if any(t.key in self.maynull for t in self.db.targets(e)): return 'maybe'
            if (e.cname or '').split('::')[-1] in self.external: return 'maybe'
        if e.k == 'ConditionalOperator' and not is_handle(e.ctype):
            s = {self.source(f, c) for c in e.kids[1:]}
            if s & {'null', 'maybe'}: return 'maybe'
        return None
    def sets(self, f, d, e, st):
        if e is None: return [st.set(('v', d), None)]
        s = self.source(f, e)
        if s == 'null': return [st.set(('v', d), None if is_handle(f.vars[d]['ctype']) else False)]
        if s == 'maybe': self.sites.add((f.key, e.strip().i)); return [st.set(('v', d), True), st.set(('v', d), False)]
        o = self.ptr_var(f, e)
        if o is not None: return [st.set(('v', d), st.get(('v', o)))]
        e = e.strip()
        # what a function outside the sources returns, and what a structure points to, is not known: a later comparison with null decides
        if e.k in CALLS and not any(t.body is not None for t in self.db.targets(e)) or e.k in ('MemberExpr', 'ArraySubscriptExpr', 'ConditionalOperator', 'UnaryOperator') and not (e.k == 'UnaryOperator' and e.op == '&'): return [st.set(('v', d), None)]
        return [st.set(('v', d), True)]
    def transfer(self, eng, f, n, st):
        if n.k == 'DeclStmt':
            cur = [st]
            for v in n.d['vars']:
                var = f.vars.get(v['d'])
                if var and is_ptr(var['ctype']) and not var.get('static') and (not is_handle(var['ctype']) or v['d'] in self.looked_up(f)):
                    cur = [y for x in cur for y in (self.sets(f, v['d'], var['init'], x) if var['init'] is not None else [x.set(('v', v['d']), None)])]
            return cur
        if n.k == 'CXXOperatorCallExpr' and n.op == '=' and len(n.args()) == 2 and is_handle(n.args()[0].strip().ctype):
            d = self.ptr_var(f, n.args()[0])
            if d is not None: return self.sets(f, d, n.args()[1], st)
        if n.k in CTORS and 'basic_string<' in n.ctype and n.kids and n.kids[0] is not None:
            d = self.ptr_var(f, n.kids[0])
            if d is not None and st.get(('v', d)) is False: self.hits.append((f, n, d, 'made a string')); return []
            if self.source(f, n.kids[0]) == 'maybe': self.hits.append((f, n, None, 'made a string without a check'))
        if n.k in CALLS and not (n.k == 'CXXOperatorCallExpr' and n.op in ('==', '!=', '=', '<', '<<')):
            for a in n.args():
                if a is None or not is_handle(a.strip().ctype): continue
                d = self.ptr_var(f, a)
                if d is not None and st.get(('v', d)) is False: self.hits.append((f, n, d, 'passed to %s' % (n.cname or 'a function'))); return []
                if self.source(f, a) == 'maybe': self.hits.append((f, n, None, 'passed to %s without a check' % (n.cname or 'a function')))
        if n.k == 'BinaryOperator' and n.op == '=':
            d = self.ptr_var(f, n.kids[0])
            if d is not None: return self.sets(f, d, n.kids[1], st)
        if n.k == 'UnaryOperator' and n.op == '&':
            d = self.ptr_var(f, n.kids[0])
            if d is not None: return [st.set(('v', d), None)]
        # dereference
        b = None
        if n.k == 'MemberExpr' and n.get('arrow') and n.kids and n.kids[0] is not None: b = n.kids[0]
        elif n.k == 'UnaryOperator' and n.op == '*': b = n.kids[0]
        elif n.k == 'ArraySubscriptExpr': b = n.kids[0]
        if b is not None:
            d = self.ptr_var(f, b)
            if d is not None and st.get(('v', d)) is False:
                self.hits.append((f, n, d, 'dereferenced')); return []
            if self.source(f, b) in ('maybe',): self.hits.append((f, n, None, 'dereferenced without a check'))
        if n.k in CALLS:
            for i, a in enumerate(n.args()):
                if a is None: continue
                d = self.ptr_var(f, a)
                if d is not None and st.get(('v', d)) is False and self.uses(n, i): self.hits.append((f, n, d, 'passed to %s, which uses it,' % (n.cname or 'a function')))
        self.extra(eng, f, n, st)
        return [st]
    def extra(self, eng, f, n, st): pass
    def uses(self, n, i):
        """the callee dereferences its argument without ever comparing it with null (an unknown callee: indirect calls do)"""
        ts = [t for t in self.db.targets(n) if t.body is not None]
        if not ts: return n.k == 'CallExpr' and n.callee is None
        for t in ts:
            if i >= len(t.params): continue
            d = t.params[i]['d']; deref = checked = False
            for m in t.nodes:
                if m.k == 'DeclRefExpr' and m.decl == d:
                    x = m
                    while x.parent is not None and x.parent.k in TRANSP: x = x.parent
                    p = x.parent
                    if p is None: continue
                    if p.k == 'MemberExpr' and p.get('arrow') or p.k == 'UnaryOperator' and p.op == '*': deref = True
                    elif p.k in ('IfStmt', 'UnaryOperator', 'ConditionalOperator') or p.k == 'BinaryOperator' and p.op in ('==', '!=', '&&', '||'): checked = True
            if deref and not checked: return True
        return False
    def value(self, eng, f, n, st):
        if n.k == 'BinaryOperator' and n.op in ('==', '!=') or n.k == 'CXXOperatorCallExpr' and n.op in ('==', '!=') and len(n.args()) == 2 and is_handle(n.args()[0].strip().ctype):
            x, y = n.args() if n.k == 'CXXOperatorCallExpr' else n.kids
            for a, b in ((x, y), (y, x)):
                d = self.ptr_var(f, a)
                if d is not None and null_lit(b):
                    v = st.get(('v', d))
                    outs = [v] if v is not None else [True, False]
                    return [((x if n.op == '!=' else not x), st.set(('v', d), x)) for x in outs]
            return None
        d = self.ptr_var(f, n) if n.k == 'DeclRefExpr' and not is_handle(n.ctype) else None
        if d is not None:
            v = st.get(('v', d))
            return [(x, st.set(('v', d), x)) for x in ([v] if v is not None else [True, False])]
        return None
    def ret(self, eng, f, n, st, val): 
        if n.kids and n.kids[0] is not None and is_ptr(f.retctype):
            s = self.source(f, n.kids[0])
            if s: self.returned = True
            d = self.ptr_var(f, n.kids[0])
            if d is not None and st.get(('v', d)) is False: self.returned = True
    def relevant(self, f):
        return any(is_ptr(v['ctype']) and not is_handle(v['ctype']) and not v['param'] for v in f.vars.values()) or is_ptr(f.retctype) and not is_handle(f.retctype) or any(self.source(f, n) == 'maybe' for n in f.nodes if n.k in CALLS)
    def run(self, f, init=None):
        return Engine(self.db, self).run(f, [mk((), init or frozenset())])
    def solve(self):
        ch = True; rounds = 0
        cand = [f for f in self.db.funcs.values() if is_ptr(f.retctype) and f.blocks]
        while ch and rounds < 6:
            ch = False; rounds += 1
            for f in cand:
                if f.key in self.maynull: continue
                self.returned = False
                self.run(f)
                if self.returned: self.maynull[f.key] = f; ch = True
        self.hits = []; self.sites = set()
