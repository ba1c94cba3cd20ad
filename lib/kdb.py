"""Program database over the extracted facts: functions, CFGs, call graph, symbolic values."""
import re, collections, functools

CALLS = {'CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'UserDefinedLiteral'}
CTORS = {'CXXConstructExpr', 'CXXTemporaryObjectExpr'}
TRANSP = {'ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
          'FullExpr', 'ConstantExpr', 'CXXDefaultArgExpr', 'CXXDefaultInitExpr', 'SubstNonTypeTemplateParmExpr', 'OpaqueValueExpr'}
XCASTS = {'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'CXXDynamicCastExpr'}
LOOPS = {'ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'}

class Node(object):
    __slots__ = ('f', 'i', 'd', 'kids', 'parent')
    def __init__(self, f, i, d):
        self.f = f; self.i = i; self.d = d; self.kids = None; self.parent = None
    k = property(lambda s: s.d['k'])
    line = property(lambda s: s.d['l'])
    op = property(lambda s: s.d.get('op'))
    name = property(lambda s: s.d.get('dn'))
    decl = property(lambda s: s.d.get('d'))
    callee = property(lambda s: s.d.get('cal'))
    cname = property(lambda s: s.d.get('caln'))
    def get(self, k, default=None): return self.d.get(k, default)
    def sub(self, k):
        """child stored under a structured key (cond, body, ...)"""
        i = self.d.get(k, -1)
        return self.f.nodes[i] if i is not None and i >= 0 else None
    @property
    def type(self):
        t = self.d.get('t', -1); return self.f.types[t][0] if t is not None and t >= 0 else ''
    @property
    def ctype(self):
        t = self.d.get('t', -1); return self.f.types[t][1] if t is not None and t >= 0 else ''
    @property
    def macros(self): return self.d.get('m', ())
    def walk(self, into_lambda=False):
        """pre-order"""
        st = [self]
        while st:
            n = st.pop(); yield n
            if into_lambda and n.k == 'LambdaExpr':
                b = n.sub('lbody')
                if b is not None: st.append(b)
            for c in reversed(n.kids):
                if c is not None: st.append(c)
    def strip(self, casts=True):
        n = self
        while True:
            if n.k in TRANSP or (casts and n.k in XCASTS):
                ks = [c for c in n.kids if c is not None]
                if not ks: return n
                n = ks[0]
            elif n.k in CTORS and (n.get('copy') or n.get('move')) and len(n.kids) >= 1 and n.kids[0] is not None:
                n = n.kids[0]
            else: return n
    def args(self):
        """explicit arguments (excl. object for member calls / member operators)"""
        ks = self.kids
        if self.k == 'CXXMemberCallExpr' or self.k == 'CallExpr' or self.k == 'UserDefinedLiteral': return ks[1:]
        if self.k == 'CXXOperatorCallExpr': return ks[1:]
        return ks
    def obj(self):
        """object expression of a member call, else None"""
        if self.k == 'CXXMemberCallExpr':
            m = self.kids[0].strip(False) if self.kids else None
            if m is not None and m.k == 'MemberExpr': return m.kids[0] if m.kids else None
        return None
    def loc(self): return '%s:%d' % (self.f.relfile, self.line)
    def __repr__(self): return '<%s %s>' % (self.k, self.loc())
    def text(self, depth=12): return text(self, depth)

def text(n, depth=12):
    if n is None: return ''
    if depth <= 0: return '..'
    n = n.strip(False)
    t = lambda x: text(x, depth - 1)
    k = n.k
    if k == 'DeclRefExpr': return n.name
    if k == 'CXXThisExpr': return 'this'
    if k == 'MemberExpr':
        b = n.kids[0].strip(False) if n.kids and n.kids[0] else None
        if b is None or b.k == 'CXXThisExpr': return n.name
        return t(b) + ('->' if n.get('arrow') else '.') + n.name
    if k == 'CXXOperatorCallExpr':
        a = n.args(); op = n.op
        if op == '[]': return '%s[%s]' % (t(a[0]), t(a[1]))
        if op == '()': return '%s(%s)' % (t(a[0]), ', '.join(t(x) for x in a[1:]))
        if len(a) == 2: return '(%s %s %s)' % (t(a[0]), op, t(a[1]))
        if len(a) == 1: return '%s%s' % (op, t(a[0]))
    if k in CALLS:
        return '%s(%s)' % (t(n.kids[0]) if n.kids else n.cname, ', '.join(t(x) for x in n.args()))
    if k in CTORS: return '%s(%s)' % (n.type.split('::')[-1][:40], ', '.join(t(x) for x in n.kids))
    if k in ('BinaryOperator', 'CompoundAssignOperator'): return '(%s %s %s)' % (t(n.kids[0]), n.op, t(n.kids[1]))
    if k == 'UnaryOperator': return ('%s%s' if not n.get('post') else '%s%s') % ((n.op, t(n.kids[0])) if not n.get('post') else (t(n.kids[0]), n.op))
    if k == 'ConditionalOperator': return '(%s ? %s : %s)' % tuple(t(x) for x in n.kids[:3])
    if k == 'ArraySubscriptExpr': return '%s[%s]' % (t(n.kids[0]), t(n.kids[1]))
    if k in ('IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr', 'CharacterLiteral'): return str(n.get('v'))
    if k == 'StringLiteral': return '"%s"' % (n.get('v') or '')[:60]
    if k in XCASTS: return '(%s)%s' % (n.type, t(n.kids[0]) if n.kids else '')
    return k + '{' + ','.join(t(c) for c in n.kids if c is not None)[:80] + '}'

def shape(f, n):
    """the text of an expression with its local variables replaced by their types: survives renaming"""
    s = text(n)
    for m in n.walk():
        if m.k == 'DeclRefExpr' and m.decl in f.vars: s = re.sub(r'\b%s\b' % re.escape(m.name), '<%s>' % f.vars[m.decl]['type'].replace('const ', '').split('::')[-1].strip(' &*'), s)
    return s

class Block(object):
    __slots__ = ('id', 'elems', 'succ', 'pred', 'term', 'tcond', 'nr', 'label')

class Func(object):
    def __init__(self, rec, repo):
        self.rec = rec; self.key = rec['key']; self.name = rec.get('name', ''); self.file = rec.get('file', ''); self.line = rec.get('line', 0)
        self.relfile = self.file[len(repo):].lstrip('/') if self.file.startswith(repo) else self.file
        self.types = [tuple(t.split('\x01')) for t in rec.get('types', ())]
        self.nodes = [Node(self, i, d) for i, d in enumerate(rec.get('nodes', ()))]
        N = self.nodes
        for n in N:
            n.kids = [N[c] if c is not None and c >= 0 else None for c in n.d.get('c', ())]
            for c in n.kids:
                if c is not None and c.parent is None: c.parent = n
            if n.d['k'] == 'DeclStmt': pass
        for n in N:   # structured links that are not children
            for key in ('lbody', 'range'):
                c = n.sub(key)
                if c is not None and c.parent is None: c.parent = n
        self.body = N[rec['body']] if rec.get('body', -1) >= 0 else None
        self.params = rec.get('params', [])
        self.cls = rec.get('cls'); self.is_ctor = bool(rec.get('ctor')); self.is_dtor = bool(rec.get('dtor'))
        self._cfg = None
        self.vars = {}      # decl id -> (name, type, ctype, init node or None, DeclStmt node)
        for p in self.params:
            ty = self.types[p['t']] if p['t'] >= 0 else ('', '')
            self.vars[p['d']] = dict(name=p['n'], type=ty[0], ctype=ty[1], init=None, param=True, node=None)
        for n in N:
            if n.k == 'DeclStmt':
                for v in n.d['vars']:
                    ty = self.types[v['t']] if v['t'] >= 0 else ('', '')
                    i = v.get('i', -1)
                    self.vars[v['d']] = dict(name=v['n'], type=ty[0], ctype=ty[1], init=N[i] if i >= 0 else None, param=False, node=n, static=v.get('static'))
            elif n.k == 'LambdaExpr':
                for v in n.d.get('lparams', ()):
                    ty = self.types[v['t']] if v['t'] >= 0 else ('', '')
                    self.vars.setdefault(v['d'], dict(name=v['n'], type=ty[0], ctype=ty[1], init=None, param=True, node=n, lamparam=True))
    rettype = property(lambda s: s.types[s.rec['ret']][0] if s.rec.get('ret', -1) >= 0 else '')
    retctype = property(lambda s: s.types[s.rec['ret']][1] if s.rec.get('ret', -1) >= 0 else '')
    short = property(lambda s: s.name.split('::')[-1])
    def __repr__(self): return '<Func %s>' % self.name
    def loc(self): return '%s:%d' % (self.relfile, self.line)
    def walk(self, into_lambda=False):
        if self.body is not None:
            for n in self.body.walk(into_lambda): yield n
        for i in self.rec.get('inits', ()):
            if i['i'] >= 0:
                for n in self.nodes[i['i']].walk(into_lambda): yield n
    def calls(self, into_lambda=False):
        for n in self.walk(into_lambda):
            if n.k in CALLS or n.k in CTORS: yield n
    # ---- CFG
    @property
    def blocks(self):
        if self._cfg is None:
            B = {}
            for b in self.rec.get('cfg', ()):
                x = Block(); x.id = b['id']; x.elems = [self.nodes[i] for i in b['e'] if i >= 0]
                x.succ = [s for s in b['s']]; x.pred = []
                x.term = self.nodes[b['t']] if b.get('t', -1) >= 0 else None
                x.tcond = self.nodes[b['tc']] if b.get('tc', -1) >= 0 else None
                x.label = self.nodes[b['lab']] if b.get('lab', -1) >= 0 else None
                x.nr = bool(b.get('nr')); B[x.id] = x
            ex = self.rec.get('exit')
            for x in B.values():
                # drop the edges that stand for "exception leaves the function" / "process ended"
                thrown = any(e.k == 'CXXThrowExpr' for e in x.elems)
                if x.nr or thrown: x.succ = [s for s in x.succ if s != ex]
                elif x.term is None and len(x.succ) > 1: x.succ = [x.succ[0]] + [s for s in x.succ[1:] if s != ex]
            for x in B.values():
                for s in set(x.succ):
                    if s is not None: B[s].pred.append(x.id)
            self._cfg = B
        return self._cfg
    entry = property(lambda s: s.rec.get('entry'))
    exit = property(lambda s: s.rec.get('exit'))
    @functools.cached_property
    def rpo(self):
        B = self.blocks; seen = set(); order = []
        if self.entry is None: return []
        st = [(self.entry, iter([s for s in B[self.entry].succ if s is not None]))]; seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter([t for t in B[s].succ if t is not None]))); break
            else:
                order.append(b); st.pop()
        return order[::-1]
    @functools.cached_property
    def where(self):
        """node index -> (block id, position) for nodes that are CFG elements"""
        w = {}
        for b in self.blocks.values():
            for p, e in enumerate(b.elems):
                w.setdefault(e.i, (b.id, p))
        return w
    def pos(self, n):
        """CFG position of a node or of its nearest enclosing element"""
        s = n
        while s is not None and s.i not in self.where and s.k in TRANSP | XCASTS | CTORS:
            ks = [c for c in s.kids if c is not None]; s = ks[0] if ks else None
        if s is not None and s.i in self.where: return self.where[s.i]
        m = n
        while m is not None:
            if m.i in self.where: return self.where[m.i]
            m = m.parent
        return None
    @functools.cached_property
    def dom(self):
        """immediate dominators"""
        B = self.blocks; order = self.rpo; idx = {b: i for i, b in enumerate(order)}
        idom = {self.entry: self.entry}; ch = True
        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]: a = idom[a]
                while idx[b] > idx[a]: b = idom[b]
            return a
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in B[b].pred if p in idom]
                if not ps: continue
                n = ps[0]
                for p in ps[1:]: n = inter(n, p)
                if idom.get(b) != n: idom[b] = n; ch = True
        return idom
    def block_dominates(self, a, b):
        while True:
            if a == b: return True
            p = self.dom.get(b)
            if p is None or p == b: return False
            b = p
    def dominates(self, n, m):
        p, q = self.pos(n), self.pos(m)
        if p is None or q is None: return False
        if p[0] == q[0]: return p[1] <= q[1]
        return self.block_dominates(p[0], q[0])
    # ---- local variable facts
    @functools.cached_property
    def writes(self):
        """decl id -> list of nodes that (may) modify the variable after its declaration"""
        W = collections.defaultdict(list)
        for n in self.nodes:
            t = None
            if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='): t = n.kids[0]
            elif n.k == 'UnaryOperator' and n.op in ('++', '--'): t = n.kids[0]
            elif n.k == 'UnaryOperator' and n.op == '&': t = n.kids[0]
            elif n.k == 'CXXOperatorCallExpr' and n.op and (n.op in ('++', '--', '>>') or (n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='))):
                a = n.args(); t = a[0] if a else None
                if n.op == '>>': t = a[1] if len(a) > 1 else None
            if t is not None:
                b = base_var(t)
                if b is not None: W[b].append(n)
                continue
            if n.k in CALLS or n.k in CTORS:
                # by non-const reference / non-const method
                pts = n.get('cpt', ())
                args = n.args()
                if n.k == 'CXXOperatorCallExpr' and len(args) == len(pts) + 1:
                    pts = [None] + list(pts)
                for a, p in zip(args, pts):
                    if a is None: continue
                    if p is not None:
                        ct = self.types[p][1]
                        if ct.endswith('&') and not ct.startswith('const ') and not ct.endswith('&&'):
                            b = base_var(a)
                            if b is not None: W[b].append(n)
                if n.k == 'CXXMemberCallExpr' and not n.get('cconst') and not n.get('cstatic'):
                    o = n.obj()
                    if o is not None and not o.strip().ctype.endswith('*'):
                        b = base_var(o)
                        if b is not None: W[b].append(n)
                if n.k == 'CXXOperatorCallExpr' and n.op == '[]': pass
        return W
    @functools.cached_property
    def writes_direct(self):
        """decl id -> assignments to the variable itself"""
        W = collections.defaultdict(list)
        for n in self.nodes:
            t = None
            if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='): t = n.kids[0]
            elif n.k == 'UnaryOperator' and n.op in ('++', '--'): t = n.kids[0]
            if t is not None and t.strip().k == 'DeclRefExpr': W[t.strip().decl].append(n)
        return dict(W)
    def parents(self, n):
        m = n.parent
        while m is not None:
            yield m; m = m.parent

def base_var(n):
    """decl id of the local variable an lvalue expression designates (through members/subscripts)"""
    while n is not None:
        n = n.strip()
        if n.k == 'DeclRefExpr': return n.decl
        if n.k == 'MemberExpr':
            n = n.kids[0] if n.kids else None
        elif n.k == 'ArraySubscriptExpr': n = n.kids[0]
        elif n.k == 'CXXOperatorCallExpr' and n.op in ('[]', '*', '->'): n = n.args()[0]
        elif n.k == 'CXXMemberCallExpr' and n.name is None and n.obj() is not None and n.cname and n.cname.split('::')[-1] in ('at', 'back', 'front'): n = n.obj()
        elif n.k == 'UnaryOperator' and n.op == '*': n = n.kids[0]
        else: return None
    return None

class DB(object):
    def __init__(self, recs, repo='/repo'):
        self.repo = repo
        self.funcs = {}; self.records = {}; self.gvars = []; self.enums = {}; self.tus = []; self.typedefs = {}
        for r in recs:
            if r['rec'] == 'func': self.funcs[r['key']] = Func(r, repo)
            elif r['rec'] == 'record': self.records[r['name']] = Func(r, repo)
            elif r['rec'] == 'var': self.gvars.append(Func(r, repo))
            elif r['rec'] == 'enum': self.enums[r['name']] = r['vals']
            elif r['rec'] == 'tu': self.tus.append(r)
            elif r['rec'] == 'typedef': self.typedefs[r['name']] = r; self.typedefs.setdefault(r['name'].split('::')[-1], r)
        self.by_name = collections.defaultdict(list)
        for f in self.funcs.values(): self.by_name[f.name].append(f)
        self.overriders = collections.defaultdict(list)
        for f in self.funcs.values():
            for o in f.rec.get('over', ()): self.overriders[o].append(f.key)
    def fn(self, qname):
        """all functions with that qualified name or suffix"""
        if qname in self.by_name: return self.by_name[qname]
        return [f for n, fs in self.by_name.items() if n.endswith('::' + qname) for f in fs]
    def targets(self, call):
        k = call.callee
        if k is None: return []
        out = []
        st = [k]
        while st:
            x = st.pop()
            if x in self.funcs: out.append(self.funcs[x])
            st.extend(self.overriders.get(x, ()))
        return out
    @functools.cached_property
    def callees(self):
        g = {}
        for f in self.funcs.values():
            s = set()
            for c in f.nodes:
                if c.k in CALLS or c.k in CTORS:
                    for t in self.targets(c): s.add(t.key)
                elif c.k == 'DeclRefExpr' and c.get('du') in self.funcs: s.add(c.get('du'))
                elif c.k == 'LambdaExpr' and c.get('lam') in self.funcs: s.add(c.get('lam'))
            g[f.key] = s
        return g
    @functools.cached_property
    def callers(self):
        g = collections.defaultdict(set)
        for k, s in self.callees.items():
            for t in s: g[t].add(k)
        return g
    @functools.cached_property
    def noreturn(self):
        """functions that never return normally (computed over the call graph)"""
        nr = set(); ch = True
        while ch:
            ch = False
            for f in self.funcs.values():
                if f.key in nr or not f.blocks: continue
                seen = {f.entry}; st = [f.entry]; ok = False
                while st and not ok:
                    b = f.blocks[st.pop()]
                    if b.id == f.exit: ok = True; break
                    if any(e.k in CALLS and e.callee in nr for e in b.elems): continue
                    for s in b.succ:
                        if s is not None and s not in seen: seen.add(s); st.append(s)
                if not ok: nr.add(f.key); ch = True
        return nr
    def reach(self, keys, graph=None):
        graph = graph or self.callees; seen = set(keys); st = list(keys)
        while st:
            for t in graph.get(st.pop(), ()):
                if t not in seen: seen.add(t); st.append(t)
        return seen
