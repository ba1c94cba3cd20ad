"""Handles into a graph: task handles (indices), channel handles (pointers into the graph) and iterators over either.
Which graph each comes from, and whether it is still good after the graph was edited."""
from kdb import *
from engine import *
import graphmodel as gm
from graphstate import graph_type, graph_ptr

def bare(ct): return ct.replace('const ', '').replace('struct ', '').replace('class ', '').strip(' &*')
def kind_of(ct):
    b = bare(ct)
    if b == 'Vertex': return 'task'
    if b == 'Edge': return 'channel'
    return None
def last(n): return (n.cname or '').split('::')[-1] if n.k in CALLS else ''
def dfcall(n): return n.k == 'CXXMemberCallExpr' and (n.cname or '').startswith(gm.CLS + '::')
PUTS = ('push_back', 'push_front', 'insert', 'emplace', 'emplace_back', 'push', 'assign')
def container(ct):
    b = ct.replace('const ', '').strip()
    return b.startswith(('std::vector<', 'std::set<', 'std::map<', 'std::list<', 'std::deque<', 'std::stack<', 'std::queue<', 'std::unordered_map<', 'std::unordered_set<', 'std::multimap<')) and not b.endswith('*') and re.search(r'\b(Vertex|Edge)\b', b) is not None
ITER = {'getVertices': 'V', 'vertices': 'V', 'getEdges': 'E', 'edges': 'E', 'getInputEdges': 'I', 'in_edges': 'I', 'getOutputEdges': 'O', 'out_edges': 'O'}

class Graphs(object):
    """names of graphs and origins of handles in one function"""
    def __init__(self, db, f):
        self.db = db; self.f = f; self.src = collections.defaultdict(list)
        for d, v in f.vars.items():
            if v['init'] is not None: self.src[d].append(v['init'])
        for n in f.walk(True):
            if n.k == 'BinaryOperator' and n.op == '=' and n.kids[0].strip().k == 'DeclRefExpr': self.src[n.kids[0].strip().decl].append(n.kids[1])
            elif n.k == 'CXXOperatorCallExpr' and n.op == '=' and n.args()[0].strip().k == 'DeclRefExpr': self.src[n.args()[0].strip().decl].append(n.args()[1])
        self.memo = {}; self.elems = collections.defaultdict(list)
        for n in f.walk(True):
            if n.k == 'CXXMemberCallExpr' and last(n) in PUTS and n.obj() is not None: self.put(n.obj(), n.args())
            elif n.k == 'CXXOperatorCallExpr' and n.op == '[]' and len(n.args()) > 1: self.put(n.args()[0], n.args()[1:])
            elif n.k == 'CXXOperatorCallExpr' and n.op == '=' and len(n.args()) > 1:
                t = n.args()[0].strip()
                if t.k == 'CXXOperatorCallExpr' and t.op == '[]': self.put(t.args()[0], n.args()[1:])
    def put(self, o, args):
        """remember the handles stored in a local container"""
        b = base_var(o)
        if b is None or b not in self.f.vars or not container(self.f.vars[b]['ctype']): return
        for a in args:
            if a is None: continue
            for m in a.walk():
                if m.k not in TRANSP and kind_of(m.ctype) and not (m.parent is not None and m.parent.k in CALLS and not (m.parent.cname or '').startswith('std::')): self.elems[b].append((kind_of(m.ctype), m))
    def root(self, n, depth=0):
        f = self.f
        if n is None or depth > 8: return None
        n = n.strip()
        if n.k == 'CXXThisExpr': return ('this',) if f.cls == gm.CLS else None
        if n.k == 'UnaryOperator' and n.op in ('*', '&'): return self.root(n.kids[0], depth + 1)
        if n.k == 'DeclRefExpr' and n.decl in f.vars:
            v = f.vars[n.decl]
            if not graph_type(v['ctype']): return None
            s = self.src.get(n.decl, ())
            if len(s) == 1 and graph_ptr(v['ctype']) and not v['param']:
                r = self.root(s[0], depth + 1)
                if r is not None: return r
            return ('v', n.decl)
        return None
    def peel(self, n):
        while n is not None:
            n = n.strip()
            if n.k in CTORS and len([c for c in n.kids if c is not None]) == 1: n = [c for c in n.kids if c is not None][0]; continue
            if n.k in CALLS and last(n) in ('it2Vertex', 'it2Edge', 'move', 'next', 'prev') and n.args(): n = n.args()[0]; continue
            if n.k == 'CXXOperatorCallExpr' and n.op in ('*', '++', '--', '->') and n.args(): n = n.args()[0]; continue
            if n.k == 'UnaryOperator' and n.op in ('*', '++', '--'): n = n.kids[0]; continue
            if n.k == 'MemberExpr' and n.name in ('first', 'second', 'e', 'v') and n.kids: n = n.kids[0]; continue
            if n.k == 'CXXOperatorCallExpr' and n.op == '[]' and n.args() and kind_of(n.ctype): n = n.args()[0]; continue
            if n.k == 'CXXMemberCallExpr' and last(n) in ('at', 'front', 'back', 'top') and kind_of(n.ctype) and n.obj() is not None: n = n.obj(); continue
            if n.k == 'CXXMemberCallExpr' and last(n) in ('begin', 'end', 'cbegin', 'cend') and n.obj() is not None: n = n.obj(); continue
            return n
        return None
    def alts(self, n):
        n = self.peel(n)
        if n is None: return
        if n.k == 'ConditionalOperator':
            for c in n.kids[1:]: yield from self.alts(c)
        else: yield n
    def origins(self, n, seen=(), want=None):
        """the expressions a handle or iterator value may come from"""
        want = want or kind_of(n.ctype)
        for x in self.alts(n):
            if x.k == 'DeclRefExpr' and x.decl in self.f.vars:
                d = x.decl
                if d in seen: continue
                s = self.src.get(d, ())
                if self.f.vars[d]['param'] and not container(self.f.vars[d]['ctype']): yield ('param', d)
                for y in s: yield from self.origins(y, tuple(seen) + (d,), want)
                for k, y in self.elems.get(d, ()):
                    if k == want: yield from self.origins(y, tuple(seen) + (d,), want)
            elif x.k in CTORS: continue              # a null handle
            else: yield ('expr', x)
    def of_var(self, d):
        if d not in self.memo:
            o = set(); f = self.f
            if f.vars[d]['param']: o.add(('param', d))
            for y in self.src.get(d, ()): o.update(self.origins(y, (d,)))
            self.memo[d] = o
        return self.memo[d]
    def graphs_of_origin(self, o):
        """roots of the graph a handle origin belongs to, or None"""
        if o[0] == 'expr' and dfcall(o[1]) : return self.root(o[1].obj())
        return None
    def iter_kind(self, d):
        """(V/E/I/O, graph, vertex expression) for variables that iterate over a graph"""
        if kind_of(self.f.vars[d]['ctype']): return None
        for o in self.of_var(d):
            if o[0] == 'expr' and dfcall(o[1]) and last(o[1]) in ITER:
                t = o[1].type
                a = o[1].args()
                return ITER[last(o[1])], self.root(o[1].obj()), (a[0] if a else None)
        return None

EDIT = {'removeVertex': 'rmV', 'removeEdge': 'rmE', 'addEdge': 'addE', 'addEdgeUnsafe': 'addE'}
_graphs = {}
def graphs(db, f):
    if (id(db), f.key) not in _graphs: _graphs[(id(db), f.key)] = Graphs(db, f)
    return _graphs[(id(db), f.key)]

class Edits(object):
    """which graphs a function edits: (what, graph parameter, handle parameters concerned), through calls"""
    def __init__(self, db):
        self.db = db; self.eff = {}
        work = [f for f in db.funcs.values()]
        self.direct = {}
        ch = True
        while ch:
            ch = False
            for f in work:
                if f.cls == gm.CLS: continue
                e = self.compute(f)
                if e != self.eff.get(f.key, frozenset()): self.eff[f.key] = e; ch = True
    def param(self, f, d): return next((i for i, p in enumerate(f.params) if p['d'] == d), None)
    def who(self, f, n):
        """parameter index a handle expression stands for, else None"""
        x = graphs(self.db, f).peel(n) if n is not None else None
        if x is not None and x.k == 'DeclRefExpr' and x.decl in f.vars and f.vars[x.decl]['param'] and not graphs(self.db, f).src.get(x.decl): return self.param(f, x.decl)
        return None
    def at(self, f, n):
        """effects of one call: (what, graph root, handle nodes or None)"""
        out = []
        if dfcall(n):
            w = EDIT.get(last(n))
            if w: out.append((w, graphs(self.db, f).root(n.obj()), [a for a in n.args() if a is not None and kind_of(a.ctype)]))
            return out
        if n.k not in CALLS: return out
        for t in self.db.targets(n):
            args = n.args()
            for w, gp, hs in self.eff.get(t.key, ()):
                if gp < len(args) and args[gp] is not None:
                    out.append((w, graphs(self.db, f).root(args[gp]), [args[h] if h is not None and h < len(args) else None for h in hs]))
        return out
    def compute(self, f):
        out = set()
        for n in f.calls(True):
            for w, r, hs in self.at(f, n):
                if r is None or r[0] != 'v': continue
                gp = self.param(f, r[1])
                if gp is None: continue
                out.add((w, gp, tuple(self.who(f, h) for h in hs)))
        return frozenset(out)

class Stale(Hooks):
    """handles of one function that an edit has spoiled"""
    def __init__(self, db, edits, report):
        self.db = db; self.ed = edits; self.report = report
    def prepare(self, f):
        G = graphs(self.db, f); self.G = G; self.h = {}; self.it = {}
        for d, v in f.vars.items():
            k = kind_of(v['ctype'])
            if k and not v['ctype'].endswith('*'):
                gs = {G.graphs_of_origin(o) for o in G.of_var(d) if o[0] == 'expr'}
                gs.discard(None)
                if not gs: gs = self.used_with(f, d)
                self.h[d] = (k, gs)
            else:
                i = G.iter_kind(d)
                if i: self.it[d] = i
        self.box = {}
        for d, v in f.vars.items():
            if d in self.h or d in self.it: continue
            k = self.boxed(f, d)
            if k: self.box[d] = k
        self.sites = {}
        for n in f.calls(True):
            e = self.ed.at(f, n)
            if e: self.sites[n.i] = e
        return bool(self.sites)
    def boxed(self, f, d, depth=0):
        """graphs of the task handles in a container, or in the container an iterator walks over"""
        G = self.G; gs = set()
        for k, y in G.elems.get(d, ()):
            if k == 'task': gs |= {G.graphs_of_origin(o) for o in G.origins(y)}
        if depth < 4 and not gs and not f.vars[d]['param']:
            for y in G.src.get(d, ()):
                for x in G.alts(y):
                    if x.k == 'DeclRefExpr' and x.decl in f.vars and x.decl != d: gs |= self.boxed(f, x.decl, depth + 1)
        return gs - {None}
    def used_with(self, f, d):
        s = set()
        for n in f.calls(True):
            if dfcall(n) and any(a is not None and a.strip().k == 'DeclRefExpr' and a.strip().decl == d for a in n.args()):
                r = self.G.root(n.obj())
                if r: s.add(r)
        return s
    def tracks(self, f, d, var): return True
    def same(self, f, a, b):
        """may two task expressions be the same task?  False only when both are known and differ in origin"""
        if a is None or b is None: return True
        G = self.G; oa = set(G.origins(a)); ob = set(G.origins(b))
        fresh = lambda o: o[0] == 'expr' and last(o[1]) == 'addVertex'
        if oa and ob and oa != ob and (all(map(fresh, oa)) or all(map(fresh, ob))): return bool(oa & ob)
        return True
    def from_iter(self, f, h, d):
        """is the channel h the current element of iterator d?"""
        x = self.G.peel(h)
        if x is None: return None
        if x.k == 'DeclRefExpr':
            if x.decl == d: return True
            o = self.G.of_var(x.decl); i = self.G.of_var(d)
            if o and o <= i: return True
            if o and all(y[0] == 'expr' for y in o) and not (o & i): return False
            return None
        return None
    def edit(self, f, n, st):
        bad = set(st.user)
        for w, r, hs in self.sites[n.i]:
            if r is None: continue
            tag = (w, n.i)
            if w == 'rmV':
                for d, (k, gs) in self.h.items():
                    if r in gs: bad.add((d,) + tag)
                for d, (k, g, v) in self.it.items():
                    if g == r: bad.add((d,) + tag)
                for d, gs in self.box.items():
                    if r in gs: bad.add((d,) + tag)
            elif w == 'rmE':
                h = hs[0] if hs else None
                al = set()
                if h is not None:
                    x = self.G.peel(h)
                    if x is not None and x.k == 'DeclRefExpr' and x.decl in self.h: al.add(x.decl)
                for d in al: bad.add((d,) + tag)
                for d, (k, g, v) in self.it.items():
                    if g != r or k == 'V': continue
                    fr = self.from_iter(f, h, d) if h is not None else None
                    if fr or (fr is None and k in 'IO'): bad.add((d,) + tag)
            elif w == 'addE':
                a = hs[0] if len(hs) > 0 else None; b = hs[1] if len(hs) > 1 else None
                for d, (k, g, v) in self.it.items():
                    if g != r or k not in 'IO': continue
                    if self.same(f, v, a if k == 'O' else b): bad.add((d,) + tag)
        return st.with_user(frozenset(bad))
    def transfer(self, eng, f, n, st):
        if n.k == 'DeclStmt':
            ds = {v['d'] for v in n.d['vars']}
            return [st.with_user(frozenset(x for x in st.user if x[0] not in ds))]
        t = None
        if n.k == 'BinaryOperator' and n.op == '=': t = n.kids[0].strip()
        elif n.k == 'CXXOperatorCallExpr' and n.op == '=': t = n.args()[0].strip()
        if t is not None and t.k == 'DeclRefExpr': return [st.with_user(frozenset(x for x in st.user if x[0] != t.decl))]
        if n.k == 'CXXMemberCallExpr' and last(n) == 'clear' and n.obj() is not None and n.obj().strip().k == 'DeclRefExpr':
            return [st.with_user(frozenset(x for x in st.user if x[0] != n.obj().strip().decl))]
        if n.k == 'DeclRefExpr' and st.user:
            for x in st.user:
                if x[0] == n.decl and not self.assigned(n) : self.report(f, n, x)
        if n.k in CALLS and n.i in self.sites: return [self.edit(f, n, st)]
        return [st]
    def assigned(self, n):
        if n.parent is not None and n.parent.k == 'MemberExpr' and n.parent.name in ('clear', 'push_back', 'insert', 'size', 'empty'): return True
        m = n; p = n.parent
        while p is not None and p.k in TRANSP: m = p; p = p.parent
        if p is None: return False
        if p.k == 'BinaryOperator' and p.op == '=' and p.kids[0] is m: return True
        if p.k == 'CXXOperatorCallExpr' and p.op == '=' and p.args()[0] is m: return True
        return False
    def run(self, f):
        if not f.blocks or not self.prepare(f): return False
        eng = Engine(self.db, self); eng.LIMIT = 60000
        eng.run(f, [mk(frozenset())])
        self.over = eng.overflow
        return True
