"""Canonical symbolic value of simple expressions: what an accessor stores or returns, in terms of its parameters.

Locals that are defined once are replaced by their definition, casts and copies dropped, sums collected into linear forms,
methods of the same object inlined when they have one result.  What is not understood is ('?',)."""
from kdb import *
Q = ('?',)
import re
ARITH = re.compile(r'^(const )?(unsigned |signed )?(long|int|short|char|double|float|bool|__int128)\b|Fraction|^(const )?long')
READING = {'begin', 'end', 'rbegin', 'rend', 'front', 'back', 'at', 'find', 'data', 'lower_bound', 'upper_bound'}
WRAP = {'v', 'e'}                 # the descriptor inside a Vertex / Edge handle
def last(n): return (n.cname or '').split('::')[-1]
def enum(n):
    n = n.strip()
    return n.name if n.k == 'DeclRefExpr' and n.get('dk') == 'EnumConstant' else None
def known(c): return '?' not in flat(c)
def flat(c):
    if isinstance(c, tuple):
        for x in c: yield from flat(x)
    else: yield c
def lin(c):
    """(constant, {term: coefficient})"""
    if isinstance(c, tuple) and c and c[0] == 'lin': return c[1], dict(c[2])
    if isinstance(c, (int, float)): return c, {}
    return 0, {c: 1}
def mklin(k, t):
    t = {a: b for a, b in t.items() if b}
    if not t: return k
    if k == 0 and len(t) == 1 and list(t.values()) == [1]: return list(t)[0]
    return ('lin', k, tuple(sorted(t.items(), key=repr)))
def add(a, b, s=1):
    k1, t1 = lin(a); k2, t2 = lin(b); t = dict(t1)
    for x, c in t2.items(): t[x] = t.get(x, 0) + s * c
    return mklin(k1 + s * k2, t)

class Canon(object):
    def __init__(self, db, depth=4, opaque=False): self.db = db; self.depth = depth; self.opaque = opaque; self.acc = {}; self.choice = {}
    # ---- definitions of locals
    def defs(self, f, d):
        k = (f.key, d)
        if k not in self.acc:
            v = f.vars.get(d); out = []
            if v is not None:
                if v['init'] is not None: out.append(('=', v['init']))
                for n in self.writes(f, d): out.append(('w', n))
            self.acc[k] = out
        return self.acc[k]
    def writes(self, f, d):
        return [n for n in f.writes.get(d, ()) if not (n.k == 'CXXMemberCallExpr' and last(n) in READING)]
    def accumulated(self, f, d, env, depth):
        """d = 0; for each x of X: d += x"""
        v = f.vars.get(d); w = self.writes(f, d)
        if v is None or v['init'] is None or len(w) != 1: return None
        init = self.expr(v['init'], f, env, depth); n = w[0]
        if init != 0: return None
        if n.k in ('CompoundAssignOperator', 'CXXOperatorCallExpr') and n.op == '+=':
            t, x = n.kids if n.k == 'CompoundAssignOperator' else n.args()[:2]
        elif n.k == 'BinaryOperator' and n.op == '=' and n.kids[1].strip().k == 'BinaryOperator' and n.kids[1].strip().op == '+':
            a, b = n.kids[1].strip().kids; t = n.kids[0]
            x = b if a.strip().decl == d else a if b.strip().decl == d else None
        else: return None
        if x is None or t.strip().k != 'DeclRefExpr': return None
        p = n.parent; loop = None
        while p is not None:
            if p.k in ('IfStmt', 'SwitchStmt', 'ConditionalOperator'): return ('partial',)
            if p.k in LOOPS:
                if loop is not None: return None
                loop = p
            p = p.parent
        if loop is None: return None
        x = x.strip()
        if loop.k == 'CXXForRangeStmt':
            lv = loop.sub('lvar') or loop.sub('var')
            r = loop.sub('range')
            if r is None: return None
            X = self.expr(r, f, env, depth)
            # what is added must be the loop variable
            if x.k == 'DeclRefExpr' and x.decl in f.vars and not f.vars[x.decl]['param'] and x.decl != d: return ('sum', X)
            if x.k == 'MemberExpr' and x.kids and x.kids[0].strip().k == 'DeclRefExpr': return ('sum', ('each', X, x.name))
            return None
        # iterators: for (it = X.begin(); it != X.end(); ++it) d += it->second / *it
        cond = loop.sub('cond')
        if loop.k in ('ForStmt', 'WhileStmt') and cond is not None:
            c = cond.strip(); ks = c.args() if c.k == 'CXXOperatorCallExpr' else [k for k in c.kids if k is not None]
            if len(ks) == 2:
                a, b = ks[0].strip(), ks[1].strip()
                if a.k == 'DeclRefExpr' and a.decl in f.vars:
                    i = f.vars[a.decl]['init']; X = self.expr(b, f, env, depth); s = self.expr(i, f, env, depth) if i is not None else Q
                    if X[:1] == ('end',) if isinstance(X, tuple) else False:
                        if s != ('begin', X[1]): return ('partial',)
                        path = self.deref(x, a.decl)
                        if path is not None: return ('sum', X[1] if not path else ('each', X[1], path))
                    if c.op in ('<', '!=') and isinstance(X, tuple) and X[:1] == ('size',):
                        if s != 0: return ('partial',)
                        e = x
                        if e.k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr') and (e.op == '[]' or last(e) == 'at'):
                            o, ix = (e.args()[0], e.args()[1]) if e.k == 'CXXOperatorCallExpr' else (e.obj(), e.args()[0])
                            if ix.strip().k == 'DeclRefExpr' and ix.strip().decl == a.decl and self.expr(o, f, env, depth) == X[1]: return ('sum', X[1])
        return None
    def deref(self, x, it):
        """*it -> '', it->second -> 'second'"""
        if x.k == 'MemberExpr' and x.kids:
            b = x.kids[0].strip()
            r = self.deref(b, it)
            if r == '' : return x.name
            if b.k == 'CXXOperatorCallExpr' and b.op == '->' and b.args()[0].strip().decl == it: return x.name
            if r: return r + '.' + x.name
            return None
        if x.k in ('CXXOperatorCallExpr', 'UnaryOperator') and x.op in ('*', '->'):
            a = (x.args() if x.k == 'CXXOperatorCallExpr' else x.kids)[0].strip()
            if a.k == 'DeclRefExpr' and a.decl == it: return ''
        return None
    # ---- expressions
    def expr(self, n, f, env, depth=None):
        if depth is None: depth = self.depth
        if n is None: return Q
        n = n.strip()
        if n.k in ('IntegerLiteral', 'FloatingLiteral') or (n.get('cv') is not None and n.k not in CALLS):
            v = n.get('cv') if n.get('cv') is not None else n.get('v')
            if n.k == 'DeclRefExpr' and n.get('dk') == 'EnumConstant': return ('enum', n.name)
            try: return int(v)
            except (TypeError, ValueError):
                try: x = float(v); return int(x) if x == int(x) else x
                except (TypeError, ValueError, OverflowError): return ('lit', str(v))
        if n.k in ('StringLiteral', 'CXXBoolLiteralExpr', 'CharacterLiteral'): return ('lit', str(n.get('v')))
        if n.k == 'CXXThisExpr': return env.get('this', ('this',))
        if n.k == 'DeclRefExpr':
            if n.decl in env: return env[n.decl]
            v = f.vars.get(n.decl)
            if v is None: return ('g', n.name)
            if v.get('param'): return ('v', n.decl) if self.opaque else Q
            d = self.defs(f, n.decl)
            if len(d) == 1 and d[0][0] == '=':
                e2 = dict(env); e2[n.decl] = Q
                return self.expr(d[0][1], f, e2, depth)
            e2 = dict(env); e2[n.decl] = Q
            a = self.accumulated(f, n.decl, e2, depth)
            return a if a is not None else ('v', n.decl) if self.opaque else Q
        if n.k == 'MemberExpr':
            if not n.kids or n.kids[0] is None: return Q
            if n.kids[0].strip().k == 'CXXThisExpr':
                b = env.get('this', ('this',))
                return ('m', n.name) if b == ('this',) else self.field(b, n.name)
            b = self.expr(n.kids[0], f, env, depth)
            ct = n.kids[0].strip().ctype.replace('const ', '').strip(' &*').split('::')[-1]
            if n.name in WRAP and ct in ('Vertex', 'Edge'): return b
            return self.field(b, n.name)
        if n.k == 'UnaryOperator':
            a = self.expr(n.kids[0], f, env, depth)
            if n.op == '-': return add(0, a, -1)
            if n.op in ('+', '*', '&'): return a
            if n.op == '!': return ('not', a)
            return Q
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op in ('+', '-', '*', '/', '%') and len([k for k in (n.kids if n.k == 'BinaryOperator' else n.args()) if k is not None]) == 2:
            a, b = [self.expr(k, f, env, depth) for k in (n.kids if n.k == 'BinaryOperator' else n.args())]
            if not ARITH.search(n.ctype) or 'basic_string' in n.ctype: return (n.op, a, b)
            if n.op == '+': return add(a, b)
            if n.op == '-': return add(a, b, -1)
            if n.op == '*' and isinstance(a, (int, float)):
                k, t = lin(b); return mklin(k * a, {x: c * a for x, c in t.items()})
            if n.op == '*' and isinstance(b, (int, float)):
                k, t = lin(a); return mklin(k * b, {x: c * b for x, c in t.items()})
            if n.op == '*': return ('*',) + tuple(sorted((a, b), key=repr))
            return (n.op, a, b)
        if n.k == 'CXXOperatorCallExpr':
            a = n.args()
            if n.op == '[]': return self.at(self.expr(a[0], f, env, depth), self.expr(a[1], f, env, depth))
            if n.op == '->' or n.op == '*':
                b = self.expr(a[0], f, env, depth)
                return ('deref', b)
            return Q
        if n.k in CTORS or n.k == 'CXXFunctionalCastExpr':
            k = [x for x in n.kids if x is not None]
            if len(k) == 1: return self.expr(k[0], f, env, depth)
            r = self.record(n, [self.expr(x, f, env, depth) for x in k], depth)
            if r is not None: return r
            return ('new', n.ctype.replace('const ', '').split('::')[-1]) + tuple(self.expr(x, f, env, depth) for x in k) if k else ('new', n.ctype.replace('const ', '').split('::')[-1])
        if n.k == 'InitListExpr':
            return ('list',) + tuple(self.expr(x, f, env, depth) for x in n.kids if x is not None)
        if n.k == 'ConditionalOperator':
            if (f.key, n.i) in self.choice: return self.expr(n.kids[1 if self.choice[(f.key, n.i)] else 2], f, env, depth)
            a, b = self.expr(n.kids[1], f, env, depth), self.expr(n.kids[2], f, env, depth)
            return a if a == b else Q
        if n.k in CALLS: return self.call(n, f, env, depth)
        return Q
    def record(self, n, args, depth):
        """an object of the project built by a constructor that only copies its arguments"""
        ts = [t for t in self.db.targets(n) if t.is_ctor]
        if not ts or depth <= 0: return None
        t = ts[0]
        if not t.rec.get('inits') or not t.params: return None
        e = self.bind(t, args); fs = []
        for i in t.rec['inits']:
            if not i.get('f') or i['i'] < 0: return None
            fs.append((i['f'], self.expr(t.nodes[i['i']], t, e, depth - 1)))
        fs = tuple(sorted(fs))
        b = {v[1] if isinstance(v, tuple) and v[:1] == ('f',) and v[2] == m else None for m, v in fs}
        if len(b) == 1 and None not in b: return b.pop()
        return ('rec', (t.cls or '').split('::')[-1], fs)
    def field(self, b, name):
        if isinstance(b, tuple) and b[:1] == ('rec',):
            for m, v in b[2]:
                if m == name: return v
            return Q
        if isinstance(b, tuple) and b[:1] == ('deref',) and isinstance(b[1], tuple) and b[1][:1] == ('find',):
            return ('at', b[1][1], b[1][2]) if name == 'second' else b[1][2] if name == 'first' else Q
        return ('f', b, name)
    def at(self, X, i): return ('at', X, i)
    def call(self, n, f, env, depth):
        l = last(n); a = n.args()
        if n.k == 'CallExpr' and n.cname and l == 'get' and n.cname.startswith('boost'):
            if len(a) == 2:
                t = enum(a[0])
                if t: return ('map', t)
                m = self.expr(a[0], f, env, depth)
                if isinstance(m, tuple) and m[:1] == ('map',): return ('tag', m[1], self.expr(a[1], f, env, depth))
            if len(a) == 3 and enum(a[0]): return ('tag', enum(a[0]), self.expr(a[2], f, env, depth))
            return Q
        if n.k == 'CallExpr' and l in ('source', 'target') and (n.cname or '').startswith('boost') and a: return (l, self.expr(a[0], f, env, depth))
        if n.k == 'CallExpr' and l == 'accumulate' and len(a) == 3:
            b, e, i = [self.expr(x, f, env, depth) for x in a]
            if isinstance(b, tuple) and isinstance(e, tuple) and b[:1] == ('begin',) and e[:1] == ('end',) and b[1] == e[1] and i == 0: return ('sum', b[1])
            return ('partial',) if known(b) and known(e) and known(i) else Q
        if n.k == 'CallExpr' and l in ('min', 'max') and len(a) == 2: return (l,) + tuple(sorted((self.expr(x, f, env, depth) for x in a), key=repr))
        if n.k == 'CallExpr' and l in ('begin', 'end', 'size') and len(a) == 1 and (n.cname or '').startswith('std'): return (l.lstrip('c'), self.expr(a[0], f, env, depth))
        if n.k == 'CallExpr' and l in ('move', 'forward', 'as_const') and len(a) == 1: return self.expr(a[0], f, env, depth)
        if n.k == 'CXXMemberCallExpr' and n.obj() is not None and (n.cname or '').startswith('std::'):
            X = self.expr(n.obj(), f, env, depth)
            if l in ('begin', 'cbegin'): return ('begin', X)
            if l in ('end', 'cend'): return ('end', X)
            if l in ('size', 'length'): return ('size', X)
            if l == 'at' and len(a) == 1: return self.at(X, self.expr(a[0], f, env, depth))
            if l == 'find' and len(a) == 1: return ('find', X, self.expr(a[0], f, env, depth))
            if l == 'front': return self.at(X, 0)
            if l == 'back': return self.at(X, add(('size', X), -1))
            if l == 'empty': return ('empty', X)
            return Q
        ts = self.db.targets(n)
        if ts and depth > 0:
            t = ts[0]
            this = None
            if n.k == 'CXXMemberCallExpr' and n.obj() is not None: this = self.expr(n.obj(), f, env, depth)
            e2 = self.bind(t, [self.expr(x, f, env, depth) for x in a], this)
            r = {x for _, x in self.returns(t, e2, depth - 1)}
            if len(r) == 1:
                r = r.pop()
                if known(r): return r
            return ('call', t.short, this) + tuple(e2[p['d']] for p in t.params)
        return ('call', l) + tuple(self.expr(x, f, env, depth) for x in a)
    def bind(self, t, args, this=None):
        e = {p['d']: (args[i] if i < len(args) else Q) for i, p in enumerate(t.params)}
        if this is not None and this != Q: e['this'] = this
        return e
    def returns(self, f, env, depth=None):
        return [(n, v) for n, v, _ in self.alternatives(f, env, depth)]
    def alternatives(self, f, env, depth=None):
        """(return statement, value, [(condition, outcome)] chosen inside the expression)"""
        out = []
        for n in f.walk():
            if n.k != 'ReturnStmt' or not n.kids or n.kids[0] is None or not self.live(f, n): continue
            cs = [c for c in self.reached(n.kids[0], f) if (f.key, c.i) not in self.choice]
            if not cs or len(cs) > 3: out.append((n, self.expr(n.kids[0], f, env, depth), [])); continue
            for m in range(1 << len(cs)):
                ch = [(c, bool(m >> i & 1)) for i, c in enumerate(cs)]
                for c, b in ch: self.choice[(f.key, c.i)] = b
                try: out.append((n, self.expr(n.kids[0], f, env, depth), [(c.kids[0], b) for c, b in ch]))
                finally:
                    for c, b in ch: del self.choice[(f.key, c.i)]
        return out
    def reached(self, e, f, depth=3):
        """conditional operators in an expression and in the definitions of the locals it uses"""
        out = []
        for n in e.walk():
            if n.k == 'ConditionalOperator': out.append(n)
            elif n.k == 'DeclRefExpr' and n.decl in f.vars and depth:
                d = self.defs(f, n.decl)
                if len(d) == 1 and d[0][0] == '=': out += [x for x in self.reached(d[0][1], f, depth - 1) if x.i not in {o.i for o in out}]
        return out
    def live(self, f, n):
        p = f.pos(n)
        return p is None or p[0] in f.rpo
    def root(self, f): return {p['d']: ('p', i) for i, p in enumerate(f.params)}
    # ---- what a method stores
    def direct(self, f, env):
        """(kind, slot, key, value, node) of the stores in f itself; kind 'tag' (property), 'm' (member), 'struct' (tasks and channels)"""
        for n in f.walk():
            if n.k == 'CallExpr' and n.cname and n.cname.startswith('boost') and last(n) == 'put' and len(n.args()) in (3, 4):
                a = n.args(); t = enum(a[0])
                if t is None:
                    m = self.expr(a[0], f, env)
                    t = m[1] if isinstance(m, tuple) and m[:1] == ('map',) else '?'
                yield 'tag', t, self.expr(a[-2], f, env), self.expr(a[-1], f, env), n
            elif n.k == 'CallExpr' and n.cname and n.cname.startswith('boost') and last(n) in ('add_edge', 'add_vertex', 'remove_edge', 'remove_vertex', 'clear_vertex'):
                yield 'struct', last(n), tuple(self.expr(x, f, env) for x in n.args()[:-1]), None, n
            elif n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op == '=':
                a = n.kids if n.k == 'BinaryOperator' else n.args()
                t = self.expr(a[0], f, env)
                if self.member(t): yield 'm', t, None, self.expr(a[1], f, env), n
                elif isinstance(t, tuple) and t[:1] == ('at',) and isinstance(t[1], tuple) and t[1][:1] == ('map',):
                    yield 'tag', t[1][1], t[2], self.expr(a[1], f, env), n
            elif n.k == 'CXXMemberCallExpr' and n.obj() is not None and last(n) == 'insert_or_assign' and len(n.args()) == 2:
                t = self.expr(n.obj(), f, env)
                if self.member(t): yield 'm', ('at', t, self.expr(n.args()[0], f, env)), None, self.expr(n.args()[1], f, env), n
    def stores(self, f, env, depth=6, seen=()):
        """(kind, slot, key, value, node in f, on every path): also through methods called on the same object"""
        for k, t, key, v, n in self.direct(f, env): yield k, t, key, v, n, self.must(f, env, [n], t, v)
        if not depth: return
        for n in f.walk():
            if n.k == 'CXXMemberCallExpr' and n.obj() is not None and n.obj().strip().k == 'CXXThisExpr':
                for t in self.db.targets(n):
                    if t.cls == f.cls and not t.rec.get('const') and t.key not in seen:
                        e2 = self.bind(t, [self.expr(x, f, env) for x in n.args()], env.get('this'))
                        for k, sl, key, v, m, must in self.stores(t, e2, depth - 1, seen + (f.key,)): yield k, sl, key, v, n, must and self.must(f, env, [n], sl, v)
    def must(self, f, env, nodes, slot=None, value=None, start=None, skip=()):
        """every path from the start to the normal end of f passes one of the nodes (or finds the value stored already)"""
        B = f.blocks; stop = {p[0] for p in (f.pos(n) for n in nodes) if p}
        if not B: return False
        st = [f.entry] if start is None else [start]; seen = set()
        while st:
            b = st.pop()
            if b in seen or b in stop: continue
            seen.add(b)
            if b == f.exit: return False
            blk = B[b]
            if any(e.k in CALLS and e.callee in self.db.noreturn for e in blk.elems): continue
            for i, x in enumerate(blk.succ):
                if x is None or (b, i) in skip: continue
                if slot is not None and self.already(f, env, blk, i, slot, value): continue
                st.append(x)
        return True
    def already(self, f, env, blk, i, slot, value):
        """the branch on which slot == value"""
        c = blk.tcond
        if c is None or len(blk.succ) != 2: return False
        r = self.compare(c, f, env)
        if r is None: return False
        op, a, b = r
        if {repr(a), repr(b)} != {repr(slot), repr(value)}: return False
        return (op == '!=' and i == 1) or (op == '==' and i == 0)
    def compare(self, c, f, env):
        """(op, left, right) of a condition, through negation and locals"""
        neg = False
        for _ in range(6):
            c = c.strip()
            if c.k == 'UnaryOperator' and c.op == '!': neg = not neg; c = c.kids[0]; continue
            if c.k == 'DeclRefExpr' and c.decl in f.vars and f.vars[c.decl]['init'] is not None and not self.writes(f, c.decl): c = f.vars[c.decl]['init']; continue
            break
        if c.k in ('BinaryOperator', 'CXXOperatorCallExpr') and c.op in ('==', '!=', '<', '>', '<=', '>='):
            k = c.kids if c.k == 'BinaryOperator' else c.args()
            if len(k) != 2: return None
            op = c.op
            if neg: op = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[op]
            return op, self.expr(k[0], f, env), self.expr(k[1], f, env)
        return None
    def member(self, t):
        while isinstance(t, tuple) and t and t[0] in ('at', 'f', 'deref'): t = t[1]
        return isinstance(t, tuple) and t[:1] == ('m',)
