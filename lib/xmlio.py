"""What the SDF3 writer puts into, and the SDF3 reader takes out of, each attribute of each element.

Both directions are abstract interpretations of the source with calls inlined: the writer over the stack of open
elements, the reader over the names the current node, attribute and text variables were compared with.  Values are
described by the graph properties (the property tags of models::Dataflow) they are computed from or stored into."""
import collections, re
from kdb import *
from engine import *
import graphmodel
def last(n): return (n.cname or '').split('::')[-1]
NODE = re.compile(r'\b_?xmlNode(Ptr)?\b'); ATTR = re.compile(r'\b_?xmlAttr(Ptr)?\b'); WRITER = re.compile(r'xmlTextWriter')
def is_node(t): return bool(NODE.search(t))
def is_attr(t): return bool(ATTR.search(t))
def calls_of(f): return [n for n in f.walk(True) if n.k in CALLS]
ENDS = {'source': '<source>', 'target': '<target>'}

class Tags(object):
    """graph properties read or written by a method of models::Dataflow"""
    def __init__(self, db): self.db = db; self.memo = {}
    def of(self, f, depth=2):
        if f.key in self.memo: return self.memo[f.key]
        self.memo[f.key] = frozenset(); out = set()
        for n in f.walk(True):
            if n.k == 'DeclRefExpr' and n.get('dk') == 'EnumConstant' and re.match(r'(vertex|edge)_\w+$', n.name or ''): out.add(n.name)
            if n.k in CALLS and n.cname in ('boost::source', 'boost::target'): out.add(ENDS[last(n)])
            m = graphmodel.this_member(n) if n.k == 'MemberExpr' else None
            if m in ('graph_name', 'graph_type', 'app_name'): out.add(m)
        if not out and depth:
            for n in f.walk(True):
                if n.k in CALLS:
                    for t in self.db.targets(n):
                        if t.cls == graphmodel.CLS: out |= self.of(t, depth - 1)
        self.memo[f.key] = frozenset(out); return self.memo[f.key]
    def method(self, n):
        """the called method of models::Dataflow"""
        if n.k != 'CXXMemberCallExpr': return None
        for t in self.db.targets(n):
            if t.cls == graphmodel.CLS: return t
        return None

def lit(n):
    if n.k == 'StringLiteral': return n.get('v') or ''
    if n.k == 'CharacterLiteral' or (n.k == 'DeclRefExpr' and n.get('cv') is not None and n.ctype.replace('const ', '') in ('char',)):
        v = n.get('cv') or n.get('v')
        try: return chr(int(v))
        except (TypeError, ValueError): return None
    return None

class Frame(object):
    """an inlined call: parameters stand for the caller's expressions"""
    __slots__ = ('f', 'bind', 'depth', 'num', 'call', 'up')
    count = 0
    def __init__(self, f, bind=None, depth=0, call=None, up=None): self.f = f; self.bind = bind or {}; self.depth = depth; Frame.count += 1; self.num = Frame.count; self.call = call; self.up = up
def frame(call, fr, callee):
    args = call.args(); b = {}
    for p, a in zip(callee.params, args):
        if a is not None: b[p['d']] = (a, fr)
    return Frame(callee, b, fr.depth + 1, call, fr)
def literal(n, fr):
    """the constant text of an expression, through parameters, constants and local constants"""
    for _ in range(12):
        if n is None: return None
        n = n.strip(); l = lit(n)
        if l is not None: return l
        if n.k == 'DeclRefExpr':
            if n.decl in fr.bind: n, fr = fr.bind[n.decl]; continue
            v = fr.f.vars.get(n.decl)
            if v and v['init'] is not None and not fr.f.writes.get(n.decl): n = v['init']; continue
            return None
        if n.k in CTORS and n.kids: n = n.kids[0]; continue
        if n.k == 'CXXMemberCallExpr' and last(n) in ('c_str', 'data'): n = n.obj(); continue
        return None
    return None

class Writer(Hooks):
    MAXALT = 12
    def __init__(self, db, tags):
        self.db = db; self.tags = tags
        self.sites = {}; self.bad = []; self.frames = []; self.heads = {}; self.memo = {}; self.imprecise = []; self.seps = collections.defaultdict(set); self.funcs = set(); self.assigns = {}
    # ---- values
    def alts(self, n, fr, seen=()):
        """set of alternatives; an alternative is a tuple of parts ('lit', s), ('tag', t), ('sep', c), ('?', text)"""
        if n is None or fr.depth > 8 or len(seen) > 30: return {(('?', ''),)}
        n = n.strip(); l = lit(n)
        if l is not None: return {(('lit', l),)} if l else {()}
        if n.k == 'IntegerLiteral': return {(('lit', str(n.get('v'))),)}
        if n.k == 'DeclRefExpr':
            if n.decl in fr.bind: a, f2 = fr.bind[n.decl]; return self.alts(a, f2, seen)
            v = fr.f.vars.get(n.decl)
            if v is None or v['param'] or (id(fr), n.decl) in seen: return set()
            s2 = seen + ((id(fr), n.decl),)
            out = self.alts(v['init'], fr, s2) if v['init'] is not None else {()}
            for w in fr.f.nodes:
                if w.k in ('CXXOperatorCallExpr', 'BinaryOperator', 'CompoundAssignOperator') and w.op in ('=', '+='):
                    a = w.args() if w.k == 'CXXOperatorCallExpr' else w.kids
                    if a[0].strip().k == 'DeclRefExpr' and a[0].strip().decl == n.decl:
                        self.assigns.setdefault((fr.f.key, w.i), (w, fr))
                        r = self.expand_self(a[1], fr, n.decl, out, seen)
                        out = out | r if w.op == '=' else out | {x + y for x in out for y in r}
                elif w.k == 'CXXMemberCallExpr' and last(w) in ('append', 'push_back', 'insert') and w.obj() is not None and base_var(w.obj()) == n.decl and w.args():
                    r = self.alts(w.args()[-1], fr, s2); out = out | {x + y for x in out for y in r} if last(w) != 'insert' else out | {y + x for x in out for y in r}
            return self.cap(out)
        if n.k == 'CXXOperatorCallExpr' and n.op == '+': return self.cat([self.alts(a, fr, seen) for a in n.args()])
        if n.k == 'ConditionalOperator': return self.cap(self.alts(n.kids[1], fr, seen) | self.alts(n.kids[2], fr, seen))
        if n.k in ('InitListExpr', 'BinaryOperator', 'UnaryOperator', 'ArraySubscriptExpr'): return self.cat([self.alts(a, fr, seen) for a in n.kids if a is not None])
        if n.k == 'CXXOperatorCallExpr': return self.alts(n.args()[0], fr, seen)
        if n.k in CTORS:
            a = [x for x in n.kids if x is not None and x.strip().k not in CTORS or x is not None and x.strip().kids]
            if 'vector' in n.ctype and len(a) == 2: a = a[1:]
            return self.cat([self.alts(x, fr, seen) for x in a]) if a else {()}
        if n.k in CALLS:
            m = self.tags.method(n)
            if m is not None:
                t = set(('tag', x) for x in self.tags.of(m))
                for a in n.args():
                    for alt in self.alts(a, fr, seen): t |= {p for p in alt if p[0] == 'tag'}
                return {tuple(sorted(t))} if t else {(('?', n.text()[:40]),)}
            ts = [t for t in self.db.targets(n) if t.relfile == fr.f.relfile]
            if ts:
                t = ts[0]; f2 = frame(n, fr, t); self.funcs.add(t.key)
                out = self.cat([self.alts(a, fr, seen) for a in n.args()])
                for x in t.walk(True):
                    s = lit(x)
                    if s and len(s) == 1:
                        for alt in out:
                            for p in alt:
                                if p[0] == 'tag': self.seps[p[1]].add(s)
                return out
            o = [n.obj()] if n.k == 'CXXMemberCallExpr' else []
            return self.cat([self.alts(a, fr, seen) for a in o + n.args()])
        return {()}
    def expand_self(self, n, fr, d, cur, seen):
        """like alts, with the variable itself standing for what it held"""
        n = n.strip()
        if n.k == 'DeclRefExpr' and n.decl == d: return set(cur)
        if n.k == 'CXXOperatorCallExpr' and n.op == '+': return self.cat([self.expand_self(a, fr, d, cur, seen) for a in n.args()])
        return self.alts(n, fr, seen + ((id(fr), d),))
    def cap(self, s): return set(sorted(s)[:self.MAXALT])
    def cat(self, ls):
        out = {()}
        for l in ls: out = self.cap({x + y for x in out for y in (l or {()})})
        return out
    # ---- structure
    def run(self, f, fr, stacks):
        self.funcs.add(f.key); key = (f.key, tuple(sorted((d, literal(a, g) or id(a)) for d, (a, g) in fr.bind.items())), frozenset(stacks))
        if key in self.memo: return self.memo[key]
        self.memo[key] = set(stacks); self.frames.append(fr); heads, self.heads = self.heads, {}
        e = Engine(self.db, self); ex = {s.user for s in e.run(f, [mk(s) for s in stacks])}
        self.frames.pop(); self.heads = heads; self.memo[key] = ex; return ex
    def transfer(self, eng, f, n, st):
        if n.k not in CALLS: return [st]
        fr = self.frames[-1]; nm = n.cname or ''
        if len(st.user) > 12:
            self.bad.append((n, 'nesting', 'elements are opened more often than they are closed')); return []
        b = self.heads.setdefault((f.key, n.i), st.user)
        if nm.startswith('xmlTextWriter'):
            if [x[0] for x in b] != [x[0] for x in st.user]: self.bad.append((n, 'nesting', 'an element is still open, or closed already, on one of the ways to get here')); return [st]
            if nm.endswith('StartElement'):
                e = literal(n.args()[1], fr); e = '?' if e is None else e
                self.sites[(f.key, n.i, fr.num)] = (n, fr)
                return [mk(st.user + ((e, (f.key, n.i, fr.num)),), st.env)]
            if nm.endswith('EndElement'):
                if not st.user: self.bad.append((n, 'nesting', 'an element is closed that was not opened')); return [st]
                return [mk(st.user[:-1], st.env)]
            if nm.endswith('WriteAttribute') or nm.endswith('WriteFormatAttribute'):
                a = literal(n.args()[1], fr)
                self.attrs.append((st.user, n, f, a, self.alts(n.args()[2], fr) if len(n.args()) > 2 else set(), fr))
            return [st]
        for t in self.db.targets(n):
            if t.relfile == f.relfile and any(WRITER.search(x.ctype) for x in n.args() if x is not None):
                ex = self.run(t, frame(n, fr, t), {st.user})
                return [mk(s, st.env) for s in sorted(ex)]
        return [st]
    def root(self, f):
        self.attrs = []
        ex = self.run(f, Frame(f), {()})
        for s in ex:
            if s: self.bad.append((f.body, 'nesting', 'the document ends with the elements %s open' % '/'.join(x[0] for x in s)))

Z = frozenset()
class Reader(Hooks):
    """user: frozenset of facts (('n'|'a'|'s', decl), text, bool)"""
    def __init__(self, db, tags):
        self.db = db; self.tags = tags; self.taint = collections.defaultdict(lambda: collections.defaultdict(set)); self.names = collections.defaultdict(set)
        self.parents = collections.defaultdict(set); self.owner = {}
        self.events = set(); self.compared = collections.defaultdict(set); self.delims = collections.defaultdict(set); self.changed = True; self.frames = []; self.active = []; self.nodes = {}; self.funcs = set(); self.tests = set(); self.trues = collections.defaultdict(dict); self.parts = collections.defaultdict(set)
    def vk(self, fr, d): return (fr[0].key, fr[1], d)
    # frame = (f, ctxkey, {param decl: absval}, conds)
    def node_names(self, f, d, st, fr):
        pos = {t for k, t, v in st.user if k == ('n', d) and v}
        if pos: return pos
        if self.names.get(self.vk(fr, d)): return set(self.names[self.vk(fr, d)])
        return set()
    def sources(self, f, n, st, fr, size=(), depth=0):
        """{field: set of (element, attribute, part, narrowest type on the way)}"""
        out = collections.defaultdict(set)
        if n is None or depth > 25: return out
        n = n.strip()
        if n.k == 'MemberExpr' and n.name == 'content':
            d = base_var(n)
            if d in f.vars and is_attr(f.vars[d]['ctype']):
                own = self.owner.get((f.key, d)); at = {t for k, t, v in st.user if k == ('a', d) and v}
                if own is not None:
                    for e in self.node_names(f, own, st, fr) or {'?'}:
                        for a in at: out[''].add((e, a, None, None))
                return out
        if n.k == 'DeclRefExpr':
            if n.decl in fr[2]:
                for k, v in fr[2][n.decl].items(): out[k] |= v
            for k, v in self.taint[self.vk(fr, n.decl)].items(): out[k] |= v
            return out
        if n.k == 'MemberExpr':
            b = self.sources(f, n.kids[0] if n.kids else None, st, fr, size, depth + 1)
            for x in b.get(n.name, ()): out[''].add(x)
            for x in b.get('', ()): out[''].add(x)
            return out
        if n.k == 'ConditionalOperator':
            c = n.kids[0].strip(); v, N = self.sizetest(c)
            for i, kid in ((1, n.kids[1]), (2, n.kids[2])):
                s2 = size + (((v, N if i == 1 else '!%s' % N),) if v is not None else ())
                for k, x in self.sources(f, kid, st, fr, s2, depth + 1).items(): out[k] |= x
            return out
        if n.k in CALLS:
            if n.k == 'CallExpr' and n.cname in ('xmlGetProp', 'xmlGetNoNsProp') and len(n.args()) > 1:
                d = base_var(n.args()[0]); l = self.lit(n.args()[1], fr)
                if d is not None and l:
                    for e in self.node_names(f, d, st, fr) or {'?'}: out[''].add((e, l, None, None)); self.compared[e].add(l)
                return out
            if n.k == 'CXXOperatorCallExpr' and n.op == '[]' or n.k == 'CXXMemberCallExpr' and last(n) in ('at', 'front', 'back'):
                o = n.args()[0] if n.k == 'CXXOperatorCallExpr' else n.obj(); d = base_var(o) if o.strip().k == 'DeclRefExpr' else None
                idx = (n.args()[1].strip() if n.k == 'CXXOperatorCallExpr' else n.args()[0].strip() if n.args() else None)
                c = idx.get('cv', idx.get('v')) if idx is not None else '0' if last(n) == 'front' else None
                dl = self.splitdelim(f, d, fr) if d is not None else None
                for k, v in self.sources(f, o, st, fr, size, depth + 1).items():
                    for e, a, p, w in v:
                        if dl is not None and p is None and c is not None:
                            N = [s for y, s in size if y == d]; p = (dl, str(c), N[-1] if N else '?')
                        out[k].add((e, a, p, w))
                return out
            ts = [t for t in self.db.targets(n) if t.relfile == f.relfile]
            r = self.call(f, n, st, fr, ts[0]) if ts and ts[0].blocks else None
            if r is not None: 
                for k, v in r.items(): out[k] |= v
                return out
            if self.tags.method(n) is not None and not is_textual(n.ctype): 
                for a in n.args():
                    for k, v in self.sources(f, a, st, fr, size, depth + 1).items(): out[''] |= v
                return out
            o = [n.obj()] if n.k == 'CXXMemberCallExpr' and self.tags.method(n) is None else []
            if last(n) == 'split' or last(n).startswith('split'):
                dl = [self.lit(a, fr) for a in n.args()[1:]]
                if last(n) != 'split':
                    dl += [lit(x) for t in self.db.targets(n) for x in t.walk(True)]
                for k, v in self.sources(f, n.args()[0], st, fr, size, depth + 1).items():
                    for e, a, p, w in v: self.delims[(e, a)] |= {x for x in dl if x and len(x) == 1}
            nw = narrow(n.ctype, True) if last(n) in CONV else None
            for a in o + n.args():
                for k, v in self.sources(f, a, st, fr, size, depth + 1).items(): out[k if n.k in CTORS else ''] |= {(e, a2, p, w or nw) for e, a2, p, w in v}
            return out
        for a in n.kids:
            if a is not None:
                for k, v in self.sources(f, a, st, fr, size, depth + 1).items(): out[k] |= v
        return out
    def lit(self, n, fr): 
        l = literal(n, Frame(fr[0]))
        if l is None and n is not None and n.strip().k == 'DeclRefExpr' and n.strip().decl in fr[2]: return fr[2][n.strip().decl].get('=lit')
        return l
    def sizetest(self, c):
        if c.k == 'BinaryOperator' and c.op in ('==', '!='):
            for x, y in ((c.kids[0].strip(), c.kids[1].strip()), (c.kids[1].strip(), c.kids[0].strip())):
                if x.k == 'CXXMemberCallExpr' and last(x) == 'size' and y.get('cv', y.get('v')) is not None and x.obj().strip().k == 'DeclRefExpr':
                    N = str(y.get('cv', y.get('v'))); return x.obj().strip().decl, N if c.op == '==' else '!' + N
        return None, None
    def splitdelim(self, f, d, fr):
        v = f.vars.get(d); i = v['init'].strip() if v and v['init'] is not None else None
        if i is not None and i.k in CALLS and last(i) == 'split' and len(i.args()) > 1: return self.lit(i.args()[1], fr)
        return None
    def put(self, key, fld, vals):
        t = self.taint[key][fld]
        if not vals <= t: t |= vals; self.changed = True
    def call(self, f, n, st, fr, t):
        """inlines a call of a function of the same file; -> abstract result"""
        par = {}; cond = set(fr[3])
        for k, txt, v in st.user:
            if k[0] == 's' and v and txt:
                for fld, ss in list(self.taint[self.vk(fr, k[1])].items()) + list(fr[2].get(k[1], {}).items()):
                    if fld != '=lit':
                        for e, a, p, w in ss: cond.add((e, a, txt))
        for p, a in zip(t.params, n.args()):
            if a is None: continue
            ab = {k: frozenset(v) for k, v in self.sources(f, a, st, fr, (), 5).items() if v}
            l = self.lit(a, fr)
            if l is not None: ab['=lit'] = l
            d = base_var(a)
            if d is not None and is_node(a.strip().ctype): ab['=names'] = frozenset(self.node_names(f, d, st, fr))
            if ab: par[p['d']] = ab
        ctx = (t.key, tuple(sorted((d, tuple(sorted((k, v if isinstance(v, str) else tuple(sorted(v, key=repr))) for k, v in ab.items()))) for d, ab in par.items())), tuple(sorted(cond)))
        if any(x == t.key for x in self.active): return None
        if len(self.active) > 7: return None
        if ctx in self.done: return {k: set(v) for k, v in self.rets.get(ctx, {}).items()}
        self.done.add(ctx)
        self.enter(t, ctx, par, frozenset(cond))
        return {k: set(v) for k, v in self.rets.get(ctx, {}).items()}
    def enter(self, t, ctx, par, cond):
        fr = (t, hash(ctx), par, cond, ctx); self.funcs.add(t.key)
        for d, ab in par.items():
            if ab.get('=names'): self.names[self.vk(fr, d)] |= ab['=names']
        self.link(t)
        self.active.append(t.key); self.frames.append(fr)
        Engine(self.db, self).run(t, [mk(frozenset())])
        self.frames.pop(); self.active.pop()
    def link(self, f):
        """owner node of each attribute variable, parent of each node variable"""
        for d, v in f.vars.items():
            ws = ([v['init']] if v['init'] is not None else []) + [w.kids[1] for w in f.writes_direct.get(d, ()) if w.k == 'BinaryOperator' and w.op == '=']
            for i in ws:
                for x in i.walk():
                    if x.k == 'MemberExpr' and x.name == 'properties' and is_attr(v['ctype']): self.owner[(f.key, d)] = base_var(x)
                    if x.k == 'MemberExpr' and x.name == 'children' and is_node(v['ctype']): self.parents[(f.key, d)].add(base_var(x))
    def nametest(self, f, n):
        """(kind, decl, literal node, positive): a comparison of a node's or attribute's name, or of a text variable"""
        n = n.strip(); a = b = None; pos = True
        if n.k == 'BinaryOperator' and n.op in ('==', '!='):
            l, r = n.kids[0].strip(), n.kids[1].strip()
            for x, y in ((l, r), (r, l)):
                if x.k == 'CallExpr' and last(x) in ('strcmp', 'xmlStrcmp', 'strcasecmp') and str(y.get('cv', y.get('v'))) == '0': a, b = x.args()[:2]; pos = n.op == '=='
                if x.k == 'CallExpr' and last(x) == 'xmlStrEqual' and str(y.get('cv', y.get('v'))) == '0': a, b = x.args()[:2]; pos = n.op == '!='
        elif n.k == 'CXXOperatorCallExpr' and n.op in ('==', '!='): a, b = n.args()[:2]; pos = n.op == '=='
        elif n.k == 'CallExpr' and last(n) == 'xmlStrEqual': a, b = n.args()[:2]
        elif n.k == 'CallExpr' and last(n) in ('strcmp', 'xmlStrcmp', 'strcasecmp'): a, b = n.args()[:2]; pos = False
        elif n.k == 'CXXMemberCallExpr' and last(n) == 'compare' and len(n.args()) == 1: a, b = n.obj(), n.args()[0]; pos = False
        if a is None: return None
        for x, y in ((a, b), (b, a)):
            m = unwrap(x)
            if m.k == 'MemberExpr' and m.name == 'name':
                d = base_var(m); t = m.kids[0].strip().ctype
                if d is not None: return ('n' if is_node(t) else 'a'), d, y, pos
            if m.k == 'DeclRefExpr' and m.decl in f.vars and 'basic_string' in f.vars[m.decl]['ctype'] and lit(unwrap(y)) is not None: return 's', m.decl, y, pos
        return None
    def value(self, eng, f, n, st):
        t = self.nametest(f, n)
        if t is None:
            m = n.strip()
            if m.k == 'CXXOperatorCallExpr' and m.op in ('==', '!='):
                a, b = [unwrap(x) for x in m.args()[:2]]
                if a.k == b.k == 'DeclRefExpr' and a.decl in f.vars and b.decl in f.vars and 'basic_string' in f.vars[a.decl]['ctype']:
                    key = (('e', (min(a.decl, b.decl), max(a.decl, b.decl))), '=')
                    for v in (True, False):
                        if key + (v,) in st.user: return [(v == (m.op == '=='), st)]
                    return [(m.op == '==', mk(st.user | {key + (True,)}, st.env)), (m.op != '==', mk(st.user | {key + (False,)}, st.env))]
            return None
        k, d, y, pos = t; fr = self.frames[-1]; l = self.lit(y, fr)
        if l is None: l = self.lit(unwrap(y), fr)
        if l is None: return None
        if k == 'a':
            own = self.owner.get((f.key, d))
            if own is not None:
                for e in self.node_names(f, own, st, fr) or {'?'}: self.compared[e].add(l)
        key = (k, d); cur = {(t2, v) for kk, t2, v in st.user if kk == key}
        if (l, True) in cur: return [(pos, st)]
        if any(v for _, v in cur) or (l, False) in cur: return [(not pos, st)]
        return [(pos, mk(st.user | {(key, l, True)}, st.env)), (not pos, mk(st.user | {(key, l, False)}, st.env))]
    def kill(self, st, d): 
        u = frozenset(x for x in st.user if x[0][1] != d and not (x[0][0] == 'e' and d in x[0][1]))
        return mk(u, st.env) if u != st.user else st
    def transfer(self, eng, f, n, st):
        fr = self.frames[-1]
        if n.k == 'DeclStmt':
            for v in n.d['vars']:
                var = f.vars.get(v['d']); st = self.kill(st, v['d'])
                if var and var['init'] is not None: self.assign(f, v['d'], '', var['init'], st, fr)
            return [st]
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr', 'CompoundAssignOperator') and n.op in ('=', '+='):
            a = n.args() if n.k == 'CXXOperatorCallExpr' else n.kids; l = a[0].strip(); r = a[1]
            d = base_var(l)
            if d is not None:
                fld = l.name if l.k == 'MemberExpr' else ''
                self.assign(f, d, fld, r, st, fr)
                if l.k == 'DeclRefExpr' and n.op == '=': return [self.kill(st, d)]
            return [st]
        if n.k == 'CXXMemberCallExpr' and last(n) in ('push_back', 'emplace_back', 'append', 'insert') and n.obj() is not None and self.tags.method(n) is None:
            d = base_var(n.obj())
            if d is not None and n.args(): self.assign(f, d, '', n.args()[-1], st, fr)
        if n.k in CALLS:
            m = self.tags.method(n)
            if m is not None: self.event(f, n, m, st, fr)
            else:
                ts = [t for t in self.db.targets(n) if t.relfile == f.relfile and t.blocks]
                if ts: self.call(f, n, st, fr, ts[0])
        return [st]
    def assign(self, f, d, fld, r, st, fr):
        v = f.vars.get(d)
        if v is None: return
        if is_node(v['ctype']):
            rd = base_var(r) if r.strip().k == 'DeclRefExpr' else None
            if rd is not None:
                nm = self.node_names(f, rd, st, fr); k = self.vk(fr, d)
                if not nm <= self.names[k]: self.names[k] |= nm; self.changed = True
            return
        if is_attr(v['ctype']): return
        for k, s in self.sources(f, r, st, fr).items():
            nw = narrow(v['ctype'], True)
            if s and k not in ('=lit', '=names'): self.put(self.vk(fr, d), fld or k, {(e, a, p, w or nw) for e, a, p, w in s})
    def conds(self, st, fr):
        out = set(fr[3])
        for k, txt, v in st.user:
            if k[0] == 's' and v and txt:
                for fld, ss in list(self.taint[self.vk(fr, k[1])].items()) + list(fr[2].get(k[1], {}).items()):
                    if fld != '=lit':
                        for e, a, p, w in ss: out.add((e, a, txt))
        return frozenset(out)
    def event(self, f, n, m, st, fr):
        c = self.conds(st, fr); tg = self.tags.of(m)
        for i, a in enumerate(n.args()):
            if a is None: continue
            # a vertex looked up by a name carries the name's source
            for k, ss in self.sources(f, a, st, fr).items():
                if k == '=lit' or k == '=names': continue
                for s in sorted(ss, key=repr):
                    self.events.add((s, m.short, i, tg, c)); self.nodes[(s, m.short, i)] = n
    def ret(self, eng, f, n, st, val):
        fr = self.frames[-1]
        if not n.kids or n.kids[0] is None: return
        if val is True:
            src = lambda d: {(e, a) for fld, ss in list(self.taint[self.vk(fr, d)].items()) + list(fr[2].get(d, {}).items()) if fld not in ('=lit', '=names') for e, a, p, w in ss}
            self.trues[f.key][(n.i, st.user)] = (self.conds(st, fr), frozenset(frozenset(src(k[1][0]) | src(k[1][1])) for k, t, v in st.user if k[0] == 'e' and v), n)
        r = self.sources(f, n.kids[0], st, fr); R = self.rets.setdefault(fr[4], {})
        for k, v in r.items():
            o = R.setdefault(k, set())
            if not set(v) <= o: o |= set(v); self.changed = True
    def roots(self, fs):
        self.rets = {}
        for rnd in range(6):
            self.changed = False; self.done = set()
            for f in fs: self.enter(f, (f.key, (), ()), {}, frozenset())
            if not self.changed: break
CONV = {'fromString', 'stoi', 'atoi', 'stof', 'stod', 'strtol', 'strtod', 'strtof', 'atof'}
def narrow(ct, whole=False):
    c = ct.replace('const ', '').replace('&', '').strip()
    m = re.match(r'std::vector<([^,<>]+)', c)
    if m: c = m[1].strip()
    return c if c in ('int', 'unsigned int', 'short', 'unsigned short', 'float', 'double', 'bool', 'unsigned char', 'signed char') or whole and c in ('long', 'unsigned long', 'long long', 'unsigned long long') else None
def is_textual(ct): return 'basic_string' in ct
def unwrap(n):
    n = n.strip()
    while True:
        if n.k in CTORS and n.kids and n.kids[0] is not None: n = n.kids[0].strip(); continue
        if n.k == 'CXXMemberCallExpr' and last(n) in ('c_str', 'data'): n = n.obj().strip(); continue
        return n
