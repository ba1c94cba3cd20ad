"""Mutable variables with static storage, and a forward analysis of the order of their resets and uses."""
from kdb import *
import facts

def is_const(ct): 
    ct = ct.strip()
    return ct.startswith('const ') and not ct.endswith('*') or ct.endswith('*const') or ct.endswith('const')
WHOLE = {'clear', 'assign', 'reset'}
FILL = {'memset', 'std::fill', 'std::fill_n', 'std::memset', 'bzero'}

class Statics(object):
    def __init__(self, db):
        self.db = db; self.vars = {}       # key -> dict(name, type, ctype, where, init, local)
        per = collections.defaultdict(set)
        for v in db.gvars:
            per[v.name].add(v.relfile)
        self.multi = {n for n, fs in per.items() if len(fs) > 1 and any(x.endswith('.cpp') for x in fs) and len([x for x in fs if x.endswith('.cpp')]) > 1}
        for v in db.gvars:
            t = v.types[v.rec['t']]
            k = self.gkey(v.name, v)
            if is_const(t[1]): continue
            cur = self.vars.get(k)
            if cur is None or v.rec.get('def'): self.vars[k] = dict(name=v.name, type=t[0], ctype=t[1], loc=v.loc(), file=v.relfile, init=v.nodes[v.rec['init']] if v.rec.get('init', -1) >= 0 else None, local=None)
        for f in db.funcs.values():
            for d, v in f.vars.items():
                if v.get('static') and not is_const(v['ctype']):
                    self.vars[self.lkey(f, v['name'])] = dict(name=v['name'], type=v['type'], ctype=v['ctype'], loc=v['node'].loc(), file=f.relfile, init=v['init'], local=f, decl=d)
        self.uses = collections.defaultdict(list)    # key -> [(f, node)]
        for f in db.funcs.values():
            for n in f.nodes:
                k = self.key(f, n)
                if k is not None: self.uses[k].append((f, n))
        self._direct = {}
    def gkey(self, name, f): return (name, f.relfile) if name in self.multi else (name, '')
    def lkey(self, f, name): return (f.name + '::' + name, f.relfile)
    def key(self, f, n):
        if n.k not in ('DeclRefExpr', 'MemberExpr') or n.get('dk') not in ('Var', 'VarTemplateSpecialization'): return None
        if n.k == 'DeclRefExpr' and n.decl in f.vars:
            return self.lkey(f, n.name) if f.vars[n.decl].get('static') and self.lkey(f, n.name) in self.vars else None
        if not n.get('gl'): return None
        if n.get('dq'):
            k = self.gkey(n.get('dq'), f)
            return k if k in self.vars else None
        # static local of an enclosing function seen from a lambda
        for k, v in self.vars.items():
            if v['local'] is not None and v['name'] == n.name and v['file'] == f.relfile: return k
        return None
    # ---- what a reference does to the variable
    def kind(self, f, n):
        """('reset', element) or ('use', element)"""
        c, p = n, n.parent
        while p is not None and (p.k in TRANSP): c, p = p, p.parent
        if p is None: return 'use', n
        if p.k == 'BinaryOperator' and p.op == '=' and p.kids[0] is c: return 'reset', p
        if p.k == 'CXXOperatorCallExpr' and p.op == '=' and p.args() and p.args()[0] is c: return 'reset', p
        if p.k == 'MemberExpr' and p.kids and p.kids[0] is c:
            q = p.parent
            while q is not None and q.k in TRANSP: q = q.parent
            if q is not None and q.k == 'CXXMemberCallExpr' and q.cname:
                m = q.cname.split('::')[-1]
                if m in WHOLE: return 'reset', q
        if p.k == 'CXXMemberCallExpr' and (p.cname or '').split('::')[-1] == 'swap' and c in p.args():
            o = p.obj()
            if o is not None and o.strip().k in CTORS: return 'reset', p
        q = c
        while p is not None and p.k in TRANSP | XCASTS | {'UnaryOperator'} : q, p = p, p.parent
        if p is not None and p.k == 'CallExpr' and p.cname in FILL and p.args() and p.args()[0] is q: return 'reset', p
        return 'use', n
    def touched(self):
        """function key -> static variables it may touch, itself or below"""
        T = {}
        for f in self.db.funcs.values(): T[f.key] = set()
        for k, us in self.uses.items():
            for f, n in us: T[f.key].add(k)
        ch = True
        while ch:
            ch = False
            for k, cs in self.db.callees.items():
                s = T.get(k)
                for c in cs:
                    t = T.get(c)
                    if t and not t <= s: s |= t; ch = True
        return T
    def solve(self, keys):
        """-> exposes: fkey -> {var: (node, via)}, resets: fkey -> {var}"""
        db = self.db; T = self.touched()
        fs = [f for f in db.funcs.values() if T[f.key] & keys]
        exposes = {f.key: {} for f in fs}; resets = {f.key: set() for f in fs}
        ch = True
        while ch:
            ch = False
            for f in fs:
                e, r = self.local(f, T[f.key] & keys, exposes, resets)
                if set(e) - set(exposes[f.key]):
                    for k in e: exposes[f.key].setdefault(k, e[k])
                    ch = True
                if r - resets[f.key]: resets[f.key] |= r; ch = True
        return exposes, resets
    def local(self, f, keys, exposes, resets):
        ev = collections.defaultdict(list)     # (block, pos) -> [(kind, var, node)]
        out = {}
        for n in f.nodes:
            k = self.key(f, n)
            if k in keys:
                kd, el = self.kind(f, n)
                p = f.pos(el)
                if p is None: out.setdefault(k, (n, None)); continue
                ev[p].append((0 if kd == 'use' else 1, kd, k, n))
            cal = []
            if n.k in CALLS or n.k in CTORS: cal = [t.key for t in self.db.targets(n)]
            elif n.k == 'DeclRefExpr' and n.get('du') in exposes:
                par = n.parent
                while par is not None and par.k in TRANSP: par = par.parent
                if not (par is not None and par.k in CALLS and par.callee == n.get('du')): cal = [n.get('du')]
            elif n.k == 'LambdaExpr' and n.get('lam') in exposes: cal = [n.get('lam')]
            cal = [c for c in cal if c in exposes]
            if cal:
                p = f.pos(n)
                if p is None: continue
                for c in cal:
                    for k in exposes[c]:
                        if k in keys: ev[p].append((0, 'use', k, n))
                common = set.intersection(*[resets[c] for c in cal]) if n.k in CALLS | CTORS else set()
                for k in common & keys: ev[p].append((1, 'reset', k, n))
        if not f.blocks: return out, set()
        IN = {f.entry: frozenset()}; work = [f.entry]
        full = frozenset(keys)
        while work:
            b = work.pop(); cur = set(IN[b]); blk = f.blocks[b]
            for i in range(len(blk.elems)):
                for _, kd, k, n in sorted(ev.get((b, i), ()), key=lambda x: x[0]):
                    if kd == 'reset': cur.add(k)
            cur = frozenset(cur)
            for s in blk.succ:
                if s is None: continue
                new = cur if s not in IN else IN[s] & cur
                if s not in IN or new != IN[s]: IN[s] = new; work.append(s)
        for b, st in IN.items():
            cur = set(st); blk = f.blocks[b]
            for i in range(len(blk.elems)):
                for _, kd, k, n in sorted(ev.get((b, i), ()), key=lambda x: x[0]):
                    if kd == 'reset': cur.add(k)
                    elif k not in cur: out.setdefault(k, (n, n.k in CALLS | CTORS))
        return out, set(IN.get(f.exit, ()))

    # ---- which variables carry state
    def modified(self, k):
        """the uses through which the variable may change after its initialisation"""
        out = []
        for f, n in self.uses[k]:
            kd, el = self.kind(f, n)
            if kd == 'reset': out.append((f, n)); continue
            w = [x for x in f.writes.get(n.decl, ()) if any(m is n for m in x.walk())]
            if w: out.append((f, n)); continue
            c, p = n, n.parent
            while p is not None and p.k in TRANSP and not (p.k == 'ImplicitCastExpr' and p.get('ck') == 'LValueToRValue'): c, p = p, p.parent
            if p is None: continue
            if p.k == 'DeclStmt':
                if any(v['ctype'].endswith('&') and not v['ctype'].startswith('const ') for d, v in f.vars.items() if v['node'] is p): out.append((f, n))
            elif p.k == 'ReturnStmt' and f.retctype.endswith('&') and not f.retctype.startswith('const '): out.append((f, n))
            elif p.k == 'CXXOperatorCallExpr' and p.op == '[]' and 'map' in c.strip().ctype: out.append((f, n))
            elif p.k == 'CXXForRangeStmt' and p.get('lv_t', -1) >= 0 and f.types[p.get('lv_t')][1].endswith('&') and not f.types[p.get('lv_t')][1].startswith('const '): out.append((f, n))
        return out
    def names_only(self, k):
        """a counter that is only stepped and printed (file and graph names)"""
        v = self.vars[k]
        if v['ctype'] not in INTS: return False
        for f, n in self.uses[k]:
            p = n; ok = False
            while p is not None and not ok:
                q = p.parent
                if q is None: break
                if q.k == 'UnaryOperator' and q.op in ('++', '--'):
                    if q.parent is not None and q.parent.k in ('CompoundStmt', 'ForStmt') : ok = True
                elif q.k == 'CXXOperatorCallExpr' and q.op == '<<' : ok = True
                elif q.k in CALLS and (q.cname or '').split('::')[-1] in ('toString', 'to_string'): ok = True
                elif q.k not in TRANSP | XCASTS | {'UnaryOperator'}: break
                p = q
            if not ok: return False
        return True
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'long long', 'unsigned long long', 'unsigned char'}
