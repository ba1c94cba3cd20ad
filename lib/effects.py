"""Interprocedural write effects.  effects(f) = set of ('this',) | ('param', i) | ('global', name) | ('io', what) that a call of f may
modify outside its own locals.  Unknown targets are not effects (no report on what cannot be resolved)."""
from kdb import *
import functools

HARMLESS = {'at', 'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'find', 'front', 'back', 'data', 'lower_bound', 'upper_bound', 'equal_range',
            'get', 'operator*', 'operator->', 'c_str', 'str', 'size', 'empty', 'count', 'operator bool', 'operator()', 'length', 'key_comp', 'value', 'top', 'first', 'second'}
MUTATING_FREE = {'swap', 'sort', 'stable_sort', 'reverse', 'remove', 'remove_if', 'unique', 'iota', 'fill', 'shuffle', 'random_shuffle', 'getline', 'put'}
FILE_FREE = {'system', 'popen', 'fopen', 'fclose', 'fprintf', 'fputs', 'mkdir'}
IO_FREE = {'rand', 'srand', 'random', 'unlink', 'rename', 'setenv', 'putenv'}
def mapish(ct): return ct.replace('const ', '').startswith(('std::map<', 'std::unordered_map<', 'std::multimap<'))

def streamish(ct): return any(x in ct for x in ('basic_ostream', 'std::ostream', 'basic_stringstream', 'basic_ostringstream', 'basic_ofstream'))

class Effects(object):
    def __init__(self, db, pure_members=()):
        self.db = db; self.memo = {}; self.pure_members = set(pure_members)
    def root(self, f, n, depth=0):
        """what an lvalue / object / pointer expression designates"""
        if n is None or depth > 12: return None
        n = n.strip(); k = n.k
        if k == 'CXXThisExpr': return ('this',)
        if k == 'DeclRefExpr':
            d = n.decl
            v = f.vars.get(d)
            if v is None:
                if n.get('dk') in ('Var',): return ('global', n.get('dq') or n.name)
                return None
            if v.get('static'): return ('global', f.short + '::' + v['name'])
            ct = v['ctype']
            if v['param']:
                idx = next((i for i, p in enumerate(f.params) if p['d'] == d), None)
                if ct.endswith('&') or ct.rstrip(' const').endswith('*'): return ('param', idx) if idx is not None else None
                return ('local', d)
            if ct.endswith('&') or ct.rstrip(' const').endswith('*') or 'iterator' in v['type'] or 'iterator' in ct:
                if v['init'] is not None: return self.root(f, v['init'], depth + 1) or ('local', d)
                # range-for reference
                if v.get('node') is not None: pass
                return None
            return ('local', d)
        if k == 'MemberExpr':
            if n.name in self.pure_members: return None
            if not n.kids or n.kids[0] is None: return ('global', n.get('dq') or n.name)
            return self.root(f, n.kids[0], depth + 1)
        if k == 'ArraySubscriptExpr': return self.root(f, n.kids[0], depth + 1)
        if k == 'UnaryOperator' and n.op in ('*', '&', '++', '--'): return self.root(f, n.kids[0], depth + 1)
        if k == 'CXXOperatorCallExpr':
            a = n.args()
            if a: return self.root(f, a[0], depth + 1)
        if k == 'CXXMemberCallExpr':
            o = n.obj(); t = n.ctype
            if o is not None and (n.get('lv') or t.endswith('*') or t.endswith('&') or 'iterator' in t or 'iterator' in n.type): return self.root(f, o, depth + 1)
            return None
        if k in ('CXXNewExpr',): return ('fresh',)
        if k == 'ConditionalOperator': return self.root(f, n.kids[1], depth + 1)
        return None
    def node_effects(self, f, n):
        """direct effects of one node: list of (root, what)"""
        out = []
        if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='):
            out.append((self.root_w(f, n.kids[0]), '%s' % n.text()[:70]))
        elif n.k == 'UnaryOperator' and n.op in ('++', '--'):
            out.append((self.root_w(f, n.kids[0]), n.text()[:70]))
        elif n.k == 'CXXDeleteExpr':
            out.append((self.root(f, n.kids[0]) if n.kids else None, 'delete'))
        elif n.k in CALLS or n.k in CTORS:
            out.extend(self.call_effects(f, n))
        return out
    def root_w(self, f, t):
        """target of an assignment: a pointer/iterator variable itself is a local"""
        s = t.strip()
        if s.k == 'DeclRefExpr' and s.decl in f.vars:
            v = f.vars[s.decl]
            if v.get('static'): return ('global', f.short + '::' + v['name'])
            if not v['ctype'].endswith('&'): return ('local', s.decl)
        return self.root(f, t)
    def call_effects(self, f, n):
        out = []
        name = (n.cname or '').split('::')[-1]
        ts = [t for t in self.db.targets(n) if t.blocks]
        args = n.args()
        if ts:
            for t in ts:
                for e in self.effects(t):
                    if e[0] == 'this':
                        o = n.obj() if n.k == 'CXXMemberCallExpr' else (args[0] if n.k == 'CXXOperatorCallExpr' and args else None)
                        if n.k in CTORS: continue
                        out.append((self.root(f, o), '%s()' % (n.cname or '')))
                    elif e[0] == 'param':
                        i = e[1]
                        a2 = args[1:] if n.k == 'CXXOperatorCallExpr' and t.cls else args
                        if i is not None and i < len(a2) and a2[i] is not None: out.append((self.root(f, a2[i]), '%s(.. %s ..)' % (n.cname, a2[i].text()[:40])))
                    else: out.append((e, '%s()' % (n.cname or '')))
            return out
        if n.k in CTORS: return out
        # library code
        if n.k == 'CXXMemberCallExpr':
            if not n.get('cconst') and not n.get('cstatic') and name not in HARMLESS and n.obj() is not None:
                o = n.obj()
                if name == 'operator[]': return out
                out.append((self.root(f, o), '%s.%s()' % (o.text()[:40], name)))
            return out
        if n.k == 'CXXOperatorCallExpr':
            op = n.op
            if not args: return out
            ct = args[0].strip().ctype
            if op == '[]':
                pass      # reading a map through [] is not reported: the rules cannot tell whether the key is present
            elif op in ('<<',) and streamish(ct): out.append((('io', 'stream'), 'stream output'))
            elif op == '>>': out.append((self.root(f, args[1]) if len(args) > 1 else None, '>> %s' % (args[1].text()[:40] if len(args) > 1 else '')))
            elif op and (op in ('++', '--') or (op.endswith('=') and op not in ('==', '!=', '<=', '>='))):
                out.append((self.root_w(f, args[0]), n.text()[:70]))
            return out
        if name in FILE_FREE: out.append((('io', name), '%s()' % name)); return out
        if name in IO_FREE: out.append((('global', name), '%s()' % name)); return out
        if n.k == 'CallExpr':
            pts = n.get('cpt', ())
            for a, p in zip(args, pts):
                if a is None: continue
                ct = f.types[p][1]
                if (ct.endswith('&') and not ct.startswith('const ') and not ct.endswith('&&')) and not streamish(ct) and name not in ('get', 'move', 'forward', 'begin', 'end', 'distance', 'next', 'prev', 'addressof', 'edges', 'vertices', 'in_edges', 'out_edges', 'degree', 'source', 'target', 'make_pair', 'tie', 'max', 'min', 'ref'):
                    out.append((self.root(f, a), '%s(.. %s ..)' % (name, a.text()[:40])))
            if name in ('sort', 'stable_sort', 'reverse', 'fill', 'iota', 'shuffle', 'random_shuffle', 'next_permutation', 'partial_sort', 'nth_element') and args and args[0] is not None:
                out.append((self.root(f, args[0]), '%s(%s ..)' % (name, args[0].text()[:40])))
        return out
    def effects(self, f):
        if f.key in self.memo: return self.memo[f.key]
        # fixpoint over the strongly connected part reachable from f
        self.memo[f.key] = frozenset()
        comp = [k for k in self.db.reach([f.key]) if k in self.db.funcs]
        for k in comp: self.memo.setdefault(k, frozenset())
        ch = True; rounds = 0
        todo = [self.db.funcs[k] for k in comp if k not in getattr(self, 'final', set()) or k == f.key]
        while ch and rounds < 30:
            ch = False; rounds += 1
            for g in todo:
                s = set(self.memo[g.key])
                for n in g.nodes:
                    for r, what in self.node_effects(g, n):
                        if r is None or r[0] in ('local', 'fresh'): continue
                        if r[0] == 'this' and (g.is_ctor or g.is_dtor): continue
                        s.add(r)
                s = frozenset(s)
                if s != self.memo[g.key]: self.memo[g.key] = s; ch = True
        self.final = getattr(self, 'final', set()) | set(comp)
        return self.memo[f.key]
