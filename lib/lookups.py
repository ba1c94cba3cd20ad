"""Path-sensitive 'was this key found' facts for standard containers."""
from kdb import *
from engine import *

ASSOC = ('std::map<', 'std::unordered_map<', 'std::multimap<', 'std::set<', 'std::unordered_set<', 'std::multiset<')
def is_assoc(ct):
    t = ct.replace('const ', '').strip(' &*')
    return t.startswith(ASSOC)
def last(n): return (n.cname or '').split('::')[-1] if n.k in CALLS else ''
CONV = {'fromString', 'split', 'stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stod', 'stof', 'stold', 'atoi', 'atol', 'atof', 'strtol', 'strtod'}

class Lookups(Hooks):
    def __init__(self, db): self.db = db; self.hits = []; self.sites = {}
    # ---- naming
    def name(self, f, e, depth=0):
        """canonical text; string constants resolved"""
        if e is None: return '?'
        s = e.strip()
        while s.k in CTORS and s.kids and s.kids[0] is not None: s = s.kids[0].strip()
        if s.k == 'StringLiteral': return '"%s"' % s.get('v')
        if s.k == 'DeclRefExpr' and s.decl in f.vars and depth < 3:
            v = f.vars[s.decl]
            if v['init'] is not None and not v['param'] and not f.writes.get(s.decl) and s.decl not in f.writes_direct and (v['ctype'].startswith('const ') or v['ctype'].endswith('&')):
                return self.name(f, v['init'], depth + 1)
        if s.k == 'DeclRefExpr' and s.get('gl'):
            for g in self.db.gvars:
                if g.name == (s.get('dq') or s.name):
                    for m in g.nodes:
                        if m.k == 'StringLiteral': return '"%s"' % m.get('v')
        if s.k == 'DeclRefExpr': return '%s#%s' % (s.name, s.decl)
        if s.k == 'UnaryOperator' and s.op == '*': return self.name(f, s.kids[0], depth + 1)
        if s.k in ('MemberExpr',) and s.kids and s.kids[0] is not None: return self.name(f, s.kids[0], depth + 1) + '.' + (s.name or '')
        if s.k == 'CXXMemberCallExpr' and s.obj() is not None:
            return '%s.%s(%s)' % (self.name(f, s.obj(), depth + 1), last(s), ','.join(self.name(f, a, depth + 1) for a in s.args() if a is not None and a.k != 'CXXDefaultArgExpr'))
        if s.k == 'CXXOperatorCallExpr': return '%s(%s)' % (s.op, ','.join(self.name(f, a, depth + 1) for a in s.args()))
        if s.k in ('CallExpr',): return '%s(%s)' % (s.cname, ','.join(self.name(f, a, depth + 1) for a in s.args() if a is not None))
        if s.k in CTORS: return '{%s}' % ','.join(self.name(f, a, depth + 1) for a in s.kids if a is not None)
        return s.text()
    def find_call(self, f, e):
        """(container, key) of a find()"""
        e = e.strip()
        while e.k in CTORS and len([c for c in e.kids if c is not None]) == 1: e = e.kids[0].strip()
        if e.k == 'CXXMemberCallExpr' and last(e) == 'find' and e.obj() is not None and is_assoc(e.obj().strip().ctype):
            return self.name(f, e.obj()), self.name(f, e.args()[0])
        if e.k == 'CallExpr' and last(e) == 'find' and len(e.args()) == 3:
            b = e.args()[0].strip()
            while b.k in CTORS and len([c for c in b.kids if c is not None]) == 1: b = b.kids[0].strip()
            if b.k == 'CXXMemberCallExpr' and last(b) in ('begin', 'cbegin') and b.obj() is not None:
                return self.name(f, b.obj()), self.name(f, e.args()[2])
        return None
    def end_call(self, f, e):
        e = e.strip()
        while e.k in CTORS and len([c for c in e.kids if c is not None]) == 1: e = e.kids[0].strip()
        return e.k == 'CXXMemberCallExpr' and last(e) in ('end', 'cend')
    def it_var(self, f, e):
        e = e.strip()
        while e.k in CTORS and len([c for c in e.kids if c is not None]) == 1: e = e.kids[0].strip()
        if e.k == 'DeclRefExpr' and e.decl in f.vars and ('iterator' in f.vars[e.decl]['ctype'] or 'iterator' in f.vars[e.decl]['type']): return e.decl
        return None
    # ---- facts
    def fork(self, st, key):
        if key[1:] not in self.used: return [(True, st), (False, st)]      # nobody uses the element found: nothing to remember
        v = st.get(key)
        return [(v, st)] if v is not None else [(True, st.set(key, True)), (False, st.set(key, False))]
    def kill(self, st, pred):
        e = frozenset((k, v) for k, v in st.env if not pred(k))
        return State((st.user, e)) if e != st.env else st
    def kill_var(self, f, d, st):
        tag = '%s#%s' % (f.vars[d]['name'], d) if d in f.vars else None
        if tag is None: return st
        import re
        rx = re.compile(re.escape(tag) + r'(?!\d)')
        return self.kill(st, lambda k: k[0] == 'has' and (rx.search(k[2]) or k[1] != tag and rx.search(k[1])) )
    def assign_it(self, f, d, e, st):
        st = st.set(('it', d), None)
        if e is None: return [st]
        fc = self.find_call(f, e)
        if fc:
            self.sites[(f.key, e.strip().i)] = e.loc()
            return [s.set(('it', d), v) for v, s in self.fork(st, ('has',) + fc)]
        o = self.it_var(f, e)
        if o is not None: return [st.set(('it', d), st.get(('it', o)))]
        if self.end_call(f, e): return [st.set(('it', d), False)]
        return [st]
    def transfer(self, eng, f, n, st):
        if n.k == 'DeclStmt':
            cur = [st]
            for v in n.d['vars']:
                var = f.vars.get(v['d'])
                if var is None: continue
                cur = [self.kill_var(f, v['d'], x) for x in cur]
                if is_assoc(var['ctype']): cur = [self.kill(x, lambda k: k[0] == 'has' and k[1] == '%s#%s' % (var['name'], v['d'])) for x in cur]
                if 'iterator' in var['ctype'] or 'iterator' in var['type']: cur = [y for x in cur for y in self.assign_it(f, v['d'], var['init'], x)]
            return cur
        if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='):
            t = n.kids[0].strip()
            if t.k == 'DeclRefExpr': st = self.kill_var(f, t.decl, st)
        if n.k == 'UnaryOperator' and n.op in ('++', '--') and n.kids[0].strip().k == 'DeclRefExpr':
            st = self.kill_var(f, n.kids[0].strip().decl, st)
        if n.k == 'CXXOperatorCallExpr':
            a = n.args()
            if n.op == '=' and a and a[0].strip().k == 'DeclRefExpr':
                d = self.it_var(f, a[0])
                if d is not None: return self.assign_it(f, d, a[1], st)
                st = self.kill_var(f, a[0].strip().decl, st)
                st = self.kill(st, lambda k: k[0] == 'has' and k[1] == self.name(f, a[0]))
            elif n.op in ('++', '--') and a:
                d = self.it_var(f, a[0])
                if d is not None: st = st.set(('it', d), None)
                if a[0].strip().k == 'DeclRefExpr': st = self.kill_var(f, a[0].strip().decl, st)
            elif n.op == '[]' and is_assoc(a[0].strip().ctype):
                k = ('has', self.name(f, a[0]), self.name(f, a[1]))
                self.param_read(f, n, st, k)
                if k[1:] in self.used: st = st.set(k, True)
            elif n.op in ('*', '->') and len(a) == 1: 
                r = self.use(f, a[0], n, st)
                if r is not None: return r
        if n.k == 'CXXMemberCallExpr' and n.obj() is not None:
            o = n.obj(); l = last(n)
            if is_assoc(o.strip().ctype):
                c = self.name(f, o)
                if l in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'merge', 'swap', 'operator='): st = self.kill(st, lambda k: k[0] == 'has' and k[1] == c and (l in ('swap', 'merge', 'operator=') or dict(st.env).get(k) is False))
                elif l == 'clear': st = self.kill(st, lambda k: k[0] == 'has' and k[1] == c)
            if l == 'erase' and n.args() and n.args()[0] is not None:
                if self.find_call(f, n.args()[0]) or self.it_var(f, n.args()[0]) is not None:
                    r = self.use(f, n.args()[0], n, st)
                    if r is not None: return r
                    d = self.it_var(f, n.args()[0])
                    if d is not None: st = st.set(('it', d), None)
                if is_assoc(o.strip().ctype): c = self.name(f, o); st = self.kill(st, lambda k: k[0] == 'has' and k[1] == c)
        if n.k in CALLS or n.k in CTORS:
            # by-reference arguments may be changed by the callee
            for a, p in zip(n.args()[1:] if n.k == 'CXXOperatorCallExpr' and len(n.args()) == len(n.get('cpt', ())) + 1 else n.args(), n.get('cpt', ())):
                if a is None: continue
                ct = f.types[p][1]
                if ct.endswith('&') and not ct.startswith('const ') and a.strip().k == 'DeclRefExpr' and last(n) not in ('operator[]', 'find', 'begin', 'end'):
                    d = a.strip().decl; st = self.kill_var(f, d, st); nm = self.name(f, a)
                    st = self.kill(st, lambda k: k[0] == 'has' and k[1] == nm)
                    if st.get(('it', d)) is not None: st = st.set(('it', d), None)
        return [st]
    def use(self, f, e, n, st):
        """the element an iterator designates is used: None = fine"""
        fc = self.find_call(f, e)
        if fc:
            self.sites[(f.key, n.i)] = n.loc()
            v = st.get(('has',) + fc)
            if v is False or v is None and last(n) != 'erase': self.hits.append((f, n, 'find', 'the result of find(%s) on %s is used although the key may be missing on this path' % (show(fc[1]), show(fc[0])))); return [st.set(('has',) + fc, True)]
            return None
        d = self.it_var(f, e)
        if d is not None and st.get(('it', d)) is False:
            self.hits.append((f, n, f.vars[d]['name'], 'iterator "%s" is used although the look-up found nothing on this path' % f.vars[d]['name'])); return []
        return None
    def param_read(self, f, n, st, k):
        """numeric conversion of a command parameter"""
        if 'parameters_list_t' not in n.args()[0].strip().type and n.args()[0].strip().ctype.replace('const ', '').strip(' &').startswith('std::map<std::basic_string<char>, std::basic_string<char>>') is False: return
        p = n.parent
        while p is not None and (p.k in TRANSP or p.k in CTORS or p.k in XCASTS): p = p.parent
        if p is not None and p.k in CALLS and last(p).split('<')[0] in CONV:
            self.sites[(f.key, n.i)] = n.loc()
            if st.get(k) is not True: self.hits.append((f, n, k[2], 'the value of parameter %s is converted although nothing shows it was given' % show(k[2])))
    def value(self, eng, f, n, st):
        if n.k in ('CXXOperatorCallExpr', 'BinaryOperator') and n.op in ('==', '!='):
            a = n.args() if n.k == 'CXXOperatorCallExpr' else n.kids
            if len(a) != 2: return None
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if self.end_call(f, y):
                    fc = self.find_call(f, x)
                    if fc:
                        self.sites[(f.key, x.strip().i)] = x.loc()
                        return [(v == (n.op == '!='), s) for v, s in self.fork(st, ('has',) + fc)]
                    s0 = x.strip()
                    if s0.k in ('CXXOperatorCallExpr', 'BinaryOperator') and s0.op == '=':
                        x = (s0.args() if s0.k == 'CXXOperatorCallExpr' else s0.kids)[0]
                    d = self.it_var(f, x)
                    if d is not None:
                        v = st.get(('it', d))
                        return [((w if n.op == '!=' else not w), st.set(('it', d), w)) for w in ([v] if v is not None else [True, False])]
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                c = self.count(f, x)
                if c and y.strip().k == 'IntegerLiteral':
                    if str(y.strip().get('v')) == '0': return [(v == (n.op == '!='), s) for v, s in self.fork(st, c)]
                    if str(y.strip().get('v')) == '1': return [(v == (n.op == '=='), s) for v, s in self.fork(st, c)]
        if n.k == 'BinaryOperator' and n.op in ('>', '>=', '<', '<='):
            c = self.count(f, n.kids[0]); y = n.kids[1].strip()
            if c and y.k == 'IntegerLiteral':
                lit = int(y.get('v')); op = n.op
                if (op, lit) in (('>', 0), ('>=', 1)): return self.fork(st, c)
                if (op, lit) in (('<', 1), ('<=', 0)): return [(not v, s) for v, s in self.fork(st, c)]
        c = self.count(f, n)
        if c: return self.fork(st, c)
        return None
    def count(self, f, e):
        e = e.strip()
        if e.k == 'CXXMemberCallExpr' and last(e) in ('count', 'contains') and e.obj() is not None and is_assoc(e.obj().strip().ctype) and e.args():
            self.sites[(f.key, e.i)] = e.loc()
            return ('has', self.name(f, e.obj()), self.name(f, e.args()[0]))
        return None
    def prepare(self, f):
        self.used = set()
        for n in f.nodes:
            if n.k == 'CXXOperatorCallExpr' and n.op in ('*', '->') and len(n.args()) == 1: 
                c = self.find_call(f, n.args()[0])
                if c: self.used.add(c)
            elif n.k == 'CXXMemberCallExpr' and last(n) == 'erase' and n.args() and n.args()[0] is not None:
                c = self.find_call(f, n.args()[0])
                if c: self.used.add(c)
            elif n.k == 'CXXOperatorCallExpr' and n.op == '[]' and 'parameters_list_t' in n.args()[0].strip().type: self.used.add((self.name(f, n.args()[0]), self.name(f, n.args()[1])))
            elif n.k == 'CXXOperatorCallExpr' and n.op == '=' and n.args() and self.it_var(f, n.args()[0]) is not None:
                c = self.find_call(f, n.args()[1])
                if c: self.used.add(c)
        for v in f.vars.values():
            if v['init'] is not None and ('iterator' in v['ctype'] or 'iterator' in v['type']):
                c = self.find_call(f, v['init'])
                if c: self.used.add(c)
    def run(self, f):
        self.prepare(f); e = Engine(self.db, self); e.run(f, [mk(())]); return e
    def relevant(self, f):
        return any(last(n) == 'find' or n.k == 'CXXOperatorCallExpr' and n.op == '[]' and n.args() and 'parameters_list_t' in n.args()[0].strip().type for n in f.nodes)

def show(t):
    import re
    return re.sub(r'#\d+', '', t)
