"""Verdicts of fallible steps: linear-program solves, buffer sizings with a validity mark, generators with an output argument."""
from kdb import *
from engine import *
SOLVER = 'commons::GLPSol'
FIELDS = {'found', 'Ifound'}

def last(n): return (n.cname or '').split('::')[-1]

class Model(object):
    def __init__(self, db):
        self.db = db
        meths = [f for f in db.funcs.values() if f.cls == SOLVER]
        rd, wr = set(), set()
        for f in meths:
            for n in f.walk():
                if n.k == 'MemberExpr' and n.name in FIELDS:
                    p = n.parent
                    if p is not None and p.k in ('BinaryOperator', 'CompoundAssignOperator') and p.op.endswith('=') and p.kids[0] is n and p.op not in ('==', '!=', '<=', '>='): wr.add(f.key)
                    else: rd.add(f.key)
        ch = True
        while ch:
            ch = False
            for f in meths:
                for c in db.callees[f.key]:
                    if c in wr and f.key not in wr: wr.add(f.key); ch = True
                    if c in rd and c not in wr and f.key not in rd: rd.add(f.key); ch = True
        self.solves = {k for k in wr if db.funcs[k].retctype == 'bool'}
        self.reads = {k for k in rd if k not in wr and db.funcs[k].retctype != 'void' and 'string' not in db.funcs[k].retctype} | {k for k in rd if k not in wr and 'pair' in db.funcs[k].retctype}
        self.reads = {k for k in self.reads if db.funcs[k].retctype != 'bool'}
        # result classes that carry their own validity: a const bool method returning a bool member, other const getters
        self.weak = []       # validity tests that answer true although the mark is down
        self.valid = {}      # class -> dict(test={keys}, value={keys}, ctor...)
        for rn, r in db.records.items():
            ms = [f for f in db.funcs.values() if f.cls == rn]
            tests = {}
            for f in ms:
                rs = [n for n in f.walk() if n.k == 'ReturnStmt' and n.kids]
                if f.retctype == 'bool' and not f.params and len(rs) == 1:
                    m = [x for x in rs[0].walk() if x.k == 'MemberExpr' and 'valid' in x.name.lower() and x.ctype.replace('const ', '').strip(' &') == 'bool']
                    if m:
                        tests[f.key] = m[0].name
                        if not implies(rs[0].kids[0], m[0].name): self.weak.append((f, rs[0]))
            if not tests: continue
            field = next(iter(tests.values()))
            vals = {f.key for f in ms if f.key not in tests and f.retctype != 'void' and not f.is_ctor and not f.short.startswith('operator') and f.retctype != 'bool'}
            sets = {f.key for f in ms if not f.is_ctor and any(n.k == 'BinaryOperator' and n.op == '=' and n.kids[0].strip().k == 'MemberExpr' and n.kids[0].strip().name == field for n in f.walk())}
            ctors = {}
            for f in ms:
                if f.is_ctor:
                    for i in f.rec.get('inits', ()):
                        if i.get('f') == field and i['i'] >= 0: ctors[f.key] = f.nodes[i['i']].get('cv', None) or next((m.get('cv') for m in f.nodes[i['i']].walk() if m.get('cv') is not None), None)
            self.valid[rn] = dict(test=set(tests), value=vals, sets=sets, ctors=ctors)
        self.gens = {}       # verdict functions: key -> output parameter positions
        for f in db.funcs.values():
            if f.retctype != 'bool' or not f.blocks: continue
            outs = []
            for i, p in enumerate(f.params):
                ct = f.types[p['t']][1]
                if not ct.endswith('&') or ct.startswith('const ') or not ct.startswith('std::'): continue
                cl = [n for n in f.writes.get(p['d'], ()) if n.k == 'CXXMemberCallExpr' and last(n) == 'clear' and n.obj() is not None and n.obj().strip().k == 'DeclRefExpr']
                uses = [n for n in f.nodes if n.k == 'DeclRefExpr' and n.decl == p['d'] and f.pos(n) is not None]
                # a pure output: emptied before anything else is done with it
                if any(all(f.dominates(c, u) or any(m is u for m in c.walk()) for u in uses) for c in cl): outs.append(i)
            if outs: self.gens[f.key] = outs
    def is_solver(self, ct): return ct.replace('const ', '').strip(' &*').replace('*const', '').strip() == SOLVER
    def result_class(self, ct):
        t = ct.replace('const ', '').strip(' &*')
        return t if t in self.valid else None

def implies(e, field, pos=True):
    """e true (false if not pos) only where the mark is up"""
    s = e.strip()
    if s.k == 'MemberExpr' and s.name == field: return pos
    if s.k == 'UnaryOperator' and s.op == '!': return implies(s.kids[0], field, not pos)
    if s.k == 'BinaryOperator' and s.op in ('&&', '||'):
        a, b = implies(s.kids[0], field, pos), implies(s.kids[1], field, pos)
        return a or b if (s.op == '&&') == pos else a and b
    if s.k == 'BinaryOperator' and s.op in ('==', '!='):
        for x, y in ((s.kids[0], s.kids[1]), (s.kids[1], s.kids[0])):
            v = y.get('cv') if y.get('cv') is not None else y.strip().get('cv')
            if v is not None: return implies(x, field, pos == ((s.op == '==') == (str(v) != '0')))
    if s.k == 'ConditionalOperator':
        c = s.kids[1].strip().get('cv'), s.kids[2].strip().get('cv')
        if c == ('1', '0'): return implies(s.kids[0], field, pos)
        if c == ('0', '1'): return implies(s.kids[0], field, not pos)
    return False
class Flow(Hooks):
    """one function"""
    def __init__(self, M, f, requires): self.M = M; self.db = M.db; self.requires = requires; self.hits = {}; self.needs = set(); self.sites = {}; self.f = f
    def hit(self, rule, n, msg): self.hits.setdefault((rule, n.text()[:90]), (n, msg))
    def site(self, kind, n): self.sites[(kind, n.i)] = n
    def tracks(self, f, d, v): return True
    def transfer(self, eng, f, n, st):
        M = self.M
        if n.k in CALLS:
            key = n.callee; ts = {t.key for t in self.db.targets(n)} or {key}
            if ts & M.solves:
                o = base_var(n.obj()) if n.obj() is not None else None
                self.site('solve', n)
                return [st.set(('slv', o), v).set(('n', n.i), v) for v in (True, False)]
            if ts & M.reads:
                o = base_var(n.obj()) if n.obj() is not None else None
                self.site('solution-read', n)
                self.need(f, n, o, st)
            for t in ts:
                for i in self.requires.get(t, ()):
                    if i < len(n.args()):
                        self.site('solution-read', n); self.need(f, n, base_var(n.args()[i]), st)
            g = [t for t in ts if t in M.gens]
            if g:
                self.site('verdict', n); out = []
                tr, fa = st.set(('n', n.i), True), st.set(('n', n.i), False).set(('failed',), True)
                for i in M.gens[g[0]]:
                    a = n.args()[i].strip() if i < len(n.args()) else None
                    if a is not None and a.k == 'DeclRefExpr' and a.decl in f.vars: tr = tr.set(('out', a.decl), None); fa = fa.set(('out', a.decl), (n.line, last(n)))
                return [tr, fa]
            for rn, d in M.valid.items():
                if ts & d['value']:
                    o = n.obj(); v = o.strip() if o is not None else None
                    self.site('result-read', n)
                    ok = v is not None and v.k == 'DeclRefExpr' and st.get(('val', v.decl)) is True
                    if not ok and not self.sentinel(f, n): self.hit('unchecked-result', n, 'the value of a %s is used where the result is not known to be valid' % rn.split('::')[-1])
                if ts & d['sets']:
                    o = n.obj().strip() if n.obj() is not None else None; a = n.args()[0].strip() if n.args() else None
                    if o is not None and o.k == 'DeclRefExpr':
                        v = None if a is None or a.get('cv') is None else a.get('cv') == '1'
                        if v: self.made_valid(f, n, st)
                        return [st.set(('val', o.decl), v)]
        if n.k in CTORS:
            for rn, d in M.valid.items():
                if n.callee in d['ctors'] and d['ctors'][n.callee] == '1':
                    a = n.kids[0].strip() if n.kids else None
                    self.site('result-made', n)
                    if a is not None and (a.get('cv') == '0' or a.ctype == 'bool'): self.hit('valid-nothing', n, 'this makes a valid result of size zero: a failed computation must give an invalid %s' % rn.split('::')[-1])
                    self.made_valid(f, n, st)
        if n.k == 'DeclStmt':
            for v in n.d['vars']:
                x = f.vars[v['d']]
                if M.result_class(x['ctype']): st = st.set(('val', v['d']), self.init_valid(f, x['init']))
                if M.is_solver(x['ctype']) and not x['ctype'].endswith('&'): st = st.set(('slv', v['d']), False)
        if n.k == 'CXXOperatorCallExpr' and n.op == '=' and n.args() and n.args()[0].strip().k == 'DeclRefExpr' and M.result_class(n.args()[0].strip().ctype):
            st = st.set(('val', n.args()[0].strip().decl), self.init_valid(f, n.args()[1]))
        if n.k == 'CXXMemberCallExpr' and last(n) == 'clear' and n.obj() is not None and n.obj().strip().k == 'DeclRefExpr': st = st.set(('out', n.obj().strip().decl), None)
        if n.k == 'DeclRefExpr' and n.decl in f.vars:
            bad = st.get(('out', n.decl))
            if bad and not self.regenerates(f, n): self.hit('failed-output', n, 'used although %s (line %d) may have failed to produce it' % (bad[1], bad[0]))
        return [st]
    def regenerates(self, f, n):
        p = n.parent
        while p is not None and p.k in TRANSP: p = p.parent
        if p is None: return False
        if p.k in CALLS and any(t.key in self.M.gens for t in self.db.targets(p)): return True
        if p.k == 'MemberExpr' and p.name in ('clear',): return True
        return False
    def need(self, f, n, o, st):
        if st.get(('slv', o)) is True: return
        v = f.vars.get(o)
        if v is not None and v.get('param') and st.get(('slv', o)) is None:
            self.needs.add(next(i for i, p in enumerate(f.params) if p['d'] == o)); return
        if v is None: return          # not an object of this function
        self.hit('unsolved-read', n, 'a solution value is read where %s is not known to have been solved' % v['name'])
    def made_valid(self, f, n, st):
        bad = [f.vars[k[1]]['name'] for k, v in st.env if k[0] == 'slv' and v is False and k[1] in f.vars]
        if bad: self.hit('valid-unsolved', n, 'a valid result is made although %s was not solved' % bad[0])
    def init_valid(self, f, e):
        if e is None: return None
        s = e.strip()
        while s.k in CTORS and (s.get('copy') or s.get('move')) and s.kids: s = s.kids[0].strip()
        if s.k in CTORS:
            for d in self.M.valid.values():
                if s.callee in d['ctors']: return d['ctors'][s.callee] == '1'
        return None
    def sentinel(self, f, n):
        """the size is stored in an element whose every print is guarded by being positive"""
        c, p = n, n.parent
        while p is not None and p.k in TRANSP | XCASTS: c, p = p, p.parent
        if p is None or p.k not in ('BinaryOperator', 'CXXOperatorCallExpr') or p.op != '=': return False
        lhs = (p.kids[0] if p.k == 'BinaryOperator' else p.args()[0])
        if lhs is c: return False
        t = text(lhs)
        for m in f.nodes:
            if m.k == 'CXXOperatorCallExpr' and m.op == '<<' and len(m.args()) == 2 and text(m.args()[1]) == t:
                g = False
                for q in f.parents(m):
                    if q.k == 'IfStmt' and q.sub('cond') is not None and t in text(q.sub('cond')) and any(x in text(q.sub('cond')) for x in ('> 0', '!= 0', '>= 1', '0 <')): g = True
                if not g: return False
        return True
    def value(self, eng, f, n, st):
        if n.k in CALLS:
            for d in self.M.valid.values():
                if {t.key for t in self.db.targets(n)} & d['test']:
                    o = n.obj().strip() if n.obj() is not None else None
                    if o is not None and o.k == 'DeclRefExpr':
                        v = st.get(('val', o.decl))
                        return [(v, st)] if v is not None else [(True, st.set(('val', o.decl), True)), (False, st.set(('val', o.decl), False))]
        return None
    def ret(self, eng, f, n, st, val):
        if f.key in self.M.gens and val is True and (st.get(('failed',)) or any(k[0] == 'slv' and v is False for k, v in st.env)):
            self.hit('verdict-lost', n, 'reports success although an inner step may have failed')

# ---- the solver's own verdict
RUNS = {'glp_simplex', 'glp_exact', 'glp_interior', 'glp_intopt'}
STATUS = {'glp_get_status', 'glp_ipt_status', 'glp_mip_status', 'glp_get_prim_stat'}
GOOD = {2, 5}          # GLP_FEAS, GLP_OPT
FAMILY = {'glp_simplex': 'lp', 'glp_exact': 'lp', 'glp_interior': 'ipt', 'glp_intopt': 'mip', 'glp_get_status': 'lp', 'glp_ipt_status': 'ipt', 'glp_mip_status': 'mip', 'glp_get_prim_stat': 'lp'}
class Solve(Hooks):
    def __init__(self, db): self.db = db; self.hits = []; self.sites = {}
    def codes(self, e):
        if e is None: return None
        cs = [m for m in e.walk() if m.k == 'CallExpr' and m.cname in RUNS | STATUS]
        if not cs: return None
        return 'run' if cs[0].cname in RUNS else 'status', cs[0]
    def forks(self, st, key, kind):
        if kind == 'run':      # 0, or one of the error codes of the library (all above zero); a branch and bound that ran does not repair the relaxation before it
            n = self.sites[key[1]]; who = FAMILY[n.cname]; st = st.set(('last',), who)
            ok = st.set(key, 0).set(('st',), None)
            if who != 'mip': ok = ok.set(('rc',), None)
            return [ok] + [st.set(key, c).set(('st',), 'bad').set(('rc',), 'bad') for c in range(1, 18)]
        return [st.set(key, v).set(('st',), 'good' if v in GOOD else 'bad') for v in (1, 2, 3, 4, 5, 6)]
    def transfer(self, eng, f, n, st):
        if n.k == 'CallExpr' and n.cname in RUNS | STATUS:
            self.sites[n.i] = n
            if n.cname in RUNS:
                return self.forks(st, ('code', n.i), 'run')
            # a status asked for without being kept is a question, not the verdict; so is the status of another method than the one that ran last
            if st.get(('last',)) not in (None, FAMILY[n.cname]): return [st.set(('code', n.i), x) for x in (1, 2, 3, 4, 5, 6)]
            p = n.parent
            while p is not None and p.k in TRANSP | XCASTS | {'ConditionalOperator'}: p = p.parent
            if p is not None and p.k in ('DeclStmt', 'SwitchStmt') or (p is not None and p.k == 'BinaryOperator' and p.op == '='):
                return self.forks(st, ('code', n.i), 'status')
            v = [st.set(('code', n.i), x) for x in (1, 2, 3, 4, 5, 6)]
            return v
        if n.k == 'DeclStmt':
            for v in n.d['vars']: st = self.copy(st, v['d'], f.vars[v['d']]['init'])
        if n.k == 'BinaryOperator' and n.op == '=' and n.kids[0].strip().k == 'DeclRefExpr': st = self.copy(st, n.kids[0].strip().decl, n.kids[1])
        return [st]
    def copy(self, st, d, e):
        c = self.codes(e) if e is not None else None
        if not c: 
            s = e.strip() if e is not None else None
            if s is not None and s.k == 'DeclRefExpr' and st.get(('cv', s.decl)) is not None: return st.set(('cv', d), st.get(('cv', s.decl)))
            return st.set(('cv', d), int(s.get('cv'))) if s is not None and s.get('cv') is not None and s.k != 'CXXBoolLiteralExpr' and is_int(s) else st.set(('cv', d), None)
        s = e.strip()
        if s.k not in ('CallExpr', 'ConditionalOperator'): return st.set(('cv', d), None)
        for m in e.walk():
            if m.k == 'CallExpr' and st.get(('code', m.i)) is not None: return st.set(('cv', d), st.get(('code', m.i))).set(('code', m.i), None)
        return st
    def val(self, n, st):
        n = n.strip()
        if n.k == 'DeclRefExpr': 
            v = st.get(('cv', n.decl))
            if v is not None: return v
        if n.get('cv') is not None: return int(n.get('cv'))
        if n.k == 'CallExpr': return st.get(('code', n.i))
        if n.k == 'ConditionalOperator':
            for m in n.walk():
                if m.k == 'CallExpr' and st.get(('code', m.i)) is not None: return st.get(('code', m.i))
        return None
    def value(self, eng, f, n, st):
        if n.k == 'BinaryOperator' and n.op in ('==', '!=', '<', '>', '<=', '>='):
            a, b = self.val(n.kids[0], st), self.val(n.kids[1], st)
            if a is None or b is None: return None
            return [({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[n.op], st)]
        if n.k in ('DeclRefExpr', 'CallExpr') and is_int(n):
            v = self.val(n, st)
            if v is not None: return [(v != 0, st)]
        return None
    def switch(self, eng, f, blk, t, st):
        v = self.val(t.sub('cond'), st) if t.sub('cond') is not None else None
        if v is None: return None
        B = f.blocks; default = []
        for d in blk.succ:
            if d is None: continue
            lab = B[d].label
            if lab is not None and lab.k == 'CaseStmt':
                cv = lab.sub('cval')
                if cv is not None and cv.get('cv') is not None and int(cv.get('cv')) == v: return [(d, st)]
            else: default.append(d)
        return [(d, st) for d in default[:1]]
    def tracks(self, f, d, v): return True
    def ret(self, eng, f, n, st, val):
        if val is True and (st.get(('st',)) != 'good' or st.get(('rc',))): self.hits.append((n, 'bad' if st.get(('st',)) else 'unknown'))
def is_int(n): return n.ctype.replace('const ', '') in ('int', 'unsigned int', 'long')
