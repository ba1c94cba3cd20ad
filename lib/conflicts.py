"""The tests that find a graph inconsistent: each leads to failure, none is left out for some of the channels or tasks."""
import re
from kdb import *
from engine import *
FR = re.compile(r'^(const )?((commons|models)::)?Fraction<[^<>]*> ?&?$|^(const )?(TOKEN_FRACT|EXEC_COUNT_FRACT) ?&?$')
CMP = ('==', '!=', '<', '>', '<=', '>=')
def last(n): return (n.cname or '').split('::')[-1]

def operands(n):
    if n.k == 'BinaryOperator' and n.op in CMP: return n.op, n.kids[0], n.kids[1]
    if n.k == 'CXXOperatorCallExpr' and n.op in CMP and len(n.args()) == 2: return n.op, n.args()[0], n.args()[1]
    return None
def constant(f, e): return not any(m.k == 'DeclRefExpr' and m.decl in f.vars or m.k == 'CXXThisExpr' for m in e.walk())
def isfr(e): return FR.search(e.ctype or '') is not None or FR.search(e.strip().ctype or '') is not None
def part(e, names):
    e = e.strip()
    return e.k == 'CXXMemberCallExpr' and last(e) in names and e.obj() is not None and isfr(e.obj())

class Tests(object):
    def __init__(self, db, fs): self.db = db; self.fs = fs; self.memo = {}
    def classify(self, f, n):
        """'conflict' (two derivations of one quantity differ), 'degenerate' (a quantity is zero), 'ordered'; with the outcome that is the bad one"""
        k = (f.key, n.i)
        if k not in self.memo: self.memo[k] = self._classify(f, n)
        return self.memo[k]
    def _classify(self, f, n):
        o = operands(n)
        if o is None:
            if n.k == 'CallExpr' and is_bool(n.ctype):
                for t in self.db.targets(n):
                    rs = [r for r in t.walk() if r.k == 'ReturnStmt' and r.kids and r.kids[0] is not None]
                    if len(rs) == 1 and t.blocks:
                        e = rs[0].kids[0].strip(); neg = False
                        while e.k == 'UnaryOperator' and e.op == '!': neg = not neg; e = e.kids[0].strip()
                        x = operands(e)
                        if x and all(y.strip().k == 'DeclRefExpr' and y.strip().decl in {p['d'] for p in t.params} for y in x[1:]) and x[0] in ('==', '!=') and isfr(x[1]) and isfr(x[2]) and not any(constant(f, a) for a in n.args()):
                            return ('conflict', (x[0] == '!=') != neg)
            return None
        op, a, b = o
        ca, cb = constant(f, a), constant(f, b)
        if ca and cb: return None
        if not ca and not cb and (isfr(a) or isfr(b)):
            if op in ('==', '!='): return ('conflict', op == '!=')
            return ('ordered', None)
        if not ca and not cb and part(a, ('numerator', 'denominator')) and part(b, ('numerator', 'denominator')) and last(a.strip()) == last(b.strip()) and op in ('==', '!='): return ('conflict', op == '!=')
        if is_bool(f.retctype):
            for x, y, o2 in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
                cv = y.strip().get('cv')
                if part(x, ('denominator',)) and cv == '1' and o2 in ('==', '!=', '>'): return ('conflict', o2 != '==')
                x = x.strip()
                if cv == '0' and x.k == 'DeclRefExpr' and x.decl in f.vars and not isfr(x) and not (x.ctype or '').endswith('*') and o2 in ('==', '!=') and re.search(r'long|int', x.ctype or ''): return ('degenerate', o2 == '==')
        return None

class Flow(Hooks):
    """user = found conflicts"""
    def __init__(self, T, f): self.T = T; self.bad = {}; self.f = f
    def value(self, eng, f, n, st):
        c = self.T.classify(f, n)
        if c is None or c[0] == 'ordered': return None
        return [(v, st.with_user(st.user | {n.i} if v == c[1] else st.user - {n.i})) for v in (True, False)]
    def transfer(self, eng, f, n, st):
        if n.k == 'BinaryOperator' and n.op == '=' and n.kids[0].strip().k == 'DeclRefExpr' and (n.kids[0].ctype or '').endswith('*'):
            return [st.set(('ptr', n.kids[0].strip().decl), not isnull(n.kids[1]))]
        if n.k == 'DeclStmt':
            for v in n.d['vars']:
                x = f.vars[v['d']]
                if x['ctype'].endswith('*') and x['init'] is not None: st = st.set(('ptr', v['d']), not isnull(x['init']))
        return [st]
    def ret(self, eng, f, e, st, val):
        if val is None:
            x = e.kids[0] if e.kids else None
            if x is None: ok = True
            elif isnull(x): ok = False
            else:
                x = x.strip(); ok = True
                if x.k == 'DeclRefExpr' and st.get(('ptr', x.decl)) is False: ok = False
        else: ok = val
        if ok:
            for i in st.user: self.bad.setdefault(i, e)

def isnull(e):
    e = e.strip()
    return e.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or e.get('cv') == '0' or (e.k == 'IntegerLiteral' and str(e.get('v')) == '0')
def only_failing(f, T, b, memo):
    """every path from block b ends the function with failure"""
    if b in memo: return memo[b]
    seen = set(); st = [b]; ok = True
    while st and ok:
        x = st.pop()
        if x in seen or x is None: continue
        seen.add(x)
        if x == f.exit: ok = False; break
        blk = f.blocks[x]; ended = False
        for e in blk.elems:
            if e.k == 'ReturnStmt':
                y = e.kids[0] if e.kids else None
                if y is None or not (isnull(y) or (y.strip().k == 'CXXBoolLiteralExpr' and not y.strip().get('v'))): ok = False
                ended = True; break
            if e.k in CALLS and e.callee in T.db.noreturn: ended = True; break
            if e.k == 'CXXThrowExpr': ended = True; break
        if not ended and not blk.nr: st.extend(blk.succ)
    memo[b] = ok
    return ok

def reach(f, b, goal, stop):
    seen = set(); st = [b]
    while st:
        x = st.pop()
        if x is None or x in seen or x in stop: continue
        if x == goal: return True
        seen.add(x); st.extend(f.blocks[x].succ)
    return False

def heads(f, n):
    """blocks that test the loops around n"""
    out = set()
    for p in f.parents(n):
        if p.k in LOOPS: out |= {b.id for b in f.blocks.values() if b.term is p}
    return out

def ends_of(f, e, depth=3):
    """'src'/'dst' for an end of a channel, else None"""
    e = e.strip()
    if e.k in CALLS and last(e) in ('getEdgeSource', 'getEdgeTarget'): return 'end'
    if e.k == 'DeclRefExpr' and depth and e.decl in f.vars and f.vars[e.decl]['init'] is not None: return ends_of(f, f.vars[e.decl]['init'], depth - 1)
    if e.k == 'ConditionalOperator': return ends_of(f, e.kids[1], depth)
    return None

def both_ends(f, c):
    """one half of 'the task is the source or the target of the channel'"""
    p = c.parent
    while p is not None and p.k in TRANSP | XCASTS: p = p.parent
    if p is None or p.k != 'BinaryOperator' or p.op not in ('&&', '||'): return False
    es = []
    for k in p.kids:
        o = operands(k.strip())
        if not o or o[0] != ('==' if p.op == '||' else '!='): return False
        e = [x for x in o[1:] if ends_of(f, x)]
        if len(e) != 1: return False
        es.append(which(f, e[0]))
    return set(es) == {'getEdgeSource', 'getEdgeTarget'}
def which(f, e, depth=3):
    e = e.strip()
    if e.k in CALLS: return last(e)
    if e.k == 'DeclRefExpr' and depth and e.decl in f.vars and f.vars[e.decl]['init'] is not None: return which(f, f.vars[e.decl]['init'], depth - 1)
    return None

def allowed(T, f, c):
    """conditions that may decide whether a test is made: the channel belongs to the task; a value is known; nothing to do"""
    c = c.strip()
    while c.k == 'UnaryOperator' and c.op == '!': c = c.kids[0].strip()
    if c.k == 'BinaryOperator' and c.op in ('&&', '||'): return all(allowed(T, f, k) for k in c.kids)
    if c.k == 'DeclRefExpr' and c.decl in f.vars and is_bool(c.ctype):
        v = f.vars[c.decl]
        if v['init'] is not None and not v['param'] and not f.writes_direct.get(c.decl): return allowed(T, f, v['init'])
        return v['init'] is not None and v['init'].strip().k == 'CXXBoolLiteralExpr' and not f.writes_direct.get(c.decl)
    if T.classify(f, c): return True
    o = operands(c)
    if o:
        op, a, b = o
        ca, cb = constant(f, a), constant(f, b)
        if ca != cb:
            x = (b if ca else a); y = (a if ca else b)
            if isfr(x): return op in ('==', '!=')
            x = x.strip(); cv = y.strip().get('cv')
            if x.k in CALLS and last(x) in ('getEdgesCount', 'getVerticesCount', 'size', 'count'): return cv == '0' or (cv == '1' and op in ('<', '>='))
            return False
        if a.ctype and 'iterator' in (a.ctype + (b.ctype or '')): return True
        if re.search(r'\bVertex\b', a.strip().ctype or ''):
            return (ends_of(f, a) is None) != (ends_of(f, b) is None) and both_ends(f, c)
        if any(x.strip().k in CALLS and last(x.strip()) in ('find', 'end', 'cend') for x in (a, b)): return True
        return False
    if c.k in CALLS and last(c) in ('has_repetition_vector', 'is_normalized', 'contains', 'count', 'empty'): return True
    if (c.ctype or '').endswith('*'): return True
    if c.k == 'CallExpr' and is_bool(c.ctype):
        for t in T.db.targets(c):
            rs = [r for r in t.walk() if r.k == 'ReturnStmt' and r.kids and r.kids[0] is not None]
            if len(rs) == 1 and t.blocks and allowed(T, t, rs[0].kids[0]): return True
    return False

def check(ctx, db, roots):
    ctx.rule('a test that finds two derivations of a rate different (or a rate zero) leads to failure of the computation on every path; it compares for equality; such tests and the steps of the computation are left out only where there is nothing to compare, never by another condition; a caught error is a failure')
    keys = set()
    for r in roots:
        for k in db.reach([r.key]) | {r.key}:
            f = db.funcs.get(k)
            if f is None or f.cls or not f.blocks: continue
            if any('models::Dataflow' in f.types[p['t']][1] for p in f.params): keys.add(k)
    fs = [db.funcs[k] for k in sorted(keys) if is_bool(db.funcs[k].retctype) or db.funcs[k].retctype.endswith('*')]
    T = Tests(db, fs); steps = {f.key for f in fs}
    seen = {}
    for f in fs:
        pts = []
        for n in f.nodes:
            c = T.classify(f, n) if n.k in ('BinaryOperator', 'CXXOperatorCallExpr', 'CallExpr') else None
            if c and f.pos(n) is not None:
                if c[0] == 'ordered':
                    p = n.parent
                    while p is not None and p.k in TRANSP | XCASTS: p = p.parent
                    if p is not None and p.k == 'BinaryOperator' and p.op in ('||', '&&') and all((operands(k.strip()) or ('',))[0] in ('<', '>', '<=', '>=') for k in p.kids): continue
                    if in_message(n): continue
                    ctx.violation('one-sided', f.name, n.text()[:80], n.loc(), 'compares two derivations of a quantity in one direction only: those that differ the other way pass')
                    continue
                if in_message(n): continue
                ctx.obligation('conflict-test', '%s: %s at %s' % (f.short, n.text()[:60], n.loc())); pts.append((n, 'test'))
                seen.setdefault(f.key, []).append(n)
            elif n.k == 'CallExpr' and any(t.key in steps for t in db.targets(n)): pts.append((n, 'step'))
        fl = Flow(T, f); Engine(db, fl).run(f, [mk(frozenset())])
        for i, e in fl.bad.items():
            n = f.nodes[i]
            ctx.violation('conflict-passed', f.name, n.text()[:80], n.loc(), 'finds the graph inconsistent (%s) but can still report success (%s)' % (n.text()[:60], e.text()[:40]))
        memo = {}
        for n, kind in pts:
            g = f.pos(n)[0]; stop = heads(f, n)
            for k, blk in f.blocks.items():
                if k == g or len(blk.succ) != 2 or blk.tcond is None or blk.term is None or blk.term.k in LOOPS or blk.succ[0] is None or blk.succ[1] is None: continue
                if blk.term.macros and any('VERBOSE' in m or 'ASSERT' in m for m in blk.term.macros): continue
                r = [reach(f, s, g, stop) for s in blk.succ]
                if r[0] == r[1]: continue
                other = blk.succ[1] if r[0] else blk.succ[0]
                if only_failing(f, T, other, memo): continue
                cond = blk.term.kids[0] if blk.term.k == 'BinaryOperator' and blk.term.op in ('&&', '||') else blk.tcond
                if not allowed(T, f, cond): ctx.violation('test-skipped', f.name, '%s / %s' % (n.text()[:50], cond.text()[:50]), cond.loc(), 'the %s (%s) is left out depending on %s' % ('consistency test' if kind == 'test' else 'step', n.text()[:60], cond.text()[:60]))
        for n in f.nodes:
            if n.k == 'CXXCatchStmt':
                ctx.obligation('caught', n.loc())
                b = next((f.pos(m)[0] for m in n.walk() if f.pos(m) is not None), None)
                if b is not None and not only_failing(f, T, b, {}): ctx.violation('caught-passed', f.name, 'catch', n.loc(), 'catches an error of the computation and carries on')
    for r in roots:
        mine = db.reach([r.key]) | {r.key}
        comp = [db.funcs[k] for k in mine if k in seen]
        ctx.obligation('tested', r.loc())
        if not comp:
            ctx.violation('untested', r.name, 'consistency', r.loc(), 'no step compares two derivations of one rate: inconsistent graphs are not found')
    ctx.floor('obligations:conflict-test', 10)

def in_message(n): return any('VERBOSE_ASSERT' not in m and 'VERBOSE' in m for m in n.macros)
