"""Path-sensitive finite-state abstract interpreter over the extracted CFGs.

States are hashable tuples chosen by the rule; booleans of interest are tracked exactly by forking,
everything else is non-deterministic.  The set of states per block is finite, so the fixpoint is exact
for the chosen abstraction (no path limit, no solver)."""
import collections
from kdb import *

class State(tuple):
    """(user_state, env) where env is a frozenset of (key, bool)"""
    __slots__ = ()
    user = property(lambda s: s[0]); env = property(lambda s: s[1])
    def with_user(self, u): return State((u, self[1]))
    def set(self, key, val):
        e = frozenset((k, v) for k, v in self[1] if k != key)
        if val is not None: e = e | {(key, val)}
        return State((self[0], e))
    def get(self, key):
        for k, v in self[1]:
            if k == key: return v
        return None
def mk(user, env=frozenset()): return State((user, env))

class Hooks(object):
    """override in rules"""
    def transfer(self, eng, f, n, st):          # -> iterable of states ([] = path ends here)
        return [st]
    def value(self, eng, f, n, st):             # -> list of (bool, state) or None if unknown expression
        return None
    def tracks(self, f, decl, var): return True  # should boolean local be tracked
    def ret(self, eng, f, n, st, val): pass     # at a return statement (val None/True/False)
    def at_exit(self, eng, f, st): pass
    def switch(self, eng, f, blk, t, st): return None    # -> [(successor, state)] when the selector is known
    def edge(self, eng, f, blk, d, st): return st        # state on the edge to d (None: not taken) where the block does not branch on a condition

def is_bool(t): return t.replace('const ', '').strip() in ('bool', '_Bool')

class Engine(object):
    LIMIT = 200000
    def __init__(self, db, hooks):
        self.db = db; self.h = hooks; self.overflow = False
    def evalb(self, f, n, st):
        """all (bool, state) outcomes of a boolean expression whose sub-expressions were already executed"""
        n = n.strip()
        r = self.h.value(self, f, n, st)
        if r is not None: return r
        if n.get('cv') in ('0', '1') and is_bool(n.ctype) and n.k != 'DeclRefExpr': return [(n.get('cv') == '1', st)]
        if n.k == 'CXXBoolLiteralExpr': return [(bool(n.get('v')), st)]
        if n.k == 'UnaryOperator' and n.op == '!':
            # a negated conjunction is evaluated as a value: its short-circuit edges have joined before it
            k = n.kids[0].strip()
            if k.k == 'BinaryOperator' and k.op in ('&&', '||'): return [(not b, s) for b, s in self.full_logical(f, k, st)]
            return [(not b, s) for b, s in self.evalb(f, n.kids[0], st)]
        if n.k == 'DeclRefExpr':
            v = st.get(('v', n.decl))
            if v is not None: return [(v, st)]
            return [(True, st.set(('v', n.decl), True)), (False, st.set(('v', n.decl), False))] if is_bool(n.ctype) and self.local(f, n.decl) else [(True, st), (False, st)]
        if n.k == 'BinaryOperator' and n.op in ('&&', '||'):
            # the short-circuit edges carry the left operand: within the final block only the right one decides
            out = []
            lv = st.get(('sc', n.i))
            for b, s in self.evalb(f, n.kids[1], st): out.append((b, s))
            return out
        if n.k == 'BinaryOperator' and n.op in ('==', '!=') and (is_bool(n.kids[0].strip().ctype) and is_bool(n.kids[1].strip().ctype)):
            out = []
            for a, s in self.evalb(f, n.kids[0], st):
                for b, s2 in self.evalb(f, n.kids[1], s): out.append(((a == b) == (n.op == '=='), s2))
            return out
        if n.k in CALLS:
            v = st.get(('n', n.i))
            if v is not None: return [(v, st)]
        return [(True, st), (False, st)]
    def local(self, f, d): return d in f.vars
    def assign(self, f, d, valnode, st):
        """boolean local <- expression"""
        if valnode is None: return [st.set(('v', d), None)]
        v = valnode.strip()
        if v.k == 'BinaryOperator' and v.op in ('&&', '||'):
            sc = self.full_logical(f, v, st)
            return [s.set(('v', d), b) for b, s in sc]
        return [s.set(('v', d), b) for b, s in self.evalb(f, valnode, st)]
    def full_logical(self, f, v, st):
        v = v.strip()
        if v.k == 'BinaryOperator' and v.op in ('&&', '||'):
            out = []
            for a, s in self.full_logical(f, v.kids[0], st):
                if (v.op == '&&' and not a) or (v.op == '||' and a): out.append((a, s)); continue
                out.extend(self.full_logical(f, v.kids[1], s))
            return list(dict.fromkeys(out))
        if v.k == 'UnaryOperator' and v.op == '!':
            return [(not b, s) for b, s in self.full_logical(f, v.kids[0], st)]
        return self.evalb(f, v, st)
    def step(self, f, n, st):
        sts = list(self.h.transfer(self, f, n, st))
        out = []
        for s in sts:
            if n.k == 'DeclStmt':
                cur = [s]
                for v in n.d['vars']:
                    var = f.vars.get(v['d'])
                    if var and is_bool(var['ctype']) and self.h.tracks(f, v['d'], var):
                        cur = [x for c in cur for x in self.assign(f, v['d'], var['init'], c)]
                out.extend(cur); continue
            if n.k == 'BinaryOperator' and n.op == '=' and n.kids[0].strip().k == 'DeclRefExpr' and is_bool(n.kids[0].strip().ctype):
                d = n.kids[0].strip().decl
                if d in f.vars and self.h.tracks(f, d, f.vars[d]): out.extend(self.assign(f, d, n.kids[1], s)); continue
            if n.k == 'CompoundAssignOperator' and n.kids[0].strip().k == 'DeclRefExpr':
                d = n.kids[0].strip().decl
                if n.op in ('&=', '|=') and is_bool(n.kids[0].strip().ctype) and d in f.vars:
                    for a, s1 in self.evalb(f, n.kids[0], s):
                        for b, s2 in self.evalb(f, n.kids[1], s1):
                            out.append(s2.set(('v', d), (a and b) if n.op == '&=' else (a or b)))
                    continue
                s = s.set(('v', d), None)
            out.append(s)
        return out
    def run(self, f, init, stop=None):
        """-> set of states at normal exit.  Return values are recorded in env under ('ret',)."""
        B = f.blocks
        if not B: return set(init)
        inn = collections.defaultdict(set); work = collections.deque()
        for s in init:
            inn[f.entry].add(s); work.append((f.entry, s))
        exits = set(); count = 0
        while work:
            b, s = work.popleft(); count += 1
            if count > self.LIMIT: self.overflow = True; break
            if b == f.exit:
                exits.add(s); continue
            blk = B[b]; cur = [s]
            for e in blk.elems:
                nxt = []
                for c in cur:
                    if e.k == 'ReturnStmt':
                        if e.kids and e.kids[0] is not None and is_bool(f.retctype):
                            for v, s2 in self.full_logical_ret(f, e.kids[0], c):
                                self.h.ret(self, f, e, s2, v); nxt.append(s2.set(('ret',), v))
                        else:
                            self.h.ret(self, f, e, c, None); nxt.append(c)
                    elif e.k in CALLS and e.callee in self.db.noreturn: continue
                    else: nxt.extend(self.step(f, e, c))
                cur = list(dict.fromkeys(nxt))
                if not cur: break
            if not cur: continue
            if blk.nr: continue
            t = blk.term
            succ = blk.succ
            for c in cur:
                if t is not None and len(succ) == 2 and blk.tcond is not None and t.k not in ('SwitchStmt', 'CXXForRangeStmt', 'CXXTryStmt'):
                    cond = blk.tcond
                    if t.k == 'BinaryOperator' and t.op in ('&&', '||'):
                        cond = t.kids[0]
                        # condition of the block is the left operand (possibly itself logical: its last evaluated part)
                        outs = self.evalb(f, cond, c)
                    else: outs = self.evalb(f, cond, c)
                    for v, s2 in outs:
                        d = succ[0] if v else succ[1]
                        if d is None: continue
                        if s2 not in inn[d]: inn[d].add(s2); work.append((d, s2))
                elif t is not None and t.k == 'SwitchStmt' and self.h.switch(self, f, blk, t, c) is not None:
                    for d, s2 in self.h.switch(self, f, blk, t, c):
                        if d is not None and s2 not in inn[d]: inn[d].add(s2); work.append((d, s2))
                else:
                    for d in succ:
                        if d is None: continue
                        c2 = self.h.edge(self, f, blk, d, c)
                        if c2 is not None and c2 not in inn[d]: inn[d].add(c2); work.append((d, c2))
        for s in exits: self.h.at_exit(self, f, s)
        return exits
    def full_logical_ret(self, f, n, st):
        n0 = n.strip()
        if n0.k == 'BinaryOperator' and n0.op in ('&&', '||'): return self.full_logical(f, n0, st)
        return self.evalb(f, n, st)
