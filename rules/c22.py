"""C22: symbolic execution moves exactly the tokens the rates say."""
from kdb import *
from engine import *
import facts
from canon import *
from heap import Heap
from c21 import judged as plain, show as show21, parts, before
LEVEL = 'other'
ASSUMPTIONS = ['conditions that are not written with the quantities of the rule (rates, bounded or not) count as skipping the transfer', 'iteration over the channels of a graph visits each of them once']
TOK, SPC = 'currentTokens', 'bufferSpaces'
def own(c, name=None):
    """('m', x) or ('f', object, x): a data member of an object -> (object, member)"""
    if isinstance(c, tuple) and c[:1] == ('m',): return ('this',), c[1]
    if isinstance(c, tuple) and c[:1] == ('f',): return c[1], c[2]
    return None, None
def short(c):
    if isinstance(c, tuple):
        if c[:1] == ('edge',): return {'in': 'an input channel', 'out': 'an output channel', 'all': 'a channel'}.get(c[1], 'a channel')
        if c[:1] == ('v',): return 'a local'
        if c and c[0] in ('call', 'new'): return '%s(%s)' % (c[1], ', '.join(short(x) for x in c[2:] if x is not None))
        if c and c[0] == 'at': return '%s[%s]' % (short(c[1]), short(c[2]))
        if c and c[0] == 'f': return '%s.%s' % (short(c[1]), c[2])
        if c and c[0] == 'lin': return ' + '.join(['%s%s' % ('' if k == 1 else '-' if k == -1 else '%s*' % k, short(t)) for t, k in c[2]] + ([str(c[1])] if c[1] else []))
        if c and c[0] in ('m', 'p', 'enum'): return show21(c)
        if c and c[0] == 'tag': return '%s(%s)' % (c[1], short(c[2]))
        if c and isinstance(c[0], str): return '%s(%s)' % (c[0], ', '.join(short(x) for x in c[1:]))
        return ', '.join(short(x) for x in c)
    return str(c)

class Sim(object):
    def __init__(self, ctx, db):
        self.ctx = ctx; self.db = db
        self.roles = {}; self.cnt = {}; self.counter = None; self.queue = None
        H = Heap(db)
        for f in db.funcs.values():
            if f.cls == 'Actor' and f.is_ctor and f.params and f.blocks: self.ctor(f, H)
        if set(self.roles.values()) != {'cons', 'prod'}:
            if ctx.viol: return
            raise facts.AnalysisBroken('the rates of an actor are not filled from the rates of its channels')
        keys = {}
        for m, r in list(self.roles.items()) + list(self.cnt.items()): keys[m] = 'in' if r == 'cons' else 'out'
        self.H = Heap(db, roles=keys)
    def method(self, cls, name, n=None):
        return [f for f in self.db.funcs.values() if f.cls == cls and f.short == name and f.blocks and (n is None or len(f.params) == n)]
    def ctor(self, f, H):
        ctx = self.ctx
        for e in H.effects(f, H.root(f)):
            if e.op != 'set': continue
            v = e.value; s = e.slot
            if isinstance(v, tuple) and v[:1] == ('call',) and v[1] in ('getEdgeOutPhase', 'getEdgeInPhase') and isinstance(s, tuple) and s[0] == 'at' and isinstance(s[1], tuple) and s[1][0] == 'at':
                o, m = own(s[1][1]); k = s[1][2]; i = s[2]; r = 'cons' if v[1] == 'getEdgeOutPhase' else 'prod'
                ctx.obligation('rates', '%s[%s] is %s' % (m, short(k), v[1]))
                dom = k[1] if isinstance(k, tuple) and k[:1] == ('edge',) else None
                if dom in ('in', 'out') and (dom == 'in') != (r == 'cons'): ctx.violation('wrong-rate', f.name, '%s of %s' % (v[1], short(k)), e.node.loc(), 'the rate kept for %s is that of its other end' % short(k))
                elif v[3] != k and known(v[3]) and known(k): ctx.violation('wrong-rate', f.name, '%s %s' % (short(k), short(v[3])), e.node.loc(), 'the rate of one channel is kept for another')
                elif v[4] != i: ctx.violation('wrong-rate', f.name, '%s at %s' % (short(v[4]), short(i)), e.node.loc(), 'the rate of phase %s is kept for phase %s' % (short(v[4]), short(i)))
                else: self.roles[m] = r
                for g in e.guards: ctx.violation('conditional-rate', f.name, g[0].text()[:80], e.node.loc(), 'the rate is kept only under a condition')
            elif isinstance(v, tuple) and v[:1] == ('size',) and isinstance(v[1], tuple) and v[1][:1] == ('tag',) and v[1][1] in ('edge_outputs', 'edge_inputs') and isinstance(s, tuple) and s[0] == 'at':
                o, m = own(s[1]); k = s[2]; r = 'cons' if v[1][1] == 'edge_outputs' else 'prod'
                dom = k[1] if isinstance(k, tuple) and k[:1] == ('edge',) else None
                if dom in ('in', 'out') and (dom == 'in') != (r == 'cons'): ctx.violation('wrong-rate', f.name, '%s phases of %s' % (v[1][1], short(k)), e.node.loc(), 'the number of phases kept for %s is that of its other end' % short(k))
                elif m: self.cnt[m] = r
            elif isinstance(v, tuple) and v[:2] == ('tag', 'vertex_phasecount'): self.pcount = own(s)[1]
    # ---- quantities
    def resolve(self, c, role):
        """an amount with every accessor of a rate replaced by the rate it may return (one of the other end if there is one: a channel may be both input and output)"""
        k, t = lin(c); out = {}
        for x, a in t.items():
            v = x
            if isinstance(x, tuple) and x[:1] == ('call',):
                alt = self.options(x)
                if alt and all(self.rate(y) for y in alt):
                    w = [y for y in alt if self.rate(y)[1] != role]
                    v = w[0] if w else alt[0]
            out[v] = out.get(v, 0) + a
        return mklin(k, {x: a for x, a in out.items() if a})
    def options(self, x):
        H = self.H; out = []
        for t in self.method('Actor', x[1], len(x) - 3):
            env = H.bind(t, list(x[3:]), x[2])
            for n, v in H.returns(t, env):
                sure = True; dead = False
                for cond, pol, r in H.guards(t, n, env):
                    m = self.holds(r)
                    if m is None: sure = False
                    elif m != pol: dead = True
                if dead: continue
                if self.rate(v): out.append(v)
                elif v != 0: return []
                if sure: break
        return out
    def holds(self, r):
        """whether a channel has a rate: known for the rates of the end it was taken from"""
        if r[0] not in ('==', '!=') or len(r) < 3: return None
        for x, y in ((r[1], r[2]), (r[2], r[1])):
            if isinstance(x, tuple) and x[:1] == ('find',) and isinstance(y, tuple) and y[:1] == ('end',) and x[1] == y[1]:
                o, m = own(x[1]); ro = self.roles.get(m) or self.cnt.get(m); e = x[2]
                if ro and isinstance(e, tuple) and e[:1] == ('edge',) and e[1] == {'cons': 'in', 'prod': 'out'}[ro]: return r[0] == '!='
        return None
    def rate(self, c):
        """(object, role, channel, phase) of a rate"""
        if isinstance(c, tuple) and c[:1] == ('at',) and isinstance(c[1], tuple) and c[1][:1] == ('at',):
            o, m = own(c[1][1])
            if m in self.roles: return o, self.roles[m], c[1][2], c[2]
        return None
    def level(self, c):
        """(state, 'tokens' | 'space', channel)"""
        if isinstance(c, tuple) and c[:1] == ('at',):
            o, m = own(c[1])
            if m in (TOK, SPC): return o, m, c[2]
        return None
    def now(self, c, o):
        """the phase an actor is in: executions % number of phases + 1"""
        k, t = lin(c)
        if k != 1 or len(t) != 1: return None
        (x, a), = t.items()
        if a != 1 or not (isinstance(x, tuple) and x[:1] == ('%',)): return None
        o2, m = own(x[1])
        return o2 == o and not isinstance(x[2], (int, float)) and m is not None
    def queued(self, c, o):
        """the phase of the execution at the front of a queue"""
        return isinstance(c, tuple) and c[:1] == ('f',) and c[2] == 'second' and isinstance(c[1], tuple) and c[1][:1] == ('at',) and c[1][2] == 0 and isinstance(c[1][1], tuple) and c[1][1][:1] == ('at',) and own(c[1][1][1])[1] is not None
    def guard_ok(self, g, kind, delta):
        cond, pol, r = g
        if r[0] == 'true': 
            o, m = own(r[1])
            if m == 'isBounded': return pol if kind == SPC else False
            return None
        if r[0] in ('>', '!=', '==', '<=', '<', '>='):
            sides = [r[1], r[2]]
            if 0 in sides and any(self.rate(x) for x in sides): return True
            for x, y in (sides, sides[::-1]):
                if own(x)[1] == 'isBounded' and y in (0, 1): return ((r[0] == '==') == (y == 1)) == pol if kind == SPC else False
        return None
    def transfers(self, f, want, phase, label):
        """want: {member: (domain, sign, role)}"""
        ctx = self.ctx; H = self.H; env = H.root(f); seen = {}; effs = list(H.effects(f, env))
        unk = False
        for e in effs:
            if e.op != 'set': continue
            L = self.level(e.slot)
            if L is None: continue
            st, kind, ch = L
            ctx.obligation('transfer', '%s: %s of %s' % (f.name, kind, short(ch)))
            if e.value == e.slot: continue
            delta = add(e.value, e.slot, -1)
            k, t = lin(delta)
            w = want.get(kind)
            if not known(delta) or not known(ch): unk = True; ctx.count('unfollowed'); continue
            if w is None: ctx.violation('extra-transfer', f.name, '%s %s' % (kind, short(delta)), e.node.loc(), '%s changes %s' % (label, kind)); continue
            dom, sign, role = w
            delta = self.resolve(delta, role); k, t = lin(delta)
            if not (isinstance(ch, tuple) and ch[:1] == ('edge',)): unk = True; ctx.count('unfollowed'); continue
            if ch[1] != dom: ctx.violation('wrong-channels', f.name, '%s of %s' % (kind, short(ch)), e.node.loc(), '%s changes the %s of %s, not of the %s channels' % (label, kind, short(ch), {'in': 'input', 'out': 'output'}[dom])); continue
            rs = [(self.rate(x), a) for x, a in t.items()]
            if k != 0 or len(rs) != 1 or rs[0][0] is None:
                if any(r is None and isinstance(x, tuple) and x[:1] == ('call',) for (r, _), x in zip(rs, t)): unk = True; ctx.count('unfollowed'); continue
                ctx.violation('wrong-amount', f.name, '%s %s' % (kind, short(delta)), e.node.loc(), '%s changes the %s of %s by %s' % (label, kind, short(ch), short(delta))); continue
            (o, r, c2, p), a = rs[0]
            if a != sign: ctx.violation('wrong-sign', f.name, '%s %s' % (kind, short(delta)), e.node.loc(), '%s changes the %s of %s by %s' % (label, kind, short(ch), short(delta)))
            elif r != role: ctx.violation('wrong-rate', f.name, '%s %s' % (kind, short(delta)), e.node.loc(), '%s uses the %s rate for the %s of %s' % (label, {'cons': 'consumption', 'prod': 'production'}[r], kind, short(ch)))
            elif c2 != ch: ctx.violation('wrong-rate', f.name, '%s %s' % (kind, short(delta)), e.node.loc(), 'the rate of another channel is used')
            elif phase(p, o) is not True: 
                if p == Q or any(x[:1] == ('v',) for x in parts(p) if isinstance(x, tuple)) and self.local_phase(f, p): ctx.count('unfollowed'); unk = True
                else: ctx.violation('wrong-phase', f.name, '%s phase %s' % (kind, short(p)), e.node.loc(), '%s uses the rate of phase %s' % (label, short(p)))
            else:
                bounded = kind != SPC
                for g in e.guards:
                    ok = self.guard_ok(g, kind, delta)
                    if ok: bounded = True
                    else: ctx.violation('conditional-transfer', f.name, '%s when %s%s' % (kind, '' if g[1] else 'not ', g[0].text()[:70]), e.node.loc(), '%s changes the %s of %s only under a condition' % (label, kind, short(ch)))
                seen.setdefault(kind, []).append(e)
        for kind in want:
            es = seen.get(kind, ())
            if not es and not unk and not any(v for v in ctx.viol if f.name in v and kind in v): ctx.violation('missing-transfer', f.name, kind, f.loc(), '%s does not change the %s of its %s channels' % (label, kind, {'in': 'input', 'out': 'output'}[want[kind][0]]))
            if len(es) > 1: ctx.violation('double-transfer', f.name, kind, es[1].node.loc(), '%s changes the %s of its channels twice' % (label, kind))
        return effs
    def local_phase(self, f, p): return True

    def start(self, f):
        ctx = self.ctx; H = self.H
        effs = self.transfers(f, {TOK: ('in', -1, 'cons'), SPC: ('out', -1, 'prod')}, self.now, 'starting an execution')
        ctx.obligation('execution', '%s queues one execution of the current phase and counts it' % f.name)
        push = [e for e in effs if e.op == 'push_back' and isinstance(e.slot, tuple) and e.slot[:1] == ('at',)]
        for e in push:
            v = e.value[0] if e.value else Q
            if not (isinstance(v, tuple) and v[:2] == ('new', 'pair')): ctx.count('unfollowed'); continue
            if self.now(v[3], ('this',)) is False or self.now(v[3], ('this',)) is None and plainish(v[3]): ctx.violation('wrong-phase', f.name, 'queued %s' % short(v[3]), e.node.loc(), 'the execution is queued for phase %s' % short(v[3]))
            d = v[2]
            if isinstance(d, tuple) and d[:2] == ('call', 'getVertexDuration') and len(d) >= 5:
                if d[4] != v[3]: ctx.violation('wrong-duration', f.name, short(d[4]), e.node.loc(), 'the duration is that of phase %s' % short(d[4]))
                if d[3] != e.slot[2]: ctx.violation('wrong-duration', f.name, short(d[3]), e.node.loc(), 'the duration is that of another task')
            elif plainish(d): ctx.violation('wrong-duration', f.name, short(d), e.node.loc(), 'the execution is queued with a duration of %s' % short(d))
        inc = [e for e in effs if e.op == 'set' and own(e.slot)[1] == self.counter_name()]
        for what, es in (('queues the execution', push), ('counts the execution', inc)):
            if not es: ctx.violation('not-executed', f.name, what, f.loc(), 'starting an execution never %s' % what.replace('queues', 'queues').replace('counts', 'counts'))
            else:
                if len(es) > 1: ctx.violation('not-executed', f.name, what + ' twice', es[1].node.loc(), 'starting an execution %s more than once' % what)
                if es[0].guards or not H.must(f, H.root(f), [es[0].node]): ctx.violation('not-executed', f.name, what + ' sometimes', es[0].node.loc(), 'starting an execution %s only under a condition' % what)
        for e in inc:
            if add(e.value, e.slot, -1) != 1: ctx.violation('wrong-count', f.name, short(e.value), e.node.loc(), 'the number of executions becomes %s' % short(e.value))
            p = f.pos(e.node)
            for n in f.walk():
                if n.k in CALLS and n is not e.node and not H.debug_in(n) and reads_counter(self, n) and p and f.pos(n) and before(f, p, f.pos(n)):
                    ctx.violation('phase-after-count', f.name, n.text()[:60], n.loc(), 'the current phase is read after the execution was counted'); break
    def counter_name(self):
        if self.counter is None:
            for f in self.method('Actor', 'getNumExecutions'):
                r = {v for _, v in self.H.returns(f, self.H.root(f))}
                if len(r) == 1: self.counter = own(r.pop())[1]
            if self.counter is None: raise facts.AnalysisBroken('no execution counter in Actor')
        return self.counter
    def end(self, f):
        ctx = self.ctx; H = self.H
        effs = self.transfers(f, {TOK: ('out', 1, 'prod'), SPC: ('in', 1, 'cons')}, self.queued, 'ending an execution')
        pop = [e for e in effs if e.op in ('pop_front', 'pop_back', 'erase', 'clear')]
        ctx.obligation('execution', '%s removes the execution that ended' % f.name)
        self.popped(f, pop)
    def popped(self, f, pop):
        ctx = self.ctx; H = self.H
        if not pop: ctx.violation('not-removed', f.name, 'queue', f.loc(), 'an execution that ended stays in the queue'); return
        for e in pop:
            if e.op not in ('pop_front', 'erase'): ctx.violation('not-removed', f.name, e.op, e.node.loc(), 'ending an execution removes %s' % ('the last execution' if e.op == 'pop_back' else 'all executions'))
            if e.guards or not H.must(f, H.root(f), [e.node]): ctx.violation('not-removed', f.name, e.op + ' sometimes', e.node.loc(), 'the execution is removed only under a condition')
            p = f.pos(e.node)
            for n in f.walk():
                if n.k in CALLS and last(n) == 'getRemExecTime' and n is not e.node and f.pos(n) and before(f, p, f.pos(n)): ctx.violation('phase-after-removal', f.name, n.text()[:60], n.loc(), 'the phase that ends is read after it was removed from the queue'); break
        if len(pop) > 1: ctx.violation('not-removed', f.name, 'twice', pop[1].node.loc(), 'two executions are removed')
    def end_mod(self, f):
        """the amounts queued for later: id of the channel, production of the phase that ended"""
        ctx = self.ctx; H = self.H
        effs = list(H.effects(f, H.root(f)))
        for e in effs:
            if e.op != 'push_back' or not e.value: continue
            v = e.value[0]
            if not (isinstance(v, tuple) and v[:2] == ('new', 'pair') and isinstance(v[3], tuple) and v[3][:2] == ('new', 'pair')): continue
            i, a = v[3][2], v[3][3]; r = self.rate(a)
            ctx.obligation('transfer', '%s queues %s for %s' % (f.name, short(a), short(i)))
            if r is None:
                if plainish(a): ctx.violation('wrong-amount', f.name, short(a), e.node.loc(), '%s tokens are queued' % short(a))
                continue
            if isinstance(i, tuple) and i[:1] == ('tag',) and (i[2] != r[2]): ctx.violation('wrong-rate', f.name, '%s %s' % (short(i), short(a)), e.node.loc(), 'the tokens of one channel are queued for another')
            if isinstance(r[2], tuple) and r[2][:1] == ('edge',) and (r[2][1] != 'out' or r[1] != 'prod'): ctx.violation('wrong-rate', f.name, short(a), e.node.loc(), 'the rate queued is not the production of an output channel')
            for g in e.guards:
                if not self.guard_ok(g, TOK, a): ctx.violation('conditional-transfer', f.name, g[0].text()[:70], e.node.loc(), 'tokens are queued only under a condition')
        self.popped(f, [e for e in effs if e.op in ('pop_front', 'pop_back', 'clear') and isinstance(e.slot, tuple) and e.slot[:1] == ('at',)])

    # ---- tests before firing
    def tests(self, f, env):
        """(node, op, level, rate): comparisons of a token or space count with a rate, written level op rate"""
        H = self.H; env = H.domains(f, env)
        for n in f.walk(True):
            if n.k not in ('BinaryOperator', 'CXXOperatorCallExpr') or n.op not in ('<', '>', '<=', '>=', '==', '!='): continue
            k = n.kids if n.k == 'BinaryOperator' else n.args()
            if len(k) != 2 or H.debug_in(n): continue
            a, b = H.expr(k[0], f, env), H.expr(k[1], f, env)
            op = n.op
            d = add(a, b, -1); c, t = lin(d)
            lk = [self.level(x)[1] for x in t if self.level(x)]
            if len(lk) == 1: c, t = lin(self.resolve(d, 'cons' if lk[0] == TOK else 'prod'))
            lv = [(x, s) for x, s in t.items() if self.level(x)]; rt = [(x, s) for x, s in t.items() if self.rate(x)]
            if len(lv) != 1 or len(rt) != 1: continue
            if lv[0][1] == -1: op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op); c = -c; t = {x: -s for x, s in t.items()}
            yield n, op, self.level(lv[0][0]), self.rate(rt[0][0]), c, t, env
    def compare_rules(self, f):
        ctx = self.ctx; out = []
        for n, op, L, R, c, t, env in self.tests(f, self.H.root(f)):
            st, kind, ch = L; o, role, ch2, p = R
            ctx.obligation('test', '%s: %s' % (f.name, n.text()[:80]))
            bad = None
            if ch != ch2 and known(ch) and known(ch2): bad = 'the level of one channel is compared with the rate of another'
            elif (kind == TOK) != (role == 'cons'): bad = '%s are compared with the %s rate' % ('tokens' if kind == TOK else 'spaces', {'cons': 'consumption', 'prod': 'production'}[role])
            elif isinstance(ch, tuple) and ch[:1] == ('edge',) and ch[1] in ('in', 'out') and (ch[1] == 'in') != (kind == TOK): bad = '%s of %s decide' % ('tokens' if kind == TOK else 'spaces', short(ch))
            elif len(t) != 2 or c != 0: bad = 'the comparison is off by %s' % short(('lin', c, tuple((x, s) for x, s in t.items() if not self.level(x) and not self.rate(x))))
            elif sorted(t.values()) != [-1, 1]: bad = 'the amounts are scaled'
            elif op not in ('<', '>='): bad = 'an execution needs no more than its rate: the comparison must be strict'
            elif self.now(p, o) is not True and plainish(p): bad = 'the rate is that of phase %s' % short(p)
            elif isinstance(o, tuple) and o[:1] == ('at',) and isinstance(o[2], tuple) and o[2][:1] == ('tag',) and isinstance(o[2][2], tuple) and o[2][2][0] in ('source', 'target'):
                e = o[2][2]
                if e[1] != ch2 or (e[0] == 'target') != (role == 'cons'): bad = 'the rate is read from the actor at the %s of the channel' % e[0]
            if bad: ctx.violation('wrong-test', f.name, n.text()[:90], n.loc(), bad)
            else: out.append((n, op, L, R, env))
        return out
    def ready(self, f):
        """no execution is allowed while an input holds too little or an output has too little room"""
        ctx = self.ctx; ts = self.compare_rules(f)
        have = {L[1] for _, _, L, _, _ in ts}
        for kind in (TOK, SPC):
            ctx.obligation('ready', '%s looks at %s' % (f.name, kind))
            if kind not in have and not any('wrong-test' in v and f.name in v for v in ctx.viol):
                if any(self.db.targets(n) and self.db.targets(n)[0].cls == 'Actor' and n.ctype == 'bool' for n in f.walk() if n.k in CALLS): ctx.count('unfollowed'); continue
                ctx.violation('untested', f.name, kind, f.loc(), 'an execution may start without a look at %s' % ('the tokens of its inputs' if kind == TOK else 'the space of its outputs'))
        for n, op, L, R, env in ts:
            for g in self.H.guards(f, n, env):
                o, m = own(g[2][1]) if g[2][0] == 'true' else (None, None)
                if m == 'isBounded' and L[1] == SPC and g[1]: continue
                if m == 'isExecuting' or self.guard_ok(g, L[1], None): continue
                if any(any(y is x[0] for y in g[0].walk()) for x in ts): continue
                c = g[0].strip()
                while c.k == 'UnaryOperator' and c.op == '!': c = c.kids[0].strip()
                if c.k == 'DeclRefExpr': continue
                if any(y.k == 'MemberExpr' and y.name == 'isExecuting' for y in c.walk()) and c.k in ('MemberExpr', 'BinaryOperator'): continue
                ctx.violation('conditional-test', f.name, '%s when %s' % (n.text()[:60], g[0].text()[:60]), n.loc(), 'the level of a channel is looked at only under a condition')
        marks = {n.i: op for n, op, L, R, env in ts}
        ctx2 = ctx
        class H2(Hooks):
            def value(self, eng, g, n, st):
                if g is f and n.i in marks:
                    short_ = marks[n.i] == '<'
                    return [(short_, st.with_user('short')), (not short_, st)]
                return None
            def ret(self, eng, g, n, st, val):
                if st.user == 'short' and val is not False: bad.append(n)
        bad = []
        try: run(self.db, f, H2())
        except NotImplementedError: return
        if bad: ctx.violation('starts-short', f.name, 'return', bad[0].loc(), 'can allow an execution although a channel holds too little')
        ctx.obligation('ready', '%s of an executing actor' % f.name)
        self_ = self
        class H3(Hooks):
            def value(self, eng, g, n, st):
                if n.k == 'MemberExpr' and n.name == 'isExecuting': return [(True, st)]
                if n.k in CALLS:
                    for t in self_.db.targets(n):
                        rs = [r for r in t.walk() if r.k == 'ReturnStmt' and r.kids and r.kids[0] is not None]
                        if t.cls == f.cls and len(rs) == 1:
                            e = rs[0].kids[0].strip(); neg = False
                            while e.k == 'UnaryOperator' and e.op == '!': neg = not neg; e = e.kids[0].strip()
                            if e.k == 'MemberExpr' and e.name == 'isExecuting': return [(not neg, st)]
                return None
            def ret(self, eng, g, n, st, val):
                if val is not False: twice.append(n)
        twice = []
        run(self.db, f, H3())
        if twice: ctx.violation('starts-twice', f.name, 'return', twice[0].loc(), 'can allow an execution of an actor that is executing')

def plainish(c):
    return not any(isinstance(x, tuple) and x[:1] in (('?',), ('call',), ('v',), ('new',)) or x == '?' for x in parts(c))
def reads_counter(S, n):
    for t in S.db.targets(n):
        if t.cls != 'Actor': return False
        seen = S.db.reach([t.key])
        for k in seen:
            g = S.db.funcs.get(k)
            if g is not None and g.cls == 'Actor' and any(x.k == 'MemberExpr' and x.name == S.counter_name() for x in g.walk()): return True
    return False
def run(db, f, hooks):
    eng = Engine(db, hooks)
    eng.run(f, [mk('ok')])

def states(ctx, S):
    db = S.db; H = S.H
    for f in db.funcs.values():
        if f.cls == 'State' and f.is_ctor and f.params and f.blocks and 'State' not in f.types[f.params[0]['t']][1]:
            effs = [e for e in H.effects(f, H.root(f)) if e.op == 'set']
            caps = {}; sp = []
            for e in effs:
                L = S.level(e.slot)
                if L is None:
                    if isinstance(e.slot, tuple) and e.slot[:1] == ('at',) and own(e.slot[1])[1] == 'bufferCapacities': caps[e.slot[2]] = e.value
                    continue
                st, kind, ch = L
                for g in e.guards: ctx.violation('conditional-start', f.name, '%s when %s' % (kind, g[0].text()[:60]), e.node.loc(), 'the initial %s of a channel is set only under a condition' % kind)
                ctx.obligation('initial', '%s: %s of %s' % (f.name, kind, short(ch)))
                if isinstance(ch, tuple) and ch[:1] == ('edge',) and ch[1] != 'all': ctx.violation('wrong-channels', f.name, kind, e.node.loc(), 'only some channels get initial %s' % kind)
                if kind == TOK:
                    if e.value != ('tag', 'edge_preload', ch) and plain_level(e.value): ctx.violation('wrong-start', f.name, '%s %s' % (kind, short(e.value)), e.node.loc(), 'a channel starts with %s tokens instead of its initial tokens' % short(e.value))
                else: sp.append((ch, e))
            for ch, e in sp:
                size = add(e.value, ('tag', 'edge_preload', ch))
                k, t = lin(size)
                if ch in caps and caps[ch] != size and plain_level(e.value): ctx.violation('wrong-start', f.name, 'space %s' % short(e.value), e.node.loc(), 'a channel of size %s with its initial tokens starts with %s spaces' % (short(caps[ch]), short(e.value)))
            b = [e for e in effs if own(e.slot)[1] == 'isBounded']
            for e in b:
                if e.value in (0, 1) and bool(e.value) != bool(sp): ctx.violation('wrong-start', f.name, 'bounded %s' % e.value, e.node.loc(), 'the channels are %sbounded but their spaces are %sset' % ('' if e.value else 'not ', '' if sp else 'not '))
    # levels copied or changed elsewhere
    for f in sorted(db.funcs.values(), key=lambda f: f.name):
        if f.cls in ('State', 'Actor') or not any(n.k in CALLS and last(n) in ('setTokens', 'setBufferSpace') for n in f.walk()): continue
        env = H.domains(f, H.root(f)); copied = {}
        for n in f.walk(True):
            if n.k != 'CXXMemberCallExpr' or last(n) not in ('setTokens', 'setBufferSpace') or len(n.args()) != 2: continue
            ch, v = [H.expr(x, f, env) for x in n.args()]
            kind = TOK if last(n) == 'setTokens' else SPC
            k, t = lin(v); lv = [(S.level(x), a) for x, a in t.items() if S.level(x)]
            ctx.obligation('copy', '%s: %s' % (f.name, n.text()[:70]))
            if not lv: continue
            if len(lv) > 1 or lv[0][1] != 1: ctx.violation('wrong-copy', f.name, n.text()[:90], n.loc(), 'the level of a channel becomes %s' % short(v)); continue
            (st, k2, c2), a = lv[0]
            if k2 == kind and len(t) == 1 and k == 0: copied.setdefault((H.expr(n.obj(), f, env), st), {}).setdefault(kind, n)
            if k2 != kind: ctx.violation('wrong-copy', f.name, n.text()[:90], n.loc(), 'tokens and spaces are mixed')
            elif c2 != ch and known(c2) and known(ch): ctx.violation('wrong-copy', f.name, n.text()[:90], n.loc(), 'the level of one channel is given to another')
            elif k != 0: ctx.violation('wrong-copy', f.name, n.text()[:90], n.loc(), 'the level changes by %s' % k)
            rest = [(x, a) for x, a in t.items() if not S.level(x)]
            for x, a in rest:
                if a != 1: ctx.violation('wrong-copy', f.name, n.text()[:90], n.loc(), 'the level changes by %s' % short(mklin(0, {x: a})))
        for (d, st), ks in copied.items():
            if d != st and SPC in ks and TOK not in ks: ctx.violation('wrong-copy', f.name, 'spaces only', ks[SPC].loc(), 'the spaces of a state are copied without its tokens')
    # time
    for f in db.funcs.values():
        if f.cls != 'State' or f.short not in ('advanceTime', 'advanceTimeWithMod'): continue
        env = H.domains(f, H.root(f)); steps = []
        for n in f.walk():
            if n.k == 'CXXMemberCallExpr' and last(n) == 'advanceRemExecTime' and len(n.args()) == 2:
                steps.append((n, H.expr(n.args()[1], f, env)))
        adds = [(e.node, add(e.value, e.slot, -1)) for e in H.effects(f, H.root(f)) if e.op == 'set' and own(e.slot)[1] == 'timeElapsed' and own(e.slot)[0] == ('this',)]
        if not steps: ctx.count('unfollowed'); continue
        for n, s in steps:
            ctx.obligation('time', '%s: %s' % (f.name, n.text()[:70]))
            p = f.pos(n)
            for m, a in adds:
                q = f.pos(m)
                if p and q and (before(f, p, q)) and a != s and known(a) and known(s): ctx.violation('wrong-time', f.name, '%s / %s' % (short(s), short(a)), m.loc(), 'running executions advance by %s but the clock by %s' % (short(s), short(a)))
            if not any(p and f.pos(m) and (before(f, p, f.pos(m)) or before(f, f.pos(m), p)) for m, a in adds): ctx.violation('wrong-time', f.name, 'clock', n.loc(), 'running executions advance but the clock does not')
            for r in f.walk():
                if r.k == 'ReturnStmt' and r.kids and r.kids[0] is not None and f.pos(r) and p and before(f, p, f.pos(r)):
                    v = H.expr(r.kids[0], f, env)
                    if v != s and known(v) and known(s): ctx.violation('wrong-time', f.name, 'returns %s' % short(v), r.loc(), 'time advanced by %s but %s is returned' % (short(s), short(v)))
    for f in db.funcs.values():
        if f.cls == 'State' and f.short == 'advanceRemExecTime':
            for n in f.walk():
                t = None
                if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op == '=': t, v = (n.kids if n.k == 'BinaryOperator' else n.args())[:2]
                if n.k == 'CompoundAssignOperator': t, v = n.kids
                if t is None or t.strip().k != 'MemberExpr' or t.strip().name != 'first': continue
                ctx.obligation('time', '%s: %s' % (f.name, n.text()[:70]))
                env = H.domains(f, H.root(f)); tv = H.expr(t, f, env); x = H.expr(v, f, env)
                d = x if n.k == 'CompoundAssignOperator' else add(x, tv, -1)
                if n.k == 'CompoundAssignOperator' and n.op == '-=': d = add(0, d, -1)
                if d != add(0, ('p', 1), -1) and known(d) and known(tv): ctx.violation('wrong-time', f.name, short(d), n.loc(), 'the remaining time of an execution changes by %s' % short(d))
def plain_level(c): return not any(isinstance(x, tuple) and x[:1] in (('?',), ('call',), ('v',)) for x in parts(c))

def free_space(ctx, S):
    """room left in a channel: size and initial tokens of the same channel of the same distribution"""
    db = S.db; C = Canon(db, opaque=True)
    def ch(c, m): return isinstance(c, tuple) and c[:1] == ('f',) and c[2] == m and isinstance(c[1], tuple) and c[1][:1] == ('at',) and own(c[1][1])[1] == 'channel_quantities'
    for f in db.funcs.values():
        if not any(n.k in CALLS and last(n) == 'getInitialTokens' for n in f.walk(True)): continue
        env = C.root(f)
        for n in f.walk(True):
            if n.k not in ('BinaryOperator', 'CXXOperatorCallExpr') or n.op != '-' or S.H.debug_in(n): continue
            p = n.parent
            k, t = lin(C.expr(n, f, env))
            sz = [(x, a) for x, a in t.items() if ch(x, 'second')]; ini = [(x, a) for x, a in t.items() if ch(x, 'first')]
            if not sz or not ini: continue
            ctx.obligation('room', '%s: %s' % (f.name, n.text()[:80]))
            for x, a in ini:
                if not any(y[1] == x[1] for y, b in sz): ctx.violation('wrong-room', f.name, n.text()[:90], n.loc(), 'the size and the initial tokens are those of different channels or distributions')
                elif a != -1 or any(b != 1 for y, b in sz) or k: ctx.violation('wrong-room', f.name, n.text()[:90], n.loc(), 'the room of a channel is its size minus its initial tokens')

def causal(ctx, S):
    """the dependency recorded for a channel that holds too little points from the blocked task to the one it waits for"""
    H = S.H; db = S.db
    for f in db.funcs.values():
        if not any(n.k in CALLS and last(n) == 'addCausalDep' for n in f.walk()): continue
        ts = S.compare_rules(f) if f.short != 'isReadyForExec' else []
        env = H.domains(f, H.root(f))
        for n in f.walk():
            if n.k not in CALLS or last(n) != 'addCausalDep' or len(n.args()) != 2: continue
            a, b = [H.expr(x, f, env) for x in n.args()]
            gs = H.guards(f, n, env)
            for g in gs:
                for m, op, L, R, _ in ts:
                    if m is g[0].strip() or m in list(g[0].walk()):
                        ctx.obligation('dependency', '%s: %s' % (f.name, n.text()[:70]))
                        if (op == '<') != g[1]: ctx.violation('wrong-dependency', f.name, n.text()[:80], n.loc(), 'the dependency is recorded when the channel holds enough')
                        ends = [x[2][0] if isinstance(x, tuple) and x[:1] == ('tag',) and isinstance(x[2], tuple) else None for x in (a, b)]
                        want = ['target', 'source'] if L[1] == TOK else ['source', 'target']
                        if None not in ends and ends != want: ctx.violation('wrong-dependency', f.name, n.text()[:80], n.loc(), 'a task waiting for %s depends on the %s of the channel, not the other way round' % ('tokens' if L[1] == TOK else 'room', want[1]))

MEMBERS = ('timeElapsed', 'actorPhases', TOK, 'executingActors')
def root_member(c):
    while isinstance(c, tuple) and c[:1] == ('at',): c = c[1]
    o, m = own(c)
    return (o, m) if m else None
def equality(ctx, S):
    """two states are the same only if clock, phases, tokens and running executions are"""
    H = S.H; db = S.db
    for f in db.funcs.values():
        if f.cls != 'State' or f.short != 'operator==' or not f.blocks: continue
        env = H.domains(f, H.root(f)); marks = {}; seen = set(); odd = False
        inner = {n.i for n in f.walk()}
        for n in f.walk(True):
            if n.k not in ('BinaryOperator', 'CXXOperatorCallExpr') or n.op not in ('==', '!='): continue
            k = n.kids if n.k == 'BinaryOperator' else n.args()
            if len(k) != 2: continue
            a, b = [H.expr(x, f, env) for x in k]; ra, rb = root_member(a), root_member(b)
            if n.i not in inner:
                if ra or rb: seen.add((ra or rb)[1]); ctx.count('unfollowed')
                else: odd = True
                continue
            if not ra or not rb:
                if any(isinstance(x, tuple) and x[:1] == ('call',) for x in (a, b)): odd = True
                continue
            ctx.obligation('equality', '%s: %s' % (f.name, n.text()[:80]))
            if {ra[0], rb[0]} != {('this',), ('p', 0)} or ra[1] != rb[1]: ctx.violation('wrong-equality', f.name, n.text()[:80], n.loc(), '%s and %s are compared' % (short(a), short(b))); continue
            if ra[1] in MEMBERS: seen.add(ra[1]); marks[n.i] = n.op
        for m in MEMBERS:
            if m not in seen and not odd: ctx.violation('missing-equality', f.name, m, f.loc(), 'states that differ in %s are taken for the same state' % m)
        bad = []
        class H2(Hooks):
            def value(self, eng, g, n, st):
                if g is f and n.i in marks:
                    differ = marks[n.i] == '!='
                    return [(differ, st.with_user('differ')), (not differ, st)]
                return None
            def ret(self, eng, g, n, st, val):
                if st.user == 'differ' and val is not False: bad.append(n)
        try: run(db, f, H2())
        except NotImplementedError: continue
        if bad: ctx.violation('wrong-equality', f.name, 'return', bad[0].loc(), 'states that differ can be taken for the same state')

CONS, PROD = ('edge_total_output', 'edge_outputs', 'edge_init_outputs', 'edge_initoutputs'), ('edge_total_input', 'edge_inputs', 'edge_init_inputs', 'edge_initinputs')
def rate(c):
    """the rate of an end of a channel, in total or in a phase -> ('cons'|'prod', channel)"""
    if isinstance(c, tuple) and c[:1] == ('at',): c = c[1]
    if isinstance(c, tuple) and c[:1] == ('tag',):
        if c[1] in CONS: return 'cons', c[2]
        if c[1] in PROD: return 'prod', c[2]
    return None
def counters(ctx, S):
    """functions that count the tokens of the channels in a local container"""
    db = S.db; H = Heap(db, roles={})
    def elem(c, tabs=None):
        if isinstance(c, tuple) and c[:1] == ('at',) and isinstance(c[1], tuple) and c[1][:1] == ('v',) and isinstance(c[2], tuple) and c[2][:2] == ('tag', 'edge_index') and (tabs is None or c[1] in tabs): return c[1], c[2][2]
        return None
    for f in db.funcs.values():
        if not f.blocks or f.cls in ('Actor', 'State') or not any(n.k in CALLS and last(n) == 'getPreload' for n in f.walk()): continue
        env = H.domains(f, H.root(f)); tabs = set(); ops = []
        for n in f.walk():
            if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op in ('<', '<=', '>', '>=', '=', '+=', '-=') and not S.H.debug_in(n): ops.append((n, H.expr(n.kids[0], f, env), H.expr(n.kids[1], f, env)))
        for n, L, R in ops:
            if n.op == '=' and elem(L) and isinstance(R, tuple) and R[:2] == ('tag', 'edge_preload'):
                ctx.obligation('counter', '%s: %s' % (f.name, n.text()[:80]))
                if R[2] != elem(L)[1] and known(R[2]) and known(L): ctx.violation('wrong-initial', f.name, n.text()[:80], n.loc(), 'the counter of a channel starts with the initial tokens of another')
                tabs.add(elem(L)[0])
        if not tabs: continue
        for n, L, R in ops:
            k, t = lin(add(L, R, -1)) if n.op not in ('+=', '-=') else lin(R)
            rs = [(rate(x), a) for x, a in t.items() if rate(x)]
            if not rs: continue
            if n.op in ('<', '<=', '>', '>='):
                es = [(elem(x, tabs), a) for x, a in t.items() if elem(x, tabs)]
                if len(es) != 1 or len(t) != 2 or len(rs) != 1: continue
                (e, a), (r, b) = es[0], rs[0]
                ctx.obligation('counter-test', '%s: %s' % (f.name, n.text()[:80]))
                if r[1] != e[1]:
                    if known(r[1]) and known(e[1]): ctx.violation('wrong-test', f.name, n.text()[:80], n.loc(), 'the tokens of one channel are compared with the rate of another')
                elif r[0] == 'prod': ctx.violation('wrong-test', f.name, n.text()[:80], n.loc(), 'the tokens in a channel are compared with what is produced into it, not with what is consumed from it')
                elif e[1][:2] == ('edge', 'out'): ctx.violation('wrong-test', f.name, n.text()[:80], n.loc(), 'the tokens of an output channel decide whether a task may start')
                elif a * b != -1 or (n.op, a) not in (('>=', 1), ('<', 1), ('<=', -1), ('>', -1)) or k:
                    if not ((n.op, a, k) in (('>', 1, 1), ('<=', 1, 1), ('<', -1, -1), ('>=', -1, -1)) and a * b == -1): ctx.violation('wrong-test', f.name, n.text()[:80], n.loc(), 'a task may start exactly when a channel holds at least what it consumes')
                continue
            e = elem(L, tabs)
            if e is None: continue
            s = -1 if n.op == '-=' else 1
            if n.op == '=':
                k, t = lin(R)
                if t.get(L) != 1: continue           # not an update of the old value
                rs = [(rate(x), a) for x, a in t.items() if rate(x)]
            for r, a in rs:
                ctx.obligation('counter-update', '%s: %s' % (f.name, n.text()[:80]))
                a *= s
                if r[1] != e[1]:
                    if known(r[1]) and known(e[1]): ctx.violation('wrong-amount', f.name, n.text()[:80], n.loc(), 'the tokens of one channel change by the rate of another')
                elif r[0] == 'cons' and a > 0 or r[0] == 'prod' and a < 0: ctx.violation('wrong-amount', f.name, n.text()[:80], n.loc(), 'what is %s a channel is %s' % (('consumed from', 'added') if r[0] == 'cons' else ('produced into', 'removed')))
                elif abs(a) != 1: ctx.violation('wrong-amount', f.name, n.text()[:80], n.loc(), 'a multiple of the rate is moved')
                elif r[0] == 'cons' and e[1][:2] == ('edge', 'out') or r[0] == 'prod' and e[1][:2] == ('edge', 'in'): ctx.violation('wrong-amount', f.name, n.text()[:80], n.loc(), 'a task %s its %s channels' % (('consumes from', 'output') if r[0] == 'cons' else ('produces into', 'input')))

def check(ctx):
    db = ctx.db()
    ctx.rule('effect summaries of the simulator (slot, channel, amount, condition): starting takes the consumption of the current phase from every input and reserves the production on every output if bounded; ending does the opposite with the phase at the front of the queue; nothing else changes tokens or spaces')
    S = Sim(ctx, db)
    if not hasattr(S, 'H'): return
    st = S.method('Actor', 'execStart'); en = S.method('Actor', 'execEnd'); rd = S.method('Actor', 'isReadyForExec')
    if not st or not en or not rd: raise facts.AnalysisBroken('Actor::execStart / execEnd / isReadyForExec not found')
    for f in st: S.start(f)
    for f in en: S.end(f)
    for f in S.method('Actor', 'execEndWithMod'): S.end_mod(f)
    for f in db.funcs.values():
        if f.cls == 'Actor' and not f.is_ctor and f.short not in ('execStart',):
            for e in S.H.effects(f, S.H.root(f), 0):
                if own(e.slot) == (('this',), S.counter_name()) and not calls_of(S, f, st): ctx.violation('wrong-count', f.name, short(e.value), e.node.loc(), 'the number of executions changes outside the start of an execution')
    ctx.rule('an execution starts only if every input holds the consumption of the current phase and, if bounded, every output has room for its production: exact, strict comparisons, and no path from "too little" to permission')
    for f in rd: S.ready(f)
    ctx.rule('initial tokens and spaces, copies between states, advance of time and room of channels in the design space exploration use matching channels, states and amounts')
    states(ctx, S); equality(ctx, S); free_space(ctx, S); causal(ctx, S)
    ctx.rule('functions that count the tokens of channels in a local container: the counter of a channel starts with its initial tokens, is tested against (at least) its consumption, and changes by minus its consumption on inputs and plus its production on outputs')
    counters(ctx, S)
    ctx.floor('obligations:counter-test', 2); ctx.floor('obligations:counter-update', 4)
    ctx.floor('obligations:transfer', 4); ctx.floor('obligations:test', 4); ctx.floor('obligations:initial', 3); ctx.floor('obligations:room', 5)
def calls_of(S, f, st):
    """f is a helper of the start of an execution"""
    return any(f.key in S.db.reach([s.key]) for s in st)
