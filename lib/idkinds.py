"""What an integer stands for: a task id, a channel id, a number of tasks or channels, or a bound on their ids.
Flow-insensitive propagation of kinds through variables, parameters, returns, data members and containers."""
from kdb import *
import graphmodel as gm

PRODUCE = {'getVertexId': 'T', 'getEdgeId': 'E', 'getVerticesCount': 'nT', 'getEdgesCount': 'nE', 'getMaxVertexId': 'bT', 'getMaxEdgeId': 'bE',
           'getTaskId': 'T'}
CONSUME = {'getVertexById': 'T', 'getEdgeById': 'E', 'setVertexId': 'T', 'setEdgeId': 'E'}
NAME = {'T': 'task id', 'E': 'channel id', 'nT': 'number of tasks', 'nE': 'number of channels', 'bT': 'bound of the task ids', 'bE': 'bound of the channel ids',
        'oT': 'position among the tasks', 'oE': 'position among the channels'}
def last(n): return (n.cname or '').split('::')[-1] if n.k in CALLS else ''
def integral(ct):
    b = ct.replace('const ', '').rstrip(' &')
    return b in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'long long', 'unsigned long long')
def cont(ct):
    b = ct.replace('const ', '').rstrip(' &*')
    return b.startswith(('std::vector<', 'std::map<', 'std::unordered_map<', 'std::set<', 'std::list<', 'std::deque<', 'std::queue<', 'std::stack<', 'std::priority_queue<'))
def is_vec(ct): return ct.replace('const ', '').rstrip(' &*').startswith('std::vector<')
def is_map(ct): return ct.replace('const ', '').rstrip(' &*').startswith(('std::map<', 'std::unordered_map<'))

class Kinds(object):
    def __init__(self, db):
        self.db = db; self.flow = collections.defaultdict(set); self.kinds = collections.defaultdict(set); self.why = {}
        self.refs = []; self.fills = collections.defaultdict(list); self.sizes_alias = collections.defaultdict(set); self.sizes_from = collections.defaultdict(set)
        self.sizes = collections.defaultdict(list)       # container slot -> [(node, expr)]
        self.index = collections.defaultdict(list)       # vector slot -> [(node, index expr, func)]
        for f in db.funcs.values(): self.scan(f)
        self.back()
        self.solve()
    def back(self):
        """a container handed over by reference receives what the callee puts into it"""
        writes = {d for d, s in self.refs if self.flow.get(('el', d)) or self.flow.get(('ky', d)) or self.sizes.get(d) or self.fills.get(d)}
        ch = True
        while ch:
            ch = False
            for d, s in self.refs:
                if d in writes and s not in writes: writes.add(s); ch = True
        for d, s in self.refs:
            for p in ('el', 'ky'): self.flow[(p, d)].add((p, s))
            self.sizes_from[d].add(s)
            if d in writes:
                for p in ('el', 'ky'): self.flow[(p, s)].add((p, d))
                self.sizes_from[s].add(d)
    # ---- slots: ('v', func, decl) ('m', class, field) ('r', func) and container parts ('el', slot) ('ky', slot)
    def slot(self, f, n):
        """the storage an expression designates (integer variable, member, or container)"""
        n = n.strip()
        if n.k == 'DeclRefExpr':
            if n.decl in f.vars: return ('v', f.key, n.decl)
            if n.get('du'): return ('g', n.get('du'))
            return None
        if n.k == 'MemberExpr' and n.kids and n.kids[0] is not None:
            o = n.kids[0].strip()
            if n.name in ('first', 'second') and 'pair' in o.ctype + o.type: 
                s = self.slot(f, o); return (('ky' if n.name == 'first' else 'el'), s) if s else None
            c = o.ctype.replace('const ', '').rstrip(' *&')
            return ('m', c, n.name)
        if n.k in ('CXXOperatorCallExpr',) and n.op == '[]' and len(n.args()) == 2:
            s = self.slot(f, n.args()[0]); return ('el', s) if s else None
        if n.k == 'CXXOperatorCallExpr' and n.op in ('*', '->') and n.args():
            return self.slot(f, n.args()[0])           # iterator: stands for the element slot
        if n.k == 'UnaryOperator' and n.op == '*': return self.slot(f, n.kids[0])
        if n.k == 'CXXMemberCallExpr' and n.obj() is not None and (n.cname or '').startswith('std::'):
            m = last(n); o = n.obj()
            if m in ('at', 'front', 'back', 'top'):
                s = self.slot(f, o); return ('el', s) if s else None
            if m in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'find', 'lower_bound'):
                s = self.slot(f, o)
                if s is None: return None
                return s if is_map(o.strip().ctype) else ('el', s)
        if n.k in CALLS:
            ts = self.db.targets(n)
            if len(ts) == 1 and ts[0].blocks: return ('r', ts[0].key)
        if n.k == 'CXXThisExpr': return None
        return None
    def sources(self, f, n):
        """kinds and slots the value of an integer expression comes from"""
        n = n.strip()
        if n.k in CALLS:
            m = last(n)
            if m in PRODUCE and (n.cname or '').startswith('models::'): return {('k', (PRODUCE[m], 0))}
            if n.k == 'CallExpr' and m in ('max', 'min') : return set().union(*[self.sources(f, a) for a in n.args() if a is not None])
            if m in ('move', 'forward') and n.args(): return self.sources(f, n.args()[0])
        if n.k == 'BinaryOperator' and n.op in ('+', '-'):
            c = [x.strip() for x in n.kids]
            for a, b in ((c[0], c[1]), (c[1], c[0])):
                if b.k == 'IntegerLiteral' and (n.op == '+' or a is c[0]):
                    d = int(b.get('v')) * (1 if n.op == '+' else -1)
                    return {('sh', x, d) for x in self.sources(f, a)}
            return set()
        if n.k == 'ConditionalOperator': return self.sources(f, n.kids[1]) | self.sources(f, n.kids[2])
        if n.k == 'BinaryOperator' and n.op == ',': return self.sources(f, n.kids[1])
        s = self.slot(f, n)
        return {s} if s else set()
    def link(self, dst, f, n):
        if dst is None or n is None: return
        for s in self.sources(f, n): self.flow[dst].add(s)
    def same(self, a, b):
        """two names of one container"""
        if a is None or b is None: return
        for p in ('el', 'ky'):
            self.flow[(p, a)].add((p, b)); self.flow[(p, b)].add((p, a))
        self.sizes_alias[a].add(b); self.sizes_alias[b].add(a)
    def bind(self, dst, dct, f, n, one_way=False):
        """dst (of type dct) receives expression n"""
        if n is None or dst is None: return
        if cont(dct):
            x = n.strip(); s = self.slot(f, n)
            if s is not None:
                if one_way:
                    for p in ('el', 'ky'): self.flow[(p, dst)].add((p, s))
                    self.sizes_from[dst].add(s)
                else: self.same(dst, s)
                return
            if x.k in CTORS and x.kids:
                a = [c for c in x.kids if c is not None]
                if is_vec(dct) and a and integral(a[0].ctype) and not a[0].k == 'InitListExpr': self.sizes[dst].append((f, x, a[0], 0))
                if is_vec(dct) and len(a) > 1 and a[1].strip().k in CTORS and is_vec(a[1].strip().ctype): self.bind(('el', dst), a[1].strip().ctype, f, a[1])
            return
        self.link(dst, f, n)
        if not integral(dct) :
            s = self.slot(f, n)
            if s is not None:
                for p in ('el', 'ky'):
                    self.flow[(p, dst)].add((p, s))
    def scan(self, f):
        F = ('v', f.key)
        for d, v in f.vars.items():
            if v['init'] is not None: self.bind(('v', f.key, d), v['ctype'], f, v['init'], one_way=not v['ctype'].rstrip().endswith('&') or v['ctype'].startswith('const '))
        if f.is_ctor:
            for i in f.rec.get('inits', ()):
                if i['i'] >= 0 and i.get('n'): self.bind(('m', f.cls, i['n']), f.nodes[i['i']].ctype, f, f.nodes[i['i']])
        for n in f.walk(True):
            if n.k == 'BinaryOperator' and n.op == '=': self.bind(self.slot(f, n.kids[0]), n.kids[0].ctype, f, n.kids[1])
            elif n.k == 'CXXOperatorCallExpr' and n.op == '=' and len(n.args()) == 2: self.bind(self.slot(f, n.args()[0]), n.args()[0].strip().ctype, f, n.args()[1])
            elif n.k == 'CXXOperatorCallExpr' and n.op == '[]' and len(n.args()) == 2: self.access(f, n, n.args()[0], n.args()[1])
            elif n.k == 'ReturnStmt' and n.kids and n.kids[0] is not None: self.bind(('r', f.key), f.retctype, f, n.kids[0])
            if n.k in CALLS or n.k in CTORS:
                if n.k == 'CXXMemberCallExpr' and n.obj() is not None and (n.cname or '').startswith('std::'):
                    m = last(n); o = n.obj(); s = self.slot(f, o); a = n.args()
                    if m == 'at' and a: self.access(f, n, o, a[0])
                    elif m in ('push_back', 'push', 'push_front', 'emplace_back') and a and s:
                        if a[0] is not None: self.bind(('el', s), a[0].strip().ctype, f, a[0])
                        if m in ('push_back', 'emplace_back'): self.filled(f, n, s)
                    elif m == 'insert' and a and s and a[0] is not None:
                        if is_map(o.strip().ctype): pass
                        else: self.bind(('el', s), a[0].strip().ctype, f, a[0])
                    elif m in ('find', 'count', 'erase') and a and s and a[0] is not None and integral(a[0].ctype): self.link(('ky', s) if is_map(o.strip().ctype) else ('el?', s), f, a[0])
                    elif m in ('resize', 'assign') and a and s and a[0] is not None and integral(a[0].ctype):
                        self.sizes[s].append((f, n, a[0], 0))
                for t in self.db.targets(n):
                    if not t.blocks or t.cls == gm.CLS and n.k in CALLS and last(n) in CONSUME: continue
                    args = n.args()
                    if n.k == 'CXXOperatorCallExpr' and t.cls: args = args[1:]
                    for p, a in zip(t.params, args):
                        if a is not None:
                            ty, ct = t.types[p['t']]
                            dst = ('v', t.key, p['d']); ref = ct.rstrip().endswith('&') and not ct.startswith('const ')
                            src = self.slot(f, a) if ref and cont(ct) else None
                            if src is not None: self.refs.append((dst, src))
                            else: self.bind(dst, ct, f, a, one_way=True)
    def filled(self, f, n, s):
        """a vector filled by a counted loop has as many elements as the loop has rounds"""
        for a in f.parents(n):
            if a.k == 'ForStmt':
                cond = a.kids[2] if len(a.kids) > 2 else None
                if cond is None: return
                c = cond.strip()
                if c.k == 'BinaryOperator' and c.op in ('<', '<=', '!='):
                    d = 1 if c.op == '<=' else 0; i = a.kids[0]
                    if i is not None and i.k == 'DeclStmt' and len(i.d['vars']) == 1:
                        v = f.vars.get(i.d['vars'][0]['d']); x = v and v['init'] is not None and v['init'].strip()
                        if x is not None and x is not False and x.k == 'IntegerLiteral': d -= int(x.get('v'))
                    self.fills[s].append((f, n, c.kids[1], d))
                return
            if a.k in ('WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'IfStmt', 'LambdaExpr'): return
    def access(self, f, n, o, i):
        s = self.slot(f, o)
        if s is None or i is None: return
        ct = o.strip().ctype
        if is_map(ct): self.link(('ky', s), f, i)
        elif is_vec(ct) : self.index[s].append((f, n, i))
    def solve(self):
        users = collections.defaultdict(set)
        for d, ss in self.flow.items():
            for s in ss:
                t = s
                while isinstance(t, tuple) and t[0] == 'sh': t = t[1]
                users[t].add(d)
        for d, ss in self.flow.items():
            for s in ss: self.push(d, s)
        ch = True
        while ch:
            ch = False
            for d, ss in self.flow.items():
                for s in ss:
                    if self.push(d, s): ch = True
    def value(self, s):
        if s[0] == 'k': return {s[1]}
        if s[0] == 'sh': return {(k, o + s[2]) for k, o in self.value(s[1]) if abs(o + s[2]) <= 3}
        return self.kinds.get(s, set())
    def push(self, d, s):
        v = self.value(s) - self.kinds[d]
        if v: self.kinds[d] |= v; return True
        return False
    def of(self, f, n):
        out = set()
        for s in self.sources(f, n): out |= self.value(s)
        return out
    def size_of(self, s, seen=()):
        """kinds of the sizes given to a vector (through its aliases)"""
        out = []; fills = []; st = [s]; seen = {s}
        while st:
            x = st.pop()
            out.extend(self.sizes.get(x, ())); fills.extend(self.fills.get(x, ()))
            for y in self.sizes_alias.get(x, set()) | self.sizes_from.get(x, set()):
                if y not in seen: seen.add(y); st.append(y)
        return out or fills
