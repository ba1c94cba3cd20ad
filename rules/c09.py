"""C09: a command name selects one command, and a command gets the parameters meant for it"""
import glob, os, re
from kdb import *
from engine import *
import registry
LEVEL = 'other'
ASSUMPTIONS = ['std::map keeps one entry per key', 'documented commands are the names behind -a and -g in the top-level *.md files and scripts']
def last(n): return (n.cname or '').split('::')[-1]
FLIP = {'==': '!=', '!=': '=='}
def mapof(n):
    """text of the container an expression designates"""
    n = n.strip(); return n.text() if n is not None else None
def found_test(n):
    """m.find(k) ==/!= m.end(), m.count(k) [==/!=/> 0], m.contains(k) -> (map, key, truth when found)"""
    n = n.strip()
    if n.k in ('CXXMemberCallExpr',) and last(n) in ('count', 'contains') and n.args(): return mapof(n.obj()), n.args()[0].strip().text(), True
    op = n.op if n.k in ('CXXOperatorCallExpr', 'BinaryOperator') else None
    if op in ('==', '!=', '>', '<', '>=', '<='):
        a, b = n.args()[:2] if n.k == 'CXXOperatorCallExpr' else n.kids[:2]
        a = a.strip(); b = b.strip()
        for x, y in ((a, b), (b, a)):
            if x.k == 'CXXMemberCallExpr' and last(x) == 'find' and y.k == 'CXXMemberCallExpr' and last(y) in ('end', 'cend') and x.args(): return mapof(x.obj()), x.args()[0].strip().text(), op == '!='
            if x.k == 'CXXMemberCallExpr' and last(x) == 'count' and y.k == 'IntegerLiteral' and x.args():
                if y.get('v') == '0': return mapof(x.obj()), x.args()[0].strip().text(), op in ('!=', '>', '<')
                if y.get('v') == '1': return mapof(x.obj()), x.args()[0].strip().text(), op in ('==', '>=', '<=')
    return None
class Reg(Hooks):
    """user: frozenset of (map, key, found?)"""
    def __init__(self, db): self.db = db; self.bad = []; self.writes = []; self.gives = 0; self.iters = {}
    def fact(self, st, m, k):
        for a, b, v in st.user:
            if a == m and b == k: return v
        return None
    def learn(self, st, m, k, v): return mk(frozenset(x for x in st.user if x[:2] != (m, k)) | {(m, k, v)}, st.env)
    def itof(self, f, n):
        n = n.strip()
        if n.k == 'DeclRefExpr' and n.decl in f.vars and f.vars[n.decl]['init'] is not None:
            i = f.vars[n.decl]['init'].strip()
            if i.k == 'CXXMemberCallExpr' and last(i) == 'find' and i.args(): return mapof(i.obj()), i.args()[0].strip().text()
        return None
    def test(self, f, n):
        t = found_test(n)
        if t: return t
        n = n.strip()
        if n.k in ('CXXOperatorCallExpr', 'BinaryOperator') and n.op in ('==', '!='):
            a, b = n.args()[:2] if n.k == 'CXXOperatorCallExpr' else n.kids[:2]
            for x, y in ((a, b), (b, a)):
                i = self.itof(f, x); y = y.strip()
                if i and y.k == 'CXXMemberCallExpr' and last(y) in ('end', 'cend'): return i[0], i[1], n.op == '!='
        return None
    def value(self, eng, f, n, st):
        t = self.test(f, n)
        if t is None: return None
        m, k, pos = t; v = self.fact(st, m, k)
        if v is not None: return [(v == pos, st)]
        return [(pos, self.learn(st, m, k, True)), (not pos, self.learn(st, m, k, False))]
    def transfer(self, eng, f, n, st):
        if n.k in ('CXXOperatorCallExpr', 'BinaryOperator') and n.op == '=':
            l = (n.args()[0] if n.k == 'CXXOperatorCallExpr' else n.kids[0]).strip(); r = n.args()[1] if n.k == 'CXXOperatorCallExpr' else n.kids[1]
            if l.k == 'CXXOperatorCallExpr' and l.op == '[]':
                m, k = mapof(l.args()[0]), l.args()[1].strip().text(); self.writes.append((n, k, r.strip().text()))
                if self.fact(st, m, k) is not False: self.bad.append((n, 'an entry registered before under the name may be replaced'))
        if n.k == 'CXXMemberCallExpr' and last(n) in ('insert_or_assign', 'erase', 'clear', 'swap') and n.obj() is not None and 'map' in n.obj().strip().ctype: self.bad.append((n, 'registered entries may be replaced or dropped'))
        if n.k == 'CXXMemberCallExpr' and last(n) in ('insert', 'emplace', 'try_emplace') and n.args(): self.writes.append((n, None, ' '.join(a.text() for a in n.args() if a is not None)))
        return [st]
def own_key(k, v):
    """the key is the name of the very entry that is stored"""
    return k is None or k == v + '.name' or k.endswith('.name') and k[:-5] == v or k == '->'.join((v, 'name'))

class Leak(Hooks):
    """user: parameter lists that were handed to a command and still hold its parameters"""
    def __init__(self, db): self.db = db; self.bad = []; self.handed = 0
    def transfer(self, eng, f, n, st):
        u = st.user
        if n.k == 'CXXMemberCallExpr' and last(n) in ('push_back', 'emplace_back', 'insert', 'emplace', 'push') and n.obj() is not None and not is_plist(n.obj().strip().ctype):
            for a in n.args():
                for x in walk(a):
                    if x.k == 'DeclRefExpr' and x.decl in f.vars and is_plist(x.ctype):
                        self.handed += 1
                        return [mk(u | {x.decl}, st.env)]
        for d in u:
            tgt = None
            if n.k == 'CXXMemberCallExpr' and last(n) in ('clear', 'swap') and n.obj() is not None and base_var(n.obj()) == d: return [mk(u - {d}, st.env)]
            if n.k == 'CXXOperatorCallExpr' and n.op == '=' and n.args()[0].strip().k == 'DeclRefExpr' and n.args()[0].strip().decl == d: return [mk(u - {d}, st.env)]
            if n.k == 'CXXOperatorCallExpr' and n.op == '[]' and base_var(n.args()[0]) == d: tgt = n
            if n.k in CALLS and n.op is None and any(a is not None and base_var(a) == d for a in n.args()): tgt = n
            if n.k == 'CXXMemberCallExpr' and last(n) in ('insert', 'begin', 'emplace') and n.obj() is not None and base_var(n.obj()) == d: tgt = n
            if tgt is not None: self.bad.append((tgt, d))
        if n.k == 'DeclStmt':
            return [mk(frozenset(d for d in u if not any(v['d'] == d for v in n.d['vars'])), st.env)]
        return [st]
def is_plist(ct):
    b = ct.replace('const ', '').rstrip(' &*')
    return b == 'parameters_list_t' or b.startswith('std::map<std::string, std::string') or b.startswith('std::map<std::basic_string<char>, std::basic_string<char>') or b.startswith('std::map<std::__cxx11::basic_string<char>, std::__cxx11::basic_string<char>')
def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None: continue
        yield x; st.extend(x.kids)
def origins(f, n, seen=()):
    """local variables (through their initialisers) an expression is computed from"""
    out = set()
    for x in walk(n):
        if x.k == 'DeclRefExpr' and x.decl in f.vars and x.decl not in seen:
            i = f.vars[x.decl]['init']
            o = origins(f, i, tuple(seen) + (x.decl,)) if i is not None else set()
            out |= o or {x.decl}
            out.add(x.decl)
    return out
def documented(repo):
    out = {}
    for p in sorted(glob.glob(os.path.join(repo, '*.md')) + glob.glob(os.path.join(repo, '*.sh'))):
        for i, line in enumerate(open(p, encoding='utf-8', errors='replace'), 1):
            if 'kiter' not in line: continue
            for m in re.finditer(r'(?<![\w-])-([ag])\s*([0-9]?[A-Za-z]\w+)', line): out.setdefault((m[1], m[2]), '%s:%d' % (os.path.basename(p), i))
    return out

def check(ctx):
    db = ctx.db(); es = registry.entries(db)
    ctx.rule('registered names are constant, unique per kind and stand for a function of the sources')
    by = {}
    for e in es:
        ctx.obligation('registration', '%s at %s:%d' % (e['cmd'], e['file'], e['line']))
        at = '%s:%d' % (e['file'], e['line'])
        if not e['cmd']: ctx.violation('name', e['var'], 'registration', at, 'the name of the command is empty or not constant'); continue
        if e['func'] is None: ctx.violation('function', e['var'], e['cmd'], at, 'the command does not stand for a function of the sources')
        k = (e['kind'], e['cmd'])
        if k in by: ctx.violation('duplicate', e['var'], e['cmd'], at, 'the name %s is registered here and at %s: one of the two commands can never be run' % (e['cmd'], by[k]))
        by.setdefault(k, at)
    ctx.rule('documented commands are registered')
    for (o, name), at in documented(ctx.repo).items():
        ctx.obligation('documented command', name)
        if ('transformation' if o == 'a' else 'generator', name) not in by: ctx.violation('documented', at.split(':')[0], name, at, 'the documented command %s is not registered' % name)
    ctx.rule('the registry stores an entry under its own name, never replaces one, and gives the entry of the name asked for')
    for f in db.funcs.values():
        if not (f.cls or '').startswith('KiterRegistry') and 'KiterRegistry' not in f.name: continue
        h = Reg(db); nm = f.name.split('::')[-1]
        Engine(db, h).run(f, [mk(frozenset())])
        for n, k, v in h.writes:
            ctx.obligation('registry write', n.loc())
            if not own_key(k, v): ctx.violation('own-name', f.name, n.text()[:80], n.loc(), 'the entry is stored under another name than its own')
        for n, why in h.bad: ctx.violation('replace', f.name, n.text()[:80], n.loc(), why)
        if f.retctype.endswith('*') and len(f.params) == 1: lookup(ctx, db, f)
    ctx.rule('the main program runs a command with the parameters stored with its name, and clears them for the next one')
    for f in db.funcs.values():
        if f.relfile.endswith('main.cpp'):
            h = Leak(db); Engine(db, h).run(f, [mk(frozenset())])
            for n, d in h.bad: ctx.violation('leak', f.name, n.text()[:80], n.loc(), 'parameters already handed to a command are still in %s and reach another one' % f.vars[d]['name'])
            if h.handed: ctx.obligation('parameters handed to a command', f.loc())
        for n in f.walk(True):
            if n.k == 'CallExpr' and n.callee is None and n.kids and n.kids[0].strip().k == 'MemberExpr' and n.kids[0].strip().name == 'fun':
                m = n.kids[0].strip(); e = m.kids[0]; args = [a for a in n.kids[1:] if a is not None and is_plist(a.strip().ctype)]
                ctx.obligation('dispatch', n.loc())
                gets = [x for v in origins(f, e) if f.vars[v]['init'] is not None for x in walk(f.vars[v]['init']) if x.k in CALLS and last(x) == 'get'] + [x for x in walk(e) if x.k in CALLS and last(x) == 'get']
                for g in gets:
                    kb = pairbase(f, g.args()[0])
                    for a in args:
                        ab = pairbase(f, a)
                        if kb and ab and kb[0] != ab[0] and (kb[1] or ab[1]): ctx.violation('dispatch', f.name, n.text()[:80], n.loc(), 'the name of %s is looked up but the parameters of %s are given' % (kb[0], ab[0]))
                    key = g.args()[0]; ko = leaves(f, key); po = set().union(*[leaves(f, a) for a in args]) if args else set()
                    if ko and po and not ko & po: ctx.violation('dispatch', f.name, n.text()[:80], n.loc(), 'the command is looked up by the name in %s but gets the parameters in %s' % tuple(', '.join(sorted(f.vars[v]['name'] for v in s)) for s in (ko, po)))
        if f.relfile.endswith('main.cpp'):
            mainrules(ctx, f)
            for n in f.walk(True):
                if n.k in ('CXXOperatorCallExpr', 'BinaryOperator') and n.op == '=':
                    l = (n.args()[0] if n.k == 'CXXOperatorCallExpr' else n.kids[0]).strip()
                    if l.k == 'CXXOperatorCallExpr' and l.op == '[]' and is_plist(l.args()[0].strip().ctype) and any(x.k == 'MemberExpr' and x.name == 'second' for x in walk(resolve(f, l.args()[0]))):
                        ctx.violation('override', f.name, n.text()[:80], n.loc(), 'a parameter stored with a command is replaced by another one')
    ctx.rule('a parameter read because a parameter was given is the one that was tested for')
    for f in db.funcs.values(): guards(ctx, f)
    ctx.floor('obligations:registration', 45); ctx.floor('obligations:registry write', 1); ctx.floor('obligations:dispatch', 2); ctx.floor('obligations:guarded parameter', 20); ctx.floor('obligations:parameters handed to a command', 1)
def second(f, n): return any(x.k == 'MemberExpr' and x.name == 'second' for x in walk(resolve(f, n)))
def mainrules(ctx, f):
    ctx.rule('the main program keeps the commands in their order, runs all of them, and cuts name=value at the first =')
    for n in f.walk(True):
        if n.k == 'CXXMemberCallExpr' and n.obj() is not None:
            o = n.obj().strip()
            if last(n) in ('insert', 'emplace', 'push_front', 'emplace_front') and re.search(r'(vector|list|deque)<std::pair<', o.ctype):
                if last(n).endswith('front') or n.args() and any(x.k in CALLS and last(x) in ('begin', 'cbegin', 'rend') for x in walk(n.args()[0])): ctx.violation('order', f.name, n.text()[:80], n.loc(), 'commands are not kept in the order they were given in')
            if last(n) in ('insert', 'merge', 'swap') and is_plist(o.ctype) and not second(f, o) and any(second(f, a) and is_plist_part(f, a) for a in n.args() if a is not None): ctx.violation('leak', f.name, n.text()[:80], n.loc(), 'the parameters stored with a command are put into a list that other commands get')
        if n.k == 'CXXOperatorCallExpr' and n.op == '=':
            l, r = n.args()[:2]
            if is_plist(l.strip().ctype) and not second(f, l) and second(f, r): ctx.violation('leak', f.name, n.text()[:80], n.loc(), 'the parameters stored with a command are put into a list that other commands get')
            if is_plist(l.strip().ctype) and second(f, l) and not second(f, r): ctx.violation('override', f.name, n.text()[:80], n.loc(), 'the parameters stored with a command are replaced')
            l = l.strip()
            if l.k == 'CXXOperatorCallExpr' and l.op == '[]' and is_plist(l.args()[0].strip().ctype):
                k, v = sub(f, l.args()[1]), sub(f, r)
                if k and v and k[0].strip().get('v') == '0' and len(k) > 1:
                    ctx.obligation('parameter taken apart', n.loc())
                    kf = resolve(f, k[1]); vf = resolve(f, v[0])
                    if not (kf.k == 'CXXMemberCallExpr' and last(kf) in ('find', 'find_first_of')): ctx.violation('parse', f.name, 'name', n.loc(), 'the name of a parameter does not end at the first =: %s' % kf.text()[:60])
                    b = vf
                    if b.k == 'BinaryOperator' and b.op == '+':
                        x, y = b.kids[0], b.kids[1]
                        if y.strip().k != 'IntegerLiteral': x, y = y, x
                        if y.strip().get('v') != '1': ctx.violation('parse', f.name, 'value', n.loc(), 'the value does not start right behind the =')
                        elif resolve(f, x).text() != kf.text() and kf.k == 'CXXMemberCallExpr' and last(kf) in ('find', 'find_first_of'): ctx.violation('parse', f.name, 'value', n.loc(), 'the name ends at %s, the value starts behind %s' % (kf.text()[:40], resolve(f, x).text()[:40]))
                    else: ctx.violation('parse', f.name, 'value', n.loc(), 'the value does not start right behind the =')
                    if len(v) > 1:
                        e = resolve(f, v[1])
                        if not (e.k in CALLS and last(e) in ('size', 'length') or e.k in ('DeclRefExpr', 'MemberExpr') and e.name == 'npos' or e.k == 'BinaryOperator' and e.op == '-'): ctx.violation('parse', f.name, 'value', n.loc(), 'the value of a parameter is cut to %s characters' % e.text()[:40])
        if n.k in LOOPS:
            ds = [x for x in n.walk() if x.k == 'CallExpr' and x.callee is None and x.kids and x.kids[0].strip().k == 'MemberExpr' and x.kids[0].strip().name == 'fun']
            for x in n.walk() if ds else ():
                if x.k not in ('BreakStmt', 'ContinueStmt'): continue
                l = next((q for q in f.parents(x) if q.k in LOOPS), None)
                if l is n and (x.k == 'BreakStmt' or any(x.line < d.line for d in ds)): ctx.violation('skipped', f.name, x.k, x.loc(), 'some of the commands given are not run')
                elif l is not n and l is not None and x.k == 'BreakStmt': pass
def is_plist_part(f, a): return is_plist(a.strip().ctype) or any(is_plist(x.ctype) for x in walk(resolve(f, a)) if x.k == 'MemberExpr')
def sub(f, n):
    n = n.strip()
    while n.k in CTORS and n.kids and n.kids[0] is not None: n = n.kids[0].strip()
    n = resolve(f, n)
    if n.k == 'CXXMemberCallExpr' and last(n) == 'substr': return [a for a in n.args() if a is not None and a.k != 'CXXDefaultArgExpr'] 
def stepped(f, d): return any(x.op in ('++', '--') and x.k in ('CXXOperatorCallExpr', 'UnaryOperator') and base_var(x.args()[0] if x.k == 'CXXOperatorCallExpr' else x.kids[0]) == d for x in f.walk(True))
def resolve(f, n):
    n = n.strip(); seen = set()
    while n.k == 'DeclRefExpr' and n.decl in f.vars and n.decl not in seen and f.vars[n.decl]['init'] is not None and not stepped(f, n.decl):
        seen.add(n.decl); n = f.vars[n.decl]['init'].strip()
    return n
def pairbase(f, n):
    """(text of the pair whose first/second an expression is, is it picked by position)"""
    n = resolve(f, n); m = None
    for x in walk(n):
        if x.k == 'MemberExpr' and x.name in ('first', 'second'): m = x; break
    if m is None: return None
    b = m.kids[0].strip()
    while True:
        if b.k == 'CXXOperatorCallExpr' and b.op in ('*', '->'): b = b.args()[0].strip()
        elif b.k == 'UnaryOperator' and b.op in ('*', '&'): b = b.kids[0].strip()
        elif b.k == 'DeclRefExpr' and resolve(f, b) is not b and (resolve(f, b).op in ('*', '->', '&', '[]') or resolve(f, b).k == 'CXXMemberCallExpr'): b = resolve(f, b)
        else: break
    return b.text(), any(x.k in CALLS and (last(x) in ('front', 'back', 'at', 'begin', 'rbegin') or x.op == '[]') for x in walk(b))
def leaves(f, n):
    o = origins(f, n)
    return {v for v in o if f.vars[v]['init'] is None or not origins(f, f.vars[v]['init'])} or o
def lookup(ctx, db, f):
    par = {p['d']: p['n'] for p in f.params if 'n' in p} or {}
    class H(Reg):
        def ret(self, eng, ff, n, st, val):
            e = n.kids[0].strip() if n.kids and n.kids[0] is not None else None
            if e is None: return
            ctx.count('look-up results')
            if e.k == 'CXXNullPtrLiteralExpr' or e.get('cv') == '0' or e.k == 'IntegerLiteral':
                if any(v for _, _, v in st.user): ctx.violation('lookup', ff.name, 'null', n.loc(), 'a registered command is reported as unknown')
                return
            keys = {x.args()[1].strip().text() for x in walk(e) if x.k == 'CXXOperatorCallExpr' and x.op == '[]'} | {x.args()[0].strip().text() for x in walk(e) if x.k == 'CXXMemberCallExpr' and last(x) in ('at', 'find') and x.args()}
            for x in walk(e):
                i = self.itof(ff, x) if x.k == 'DeclRefExpr' else None
                if i: keys.add(i[1])
            pos = [x for o in [e] + [ff.vars[v]['init'] for v in origins(ff, e) if ff.vars[v]['init'] is not None] for x in walk(o) if x.k in CALLS and last(x) in ('lower_bound', 'upper_bound', 'begin', 'rbegin', 'next', 'prev')]
            if any(ff.vars[v].get('node') is not None and any(q.k == 'CXXForRangeStmt' for q in [ff.vars[v]['node'].parent] if q is not None) for v in origins(ff, e)): pos = pos or [e]
            if pos and not compared: ctx.violation('lookup', ff.name, 'position', n.loc(), 'the entry handed out is found by its position, which may be that of another name')
            names = {ff.vars[p['d']]['name'] if p['d'] in ff.vars else p.get('n') for p in ff.params}
            for k in keys:
                if not any(a_k == k and v for _, a_k, v in st.user): ctx.violation('lookup', ff.name, 'entry', n.loc(), 'an entry is handed out for a name that is not known to be registered')
                if k not in names: ctx.violation('lookup', ff.name, 'key', n.loc(), 'the entry of another name than the one asked for is handed out')
    ctx.obligation('registry look-up', f.loc())
    pd = {p['d'] for p in f.params}
    def own(x): return x.strip().k == 'MemberExpr' and x.strip().name in ('first', 'name')
    compared = any(n.k in ('CXXOperatorCallExpr', 'BinaryOperator') and n.op in ('==', '!=') and any(own(a) and b.strip().k == 'DeclRefExpr' and b.strip().decl in pd for x in [n.args() if n.k == 'CXXOperatorCallExpr' else n.kids] if len(x) == 2 for a, b in (x, x[::-1])) or n.k == 'CXXMemberCallExpr' and last(n) == 'compare' and len(n.args()) == 1 and (own(n.obj()) or own(n.args()[0])) for n in f.walk(True))
    Engine(db, H(db)).run(f, [mk(frozenset())])
def key_of(n):
    n = n.strip()
    for x in walk(n):
        if x.k == 'StringLiteral': return '"%s"' % x.get('v')
    for x in walk(n):
        if x.k == 'DeclRefExpr' and x.get('dk') != 'Function': return x.name
    return None
def guards(ctx, f):
    lists = {d for d, v in f.vars.items() if is_plist(v['ctype'])}
    if not lists: return
    tests = []; reads = []
    for n in f.walk(True):
        if n.k == 'CXXMemberCallExpr' and last(n) in ('count', 'find', 'contains', 'at') and n.obj() is not None and base_var(n.obj()) in lists and n.args(): tests.append((n, base_var(n.obj()), key_of(n.args()[0])))
        if n.k == 'CXXOperatorCallExpr' and n.op == '[]' and base_var(n.args()[0]) in lists and len(n.args()) > 1: reads.append((n, base_var(n.args()[0]), key_of(n.args()[1])))
        if n.k in ('MemberExpr',) and n.name == 'second' and n.kids:
            for x in walk(n.kids[0]):
                if x.k == 'CXXMemberCallExpr' and last(x) == 'find' and x.obj() is not None and base_var(x.obj()) in lists and x.args(): reads.append((n, base_var(x.obj()), key_of(x.args()[0]))); break
        if n.k == 'CXXMemberCallExpr' and last(n) == 'at' and n.obj() is not None and base_var(n.obj()) in lists and n.args(): reads.append((n, base_var(n.obj()), key_of(n.args()[0])))
    def asked(cond, dd, depth=0):
        """the parameters whose presence a condition asks for, through flags and local iterators"""
        out = {kk for t, d2, kk in tests if d2 == dd and last(t) != 'at' and any(x is t for x in walk(cond))}
        if depth < 3:
            for x in walk(cond):
                if x.k == 'DeclRefExpr' and x.decl in f.vars and x.decl not in lists and not f.vars[x.decl]['param']:
                    if f.vars[x.decl]['init'] is not None: out |= asked(f.vars[x.decl]['init'], dd, depth + 1)
                    for w in f.writes_direct.get(x.decl, ()):
                        for c in conds(f, w): out |= asked(c, dd, depth + 1)
                        if w.k == 'BinaryOperator': out |= asked(w.kids[1], dd, depth + 1)
        return out
    for n, d, k in reads:
        if k is None: continue
        cs = [asked(c, d) for c in conds(f, n)]; cs = [c for c in cs if c]
        if not cs: continue
        ctx.obligation('guarded parameter', '%s: %s' % (n.loc(), k))
        if any(k in c for c in cs): continue
        # tested by a way out taken when it is missing
        if any(any(kk == k and dd == d and any(y is t for y in walk(x.sub('cond') or [z for z in x.kids if z is not None][0])) for t, dd, kk in tests) and x.line < n.line and any(y.k in ('ReturnStmt', 'CXXThrowExpr', 'ContinueStmt', 'BreakStmt') or y.k in CALLS and last(y) in ('exit', 'abort') for y in walk(x)) for x in f.walk(True) if x.k == 'IfStmt'): continue
        ctx.violation('parameter', f.name, k, n.loc(), 'reads the parameter %s where the presence of %s was tested' % (k, ', '.join(sorted(set(map(str, set().union(*cs)))))))
def conds(f, n):
    p = n.parent; child = n
    while p is not None:
        if p.k in ('IfStmt', 'ConditionalOperator', 'WhileStmt'):
            c = [x for x in p.kids if x is not None]
            cond = p.get('cond') and f.nodes[p.get('cond')] or c[0]
            if cond is not child and not any(x is n for x in walk(cond)): yield cond
        child = p; p = p.parent
