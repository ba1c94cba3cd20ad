"""C06: diagnostics never influence results."""
from kdb import *
import collections, effects, graphmodel as gm, facts
from dfcommon import caches
LEVEL = 'other'
ASSUMPTIONS = ['writing to std::cerr/std::cout is the intended effect of a diagnostic', 'calls through function pointers inside a diagnostic are not resolved (none today)',
               'filling a cache member of the graph class that its getters recompute on a miss is not an effect']

def verbosity_globals(db):
    """the variables of the verbosity configuration: what set_verbose_mode & co. assign"""
    out = set()
    for f in db.funcs.values():
        if f.relfile.endswith('commons/verbose.h') or f.relfile.endswith('commons/verbose.cpp'):
            for n in f.walk():
                if n.k == 'DeclRefExpr' and n.get('dk') == 'Var' and n.decl not in f.vars and n.name.startswith('VERBOSE'): out.add(n.get('dq') or n.name)
    return out

def check(ctx):
    db = ctx.db('debug')
    vg = verbosity_globals(db)
    if len(vg) < 2: ctx.broken('verbosity configuration not found')
    # functions whose result is only about verbosity
    q = set()
    for f in db.funcs.values():
        rs = [n for n in f.walk() if n.k == 'ReturnStmt' and n.kids]
        if rs and all(any(m.k == 'DeclRefExpr' and (m.get('dq') or m.name) in vg for m in r.walk()) for r in rs) and len(f.nodes) < 30: q.add(f.key)
    taint, rets = values(ctx, db, vg, q)
    def is_query(e):
        for m in e.walk():
            if m.k == 'DeclRefExpr' and m.decl in taint.get(m.f.key, ()): return True
            if m.k in CALLS and m.callee in rets: return True
            if m.k == 'DeclRefExpr' and (m.get('dq') or m.name) in vg: return True
            if m.k in CALLS and m.callee in q: return True
        return False
    eff = effects.Effects(db, pure_members=set(caches(db)))
    ctx.rule('effect analysis (debug-mode syntax tree, so that compiled-out diagnostics are seen): statements that run or not depending on the verbosity, and the arguments of diagnostics that release builds compile out, may write nothing but output streams and their own locals, and may not leave the surrounding code')
    debug_only = debug_macros(ctx)
    ctx.notes.append('diagnostics compiled out in release builds: %s' % sorted(debug_only))
    for f in db.funcs.values():
        if f.body is None or f.relfile.endswith(('commons/verbose.h', 'commons/verbose.cpp')): continue
        regions = []
        for n in f.walk(True):
            if n.k == 'IfStmt' and n.sub('cond') is not None and is_query(n.sub('cond')):
                rs = [x for x in (n.sub('then'), n.sub('else')) if x is not None]
                regions.append((n, rs, 'verbosity-dependent'))
                regions.append((n, [n.sub('cond')], 'verbosity condition'))
                if any(skips(x) for x in rs):     # "if (quiet) return;": what follows runs depending on the verbosity as well
                    sib = n.parent.kids if n.parent is not None and n.parent.k == 'CompoundStmt' else []
                    rest = [c for c in sib[sib.index(n) + 1:] if c is not None] if n in sib else []
                    if rest: regions.append((n, rest, 'verbosity-dependent'))
            elif n.k in ('ConditionalOperator',) and is_query(n.kids[0]): regions.append((n, n.kids[1:], 'verbosity-dependent'))
            elif n.k == 'BinaryOperator' and n.op in ('&&', '||') and is_query(n.kids[0]): regions.append((n, n.kids[1:], 'verbosity-dependent'))
            elif n.k in LOOPS and n.sub('cond') is not None and is_query(n.sub('cond')): regions.append((n, [c for c in n.kids if c is not None], 'verbosity-dependent'))
            elif n.macros and any(m in debug_only for m in n.macros) and n.k not in TRANSP and (n.parent is None or not any(m in debug_only for m in n.parent.macros)):
                regions.append((n, [n], 'compiled out in release builds'))
        for at, rs, kind in regions:
            ctx.obligation('region', '%s at %s (%s)' % (f.short, at.loc(), kind))
            inside = set(); decls = set()
            for r in rs:
                for m in r.walk(True):
                    inside.add(m.i)
                    if m.k == 'DeclStmt': decls |= {v['d'] for v in m.d['vars']}
            for r in rs:
                for m in r.walk(True):
                    if m.k in ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'GotoStmt') and not inner_loop(m, r, at) and not skip_only(m, at):
                        ctx.violation('diagnostic-control-flow', f.name, '%s in %s' % (m.k, construct(at)), m.loc(), 'leaves the surrounding code from a %s statement' % kind)
                    for root, what in eff.node_effects(f, m):
                        if root is None or root[0] in ('io', 'fresh'): continue
                        if root[0] == 'local' and root[1] in decls: continue
                        if root[0] == 'local' and local_sink(f, root[1], inside, is_query): continue
                        if root[0] == 'global' and (root[1].startswith('std::c') or root[1] in vg): continue
                        if root[0] == 'global' and static_of_region(f, root[1], inside): continue
                        ctx.violation('diagnostic-effect', f.name, what, m.loc(), '%s code modifies %s: %s' % (kind, show(f, root), what))
    modes(ctx, eff, db)
    ctx.floor('obligations:region', 700)

def construct(at): return 'diagnostic' 
def show(f, r):
    if r[0] == 'local': return 'the variable "%s"' % f.vars[r[1]]['name']
    if r[0] == 'param': return 'the argument "%s"' % (f.params[r[1]]['n'] if r[1] is not None and r[1] < len(f.params) else '?')
    if r[0] == 'this': return 'the object'
    return 'the global %s' % r[1]
def inner_loop(m, r, at):
    """break/continue of a loop that lies inside the region; return inside a lambda"""
    p = m.parent
    while p is not None and p is not at:
        if m.k in ('BreakStmt', 'ContinueStmt') and (p.k in LOOPS or p.k == 'SwitchStmt'): return True
        if p.k == 'LambdaExpr': return True
        if p is r: break
        p = p.parent
    return False
def skips(x):
    """the branch only leaves a void function / goes to the next iteration: the code it skips is examined instead"""
    while x is not None and x.k == 'CompoundStmt' and len(x.kids) == 1: x = x.kids[0]
    return x is not None and (x.k == 'ContinueStmt' or x.k == 'ReturnStmt' and not x.kids)
def skip_only(m, at):
    if m.k == 'ReturnStmt' and m.kids: return False
    if m.k == 'BreakStmt' or m.k == 'GotoStmt': return False
    if at.k != 'IfStmt' or at.parent is None or at.parent.k != 'CompoundStmt': return False
    if m.k == 'ReturnStmt': return at.parent is m.f.body
    if m.k == 'ContinueStmt' and not (at.parent.parent is not None and at.parent.parent.k in LOOPS): return False
    return True
def static_of_region(f, name, inside):
    ds = [d for d, v in f.vars.items() if v.get('static') and f.short + '::' + v['name'] == name]
    return bool(ds) and all(n.i in inside for n in f.nodes if n.k == 'DeclRefExpr' and n.decl in ds)
def local_sink(f, d, inside, is_query):
    """a local used for diagnostics only: every read of it is inside verbosity-dependent code as well"""
    for n in f.nodes:
        if n.k == 'DeclRefExpr' and n.decl == d and n.i not in inside:
            ok = False
            p = n.parent; prev = n
            while p is not None:
                if p.k == 'IfStmt' and p.sub('cond') is not None and is_query(p.sub('cond')) and prev is not p.sub('cond'): ok = True; break
                if p.k == 'CXXForRangeStmt' or p.k == 'FunctionDecl': pass
                prev = p; p = p.parent
            if not ok and not write_only(n): return False
    return True
def write_only(n):
    """the mention is a pure (re)initialisation"""
    m = n
    while m.parent is not None and m.parent.k in TRANSP: m = m.parent
    p = m.parent
    if p is None: return False
    if p.k == 'BinaryOperator' and p.op == '=' and p.kids[0] is m: return p.parent is not None and p.parent.k in ('CompoundStmt', 'ForStmt')
    if p.k in ('UnaryOperator',) and p.op in ('++', '--'): return p.parent is not None and p.parent.k in ('CompoundStmt', 'ForStmt')
    return False

def debug_macros(ctx):
    """macros of the diagnostics header whose release definition is empty: found by comparing the two branches of the header itself"""
    import os, re
    p = os.path.join(ctx.repo, 'src/libkiter/commons/verbose.h')
    if not os.path.exists(p): ctx.broken('no commons/verbose.h')
    stack = []; empty = set(); defs = {}
    for line in open(p, errors='replace'):
        s = line.strip()
        if re.match(r'#\s*if', s): stack.append(s)
        elif re.match(r'#\s*else', s) and stack: stack[-1] = 'else ' + stack[-1]
        elif re.match(r'#\s*endif', s) and stack: stack.pop()
        m = re.match(r'#\s*define\s+(\w+)\s*\([^)]*\)\s*(.*)$', s)
        if m and m.group(2).strip() in (';', '', '{}', 'do {} while (0)', '((void)0)', '(void)0'): empty.add(m.group(1))
    return empty

STREAM = ('basic_ostream', 'std::ostream', 'basic_stringstream', 'basic_ostringstream', 'basic_ofstream', 'basic_iostream')
def values(ctx, db, vg, q):
    """the verbosity itself may decide what is printed, it may not become a value of the computation"""
    taint = collections.defaultdict(set)       # function -> locals holding the verbosity
    work = []
    def leaves(f):
        for n in f.nodes:
            if n.k == 'DeclRefExpr' and (n.get('dq') or n.name) in vg: yield n
            elif n.k in CALLS and n.callee in q: yield n
    def use(f, n):
        """n carries the verbosity: what becomes of it; -> (None | 'local', decl | 'param', ... | text)"""
        c = n; p = n.parent
        while p is not None:
            if p.k in TRANSP or p.k in XCASTS or p.k in ('MaterializeTemporaryExpr', 'ExprWithCleanups') or p.k == 'UnaryOperator' and p.op in ('!', '-', '+', '*') or p.k == 'BinaryOperator' and p.op in ('==', '!=', '<', '>', '<=', '>=', '&&', '||', '+', '-', '*', '/', '&', '|'):
                c = p; p = p.parent; continue
            if p.k == 'ConditionalOperator':
                if p.kids[0] is c and used(p) in ('printed', 'dropped'): return None
                if p.kids[0] is c: return 'the verbosity selects the value "%s"' % p.text()[:60]
                c = p; p = p.parent; continue
            break
        if p is None: return None
        if p.k == 'IfStmt' or p.k in LOOPS or p.k == 'SwitchStmt': return None if (p.sub('cond') is c or p.k == 'ForStmt') else None
        if p.k in ('CompoundStmt', 'NullStmt'): return None
        if p.k == 'CXXOperatorCallExpr':
            if p.op == '<<': return None
            if p.op in ('+', '+=') and 'basic_string' in p.ctype: return None
            return 'the verbosity is an operand of "%s"' % p.text()[:60]
        if p.k == 'DeclStmt':
            d = next((v['d'] for v in p.d['vars'] if f.vars.get(v['d'], {}).get('init') is not None and any(x is n for x in f.vars[v['d']]['init'].walk())), None)
            return ('local', d) if d is not None else None
        if p.k == 'BinaryOperator' and p.op == '=' or p.k == 'CompoundAssignOperator':
            if p.kids[0] is c: return None if p.k == 'BinaryOperator' else None
            l = p.kids[0].strip()
            if l.k == 'DeclRefExpr' and l.decl in f.vars and not f.vars[l.decl].get('static'): return ('local', l.decl)
            if l.k == 'DeclRefExpr' and (l.get('dq') or l.name) in vg: return None
            return 'the verbosity is stored in "%s"' % l.text()[:60]
        if p.k == 'ReturnStmt':
            return None if f.key in q else ('ret', f)
        if p.k in CALLS or p.k in CTORS:
            a = p.args(); i = next((i for i, x in enumerate(a) if x is not None and any(y is n for y in x.walk())), None)
            ts = [t for t in db.targets(p) if t.body is not None]
            if i is None or 'basic_string' in p.ctype and not ts: return None
            if len(ts) == 1 and i < len(ts[0].params): return ('param', ts[0], ts[0].params[i]['d'])
            if p.k == 'CXXMemberCallExpr' and p.obj() is not None and any(x in p.obj().strip().ctype for x in STREAM): return None
            return 'the verbosity is passed to %s' % (p.cname or 'a call')
        return None
    def used(e):
        c = e; p = e.parent
        while p is not None and (p.k in TRANSP or p.k in XCASTS or p.k in ('MaterializeTemporaryExpr', 'ExprWithCleanups') or p.k in CTORS and 'basic_string' in p.ctype or p.k == 'CXXOperatorCallExpr' and p.op == '+' and 'basic_string' in p.ctype or p.k == 'ConditionalOperator' and p.kids[0] is not c):
            c = p; p = p.parent
        if p is None or p.k in ('CompoundStmt', 'IfStmt') or p.k in LOOPS: return 'dropped'
        if p.k == 'CXXOperatorCallExpr' and p.op == '<<': return 'printed'
        if p.k == 'DeclStmt' and c.ctype.replace('const ', '').strip(' *&') in ('char', 'std::basic_string<char>'): return 'printed'
        return 'value'
    seen = set(); rets = set()
    def follow(f, n):
        r = use(f, n)
        if r is None: return
        if isinstance(r, str):
            ctx.violation('verbosity-value', f.name, r.split(' "')[0], n.loc(), r); return
        if r[0] == 'ret':
            if (r[1].key, 'ret') in seen: return
            seen.add((r[1].key, 'ret')); rets.add(r[1].key)
            for k in db.callers.get(r[1].key, ()):
                for m in db.funcs[k].nodes:
                    if m.k in CALLS and m.callee == r[1].key: follow(db.funcs[k], m)
            return
        g, d = (f, r[1]) if r[0] == 'local' else (r[1], r[2])
        if (g.key, d) in seen: return
        seen.add((g.key, d)); taint[g.key].add(d)
        for m in g.nodes:
            if m.k == 'DeclRefExpr' and m.decl == d: follow(g, m)
    for f in db.funcs.values():
        if f.body is None or f.relfile.endswith(('commons/verbose.h', 'commons/verbose.cpp')): continue
        for n in leaves(f):
            ctx.count('verbosity_reads'); follow(f, n)
    ctx.floor('verbosity_reads', 300)
    return taint, rets

MODES = ('__RELEASE_MODE__', '__DEBUG_MODE__', 'NDEBUG', '__OPTIMIZE__')
def mode_blocks(ctx):
    """(file, first, last) of the lines of the sources that only one build mode compiles"""
    import os, re
    out = []; root = os.path.join(ctx.repo, 'src')
    for d, _, fs in os.walk(root):
        for x in sorted(fs):
            if not x.endswith(('.h', '.cpp', '.hpp', '.cc')): continue
            p = os.path.join(d, x)
            if p.endswith('commons/verbose.h') or p.endswith('commons/verbose.cpp'): continue
            st = []
            for i, line in enumerate(open(p, errors='replace'), 1):
                s = line.strip()
                if not s.startswith('#'): continue
                if re.match(r'#\s*if', s): st.append([any(re.search(r'\b%s\b' % m, s) for m in MODES), i])
                elif re.match(r'#\s*(else|elif)', s) and st:
                    if st[-1][0]: out.append((p, st[-1][1], i)); st[-1][1] = i
                elif re.match(r'#\s*endif', s) and st:
                    m, a = st.pop()
                    if m: out.append((p, a, i))
    return out
def modes(ctx, eff, dbg):
    blocks = mode_blocks(ctx)
    ctx.count('build_mode_blocks', len(blocks))
    if not any(any(l.strip() and not l.strip().startswith('#') for l in open(p, errors='replace').read().split('\n')[a:b - 1]) for p, a, b in blocks): return
    by = collections.defaultdict(list)
    for p, a, b in blocks: by[p].append((a, b))
    for mode, db, e in (('debug', dbg, eff), ('release', None, None)):
        if db is None: db = ctx.db('release'); e = effects.Effects(db, pure_members=set(caches(db)))
        for f in db.funcs.values():
            if f.body is None or f.file not in by: continue
            for a, b in by[f.file]:
                if a <= (f.line or 0) <= b:
                    other = (dbg if mode == 'release' else ctx.db('release'))
                    ctx.obligation('region', '%s only in %s builds' % (f.short, mode))
                    continue
                inside = [n for n in f.walk(True) if n.line and a < n.line < b]
                tops = [n for n in inside if n.parent is None or not (a < (n.parent.line or 0) < b)]
                if not tops: continue
                ids = {n.i for n in inside}; decls = {v['d'] for n in inside if n.k == 'DeclStmt' for v in n.d['vars']}
                ctx.obligation('region', '%s:%d-%d in %s (build mode)' % (f.relfile, a, b, f.short))
                for n in inside:
                    if n.k in ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'GotoStmt') and not any(inner_loop(n, t, t.parent) for t in tops if n in list(t.walk(True))):
                        ctx.violation('diagnostic-control-flow', f.name, '%s in %s' % (n.k, construct(n)), n.loc(), 'leaves the surrounding code in one build mode only')
                    for root, what in e.node_effects(f, n):
                        if root is None or root[0] in ('io', 'fresh'): continue
                        if root[0] == 'local' and root[1] in decls and all(m.i in ids for m in f.nodes if m.k == 'DeclRefExpr' and m.decl == root[1]): continue
                        if root[0] == 'global' and root[1].startswith('std::c'): continue
                        ctx.violation('diagnostic-effect', f.name, what, n.loc(), 'code of one build mode modifies %s: %s' % (show(f, root), what))
                for d in decls:
                    if any(m.i not in ids for m in f.nodes if m.k == 'DeclRefExpr' and m.decl == d):
                        ctx.violation('diagnostic-effect', f.name, 'variable of one build mode', tops[0].loc(), 'the variable "%s" is made differently in the build modes and used outside' % f.vars[d]['name'])
        for g in db.gvars:
            if any(a < g.rec['line'] < b for a, b in by.get(g.rec['file'], ())):
                ctx.violation('diagnostic-effect', g.rec['name'], 'variable of one build mode', '%s:%d' % (g.rec['file'], g.rec['line']), 'the variable %s depends on the build mode' % g.rec['name'])
