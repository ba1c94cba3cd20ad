"""C07: a run that fails says so in its exit status."""
from kdb import *
from engine import *
import nullness
LEVEL = 'other'
ASSUMPTIONS = ['an exception that leaves main ends the process with a non-zero status (C++ runtime)', 'statuses computed at run time are taken as meant']
ENDERS = {'exit', '_exit', '_Exit', 'quick_exit'}

def status(f, e, depth=0):
    """constant status of an expression, None when computed"""
    if e is None: return None
    if e.get('cv') is not None:
        try: return int(e.get('cv'))
        except ValueError: pass
    e = e.strip()
    if e.get('cv') is not None:
        try: return int(e.get('cv'))
        except ValueError: pass
    if e.k == 'IntegerLiteral': return int(e.get('v'))
    if e.k == 'CXXBoolLiteralExpr': return int(bool(e.get('v')))
    if e.k == 'DeclRefExpr' and e.decl in f.vars and depth < 3:
        v = f.vars[e.decl]
        if v['init'] is not None and not f.writes.get(e.decl): return status(f, v['init'], depth + 1)
    return None

def stores(f, n):
    if n.k == 'DeclStmt':
        for v in n.d['vars']:
            w = f.vars.get(v['d'])
            if w and w['ctype'].replace('const ', '').strip() in ('int', 'long', 'unsigned int', 'unsigned long', 'short', 'unsigned char'): yield v['d'], w['init']
    if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='):
        l = n.kids[0].strip()
        if l.k == 'DeclRefExpr' and l.decl in f.vars: yield l.decl, n.kids[1] if n.op == '=' else None
    if n.k == 'UnaryOperator' and n.op in ('++', '--', '&'):
        l = n.kids[0].strip()
        if l.k == 'DeclRefExpr' and l.decl in f.vars: yield l.decl, None
def zeros(f, e, st):
    """can the status be the success status? subset of {True, False}, None when it is computed"""
    s = status(f, e)
    if s is not None: return {s & 255 == 0}
    if e is None: return {True}
    e = e.strip()
    if e.k == 'ConditionalOperator':
        a, b = zeros(f, e.kids[1], st), zeros(f, e.kids[2], st)
        return (a or set()) | (b or set()) if a or b else None
    if e.k == 'DeclRefExpr' and st is not None:
        z = st.get(('z', e.decl))
        return None if z is None else {z}
    return None

class MainHooks(nullness.Nullness):
    """a lookup that came back null, on any path, and the process still ends with status zero"""
    def __init__(self, db): self.zero = []; nullness.Nullness.__init__(self, db)
    def transfer(self, eng, f, n, st):
        sts = nullness.Nullness.transfer(self, eng, f, n, st)
        for d, e in stores(f, n):      # constants held by a status variable
            z = zeros(f, e, None) if e is not None else None
            sts = [y for s in sts for y in ([s.set(('z', d), None)] if z is None else [s.set(('z', d), b) for b in sorted(z)])]
        return sts
    def extra(self, eng, f, n, st):
        if n.k in CALLS and (n.cname or '').split('::')[-1] in ENDERS:
            if True in (zeros(f, n.args()[0] if n.args() else None, st) or ()): self.end(f, n, st)
    def end(self, f, n, st):
        for k, v in st.env:
            if v is False and k[0] == 'v' and k[1] in f.vars and is_outer(f, k[1], n): self.zero.append((f, n, k[1]))
    def ret(self, eng, f, n, st, val):
        nullness.Nullness.ret(self, eng, f, n, st, val)
        if f.name == 'main' and True in (zeros(f, n.kids[0] if n.kids else None, st) or ()): self.end(f, n, st)

def is_outer(f, d, n): return nullness.is_ptr(f.vars[d]['ctype'])

def check(ctx):
    db = ctx.db()
    mains = [f for f in db.by_name.get('main', ()) if f.blocks]
    if not mains: ctx.broken('no main function')
    ctx.rule('every statement that ends the process is examined: outside the program entry file the status must not be the constant zero; functions that never return must not end the process with zero')
    mfiles = {f.file for f in mains}
    for f in db.funcs.values():
        for n in f.walk(True):
            if n.k in CALLS and (n.cname or '').split('::')[-1] in ENDERS and (n.cname or '').count('::') <= 1:
                s = status(f, n.args()[0] if n.args() else None)
                ctx.obligation('process-end', '%s at %s (status %s)' % (f.short, n.loc(), s))
                if s is not None and s & 255 == 0 and f.file not in mfiles: ctx.violation('success-status', f.name, 'exit(0) in %s' % f.short, n.loc(), 'ends the whole run with the success status from inside the library')
    ctx.floor('obligations:process-end', 150)
    ctx.rule('entry file: nullness typestate, no path on which a lookup or loader came back null ends with status zero')
    h = MainHooks(db)
    for f in db.funcs.values():
        if f.file in mfiles and f.blocks: h.zero_f = f; h.run(f)
    for f, n, d in h.zero: ctx.violation('success-after-failure', f.name, f.vars[d]['name'], n.loc(), 'status zero is reached although "%s" is null on this path' % f.vars[d]['name'])
    for f in db.funcs.values():
        if f.file in mfiles:
            for k, i in h.sites:
                if k == f.key: ctx.obligation('fallible-lookup', '%s at %s' % (f.nodes[i].text()[:60], f.nodes[i].loc()))
    ctx.floor('obligations:fallible-lookup', 2)
    ctx.rule('every expansion of a failure or assertion macro ends the process or throws in its failing branch')
    for f in db.funcs.values():
        for n in f.walk(True):
            if n.k not in ('IfStmt', 'CompoundStmt') or not n.macros: continue
            m = n.macros[-1].lstrip('@')
            if not (m.startswith('VERBOSE_ASSERT') and n.k == 'IfStmt' or m in FAIL and n.k == 'CompoundStmt'): continue
            if n.parent is not None and n.parent.macros and n.parent.macros[-1].lstrip('@') == m and n.parent.line == n.line and n.parent.k in ('IfStmt', 'CompoundStmt'): continue
            b = n.sub('then') if n.k == 'IfStmt' else n
            for x in b.walk() if b is not None else ():
                if x.k in CALLS and (x.cname or '').split('::')[-1] in ENDERS:
                    z = status(f, x.args()[0] if x.args() else None)
                    if z is None or z & 255 == 0: ctx.violation('failure-macro-status', f.name, m, n.loc(), 'the failing branch of %s ends the process with a status that is not a constant failure' % m)
            ctx.obligation('failure-macro', '%s at %s' % (m, n.loc()))
            if b is None or not must_end(db, b): ctx.violation('failure-macro-continues', f.name, m, n.loc(), 'the failing branch of %s lets the run continue' % m)
    ctx.floor('obligations:failure-macro', 200)
    handlers(ctx, db, mfiles)
FAIL = {'FAILED', 'VERBOSE_FAILURE', 'ERROR', 'VERBOSE_BAD_PROGRAMMING'}
def ends(db, x):
    if x.k == 'CXXThrowExpr': return True
    if x.k in CALLS: return (x.cname or '').split('::')[-1] in ENDERS | {'abort', 'terminate'} or x.callee in db.noreturn
    return False

def must_end(db, x):
    """every way through the statement ends the process or throws"""
    if x is None: return False
    if x.k == 'CompoundStmt': return any(must_end(db, c) for c in x.kids if c is not None)
    if x.k == 'IfStmt': return x.sub('else') is not None and must_end(db, x.sub('then')) and must_end(db, x.sub('else'))
    if x.k == 'DoStmt': return any(must_end(db, c) for c in x.kids if c is not None)
    if x.k in LOOPS or x.k in ('SwitchStmt', 'CXXTryStmt', 'ConditionalOperator', 'LambdaExpr'): return False
    if x.k == 'BinaryOperator' and x.op in ('&&', '||'): return must_end(db, x.kids[0])
    if ends(db, x): return True
    if x.k.endswith('Stmt') and x.k not in ('ReturnStmt', 'DeclStmt'): return any(must_end(db, c) for c in x.kids if c is not None)
    return any(must_end(db, c) for c in x.kids if c is not None)
def handlers(ctx, db, mfiles):
    """failures arrive as exceptions in debug builds: a handler around code that can fail must not carry on"""
    ctx.rule('exception handlers: in the entry file every handler ends the process with a failure status or throws on; elsewhere a handler that catches the exceptions of the failure macros surrounds no code that reaches such a macro')
    fails = set(); rev = db.callers; st = []
    for f in db.funcs.values():
        if f.body is not None and any((n.k in CALLS and (n.cname or '').split('::')[-1] in ENDERS or n.k == 'CXXThrowExpr' and n.kids and n.kids[0] is not None and n.kids[0].ctype.endswith('*')) and n.macros for n in f.walk()): fails.add(f.key); st.append(f.key)
    while st:
        for k in rev.get(st.pop(), ()):
            if k not in fails: fails.add(k); st.append(k)
    for f in db.funcs.values():
        for n in f.walk(True):
            if n.k != 'CXXTryStmt': continue
            body = n.kids[0]
            for h in n.kids[1:]:
                if h is None or h.k != 'CXXCatchStmt': continue
                ctx.obligation('handler', '%s at %s' % (f.short, h.loc()))
                t = f.types[h.get('ct')][1] if h.get('ct') is not None else '...'
                stops = any(must_end(db, c) for c in h.kids if c is not None)
                if f.file in mfiles:
                    bad = [x for x in h.walk() if x.k in CALLS and (x.cname or '').split('::')[-1] in ENDERS and True in (zeros(f, x.args()[0] if x.args() else None, None) or ())]
                    if bad or not stops: ctx.violation('swallowed-failure', f.name, 'catch (%s)' % t, h.loc(), 'a failure caught here does not end the program with a failure status')
                    continue
                if t != '...' and not ('runtime_error' in t or 'exception' in t) : continue
                if stops: continue
                hit = next((x for x in body.walk() if x.k in CALLS and any(y.key in fails and not lookup(y) for y in db.targets(x))), None)
                if hit is not None: ctx.violation('swallowed-failure', f.name, 'catch (%s)' % t, h.loc(), '%s can fail; the failure is caught here and the computation goes on' % hit.text()[:60])
def lookup(f):
    """a look-up whose failure is an exception of the standard library, not a failure macro of its own"""
    return not any(n.k in CALLS and (n.cname or '').split('::')[-1] in ENDERS for n in f.walk()) and len(f.nodes) < 200
