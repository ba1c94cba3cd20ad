"""C05: quantities keep their range and precision."""
from kdb import *
LEVEL = 'other'
ASSUMPTIONS = ['a quantity is recognised by its declared type (TIME_UNIT, TOKEN_UNIT, EXEC_COUNT, DATA_UNIT, LARGE_INT) or by the container element type', 'double is taken as wide enough for LP coefficients']
QUANT = ('TIME_UNIT', 'TOKEN_UNIT', 'EXEC_COUNT', 'DATA_UNIT', 'LARGE_INT')
TYPEDEFS = {}; PROPS = {}
def expand(t, depth=0):
    """names of containers and pairs of quantities, spelled out"""
    def rep(m):
        d = TYPEDEFS.get(m.group(0)) or TYPEDEFS.get(m.group(0).split('::')[-1])
        return d['under'] if d else m.group(0)
    if depth > 4: return t
    u = re.sub(r'[A-Za-z_][\w]*(?:::\w+)*', lambda m: m.group(0) if m.group(0) in QUANT else rep(m), t)
    return u if u == t else expand(u, depth + 1)
W = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'short': 16, 'unsigned short': 16, 'char': 8, 'unsigned char': 8, 'signed char': 8}
FLT = {'double': 64, 'float': 32, 'long double': 80}
ROUND = {'floor', 'ceil', 'round', 'lround', 'llround', 'rint', 'lrint', 'nearbyint', 'trunc', 'llrint'}
PARSE = {'fromString', 'stoi', 'atoi', 'stol', 'atol', 'stoll', 'stof', 'stod', 'strtol', 'strtod'}
def ct(n): return n.ctype.replace('const ', '').replace('volatile ', '').strip(' &')
def last(n): return (n.cname or '').split('::')[-1] if n.k in CALLS else ''
def quantity(f, n, depth=0):
    """a leaf of the expression that is declared as a quantity, else None"""
    n = n.strip()
    if n.get('cv') is not None or depth > 8: return None
    t = n.type
    if any(q in t.replace('const ', '').split() or q == t.replace('const ', '').strip(' &') for q in QUANT): return n
    if ct(n) == 'long double': return n
    if n.k == 'DeclRefExpr' and n.decl in f.vars:
        v = f.vars[n.decl]
        if any(q in v['type'] for q in QUANT) and W.get(v['ctype'].replace('const ', '').strip(' &')) == 64: return n
        if 'auto' in v['type'] or v['type'] == v['ctype']:
            if v['init'] is not None and W.get(v['ctype'].replace('const ', '').strip(' &')) == 64: return quantity(f, v['init'], depth + 1)
        return n if W.get(v['ctype'].replace('const ', '').strip(' &')) == 64 and spelled(f, n).replace('const ', '').strip(' &') in QUANT else None
    if n.k in ('MemberExpr', 'UnaryOperator', 'CXXOperatorCallExpr', 'CXXMemberCallExpr') and W.get(ct(n)) == 64:
        if spelled(f, n).replace('const ', '').strip(' &') in QUANT: return n
    if n.k in ('BinaryOperator', 'UnaryOperator', 'ConditionalOperator', 'CompoundAssignOperator'):
        if n.k == 'BinaryOperator' and n.op in ('==', '!=', '<', '>', '<=', '>=', '&&', '||', '%'):
            return quantity(f, n.kids[1], depth + 1) if n.op == '%' else None
        ks = n.kids[1:] if n.k == 'ConditionalOperator' else n.kids
        for c in ks:
            if c is not None:
                q = quantity(f, c, depth + 1)
                if q is not None: return q
    if n.k in ('CXXOperatorCallExpr',) and n.op in ('[]', '*') or n.k == 'CXXMemberCallExpr' and last(n) in ('at', 'front', 'back'):
        o = n.args()[0] if n.k == 'CXXOperatorCallExpr' else n.obj()
        if o is not None and any(q in o.strip().type for q in QUANT): 
            return n if elem_quant(o.strip().type) else None
    if n.k == 'CallExpr' and last(n) == 'get' and n.args() and n.args()[0] is not None:
        tag = next((m for m in n.args()[0].walk() if m.k == 'DeclRefExpr' and m.get('dk') == 'EnumConstant'), None)
        if tag is not None and PROPS.get((f.file, tag.name.split('::')[-1] + '_t')) in QUANT: return n
    if n.k == 'CXXMemberCallExpr' and last(n) in ('numerator', 'denominator') and n.obj() is not None and any(q in targs(expand(n.obj().strip().type)) for q in QUANT): return n
    if n.k in CALLS and last(n) in ('max', 'min', 'abs', 'gcd', 'lcm', 'accumulate', 'get', 'floor', 'ceil'):
        for a in n.args():
            if a is not None:
                q = quantity(f, a, depth + 1)
                if q is not None: return q
    return None
def elem_quant(t):
    """the element (mapped) type of a container spelled with a quantity"""
    return elem_type(expand(t)) in QUANT
def targs(t):
    m = re.search(r'<(.*)>', t)
    if not m: return []
    inner = m.group(1); parts = []; d = 0; cur = ''
    for c in inner:
        if c == ',' and d == 0: parts.append(cur.strip()); cur = ''
        else:
            d += c == '<'; d -= c == '>'; cur += c
    return parts + [cur.strip()]
def elem_type(t):
    p = targs(t)
    if not p: return ''
    base = t.replace('const ', '').split('<')[0].split('::')[-1]
    return p[1] if 'map' in base and len(p) > 1 else p[0]
def container(f, n, depth=0):
    """the spelled type of what an iterator or loop variable runs over"""
    n = n.strip()
    if depth > 8: return ''
    if n.k in ('CXXOperatorCallExpr', 'UnaryOperator') and n.op == '*': return container(f, n.args()[0] if n.k == 'CXXOperatorCallExpr' else n.kids[0], depth + 1)
    if n.k == 'CXXOperatorCallExpr' and n.op == '->': return container(f, n.args()[0], depth + 1)
    if n.k == 'DeclRefExpr' and n.decl in f.vars:
        v = f.vars[n.decl]
        if v['init'] is not None: return container(f, v['init'], depth + 1)
        return ''
    if n.k in CTORS and len(n.args()) == 1 and n.args()[0] is not None: return container(f, n.args()[0], depth + 1)
    if n.k == 'CXXMemberCallExpr' and last(n) in ('begin', 'end', 'find', 'lower_bound', 'upper_bound', 'cbegin', 'rbegin', 'erase'):
        o = n.obj()
        if o is None: return ''
        o = o.strip(); t = expand(o.type)
        if o.k == 'DeclRefExpr' and o.decl in f.vars and o.get('dk') != 'EnumConstant' and not targs(t):
            v = f.vars[o.decl]
            if v['init'] is not None: t = expand(v['init'].strip().type)
        return t
    return ''
def item_type(t):
    """what * of an iterator of the container gives"""
    p = targs(t)
    if not p: return ''
    base = t.replace('const ', '').split('<')[0].split('::')[-1]
    return 'std::pair<%s, %s>' % (p[0], p[1]) if 'map' in base and len(p) > 1 else p[0]
def spelled(f, n, depth=0):
    """the type of an expression with the names of the quantities kept, where it can be told"""
    n = n.strip()
    if depth > 6: return ''
    t = expand(n.type)
    if any(q in t for q in QUANT): return t
    if n.k == 'DeclRefExpr' and n.decl in f.vars and f.vars[n.decl]['init'] is not None and not f.vars[n.decl]['param']:
        v = f.vars[n.decl]; i = v['init'].strip()
        if i.k in CTORS and len(i.args()) == 1 and i.args()[0] is not None: i = i.args()[0].strip()
        return spelled(f, i, depth + 1)
    if n.k in ('UnaryOperator', 'CXXOperatorCallExpr') and n.op in ('*', '->'): return item_type(container(f, n))
    if n.k in ('CXXOperatorCallExpr',) and n.op == '[]' or n.k == 'CXXMemberCallExpr' and last(n) in ('at', 'front', 'back', 'top'):
        o = n.args()[0] if n.k == 'CXXOperatorCallExpr' else n.obj()
        return elem_type(spelled(f, o, depth + 1)) if o is not None else ''
    if n.k == 'MemberExpr' and n.name in ('first', 'second') and n.kids and n.kids[0] is not None:
        p = targs(spelled(f, n.kids[0], depth + 1))
        return p[n.name == 'second'] if len(p) > 1 else ''
    return ''
def rounded(n):
    n = n.strip()
    if n.k in CALLS and last(n) in ROUND: return True
    return False
def integral_guard(f, n, q):
    """the conversion happens only where the value was tested to be integral"""
    txt = q.text()
    for p in f.parents(n):
        if p.k in ('IfStmt', 'ConditionalOperator'):
            c = p.sub('cond') or (p.kids[0] if p.kids else None)
            if c is None: continue
            for m in c.walk():
                if m.k in CALLS and (last(m) in ROUND or last(m) in ('isInteger', 'is_integer')):
                    if any(a is not None and a.strip().text() == txt for a in m.args()): return True
    return False
def keyed(o): return o is not None and re.search(r'\b(map|set|multimap|unordered_map)<', o.strip().ctype.split('<')[0] + '<') is not None
FORMAT = ('setprecision', 'setw', 'resize', 'reserve', 'substr', 'append')
def where_exempt(f, n):
    """subscripts, text layout and random-distribution bounds: positions and renderings, not quantities"""
    if 'basic_string' in f.retctype and f.cls and f.cls.endswith('Scheduling'): return True
    for p in f.parents(n):
        if p.k == 'ArraySubscriptExpr' and len(p.kids) > 1 and p.kids[1] is not None and any(x is n for x in p.kids[1].walk()): return True
        if p.k == 'CXXOperatorCallExpr' and p.op == '[]' and len(p.args()) > 1 and any(x is n for x in p.args()[1].walk()): return not keyed(p.args()[0]) 
        if p.k == 'CXXMemberCallExpr' and last(p) == 'at': return not keyed(p.obj())
        if p.k in CALLS and last(p) in FORMAT: return True
        if p.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and ('basic_string' in p.ctype or 'uniform_int_distribution' in p.ctype): return True
        if p.k == 'DeclStmt':
            for d, v in f.vars.items():      # a local that serves as a position only
                if v['init'] is not None and any(x is n for x in v['init'].walk()) and W.get(v['ctype'].replace('const ', '').strip(' &')):
                    uses = [m for m in f.walk(True) if m.k == 'DeclRefExpr' and m.decl == d]
                    return any(position(f, m) == 2 for m in uses) and all(position(f, m) for m in uses)
        if p.k.endswith('Stmt'): break
    return False
def position(f, m):
    for p in f.parents(m):
        if p.k == 'ArraySubscriptExpr' or p.k == 'CXXOperatorCallExpr' and p.op == '[]' or p.k == 'CXXMemberCallExpr' and last(p) == 'at': return 2
        if p.k == 'BinaryOperator': return 1 if p.op in ('<', '>', '<=', '>=', '==', '!=') else 0
        if p.k.endswith('Stmt'): return 0
    return 0
def tested_integral(f, n, q):
    """an integrality test of the same value, whose failure does not fall through, comes before the conversion in an enclosing block"""
    txt = q.text(); up = set(map(id, f.parents(n)))
    for p in f.parents(n):
        if p.k != 'CompoundStmt': continue
        for s in p.kids:
            if s is None or id(s) in up or s is n: break
            for m in s.walk():
                if m.k in CALLS and (last(m) in ROUND or last(m) in ('isInteger', 'is_integer')) and any(a is not None and a.strip().text() == txt for a in m.args()):
                    if s.k in ('IfStmt', 'DoStmt', 'NullStmt') or last(m) in ('isInteger', 'is_integer'): return True
    return False
def divmod_pair(f, d):
    """the quotient goes with a remainder of the same operands in the same function: integer division is meant"""
    a, b = d.kids[0].strip().text(), d.kids[1].strip().text()
    return any(m.k == 'BinaryOperator' and m.op == '%' and m.kids[0].strip().text() == a and m.kids[1].strip().text() == b for m in f.walk(True))

def check(ctx):
    db = ctx.db(); TYPEDEFS.clear(); TYPEDEFS.update({k: v for k, v in db.typedefs.items() if k not in QUANT})
    widths(ctx, db)
    ctx.rule('every numeric conversion in the type-checked program: a quantity may not be converted to a narrower integer, nor a time to an integer except through floor/ceil/round or under a test that it is integral, nor to float')
    ctx.floor('obligations:conversion', 150)
    for f in db.funcs.values():
        for n in f.walk(True):
            for kind, src, dst in conversions(f, n):
                q = quantity(f, src)
                if q is None: continue
                ctx.obligation('conversion', '%s -> %s at %s' % (src.text()[:50], dst, n.loc()))
                bad = judge(f, n, src, dst, q)
                if bad and not where_exempt(f, n) and not (ct(src) in FLT and tested_integral(f, n, q)): ctx.violation('narrowing', f.name, '%s -> %s' % (src.text()[:70], dst), n.loc(), bad, '%s -> %s' % (shape(f, src)[:90], dst))
            for src, dst in wrapped(n):
                q = quantity(f, src)
                if q is None: continue
                ctx.obligation('conversion', '%s -> %s inside %s at %s' % (src.text()[:50], dst, ct(n)[:40], n.loc()))
                s = ct(src)
                if (s in W and dst in W and W[dst] < W[s]) or (s in FLT and dst == 'float') or (s in W and dst == 'float') or (s in FLT and dst in W and not rounded(src)):
                    ctx.violation('narrowing', f.name, '%s -> %s' % (src.text()[:70], dst), n.loc(), 'a quantity of type %s becomes the %s of a %s' % (s, dst, ct(n)[:60]), '%s => %s' % (shape(f, src)[:90], dst))
            for msg, src in early(db, f, n):
                ctx.violation(msg[0], f.name, src.text()[:70], n.loc(), msg[1])
def conversions(f, n):
    if n.get('ck') in ('IntegralCast', 'FloatingToIntegral', 'FloatingCast', 'IntegralToFloating') and n.kids and n.kids[0] is not None:
        if n.k not in TRANSP and n.k not in XCASTS: return
        yield n.get('ck'), n.kids[0], ct(n)
    if n.k == 'CompoundAssignOperator' and n.kids[1] is not None:
        t = ct(n.kids[0])
        yield 'compound', n.kids[1], t
def wrapped(n):
    """conversions done inside the library: parts of a pair or tuple, elements made in place"""
    t = n.ctype.replace('const ', '')
    if n.k in CTORS and re.match(r'std::(pair|tuple)<', t):
        p = targs(t); a = [x for x in n.args() if x is not None]
        if len(a) == len(p):
            for x, d in zip(a, p): yield x, d.replace('const ', '').strip(' &')
        elif len(a) == 1 and re.match(r'(const )?std::(pair|tuple)<', a[0].strip().ctype):
            x = a[0].strip(); q = targs(x.ctype)
            if len(q) == len(p) and x.k in CALLS and last(x) in ('make_pair', 'make_tuple'):
                for y, d in zip(x.args(), p):
                    if y is not None: yield y, d.replace('const ', '').strip(' &')
    if n.k == 'CXXMemberCallExpr' and n.obj() is not None:
        o = n.obj().strip().ctype.replace('const ', '').strip(' &*'); l = last(n); p = targs(o)
        if l in ('emplace_back', 'emplace_front') and len(n.args()) == 1 and p and n.args()[0] is not None: yield n.args()[0], p[0]
        if l in ('emplace', 'try_emplace', 'insert') and len(p) > 1 and o.split('<')[0].endswith('map'):
            a = [x for x in n.args() if x is not None]
            if l != 'insert' and len(a) == 2: yield a[1], p[1]
            if len(a) == 1 and a[0].strip().k in CALLS and last(a[0].strip()) == 'make_pair':
                b = a[0].strip().args()
                if len(b) == 2 and b[1] is not None: yield b[1], p[1]
def judge(f, n, src, dst, q):
    s = ct(src.strip(False) if False else src)
    if s in FLT and dst in W:
        if n.k == 'CompoundAssignOperator': return 'a floating-point quantity is accumulated in an integer'
        if rounded(src) and W[dst] == 64: return None
        if rounded(src): return 'a rounded quantity is stored in %d bits' % W[dst]
        if integral_guard(f, n, q): return None
        return 'the fraction of a quantity is dropped silently'
    if s in W and dst in W and W[dst] < W[s]: return 'a %d-bit quantity is cut to %d bits' % (W[s], W[dst])
    if n.get('ck') == 'IntegralToFloating' and dst != 'float': return None
    if s in W and dst == 'float': return 'a quantity is kept in single precision'
    if s in FLT and dst == 'float': return 'a quantity is cut to single precision'
    return None
def early(db, f, n):
    if n.k in CALLS and last(n) == 'accumulate' and ct(n) in ('int', 'unsigned int', 'short', 'float'):
        a = n.args()[0].strip()
        t = a.ctype
        m = re.search(r'__normal_iterator<(?:const )?(long double|long|double|unsigned long)\b', t)
        if m: yield ('narrow-accumulation', 'a sum of %s values is computed in %s' % (m.group(1), ct(n))), n
    if n.get('ck') in ('IntegralCast', 'IntegralToFloating', 'FloatingCast') and n.kids and n.kids[0] is not None:
        src = n.kids[0].strip(); s = ct(src); d = ct(n)
        isq = n.type.replace('const ', '').strip(' &') in QUANT
        if isq and src.get('cv') is None:
            if n.get('ck') == 'IntegralCast' and W.get(d, 0) > W.get(s, 64):
                if src.k in CALLS and last(src) in PARSE: yield ('narrow-parse', 'a quantity is parsed as %s' % s), src
                if src.k == 'BinaryOperator' and src.op == '*' and all(k.strip().get('cv') is None for k in src.kids): yield ('narrow-product', 'a product is computed in %s before it becomes a quantity' % s), src
            if n.get('ck') == 'IntegralToFloating':
                if src.k in CALLS and last(src) in PARSE: yield ('narrow-parse', 'a time is parsed as %s' % s), src
                if src.k == 'BinaryOperator' and src.op == '/' and not divmod_pair(f, src): yield ('integer-division', 'a quotient is truncated before it becomes a time'), src

        if n.get('ck') == 'FloatingCast' and d == 'float' and s in ('double', 'long double') and src.get('cv') is None and quantity(f, src) is None:
            yield ('single-precision', 'a value computed in %s is kept in single precision' % s), src
WIDE = {'long', 'unsigned long', 'long long', 'double', 'long double'}
def widths(ctx, db):
    """the quantity types themselves, and the types under which the graph stores what the accessors give and take"""
    for q in QUANT:
        d = db.typedefs.get(q)
        if d is None: continue
        ctx.obligation('width', '%s is %s' % (q, d['canon']))
        if d['canon'] not in WIDE: ctx.violation('width', q, d['canon'], '%s:%d' % (d['file'], d['line']), 'the quantity type %s is only %s wide' % (q, d['canon']))
    props = {}; PROPS.clear()
    for d in db.typedefs.values():
        for m in re.finditer(r'boost::property<\s*(?:boost::)?(\w+),\s*(\w+)', d['under']): PROPS.setdefault((d['file'], m.group(1)), m.group(2))
    for name, d in db.typedefs.items():
        for m in re.finditer(r'boost::property<(?:boost::)?(\w+), (std::vector<[^<>]*>|[\w: ]+(?:<[\w:, ]*>)?)', d['canon']): props.setdefault((d['file'], m.group(1)), (m.group(2).strip(), d))
    for f in db.funcs.values():
        for n in f.walk(True):
            if n.k != 'CallExpr' or last(n) != 'put' or len(n.args()) not in (3, 4): continue
            tag = next((m for a in n.args()[:1] if a is not None for m in a.walk() if m.k == 'DeclRefExpr' and m.get('dk') == 'EnumConstant'), None)
            if tag is None or n.args()[-1] is None: continue
            v = ct(n.args()[-1]); p = props.get((f.file, tag.name.split('::')[-1] + '_t'))
            if p is None or v not in WIDE or quantity(f, n.args()[-1]) is None: continue
            ctx.obligation('stored property', '%s kept as %s at %s' % (tag.name, p[0], n.loc()))
            narrow = (p[0] in W and v in W and W[p[0]] < W[v]) or p[0] == 'float' or (v in FLT and p[0] in W)
            if narrow: ctx.violation('property-width', tag.name, p[0], n.loc(), 'the value of type %s is kept in the graph as %s (%s:%d)' % (v, p[0], p[1]['file'].split('/src/')[-1], p[1]['line']))
