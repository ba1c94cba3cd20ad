"""shared by C01-C03: typestate of models::Dataflow"""
from kdb import *
from engine import *
import graphmodel as gm, flags, facts

DERIVED_API = {'setNi': 'rep', 'setZi': 'norm', 'setAlpha': 'norm'}
ENTRY = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1)]     # (done => read-only) is the class invariant
START = [tuple(bool(x) for x in e) + (frozenset(),) for e in ENTRY]

def methods(db, const=None):
    fs = [f for f in db.funcs.values() if f.cls == gm.CLS and not f.is_ctor and not f.is_dtor]
    if const is not None: fs = [f for f in fs if bool(f.rec.get('const')) == const]
    if len(fs) < 40: raise facts.AnalysisBroken('only %d methods of %s found' % (len(fs), gm.CLS))
    return fs

def derived_tags(db):
    """property tag -> flag it belongs to (found through the setters of the derived values)"""
    out = {}
    for api, role in DERIVED_API.items():
        f = gm.only(db, api)
        ts = [gm.put_tag(n) for n in f.walk() if gm.put_tag(n)]
        if not ts: raise facts.AnalysisBroken('%s writes no property' % api)
        for t in ts: out[t] = role
    return out

def compute_roots(db):
    roots = []
    for nm in ('computeRepetitionVector', 'algorithms::normalize'):
        fs = db.by_name.get(nm, [])
        if not fs: raise facts.AnalysisBroken('no definition of ' + nm)
        roots += fs
    return roots

def tags_read(db, roots):
    seen = db.reach([f.key for f in roots]); tags = set()
    for k in seen:
        f = db.funcs.get(k)
        if f is None: continue
        for n in f.nodes:
            t = gm.get_tag(n)
            if t: tags.add(t)
    return tags, seen

def caches(db):
    """Data members of Dataflow filled by look-up methods (methods that store something they computed from the graph
    without changing the graph)."""
    out = {}
    for f in methods(db, const=None):
        if f.retctype == 'void': continue
        writes_graph = False; mem = set()
        for n in f.walk():
            if gm.put_tag(n) or gm.struct_op(n): writes_graph = True
            if n.k == 'CXXMemberCallExpr' and n.obj() is not None and n.cname:
                m = gm.this_member(n.obj())
                if m and n.cname.split('::')[-1] in ('insert', 'emplace', 'push_back', 'insert_or_assign', 'try_emplace'): mem.add(m)
            if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op == '=':
                l = (n.kids[0] if n.k == 'BinaryOperator' else n.args()[0]).strip()
                if l.k == 'CXXOperatorCallExpr' and l.op == '[]':
                    m = gm.this_member(l.args()[0])
                    if m: mem.add(m)
        calls_struct = any(db.targets(n) and any(t.cls == gm.CLS and not t.rec.get('const') and t.retctype == 'void' for t in db.targets(n)) for n in f.calls())
        if not writes_graph and not calls_struct:
            for m in mem: out.setdefault(m, []).append(f)
    return out
