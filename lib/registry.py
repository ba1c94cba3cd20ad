"""the command registry: static registrations found in the initialisers of file-scope variables (and anywhere else)"""
import os
from kdb import *
import facts
PARAMS = ('models::Dataflow', 'parameters_list_t', 'std::map<std::string, std::string>', 'std::map<std::basic_string')
def entries(db):
    """list of dict(kind, cmd, desc, fun key, fun name, var, file, line, func)"""
    out = {}
    holders = list(db.gvars) + list(db.funcs.values())
    for v in holders:
        for n in v.nodes:
            if n.k in CALLS and n.cname and 'KiterRegistry' in n.cname and n.cname.split('::')[-1] == 'add':
                kind = 'generator' if 'generator_t' in (n.callee or '') or 'generator_t' in n.cname else 'transformation'
                strs = []; fun = None
                for m in n.walk():
                    if m.k == 'StringLiteral': strs.append(m.get('v'))
                    if m.k == 'DeclRefExpr' and m.get('dk') in ('Function', 'CXXMethod') and m.get('du') and 'Registry' not in (m.get('dq') or ''): fun = (m.get('du'), m.get('dq'))
                at = os.path.normpath(v.file)
                e = dict(kind=kind, cmd=strs[0] if strs else None, desc=strs[1] if len(strs) > 1 else None, fun=fun[0] if fun else None, funname=fun[1] if fun else None, var=v.name, file=os.path.relpath(at, db.repo), line=n.line)
                e['func'] = resolve(db, e)
                out[(at, n.line, v.name)] = e
    return list(out.values())
def resolve(db, e):
    """the definition registered (top-level const of a parameter may differ between declaration and definition)"""
    if e['fun'] in db.funcs: return db.funcs[e['fun']]
    want = 2 if e['kind'] == 'transformation' else 1
    for f in db.by_name.get(e['funname'], ()):
        cts = [f.types[p['t']][1] for p in f.params]
        if len(cts) == want and (want == 1 or 'models::Dataflow' in cts[0]): return f
    return None
