"""What the rules know about models::Dataflow, discovered from its public interface."""
from kdb import *
import facts
CLS = 'models::Dataflow'
PUT_DERIVED = None

def only(db, name):
    fs = [f for f in db.by_name.get(CLS + '::' + name, ()) ]
    if len(fs) < 1: raise facts.AnalysisBroken('no definition of %s::%s' % (CLS, name))
    return fs[0]

def this_member(n):
    n = n.strip()
    if n.k == 'MemberExpr' and n.kids and n.kids[0] is not None and n.kids[0].strip().k == 'CXXThisExpr': return n.name
    return None

def flag_fields(db):
    """role -> data member: what the public query returns, or (where it returns something else) what the setter of the mark sets"""
    out = {}; left = []
    for api, setter, role in (('is_read_only', 'set_read_only', 'readonly'), ('is_normalized', 'set_normalize', 'norm'), ('has_repetition_vector', 'set_repetition_vector', 'rep')):
        f = only(db, api); m = None
        for n in f.walk():
            if n.k == 'ReturnStmt' and n.kids: m = this_member(n.kids[0])
        if m is None: left.append((api, setter, role, f))
        else: out[role] = m
    for api, setter, role, f in left:
        seen = {this_member(n) for n in f.walk() if n.k == 'MemberExpr'}
        sets = {this_member(n.kids[0]) for n in only(db, setter).walk() if n.k == 'BinaryOperator' and n.op == '='}
        c = (sets - {None}) - set(out.values())
        if len(c & seen) == 1: c &= seen
        if len(c) != 1: raise facts.AnalysisBroken('%s does not return a data member' % api)
        out[role] = c.pop()
    if len(set(out.values())) < 3:       # two queries answer with the same member: the setters tell which is wrong
        for setter, role in (('set_read_only', 'readonly'), ('set_normalize', 'norm'), ('set_repetition_vector', 'rep')):
            c = {this_member(n.kids[0]) for n in only(db, setter).walk() if n.k == 'BinaryOperator' and n.op == '='} - {None}
            if len(c) == 1: out[role] = c.pop()
        if len(set(out.values())) < 3: raise facts.AnalysisBroken('the marks of %s do not have a member each' % CLS)
    return out

def put_tag(n):
    """boost::put(tag, g, key, value) -> tag name; also put(get(tag,g),key,value) """
    if n.k == 'CallExpr' and n.cname and n.cname.split('::')[-1] == 'put' and n.args():
        a = n.args()[0].strip()
        if a.k == 'DeclRefExpr': return a.name
        t = get_tag(a)
        return t or '?'
    return None
def get_tag(n):
    """get(tag, g) -> tag"""
    if n.k == 'CallExpr' and n.cname and n.cname.split('::')[-1] == 'get' and n.args():
        a = n.args()[0].strip()
        if a.k == 'DeclRefExpr' and a.get('dk') == 'EnumConstant': return a.name
    return None
STRUCT = {'add_edge', 'add_vertex', 'remove_edge', 'remove_vertex', 'clear_vertex', 'clear_in_edges', 'clear_out_edges', 'remove_out_edge_if', 'remove_edge_if', 'swap'}
def struct_op(n):
    if n.k == 'CallExpr' and n.cname and n.cname.split('::')[-1] in STRUCT and (n.cname.startswith('boost::') ): return n.cname.split('::')[-1]
    if n.k == 'CXXMemberCallExpr' and n.cname and 'adjacency_list' in n.cname and n.cname.split('::')[-1] in ('clear', 'swap', 'copy_impl'): return n.cname.split('::')[-1]
    return None
