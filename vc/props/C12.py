"""C12: reading a node gives exactly the stored elements: the typed readers refuse any other type, the converting ones convert by value."""
from nod import *
from props.C10 import N, S, STD, nop, c_path, at, log, SEQ
import props.C07 as C07
from props.C07 import NATIVE, iv, spec, p_set, mknode
UNITS = C07.UNITS + ['libs/conduit/conduit_data_accessor.cpp']
FUNCS = []
CONTRACTS = C07.CONTRACTS
# the names a type is read under
KINDS = [(t.name, t.cpp, t) for t in TYS] + [(T.replace(' ', '_'), T, BYNAME[tn]) for T, tn in NATIVE] + [('signed_' + T.replace(' ', '_'), T, BYNAME[tn]) for T, tn in NATIVE if T in ('short', 'int', 'long', 'long long')] + [('index_t', 'long', BYNAME['int64'])]
def s_node(h, n_min=1):
    o = NodeObj(h, id=z3.Int('self.id')); h.v['o'] = o; h.assume(o.f['id'] >= 0, o.f['id'] <= 13, o.n >= n_min); return o
def frame(h, st):
    o = h.v['o']; x = z3.Int('ob!'); return [('the data read is unchanged', z3.Select(o.now(st), x) == z3.Select(o.pre, x)), o.desc_unchanged(st)]
def is_t(h, t): return h.v['o'].f['id'] == t.id
def s_obj(h): return [s_node(h).p]
def s_sret(h): o = s_node(h, 0); h.v['r'] = h.obj('ret'); return [P(h.v['r'], 0), o.p]
def p_val(t): return lambda h, st, v: [('the value is element 0, or zero if the type is another', bits(v, t.bits) == z3.If(is_t(h, t), rd(h.v['o'].pre, h.v['o'].addr(0), t.nb), z3.BitVecVal(0, t.bits)))] + frame(h, st)
def isptr(h, v, t): o = h.v['o']; return z3.And(is_t(h, t), zi(v.off) == o.addr(0)) if isinstance(v, P) and v.base == o.buf else z3.And(z3.Not(is_t(h, t)), isinstance(v, P) and v.base is None and isint(v.off) and v.off == 0)
def p_ptr(t): return lambda h, st, v: [('the address of element 0, or null if the type is another', isptr(h, v, t))] + frame(h, st)
def p_view(t, typed):
    def p(h, st, v):
        o = h.v['o']; c = st.objs[h.v['r']]; d = c.get(0, (8, None))[1]; ok = isinstance(d, P) and d.base == o.buf and isint(d.off) and d.off == 0
        f = {n: zi(to_int(c[8 + 8 * k][1])) for k, n in enumerate(DT) if 8 + 8 * k in c and isinstance(c[8 + 8 * k][1], (I, B))}
        if typed and not ok: return [('an empty view, only if the type is another', z3.And(z3.Not(is_t(h, t)), f.get('num_ele', z3.IntVal(1)) == 0, isinstance(d, P) and d.base is None))] + frame(h, st)
        return [('the view is over the data of a node of this type' if typed else 'the view is over the data of the node', z3.And(is_t(h, t) if typed else True, ok)), ('with the description of the node', z3.And(*[f[n] == o.f[n] for n in DT]) if ok and len(f) == 6 else False)] + frame(h, st)
    return p
def p_conv(t):
    def p(h, st, v):
        o = h.v['o']; g = bits(v, t.bits); i = o.f['id']
        return [('the value is element 0, converted', z3.Implies(z3.And(i >= 3, i <= 12), g == acc_elem(h.ex, o, o.pre, 0, t))), ('something that is not a number reads as zero', z3.Implies(z3.Or(i < 3, i > 13), g == 0))] + frame(h, st)
    return p
def s_conv(h): o = s_node(h); h.assume(o.f['id'] != 13); return [o.p]
ALLF = {}
for nm, T, t in KINDS:
    if nm != 'index_t': FUNCS.append(Fn(N + 'as_%s() const' % nm, s_obj, p_val(t)))
    for q in ('', ' const'):
        FUNCS.append(Fn(N + 'as_%s_ptr()' % nm + q, s_obj, p_ptr(t)))
        if nm != 'index_t' or q: FUNCS.append(Fn(N + 'as_%s_array()' % nm + q, s_sret, p_view(t, True)))
    FUNCS.append(Fn(N + 'as_%s_accessor() const' % nm, s_sret, p_view(t, False)))
    FUNCS.append(Fn(N + 'to_%s() const' % nm, s_conv, p_conv(t)))
for q in ('', ' const'): FUNCS.append(Fn(N + 'as_char8_str()' + q, s_obj, p_ptr(C07.STR13)))
# --- whole arrays, converted into another node
def s_toarr(c, t, u):
    def s(h):
        o = NodeObj(h, hint='from', id=u.id); h.assume(o.n < 2**60, o.stride < 2**60)
        r = spec(h, c, t, o.n, lambda k: conv(h.ex, u, t, rd(o.pre, o.addr(k), u.nb)), [o.buf]); h.v['o'] = o; return [o.p, r.p]
    return s
def p_toarr(h, st, v): return p_set(h, st, v) + [h.v['o'].desc_unchanged(st)]
def s_non(u, t):
    def s(h):
        o = NodeObj(h, hint='from', id=u); h.v['o'] = o; mknode(h, 'empty', t, z3.IntVal(0)); return [o.p, h.v['s'].p]
    return s
def frame_s(h, st): return [('the data read is unchanged', z3.Select(h.v['o'].now(st), z3.Int('ob!')) == z3.Select(h.v['o'].pre, z3.Int('ob!'))), h.v['o'].desc_unchanged(st)]
for nm, T, t in KINDS:
    if nm in ('signed_char', 'signed_short', 'signed_int', 'signed_long', 'long_long'): continue
    for u in TYS:
        for c in ('compatible', 'owned'):
            FUNCS.append(Fn(N + 'to_%s_array(conduit::Node&) const' % nm, s_toarr(c, t, u), p_toarr, templates=[ws_tpl], label=N + 'to_%s_array of %s [%s node]' % (nm, u.name, c), opts={'thorough': 1} if nm not in BYNAME and (c == 'owned' or u.id % 3) else {}))
    for u in (0, 1, 2, 13): FUNCS.append(Fn(N + 'to_%s_array(conduit::Node&) const' % nm, s_non(u, t), lambda h, st, v: [('a node that is not numeric is refused', False)], exc=frame_s, label=N + 'to_%s_array of %s' % (nm, NAMES[u])))
TOARR = {}
for nm, T, t in KINDS: TOARR[N + 'to_%s_array(conduit::Node&) const' % nm] = lambda ex, st, a, ins, fr, t=t: (log(st, 'toarr', t.id, a[0], a[1]), [('ret', st, None)])[1]
def s_tdt(h): o = NodeObj(h, hint='from', id=5); r = h.obj('res'); h.v['o'] = o; h.v['r'] = r; i, h.v['i'] = h.int('id'); return [o.p, i, P(r, 0)]
def p_tdt(h, st, v):
    L = st.ghost.get(SEQ, ()); return [('exactly the conversion to the type asked for, of this node into that one', z3.And(h.v['i'] == L[0][1]) if len(L) == 1 and at(L[0][2], h.v['o'].p) and at(L[0][3], P(h.v['r'], 0)) else False)]
FUNCS.append(Fn(N + 'to_data_type(long, conduit::Node&) const', s_tdt, p_tdt, exc=lambda h, st: [('an error is raised only for a type that is not numeric', z3.Or(h.v['i'] < 3, h.v['i'] > 12)), ('nothing is converted', not st.ghost.get(SEQ, ()))], contracts=TOARR))
# --- value(): the same readers, chosen by the type asked for
def s_value(sret=False, n_min=1, text=False):
    def s(h):
        o = s_node(h, n_min); h.assume(o.f['id'] != 13 if not text else True); w = h.obj('value'); c = h.st.objs[w]; co = z3.Int('coerce'); h.assume(z3.Or(co == 0, co == 1)); h.v['co'] = co
        c[0] = (8, o.p); c[8] = (1, I(8, co))
        if sret: h.v['r'] = h.obj('ret'); return [P(h.v['r'], 0), P(w, 0)]
        return [P(w, 0)]
    return s
def p_valop(t):
    def p(h, st, v):
        o = h.v['o']; i = o.f['id']; num = z3.And(i >= 3, i <= 12); g = bits(v, t.bits); z = z3.BitVecVal(0, t.bits)
        return [('element 0: converted if conversion was asked for, otherwise only of exactly this type', g == z3.If(h.v['co'] == 1, z3.If(num, acc_elem(h.ex, o, o.pre, 0, t), z), z3.If(is_t(h, t), rd(o.pre, o.addr(0), t.nb), z)))] + frame(h, st)
    return p
for T, tn in NATIVE:
    t = BYNAME[tn]
    for cls in ('Value', 'ConstValue'):
        V = 'conduit::Node::%s::operator ' % cls
        if T != 'char' or cls == 'Value': FUNCS.append(Fn(V + T + '() const', s_value(), p_valop(t)))
        q = ' const' if cls == 'ConstValue' else ''
        if T != 'char': FUNCS.append(Fn(V + T + q + '*() const', s_value(), p_ptr(t)))
        FUNCS.append(Fn(V + 'conduit::DataArray<%s>%s() const' % (T, q), s_value(True, 0), p_view(t, True)))
        FUNCS.append(Fn(V + 'conduit::DataAccessor<%s>() const' % T, s_value(True, 0), p_view(t, False)))
for V in ('Value::operator char*() const', 'ConstValue::operator char const*() const'): FUNCS.append(Fn(N + V, s_value(text=True), p_ptr(BYNAME['int8'])))
def c_mkstr(ex, st, a, ins, fr):
    if not (isinstance(a[0], P) and a[0].base == ex.h.v.get('r')): return None
    log(st, 'string', a[0], a[1]); return [('ret', st, None)]
def c_mkemp(ex, st, a, ins, fr):
    if not (isinstance(a[0], P) and a[0].base == ex.h.v.get('r')): return None
    log(st, 'empty', a[0]); return [('ret', st, None)]
def p_str(h, st, v):
    o = h.v['o']; L = [l for l in st.ghost.get(SEQ, ()) if at(l[1], P(h.v['r'], 0))]
    if len(L) != 1: return [('one text is made', False)]
    return [('the text that starts at element 0', z3.And(is_t(h, C07.STR13), L[0][2].base == o.buf, zi(L[0][2].off) == o.addr(0)) if isinstance(L[0][2], P) else False) if L[0][0] == 'string' else ('empty only if the node is not a text', z3.Not(is_t(h, C07.STR13)))] + frame(h, st)
FUNCS.append(Fn(N + 'as_string() const', s_sret, p_str, contracts={STD + '::basic_string<std::allocator<char>>(char const*, std::allocator<char> const&)': c_mkstr, STD + '::basic_string(char const*, std::allocator<char> const&)': c_mkstr, STD + '::basic_string()': c_mkemp}))
DRIVER = 'd_C12.cpp'
DRIVER_SCOPE = 'every typed reader, pointer, view, accessor, scalar conversion, array conversion and value() form, on leaves of every numeric type and layout and on nodes that are not numeric, under AddressSanitizer with guard bytes'
DRIVER_BOUND = 'about 33 layouts of 0..1031 elements per type, edge values of every type (x8 random layouts in the thorough tier)'
ASSUMES = ['a leaf that is read as a scalar or through a pointer has at least one element', 'numbers read from text (stringstream extraction) are checked by the driver only', 'floating-point conversions are the same uninterpreted operations in code and specification', 'the destination of an array conversion does not overlap the source', 'warnings return (the default handler)']
