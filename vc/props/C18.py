"""C18: schema text (JSON or YAML) builds exactly the tree it describes."""
from nod import *
from models import ALLOC, cstr_id
from arr import *
import re
UNITS = ['libs/conduit/conduit_generator.cpp', 'libs/conduit/conduit_node.cpp', 'libs/conduit/conduit_schema.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_data_array.cpp', 'libs/conduit/conduit_utils.cpp', 'libs/conduit/conduit_endianness.cpp', 'probe/probe_core.cpp']
FUNCS = []
N, S, GP = 'conduit::Node::', 'conduit::Schema::', 'conduit::Generator::Parser::'
GJ, GY = GP + 'JSON::', GP + 'YAML::'
STD = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
JV = 'conduit_rapidjson::GenericValue<conduit_rapidjson::UTF8<char>, conduit_rapidjson::MemoryPoolAllocator<conduit_rapidjson::CrtAllocator>>'
INT = z3.IntSort(); BOOL = z3.BoolSort(); AII = z3.ArraySort(INT, INT)
def sel(a, i): return z3.Select(a, zi(i))
iv = lambda v: zi(to_int(v))
# --- parsed text, as the parser library hands it out: a value has a kind; members, elements and texts are functions of the value
KD = z3.Function('kind', INT, INT); NUL, BOL, OBJ, ARR, STR, NUM = range(6)
HM = z3.Function('has_member', INT, INT, BOOL); MV = z3.Function('member', INT, INT, INT); CNT = z3.Function('members', INT, INT); SZ = z3.Function('size', INT, INT); EL = z3.Function('element', INT, INT, INT)
MB = z3.Function('member_at', INT, INT); SV = z3.Function('text', INT, INT); BV_ = z3.Function('bool', INT, BOOL)
I64, U64, I32, U32 = [z3.Function('is_' + n, INT, BOOL) for n in ('int64', 'uint64', 'int', 'uint')]
IV = z3.Function('int_value', INT, INT); IB = z3.Function('int_bits', INT, z3.BitVecSort(64)); DV = z3.Function('double_value', INT, z3.BitVecSort(64))
ISD, ISI, ISE = [z3.Function('text_is_' + n, INT, BOOL) for n in ('double', 'integer', 'empty')]
TL = z3.Function('text_to_long', INT, z3.BitVecSort(64)); TU = z3.Function('text_to_ulong', INT, z3.BitVecSort(64)); TD = z3.Function('text_to_double', INT, z3.BitVecSort(64))
TUI = z3.Function('text_to_ulong_int', INT, INT); TLI = z3.Function('text_to_long_int', INT, INT)
YN = z3.Function('yaml_document_node', INT, INT)
def jid(ex, p):
    if not isinstance(p, P): raise Unsupported('a parsed value that is not a pointer')
    if isinstance(p.base, str):
        if p.base == 'members': return MB(zi(p.off))
        if p.base == 'value': return ex.h.v['j']
        raise Unsupported('a parsed value in ' + p.base)
    return zi(ex.ref_of(p))
def known(st, j):
    """what the parser library guarantees of every value"""
    st.assume(z3.And(KD(j) >= 0, KD(j) <= 5, CNT(j) >= 0, SZ(j) >= 0, SZ(j) < 2**31, CNT(j) < 2**31, z3.Implies(z3.Or(I32(j)), I64(j)), z3.Implies(U32(j), U64(j)), z3.Implies(z3.Or(I64(j), U64(j)), KD(j) == NUM)))
_n = [0]
def cstr(ex, st, t):
    r = 'cstr:%d' % _n[0]; _n[0] += 1; st.ghost[(r, 0, 'cid')] = t; return P(r, 0)
def tid(ex, st, p, fr):
    t = cstr_id(ex, st, p, fr)
    if t is None: raise Unsupported('text at %r' % (p,))
    return t
def q(f):
    def c(ex, st, a, ins, fr):
        j = jid(ex, a[0]); known(st, j); return [('ret', st, Bo(f(j)))]
    return c
def c_has(ex, st, a, ins, fr): return [('ret', st, Bo(HM(jid(ex, a[0]), tid(ex, st, a[1], fr))))]
def c_mem(ex, st, a, ins, fr):
    j = jid(ex, a[0]); t = tid(ex, st, a[1], fr); ex.require(st, 'only a member that exists is read', HM(j, t)); m = MV(j, t); st.assume(m != 0); return [('ret', st, P(m, 0))]
def c_el(ex, st, a, ins, fr):
    j = jid(ex, a[0]); i = iv(a[1]); ex.require(st, 'only an element that exists is read', z3.And(i >= 0, i < SZ(j))); m = EL(j, i); st.assume(m != 0); return [('ret', st, P(m, 0))]
def c_sz(ex, st, a, ins, fr): j = jid(ex, a[0]); known(st, j); return [('ret', st, I(32, SZ(j)))]
def c_str(ex, st, a, ins, fr): j = jid(ex, a[0]); ex.require(st, 'text is read only from a text value', z3.Or(KD(j) == STR, isinstance(a[0].base, str))); return [('ret', st, cstr(ex, st, SV(j)))]
def num(w, lo, hi):
    def c(ex, st, a, ins, fr):
        j = jid(ex, a[0]); ex.require(st, 'a number is read only from a number', KD(j) == NUM)
        if ex.opts.get('bits'): return [('ret', st, B(64, IB(j)))]
        st.assume(z3.And(IV(j) >= lo, IV(j) < hi)); return [('ret', st, I(w, IV(j)))]
    return c
def c_dbl(ex, st, a, ins, fr): j = jid(ex, a[0]); ex.require(st, 'a number is read only from a number', KD(j) == NUM); return [('ret', st, F(64, DV(j)))]
def c_bool(ex, st, a, ins, fr): j = jid(ex, a[0]); ex.require(st, 'a boolean is read only from a boolean', KD(j) == BOL); return [('ret', st, Bo(BV_(j)))]
def c_beg(end):
    def c(ex, st, a, ins, fr):
        j = jid(ex, a[0]); known(st, j); same = z3.simplify(j == ex.h.v['j'])
        if not z3.is_true(same): raise Unsupported('members of another value')
        return [('ret', st, P('members', lmul(CNT(j), 48) if end else 0))]
    return c
kind = lambda k: q(lambda j: KD(j) == k)
JS = {'IsObject() const': kind(OBJ), 'IsArray() const': kind(ARR), 'IsString() const': kind(STR), 'IsNumber() const': kind(NUM), 'IsBool() const': kind(BOL), 'IsNull() const': kind(NUL), 'IsTrue() const': q(lambda j: z3.And(KD(j) == BOL, BV_(j))), 'IsFalse() const': q(lambda j: z3.And(KD(j) == BOL, z3.Not(BV_(j)))),
      'IsInt() const': q(I32), 'IsInt64() const': q(I64), 'IsUint() const': q(U32), 'IsUint64() const': q(U64), 'IsDouble() const': q(lambda j: z3.And(KD(j) == NUM, z3.Not(I64(j)), z3.Not(U64(j)))),
      'HasMember(char const*) const': c_has, 'operator[](unsigned int) const': c_el, 'Size() const': c_sz, 'GetString() const': c_str, 'GetInt() const': num(32, -2**31, 2**31), 'GetInt64() const': num(64, -2**63, 2**63), 'GetUint64() const': num(64, 0, 2**63),
      'GetDouble() const': c_dbl, 'GetBool() const': c_bool, 'MemberBegin() const': c_beg(False), 'MemberEnd() const': c_beg(True)}
def star(dn):
    if dn.startswith(JV + '::'): return JS.get(dn[len(JV) + 2:])
    if 'operator[]<char const>(char const*)' in dn and 'conduit_rapidjson' in dn: return c_mem
    return None
def tq(f, ret):
    def c(ex, st, a, ins, fr):
        t = tid(ex, st, a[0], fr); return [('ret', st, ret(ex, st, f, t))]
    return c
def tnum(ex, st, f, t):
    if ex.opts.get('bits'): return B(64, (TL if f == 'l' else TU)(t))
    v = (TLI if f == 'l' else TUI)(t); st.assume(z3.And(v >= (-2**63 if f == 'l' else 0), v < 2**63)); return I(64, v)
TEXT = {GP + 'string_is_double(char const*)': tq(ISD, lambda ex, st, f, t: Bo(f(t))), GP + 'string_is_integer(char const*)': tq(ISI, lambda ex, st, f, t: Bo(f(t))), GP + 'string_is_empty(char const*)': tq(ISE, lambda ex, st, f, t: Bo(f(t))), GP + 'string_is_number(char const*)': tq(ISD, lambda ex, st, f, t: Bo(z3.Or(ISI(t), ISD(t)))),
        GP + 'string_to_double(char const*)': tq(TD, lambda ex, st, f, t: F(64, f(t))), GP + 'string_to_long(char const*)': tq('l', tnum), GP + 'string_to_unsigned_long(char const*)': tq('u', tnum)}
# the same for YAML: a scalar is a text; a document node is named by its index
def y_obj(ex, st, a, ins, fr):
    j = jid(ex, a[1]); t = str_get(ex, st, a[2]); m = MV(j, t); known(st, m)
    s2 = st.copy(); s2.assume(z3.Not(HM(j, t))); st.assume(z3.And(HM(j, t), m != 0)); return [('ret', st, P(m, 0)), ('ret', s2, NULL)]
def y_list(ex, st, a, ins, fr):
    j = jid(ex, a[1]); i = iv(a[2]); ex.require(st, 'only an element that exists is read', z3.And(i >= 0, i < SZ(j))); m = EL(j, i); known(st, m); st.assume(m != 0); return [('ret', st, P(m, 0))]
def y_get(ex, st, a, ins, fr): m = YN(iv(a[1])); known(st, m); st.assume(m != 0); return [('ret', st, P(m, 0))]
def y_cnt(f):
    def c(ex, st, a, ins, fr): j = jid(ex, a[0]); known(st, j); return [('ret', st, I(32, f(j)))]
    return c
def y_str(ex, st, a, ins, fr): j = jid(ex, a[0]); ex.require(st, 'text is read only from a scalar', KD(j) == STR); return [('ret', st, cstr(ex, st, SV(j)))]
def y_num(f):
    def c(ex, st, a, ins, fr): j = jid(ex, a[0]); ex.require(st, 'text is read only from a scalar', KD(j) == STR); return [('ret', st, tnum(ex, st, f, SV(j)))]
    return c
YS = {GY + 'check_yaml_is_mapping_node(yaml_node_s const*)': kind(OBJ), GY + 'check_yaml_is_sequence(yaml_node_s const*)': kind(ARR), GY + 'check_yaml_is_scalar_node(yaml_node_s const*)': kind(STR),
      GY + 'check_yaml_is_number(yaml_node_s const*)': q(lambda j: z3.And(KD(j) == STR, z3.Or(ISI(SV(j)), ISD(SV(j))))), GY + 'check_yaml_is_int(yaml_node_s const*)': q(lambda j: z3.And(KD(j) == STR, ISI(SV(j)))),
      GY + 'fetch_yaml_node_from_list(yaml_document_s*, yaml_node_s const*, int)': y_list, GY + 'fetch_yaml_node_from_object_by_name(yaml_document_s*, yaml_node_s const*, %s)' % STD: y_obj,
      GY + 'get_yaml_num_members(yaml_node_s const*)': y_cnt(CNT), GY + 'get_yaml_sequence_length(yaml_node_s const*)': y_cnt(SZ), GY + 'get_yaml_string(yaml_node_s const*)': y_str,
      GY + 'get_yaml_long(yaml_node_s const*)': y_num('l'), GY + 'get_yaml_unsigned_long(yaml_node_s const*)': y_num('u'), 'yaml_document_get_node': y_get}
def nop(ex, st, a, ins, fr): return [('ret', st, None)]
def c_path(ex, st, a, ins, fr): str_set(ex, st, a[0], fresh_int('path')); return [('ret', st, None)]
def c_join(ex, st, a, ins, fr): str_set(ex, st, a[0], fresh_int('path')); return [('ret', st, None)]
CONTRACTS = {'*': star, N + 'path() const': c_path, S + 'path() const': c_path, 'conduit::utils::join_path(%s const&, %s const&)' % (STD, STD): c_join}
CONTRACTS.update(TEXT); CONTRACTS.update(YS)
YKIND = ('yaml', 0, 'mode')
def value(h, mode, hint='value'):
    """the parsed value the function is given"""
    h.v['j'] = z3.Int('j'); h.v['mode'] = mode; known(h.st, h.v['j']); h.assume(h.v['j'] != 0)
    if mode == 'json': h.buf('members'); return P(h.v['j'], 0)
    h.assume(KD(h.v['j']) != NUM, KD(h.v['j']) != BOL)
    o = 'value'; h.st.objs[o] = {}; h.st.tarr['members'] = (4, 'int', z3.Const('pairs', AII)); h.st.objs[o][16] = (8, P('members', 0)); return P(o, 0)
def kid(h, k): return MB(48 * zi(k) + 24) if h.v['mode'] == 'json' else YN(sel(z3.Const('pairs', AII), 2 * zi(k) + 1))
def kname(h, k): return SV(MB(48 * zi(k))) if h.v['mode'] == 'json' else SV(YN(sel(z3.Const('pairs', AII), 2 * zi(k))))
TX = lambda s: lit(s.encode())
DTY, LEN, NEL, OFF, STRD, EBY, END, VAL, ADR, REF = [TX(s) for s in ('dtype', 'length', 'number_of_elements', 'offset', 'stride', 'element_bytes', 'endianness', 'value', 'address', 'reference')]
# --- the type of a leaf
NID = z3.Function('type_of_name', INT, INT); BAD = z3.Function('not_a_type_name', INT, BOOL)
def c_nid(ex, st, a, ins, fr):
    t = str_get(ex, st, a[0]); s2 = st.copy(); s2.assume(BAD(t)); st.assume(z3.And(z3.Not(BAD(t)), NID(t) >= 0, NID(t) <= 13)); return [('ret', st, I(64, NID(t))), ('exc', s2, 'error')]
def dbytes(id): 
    r = z3.IntVal(0)
    for k, b in {3: 1, 4: 2, 5: 4, 6: 8, 7: 1, 8: 2, 9: 4, 10: 8, 11: 4, 12: 8, 13: 1}.items(): r = z3.If(id == k, z3.IntVal(b), r)
    return r
def isnum(h, m): return KD(m) == NUM if h.v['mode'] == 'json' else z3.And(KD(m) == STR, z3.Or(ISI(SV(m)), ISD(SV(m))))
def uval(h, m): return IV(m) if h.v['mode'] == 'json' else TUI(SV(m))
DB = z3.Function('default_bytes', INT, INT)
def leaf_spec(h, j, off):
    """the DataType a leaf entry describes, and when it is not one"""
    name = z3.If(KD(j) == STR, SV(j), SV(MV(j, DTY))); id = NID(name); o = KD(j) == OBJ
    has = lambda t: z3.And(o, HM(j, t)); val = lambda t: uval(h, MV(j, t))
    n0 = z3.If(has(NEL), val(NEL), z3.If(has(LEN), val(LEN), 0))
    varr = z3.And(has(VAL), KD(MV(j, VAL)) == ARR)
    n = z3.If(o, z3.If(n0 == 0, z3.If(varr, SZ(MV(j, VAL)), z3.If(has(NEL), 0, 1)), n0), 1)
    e = SV(MV(j, END)); big, lit_ = TX('big'), TX('little')
    f = {'id': id, 'num_ele': n, 'offset': z3.If(has(OFF), val(OFF), zi(off)), 'stride': z3.If(has(STRD), val(STRD), DB(id)), 'ele_bytes': z3.If(has(EBY), val(EBY), DB(id)), 'endianness': z3.If(has(END), z3.If(e == big, 1, 2), 0)}
    numbad = lambda t: z3.And(has(t), z3.Not(isnum(h, MV(j, t))))
    bad = z3.Or(z3.And(KD(j) != STR, z3.Not(o)), z3.And(o, z3.Or(z3.Not(HM(j, DTY)), KD(MV(j, DTY)) != STR)), BAD(name), numbad(NEL), z3.And(z3.Not(has(NEL)), numbad(LEN)), numbad(OFF), numbad(STRD), numbad(EBY), z3.And(has(END), z3.Or(KD(MV(j, END)) != STR, z3.And(e != big, e != lit_))))
    return f, bad
def s_leaf(mode, k=None):
    def s(h):
        j = value(h, mode); o, off = h.int('offset'); h.assume(off >= -2**62, off < 2**62); h.v['off'] = off; p, _ = h.dtype(hint='out'); h.v['out'] = p
        if k is not None: h.assume(k(h.v['j']))
        return [j, o, p] if mode == 'json' else [P('doc', 0), j, o, p]
    return s
def p_leaf(h, st, v):
    f = dt_fields(h.ex, st, h.v['out']); sp, bad = leaf_spec(h, h.v['j'], h.v['off'])
    return [('the entry describes a leaf', z3.Not(bad))] + [('the %s described' % k, f[k] == sp[k]) for k in DT]
e_leaf = lambda h, st: [('an error only for an entry that does not describe a leaf', leaf_spec(h, h.v['j'], h.v['off'])[1])]
CL = {GP + 'parse_leaf_dtype_name(%s const&)' % STD: c_nid}
PLJ, PLY = GJ + 'parse_leaf_dtype(%s const&, long, conduit::DataType&)' % JV, GY + 'parse_leaf_dtype(yaml_document_s*, yaml_node_s const*, long, conduit::DataType&)'
# the local function that reads one optional number of the entry
LAM = re.compile(r'parse_leaf_dtype\(.*\)::\$_\d+::operator\(\)\((.*)\) const$')
def c_opt(ex, st, a, ins, fr):
    """the member's number if there is such a member, the given default if not (proved below)"""
    h = ex.h; j = h.v['j']; t = str_get(ex, st, a[1]) if h.v['mode'] == 'yaml' else tid(ex, st, a[1], fr); m = MV(j, t); known(st, m)
    old = iv(ex.load(st, a[2], ('i', 64), None)); bad = z3.And(HM(j, t), z3.Not(isnum(h, m))); s2 = st.copy(); s2.assume(bad)
    st.assume(z3.And(z3.Not(bad), z3.Implies(HM(j, t), z3.And(uval(h, m) >= 0, uval(h, m) < 2**63)))); ex.store(st, a[2], I(64, z3.If(HM(j, t), uval(h, m), old)), ('i', 64), None); return [('ret', st, None), ('exc', s2, 'error')]
def lam(dn): return c_opt if LAM.search(dn) else star(dn)
CL['*'] = lam
CASES = [('a text', lambda j: KD(j) == STR), ('neither a text nor an object', lambda j: z3.And(KD(j) != STR, KD(j) != OBJ))]
for nel in (0, 1, 2):
    for end in (0, 1):
        CASES.append(('an object with %s, %s endianness' % (('no count', 'number_of_elements', 'length')[nel], ('no', 'an')[end]), lambda j, nel=nel, end=end: z3.And(KD(j) == OBJ, HM(j, END) == bool(end), [z3.And(z3.Not(HM(j, NEL)), z3.Not(HM(j, LEN))), HM(j, NEL), z3.And(z3.Not(HM(j, NEL)), HM(j, LEN))][nel])))
for mode, sig in (('json', PLJ), ('yaml', PLY)):
    for nm, k in CASES: FUNCS.append(Fn(sig, s_leaf(mode, k), p_leaf, exc=e_leaf, contracts=CL, label=mode + ' parse_leaf_dtype of ' + nm))
def s_lam(mode):
    def s(h):
        j = value(h, mode); clo = h.obj('closure'); v = h.obj('number'); x = z3.Int('default'); h.v['x'] = x; h.assume(x >= -2**63, x < 2**63); h.st.objs[v][0] = (8, I(64, x)); h.v['num'] = P(v, 0)
        if mode == 'json': h.st.objs[clo][0] = (8, j); t = z3.Int('name'); h.v['t'] = t; n = cstr(h.ex, h.st, t)
        else:
            d, y = h.obj('d'), h.obj('y'); h.st.objs[d][0] = (8, P('doc', 0)); h.st.objs[y][0] = (8, j); h.st.objs[clo][0] = (8, P(d, 0)); h.st.objs[clo][8] = (8, P(y, 0)); n, h.v['t'] = h.string('name')
        return [P(clo, 0), n, P(v, 0)]
    return s
def p_lam(h, st, v):
    j, t = h.v['j'], h.v['t']; m = MV(j, t); r = iv(h.ex.load(st, h.v['num'], ('i', 64), None))
    return [('a number, if there is one', z3.Implies(HM(j, t), isnum(h, m))), ('the number given, or else the default', r == z3.If(HM(j, t), uval(h, m), h.v['x']))]
e_lam = lambda h, st: [('an error only if it is not a number', z3.And(HM(h.v['j'], h.v['t']), z3.Not(isnum(h, MV(h.v['j'], h.v['t'])))))]
FUNCS.append(Fn(PLJ + '::$_0::operator()(char const*, long&) const', s_lam('json'), p_lam, exc=e_lam, label='json optional number of a leaf'))
FUNCS.append(Fn(PLY + '::$_0::operator()(%s const&, long&) const' % STD, s_lam('yaml'), p_lam, exc=e_lam, label='yaml optional number of a leaf'))
def c_dby(ex, st, a, ins, fr): i = iv(a[0]); st.assume(z3.And(DB(i) >= 0, DB(i) <= 8)); return [('ret', st, I(64, DB(i)))]      # proved next
CL['conduit::DataType::default_bytes(long)'] = c_dby
def s_dby(h): v, h.v['id'] = h.int('id'); h.assume(h.v['id'] >= 0, h.v['id'] <= 13); return [v]
FUNCS.append(Fn('conduit::DataType::default_bytes(long)', s_dby, lambda h, st, v: [('the element size of the type', iv(v) == dbytes(h.v['id']))]))
def p_nid(h, st, v):
    return [('the type of that name', iv(v) == z3.If(T1(h.v['t']) != 0, T1(h.v['t']), T2(h.v['t']))), ('it is a type name', z3.Or(iv(v) != 0, h.v['t'] == TX('empty')))]
T1, T2 = z3.Function('name_to_id', INT, INT), z3.Function('c_type_name_to_id', INT, INT)
def c_t(f):
    def c(ex, st, a, ins, fr): t = str_get(ex, st, a[0]); st.assume(z3.And(f(t) >= 0, f(t) <= 13)); return [('ret', st, I(64, f(t)))]
    return c
def s_nid(h): p, h.v['t'] = h.string('name'); return [p]
FUNCS.append(Fn(GP + 'parse_leaf_dtype_name(%s const&)' % STD, s_nid, p_nid, exc=lambda h, st: [('an error only for a text that names no type', z3.And(T1(h.v['t']) == 0, T2(h.v['t']) == 0, h.v['t'] != TX('empty')))],
                contracts={'conduit::DataType::name_to_id(%s const&)' % STD: c_t(T1), 'conduit::DataType::c_type_name_to_id(%s const&)' % STD: c_t(T2)}, label=GP + 'parse_leaf_dtype_name'))
# --- walking the text: the calls made on the schema, the nodes and the sub-texts follow the order of the text
G = lambda n: ('walk', 0, n)
NA, NW, NQ, OFS, TOT, LASTB = G('added'), G('walked'), G('nodes'), G('offset'), G('total'), G('last bytes')
CH, LS, LP, NDA, NDW = G('schemas'), G('node schema'), G('node parent'), G('appended'), G('walked nodes')
def gset(st, k, v): st.ghost[k] = v; st.writes.add(('ghost', k))
g = lambda st, k: zi(st.ghost[k])
ROLE, LEAF, COPY, DATA, INL = G('role'), G('leaf'), G('copy'), G('data'), G('inline')
def DTM(h):
    """the text has a 'dtype' entry (an ordinary name in pure json or yaml)"""
    return z3.BoolVal(False) if h.v.get('pure') else HM(h.v['j'], DTY)
def count(h):
    """how many children the text describes"""
    j = h.v['j']; return z3.If(KD(j) == OBJ, z3.If(DTM(h), h.v['len'], CNT(j)), SZ(j))
def expect(h, k):
    """the k-th sub-text"""
    j = h.v['j']; return z3.If(KD(j) == OBJ, z3.If(DTM(h), MV(j, DTY), kid(h, k)), EL(j, k))
def isself(ex, p, nm): return isinstance(p, P) and not isinstance(p.base, str) and p.base is not None and z3.is_true(z3.simplify(zi(p.base) == z3.Int(nm)))
def w_add(ex, st, a, ins, fr):
    h = ex.h; k = g(st, NA); ex.require(st, 'children are added to the schema being built', isself(ex, a[0], 'schema')); t = str_get(ex, st, a[1])
    ex.require(st, 'the child added next is named by the next member', z3.And(KD(h.v['j']) == OBJ, z3.Not(DTM(h)), k < CNT(h.v['j']), t == kname(h, k)))
    if h.v['dup']: ex.require(st, 'no name is used twice', z3.Not(DUP(k)))
    c = fresh_int('child'); st.assume(c > 0); gset(st, CH, z3.Store(st.ghost[CH], k, c)); gset(st, NA, k + 1); return [('ret', st, P(c, 0))]
DUP = z3.Function('name_used_before', INT, BOOL)
def w_has(ex, st, a, ins, fr):
    k = g(st, NA); t = str_get(ex, st, a[1]); ex.require(st, 'the name looked up is the next member\'s', z3.And(k < CNT(ex.h.v['j']), t == kname(ex.h, k))); return [('ret', st, Bo(DUP(k)))]
def w_app(ex, st, a, ins, fr):
    h = ex.h; k = g(st, NA); ex.require(st, 'children are added to the schema being built', isself(ex, a[0], 'schema'))
    ex.require(st, 'an element is appended only for an element of the text', z3.And(k < count(h), z3.Or(KD(h.v['j']) == ARR, z3.And(KD(h.v['j']) == OBJ, HM(h.v['j'], DTY), KD(MV(h.v['j'], DTY)) == OBJ))))
    c = fresh_int('child'); st.assume(c > 0); gset(st, CH, z3.Store(st.ghost[CH], k, c)); gset(st, NA, k + 1); return [('ret', st, P(c, 0))]
def w_cptr(ex, st, a, ins, fr):
    i = iv(a[1]); ex.require(st, 'a child that was added is used', z3.And(i >= 0, i < g(st, NA))); return [('ret', st, P(sel(st.ghost[CH], i), 0))]
def w_sset(ex, st, a, ins, fr):
    f = dt_fields(ex, st, a[1])
    if isself(ex, a[0], 'schema'):
        id = z3.simplify(f['id'])
        if z3.is_int_value(id) and id.as_long() in (1, 2):
            ex.require(st, 'the role is set before the children are added', g(st, NA) == 0); st.ghost[ROLE] = id.as_long()
        else: st.ghost[LEAF] = st.ghost.get(LEAF, ()) + (('schema', f),)
        return [('ret', st, None)]
    ex.require(st, 'a child is prepared before its text is walked', z3.And(g(st, NW) < g(st, NA), zi(ex.ref_of(a[0])) == sel(st.ghost[CH], g(st, NA) - 1))); return [('ret', st, None)]
def w_tsb(ex, st, a, ins, fr):
    r = fresh_int('bytes'); st.assume(r == z3.If(z3.And(g(st, NW) > 0, zi(ex.ref_of(a[0])) == sel(st.ghost[CH], g(st, NW) - 1)), g(st, LASTB), r)); return [('ret', st, I(64, r))]
def w_ssp(ex, st, a, ins, fr):
    n = zi(ex.ref_of(a[0])); gset(st, LS, z3.Store(st.ghost[LS], n, zi(ex.ref_of(a[1])))); return [('ret', st, None)]
def w_par(ex, st, a, ins, fr):
    n = zi(ex.ref_of(a[0])); gset(st, LP, z3.Store(st.ghost[LP], n, zi(ex.ref_of(a[1])))); return [('ret', st, None)]
def w_anp(ex, st, a, ins, fr):
    k = g(st, NQ); n = zi(ex.ref_of(a[1])); ex.require(st, 'nodes are added to the node being built', isself(ex, a[0], 'node'))
    ex.require(st, 'the node added next belongs to the next child schema', z3.And(k < g(st, NA), sel(st.ghost[LS], n) == sel(st.ghost[CH], k))); gset(st, NDA, z3.Store(st.ghost[NDA], k, n)); gset(st, NQ, k + 1); return [('ret', st, None)]
def w_walk(ps, pj, po=None, pn=None, pd=None, ret=False, pe=None):
    """the recursive walk of one sub-text: its argument positions"""
    def c(ex, st, a, ins, fr):
        h = ex.h; k = g(st, NW); s_ = zi(ex.ref_of(a[ps])); ex.require(st, 'the next sub-text is walked', z3.And(k < g(st, NA), k < count(h), jid(ex, a[pj]) == expect(h, k))); ex.require(st, 'into the child schema added for it', s_ == sel(st.ghost[CH], k))
        if po is not None: ex.require(st, 'at the offset after the children before it', iv(a[po]) == g(st, OFS))
        if pn is not None:
            n = zi(ex.ref_of(a[pn])); ex.require(st, 'with the node linked to that schema and parent', z3.And(sel(st.ghost[LS], n) == s_, sel(st.ghost[LP], n) == z3.Int('node'))); gset(st, NDW, z3.Store(st.ghost[NDW], k, n))
        if pd is not None: ex.require(st, 'over the same data', zi(ex.ref_of(a[pd])) == h.v['data'])
        if pe is not None: ex.require(st, 'copied or external as asked', zbool(a[pe].t) == z3.Bool('external') if isinstance(a[pe], Bo) else (iv(a[pe]) != 0) == z3.Bool('external'))
        b = fresh_int('bytes'); st.assume(z3.And(b >= 0, b < 2**62)); gset(st, LASTB, b); gset(st, NW, k + 1); gset(st, TOT, g(st, TOT) + b)
        if h.v['auto']: gset(st, OFS, g(st, OFS) + b)
        s2 = st.copy(); s2.ghost[G('threw')] = True; s2.pc = list(s2.pc)
        return [('ret', st, I(64, b) if ret else None), ('exc', s2, 'error')]
    return c
def w_leaf(h, f): return f
def w_parse(pj, po, pd):
    def c(ex, st, a, ins, fr):
        h = ex.h; j = jid(ex, a[pj]); f, bad = leaf_spec(h, j, iv(a[po])); ex.require(st, 'the leaf described by this text at this offset', z3.And(j == h.v['j'], iv(a[po]) == z3.Int('offset')))
        s2 = st.copy(); s2.assume(bad); s2.ghost[G('threw')] = True; st.assume(z3.Not(bad)); w = {k: z3.Int('leaf.' + k) for k in DT}
        st.assume(z3.And(z3.Or(w['id'] == 0, w['id'] >= 3), w['id'] <= 13, w['num_ele'] >= 0, w['ele_bytes'] == DB(w['id']), w['endianness'] >= 0, z3.Implies(KD(j) == STR, z3.And(w['num_ele'] == 1, w['stride'] == w['ele_bytes'], w['offset'] == z3.Int('offset'))))); dt_store(ex, st, a[pd], w); return [('ret', st, None), ('exc', s2, 'error')]
    return c
def base(h, mode, node=False, data=None, dup=True, auto=True):
    j = value(h, mode); h.v['dup'], h.v['auto'] = dup, auto; h.v['len'] = z3.Int('count'); h.assume(h.v['len'] >= 0)
    h.v['off'] = z3.Int('offset'); h.assume(h.v['off'] >= 0, h.v['off'] < 2**62, z3.Int('schema') > 0, z3.Int('node') > 0)
    for k in (NA, NW, NQ, TOT): h.st.ghost[k] = z3.IntVal(0)
    h.st.ghost[OFS] = h.v['off']; h.st.ghost[LASTB] = z3.Int('bytes0')
    for k in (CH, LS, LP, NDA, NDW): h.st.ghost[k] = z3.Const(str(k[2]), AII)
    h.st.ghost[ALLOC] = z3.Int('alloc'); h.assume(z3.Int('alloc') > 0, z3.Int('node') < z3.Int('alloc'))
    jj = h.v['j']; ln = MV(jj, LEN); h.v['loflen'] = ln
    return j
def inv(h, v, node):
    st = v.st; n = [g(st, NA) == g(st, NW), g(st, NW) >= 0, g(st, NW) <= count(h)]
    if node: n += [g(st, NQ) == g(st, NW)]
    return z3.And(*n)
def walk_tpl(node):
    def t(ex, loop, hv):
        h = ex.h; out = [('every child added is walked', lambda v: inv(h, v, node)), ('walked = iterations', lambda v: g(v.st, NW) == v.it), ('offset grows', lambda v: g(v.st, OFS) >= h.v['off']), ('total', lambda v: g(v.st, TOT) >= 0)]
        for r in list(hv.phis):
            for k in (OFS, TOT, NW): out.append(('%s is %s' % (r, k[2]), lambda v, r=r, k=k: iv(v.phis[r]) == g(v.st, k) if isinstance(v.phis[r], (I, B)) else None))
        if node:
            i = z3.Int('gi!'); out.append(('the nodes walked are the nodes added', lambda v: z3.Implies(z3.And(i >= 0, i < g(v.st, NW)), sel(v.st.ghost[NDA], i) == sel(v.st.ghost[NDW], i))))
            out.append(('references only grow', lambda v: zi(v.st.ghost[ALLOC]) >= z3.Int('alloc')))
        return out
    return t
def is_leaf(h): j = h.v['j']; return z3.Or(KD(j) == STR, z3.And(KD(j) == OBJ, HM(j, DTY), KD(MV(j, DTY)) != OBJ))
def is_lof(h): j = h.v['j']; return z3.And(KD(j) == OBJ, HM(j, DTY), KD(MV(j, DTY)) == OBJ)
def walked(h, st, node):
    j = h.v['j']; i = z3.Int('gi!'); n = count(h); role = st.ghost.get(ROLE, 0); lf = st.ghost.get(LEAF, ())
    r = [('one child per entry of the text, each walked', z3.Implies(z3.Not(is_leaf(h)), z3.And(g(st, NA) == n, g(st, NW) == n))), ('a leaf has no children', z3.Implies(is_leaf(h), g(st, NA) == 0)),
         ('the role of the text', z3.And(z3.Implies(z3.And(KD(j) == OBJ, z3.Not(HM(j, DTY))), role == 1), z3.Implies(KD(j) == ARR, role == 2), z3.Implies(is_lof(h), z3.BoolVal(role in (0, 2))), z3.Implies(is_leaf(h), role == 0))),
         ('the text is an object, an array or a type name', z3.Or(KD(j) == OBJ, KD(j) == ARR, KD(j) == STR))]
    if node: r += [('one node per child, the one that was walked', z3.Implies(z3.Not(is_leaf(h)), z3.And(g(st, NQ) == n, z3.Implies(z3.And(i >= 0, i < n), sel(st.ghost[NDA], i) == sel(st.ghost[NDW], i)))))]
    return r
def leafis(f): return z3.And(*[zi(f[k]) == z3.Int('leaf.' + k) for k in DT])
SC = {'conduit::DataType::default_bytes(long)': c_dby, S + 'add_child(%s const&)' % STD: w_add, S + 'has_child(%s const&) const' % STD: w_has, S + 'append()': w_app, S + 'child_ptr(long)': w_cptr, S + 'child(long)': w_cptr, S + 'set(conduit::DataType const&)': w_sset, S + 'total_strided_bytes() const': w_tsb}
def badkey(h, k): return z3.BoolVal(False) if h.v['mode'] == 'json' else KD(YN(sel(z3.Const('pairs', AII), 2 * k))) != STR
def errs(h, st):
    j = h.v['j']; ln = MV(j, LEN); isn = isnum(h, ln) if h.v['mode'] == 'json' else z3.And(KD(ln) == STR, ISI(SV(ln)))
    return [('an error only where the text is not a schema', z3.BoolVal(True) if st.ghost.get(G('threw')) else z3.Or(z3.And(KD(j) != OBJ, KD(j) != ARR, KD(j) != STR), z3.And(is_lof(h), HM(j, LEN), z3.Or(z3.Not(isn if h.v['ref'] is False else z3.Or(isn, isnum(h, ln), z3.And(KD(ln) == OBJ, HM(ln, REF)))))), DUP(g(st, NA)) if h.v['dup'] else z3.BoolVal(False), badkey(h, g(st, NA))))]
WSJ = GJ + 'walk_json_schema(conduit::Schema*, %s const&, long)' % JV
WSY = GY + 'walk_yaml_schema(conduit::Schema*, yaml_document_s*, yaml_node_s const*, long)'
def lens(h, node):
    """the count of a list_of: one, the number given, or what the reference holds"""
    j = h.v['j']; ln = MV(j, LEN); known(h.st, ln); known(h.st, MV(j, DTY)); n = (IV(ln) if h.v['mode'] == 'json' else TLI(SV(ln))); k = z3.If(HM(j, LEN), z3.If(KD(ln) == OBJ, z3.Int('ref.count'), n), 1)
    rf = MV(ln, REF); h.assume(z3.Implies(z3.And(HM(j, LEN), KD(ln) == OBJ, HM(ln, REF)), KD(rf) == STR))      # a reference is a text
    h.v['ref'] = node; h.assume(h.v['len'] == z3.If(k > 0, k, 0), z3.Implies(is_lof(h), z3.And(k < 2**31, k >= -2**31, n < 2**31, n >= -2**31)))
def s_ws(mode):
    def s(h):
        j = base(h, mode, dup=mode == 'yaml'); lens(h, False); a = [P(z3.Int('schema'), 0)] + ([j] if mode == 'json' else [P('doc', 0), j]); return a + [I(64, h.v['off'])]
    return s
def p_ws(h, st, v):
    lf = st.ghost.get(LEAF, ())
    return walked(h, st, False) + [('a leaf takes the type described', z3.Implies(is_leaf(h), leafis(lf[-1][1]) if lf else z3.BoolVal(False)))]
for mode, sig, sub, pl in (('json', WSJ, w_walk(0, 1, 2), PLJ), ('yaml', WSY, w_walk(0, 2, 3), PLY)):
    FUNCS.append(Fn(sig, s_ws(mode), p_ws, exc=errs, templates=[walk_tpl(False)], contracts=dict(SC, **{sig: sub, pl: w_parse(0, 1, 2) if mode == 'json' else w_parse(1, 2, 3)}), opts={'recursive': 1}, label=mode + ' walk into a schema'))
# --- walking into a node: copied, external, or without data
WNJ = GJ + 'walk_json_schema(conduit::Node*, conduit::Schema*, void*, %s const&, long)' % JV
WXJ = GJ + 'walk_json_schema_external(conduit::Node*, conduit::Schema*, void*, %s const&, long)' % JV
WNY = GY + 'walk_yaml_schema(conduit::Node*, conduit::Schema*, void*, yaml_document_s*, yaml_node_s const*, long, bool)'
def log(st, *x): st.ghost[LEAF] = st.ghost.get(LEAF, ()) + (x,)
def selfn(ex, st, p, what): ex.require(st, what + ' is that of the node being built', isself(ex, p, 'node'))
def n_set(ex, st, a, ins, fr): selfn(ex, st, a[0], 'the type set'); log(st, 'alloc', dt_fields(ex, st, a[1])); return [('ret', st, None)]
def n_ext(ex, st, a, ins, fr): selfn(ex, st, a[0], 'the memory set'); log(st, 'external', dt_fields(ex, st, a[1]), a[2]); return [('ret', st, None)]
def n_sdp(ex, st, a, ins, fr): selfn(ex, st, a[0], 'the data pointer set'); log(st, 'data', zi(ex.ref_of(a[1]))); return [('ret', st, None)]
def n_dp(ex, st, a, ins, fr): selfn(ex, st, a[0], 'the data pointer used'); return [('ret', st, P('newdata', 0))]
def n_cpy(ex, st, a, ins, fr): log(st, 'copy', a[0], a[1], None, iv(a[2])); return [('ret', st, None)]
def n_cps(ex, st, a, ins, fr): log(st, 'copy', a[0], a[4], (iv(a[1]), iv(a[2]), iv(a[3]), iv(a[5]))); return [('ret', st, None)]
ADDR = z3.Function('address', INT, INT)
def n_adr(ex, st, a, ins, fr):
    j = jid(ex, a[0]); s2 = st.copy(); s2.ghost[G('threw')] = True; s2.assume(KD(j) != STR); st.assume(z3.And(KD(j) == STR, ADDR(j) != 0)); return [('ret', st, P(ADDR(j), 0)), ('exc', s2, 'error')]
def n_inl(pj, pn):
    def c(ex, st, a, ins, fr):
        selfn(ex, st, a[pn], 'the inline value'); log(st, 'inline', jid(ex, a[pj])); s2 = st.copy(); s2.ghost[G('threw')] = True; return [('ret', st, None), ('exc', s2, 'error')]
    return c
def n_fetch(ex, st, a, ins, fr):
    selfn(ex, st, a[0], 'the reference'); j = ex.h.v['j']; ex.require(st, 'the path looked up is the reference of the length', str_get(ex, st, a[1]) == SV(MV(MV(j, LEN), REF))); s2 = st.copy(); s2.ghost[G('threw')] = True; return [('ret', st, P('refnode', 0)), ('exc', s2, 'error')]
def n_toi(ex, st, a, ins, fr): ex.require(st, 'the count is read from the referenced node', a[0].base == 'refnode'); v = z3.Int('ref.count'); return [('ret', st, I(64, v))]
NC = dict(SC, **{N + 'Node()': nop, N + 'set_schema_ptr(conduit::Schema*)': w_ssp, N + 'set_parent(conduit::Node*)': w_par, N + 'append_node_ptr(conduit::Node*)': w_anp, N + 'set(conduit::DataType const&)': n_set, N + 'set_external(conduit::DataType const&, void*)': n_ext,
                 N + 'set_data_ptr(void*)': n_sdp, N + 'data_ptr()': n_dp, 'conduit::utils::conduit_memcpy(void*, void const*, unsigned long)': n_cpy, 'conduit::utils::conduit_memcpy_strided_elements(void*, unsigned long, unsigned long, unsigned long, void const*, unsigned long)': n_cps,
                 GJ + 'parse_inline_address(%s const&)' % JV: n_adr, GY + 'parse_inline_address(yaml_node_s const*)': n_adr, GJ + 'parse_inline_value(%s const&, conduit::Node&)' % JV: n_inl(0, 1), GY + 'parse_inline_value(yaml_document_s*, yaml_node_s const*, conduit::Node&)': n_inl(1, 2),
                 N + 'fetch(%s const&)' % STD: n_fetch, N + 'to_index_t() const': n_toi, N + '~Node()': nop})
def s_wn(mode, data, ext=None):
    def s(h):
        j = base(h, mode, auto=data); lens(h, True); d = P(z3.Int('data'), 0) if data else NULL; h.assume(z3.Int('data') > 0); h.v['data'] = z3.Int('data') if data else z3.IntVal(0); h.v['hasdata'] = data; h.v['ext'] = ext
        if h.v['mode'] == 'yaml': h.assume(z3.Bool('external') == bool(ext))
        a = [P(z3.Int('node'), 0), P(z3.Int('schema'), 0), d] + ([j] if mode == 'json' else [P('doc', 0), j]) + [I(64, h.v['off'])]
        return a + ([Bo(z3.Bool('external'))] if mode == 'yaml' else [])
    return s
def lv(k): return z3.Int('leaf.' + k)
def compact(f):
    """the described type without offset or gaps"""
    return z3.And(zi(f['id']) == lv('id'), zi(f['num_ele']) == lv('num_ele'), zi(f['ele_bytes']) == lv('ele_bytes'), zi(f['endianness']) == lv('endianness'), zi(f['offset']) == 0, zi(f['stride']) == lv('ele_bytes'))
def p_leafn(h, st):
    """what happens to a leaf; evs = the calls made on the node and the schema, in order"""
    j = h.v['j']; evs = st.ghost.get(LEAF, ()); tags = [e[0] for e in evs]; T = z3.BoolVal; o = KD(j) == OBJ; adr, val = z3.And(o, HM(j, ADR)), z3.And(o, HM(j, VAL)); data, ext = h.v['hasdata'], h.v['ext']
    by = {t: [e for e in evs if e[0] == t] for t in ('alloc', 'schema', 'data', 'external', 'copy', 'inline')}; one = lambda t: len(by[t]) == 1
    before = lambda x, y: all(tags.index(x) < k for k, t in enumerate(tags) if t == y) if x in tags else True
    gs = []
    x = by['external']; gs.append(('an address describes external memory of the described type', z3.Implies(adr, z3.And(leafis(x[0][1]), zi(h.ex.ref_of(x[0][2])) == ADDR(MV(j, ADR))) if one('external') and len(evs) == 1 else T(False))))
    y = by['inline']; gs.append(('an inline value is set, once, and only where given', z3.Implies(z3.Not(adr), z3.And(val == T(len(y) == 1), y[0][1] == MV(j, VAL) if y else T(True)) if len(y) < 2 else T(False))))
    if data and ext: gs.append(('the node is set on the caller\'s data with the described layout', z3.Implies(z3.Not(adr), z3.And(leafis(by['schema'][0][1]), by['data'][0][1] == z3.Int('data')) if one('schema') and one('data') and not by['alloc'] and not by['copy'] else T(False))))
    else:
        al = by['alloc']; gs.append(('memory is allocated for the described type', z3.Implies(z3.Not(adr), (z3.Or(compact(al[-1][1]), leafis(al[-1][1])) if ext else compact(al[-1][1])) if al and not by['data'] else T(False))))
        cp = by['copy']
        if data:
            def ok(e):
                if not (isinstance(e[1], P) and e[1].base == 'newdata' and isint(e[1].off) and e[1].off == 0 and isinstance(e[2], P) and not isinstance(e[2].base, str)): return T(False)
                src = z3.And(zi(e[2].base) == z3.Int('data'), zi(e[2].off) == lv('offset')); n, eb = lv('num_ele'), lv('ele_bytes')
                if e[3] is None: return z3.And(src, z3.Or(lv('stride') == eb, n == 1), e[4] == n * eb)
                return z3.And(src, e[3][0] == n, e[3][1] == eb, e[3][2] == eb, e[3][3] == lv('stride'))
            gs.append(('the described elements are copied, from the described place', z3.Implies(z3.Not(adr), ok(cp[0]) if one('copy') and before('alloc', 'copy') and before('copy', 'inline') else T(False))))
        else: gs.append(('nothing is copied', T(not cp)))
        gs.append(('memory exists before the inline value is set', T(before('alloc', 'inline'))))
    return [(n, z3.Implies(is_leaf(h), f)) for n, f in gs]
def p_wn(ret):
    def p(h, st, v):
        r = walked(h, st, True) + p_leafn(h, st)
        if ret:
            n, sd, eb = lv('num_ele'), lv('stride'), lv('ele_bytes'); lb = z3.If(n > 0, sd * (n - 1) + eb, 0)
            r += [('the bytes described are returned', z3.If(is_leaf(h), z3.Implies(n > 0, iv(v) == lb), iv(v) == g(st, TOT)))]
        return r
    return p
for mode, sig, sub, pl, kinds in (('json', WNJ, w_walk(1, 3, 4, 0, 2, True), PLJ, (False,)), ('json', WXJ, w_walk(1, 3, 4, 0, 2), PLJ, (True,)), ('yaml', WNY, w_walk(1, 4, 5, 0, 2, True, 6), PLY, (False, True))):
    for ext in kinds:
        for data in (True, False):
            FUNCS.append(Fn(sig, s_wn(mode, data, ext), p_wn(sig != WXJ), exc=errs, templates=[walk_tpl(True)], contracts=dict(NC, **{sig: sub, pl: w_parse(0, 1, 2) if mode == 'json' else w_parse(1, 2, 3)}), opts={'recursive': 1, 'alloc': (64, 88)}, label='%s walk into a node, %s data%s' % (mode, ('no', 'with')[data], ', external' if ext else '')))
# --- values: scalars, arrays
T64, TU64, TF64 = TYS[3], TYS[7], TYS[9]
ND = lambda m: z3.If(KD(m) == NUM, z3.IntVal(6) if False else z3.If(z3.Or(I64(m), U64(m), I32(m), U32(m)), 6, 12), z3.If(z3.And(KD(m) == STR, ISD(SV(m))), 12, 0))
YND = lambda m: z3.If(KD(m) == STR, z3.If(ISI(SV(m)), 6, z3.If(ISD(SV(m)), 12, 0)), 0)
FUNCS.append(Fn(GJ + 'json_to_numeric_dtype(%s const&)' % JV, lambda h: [value(h, 'json')], lambda h, st, v: [('int64 for whole numbers, float64 for others and for texts such as nan, else none', iv(v) == ND(h.v['j']))], label='json_to_numeric_dtype'))
def s_ytxt(h): h.v['t'] = z3.Int('t'); return [cstr(h.ex, h.st, h.v['t'])]
FUNCS.append(Fn(GY + 'yaml_leaf_to_numeric_dtype(char const*)', s_ytxt, lambda h, st, v: [('int64 for whole numbers, float64 for others, else none', iv(v) == z3.If(ISI(h.v['t']), 6, z3.If(ISD(h.v['t']), 12, 0)))], label='yaml_leaf_to_numeric_dtype'))
# the common type of the first k elements: none if any is not a number, float64 if any is not whole
HK = z3.Function('common_type', INT, INT)
def hk_step(h, k): nd = ND if h.v['mode'] == 'json' else YND; e = nd(EL(h.v['j'], k)); return z3.If(z3.Or(HK(k) == 0, e == 0), 0, z3.If(z3.Or(HK(k) == 12, e == 12), 12, 6))
def hk_facts(h):
    j = h.v['j']; nd = ND if h.v['mode'] == 'json' else YND; k = z3.Int('k?'); h.assume(HK(1) == nd(EL(j, 0)), z3.ForAll([k], z3.Implies(z3.And(k >= 1, k <= SZ(j), HK(k) == 0), HK(SZ(j)) == 0), patterns=[HK(k)]))      # the second by the lemma below
def lem_hk():
    k, e = z3.Ints('k e'); st = lambda x, e: z3.If(z3.Or(x == 0, e == 0), 0, z3.If(z3.Or(x == 12, e == 12), 12, 6)); m = z3.Int('m')
    yield 'once no number, never a number array', [HK(k) == 0, HK(k + 1) == st(HK(k), e)], HK(k + 1) == 0
FUNCS.append(Lemma('one element that is no number makes the array no number array', lem_hk))
def c_nd(ex, st, a, ins, fr): m = jid(ex, a[0]); known(st, m); return [('ret', st, I(64, ND(m)))]
def hk_hook(ex, v): h = ex.h; ok = lambda k: z3.Or(HK(k) == 0, HK(k) == 6, HK(k) == 12); return [z3.Implies(v.it >= 1, z3.And(HK(v.it + 1) == hk_step(h, v.it), ok(v.it))), HK(v.it + 2) == hk_step(h, v.it + 1), ok(v.it + 1)]
def hk_tpl(ex, loop, hv):
    out = []; h = ex.h
    for r in list(hv.phis):
        for d in (0, 1):
            out.append(('%s is the common type (%d)' % (r, d), lambda v, r=r, d=d: iv(v.phis[r]) == HK(v.it + d) if isinstance(v.phis[r], (I, B)) else None))
            out.append(('%s is the common type, if any (%d)' % (r, d), lambda v, r=r, d=d: z3.If(v.it + d == 0, iv(v.phis[r]) == 0, iv(v.phis[r]) == HK(v.it + d)) if isinstance(v.phis[r], (I, B)) else None))
            out.append(('%s says whether there is one (%d)' % (r, d), lambda v, r=r, d=d: (zbool(v.phis[r].t) if isinstance(v.phis[r], Bo) else iv(v.phis[r]) != 0) == (HK(v.it + d) != 0) if isinstance(v.phis[r], (Bo, I, B)) else None))
    out.append(('not none so far', lambda v: z3.Implies(v.it > 0, HK(v.it) != 0))); out.append(('within the array', lambda v: v.it <= SZ(h.v['j'])))
    return out
def s_hom(h): p = value(h, 'json'); hk_facts(h); h.assume(KD(h.v['j']) == ARR); return [p]
FUNCS.append(Fn(GJ + 'check_homogenous_json_array(%s const&)' % JV, s_hom, lambda h, st, v: [('the common type of the elements', iv(v) == z3.If(SZ(h.v['j']) == 0, 0, HK(SZ(h.v['j']))))], contracts={GJ + 'json_to_numeric_dtype(%s const&)' % JV: c_nd}, templates=[hk_tpl], hooks=[hk_hook], label='check_homogenous_json_array'))
def s_homy(h):
    p = value(h, 'yaml'); hk_facts(h); h.assume(KD(h.v['j']) == ARR); o = h.obj('size'); h.v['sz'] = P(o, 0); h.st.objs[o][0] = (8, I(64, z3.Int('size0'))); return [P(z3.Int('node'), 0), P('doc', 0), p, P(o, 0)]
def c_ynd(ex, st, a, ins, fr): t = tid(ex, st, a[0], fr); return [('ret', st, I(64, z3.If(ISI(t), 6, z3.If(ISD(t), 12, 0))))]
FUNCS.append(Fn(GY + 'check_homogenous_yaml_numeric_sequence(conduit::Node const&, yaml_document_s*, yaml_node_s const*, long&)', s_homy, lambda h, st, v: [('the common type of the elements', iv(v) == z3.If(SZ(h.v['j']) == 0, 0, HK(SZ(h.v['j'])))), ('and their number', z3.Implies(iv(v) != 0, iv(h.ex.load(st, h.v['sz'], ('i', 64), None)) == SZ(h.v['j'])))],
                contracts={GY + 'yaml_leaf_to_numeric_dtype(char const*)': c_ynd}, templates=[hk_tpl], hooks=[hk_hook], label='check_homogenous_yaml_numeric_sequence'))
# arrays of values
def want(h, T, k):
    e = EL(h.v['j'], k)
    if h.v['mode'] == 'json': return z3.If(KD(e) == NUM, DV(e), TD(SV(e))) if T.kind == 'f' else IB(e)
    return TD(SV(e)) if T.kind == 'f' else (TL if T.kind == 's' else TU)(SV(e))
def allowed(h, T, k):
    e = EL(h.v['j'], k)
    if h.v['mode'] == 'json': return z3.Or(KD(e) == NUM, KD(e) == STR) if T.kind == 'f' else KD(e) == NUM
    return KD(e) == STR
def c_rsz(ex, st, a, ins, fr): ex.require(st, 'the vector gets the size of the array', z3.And(a[0].base == ex.h.v['vec'], iv(a[1]) == SZ(ex.h.v['j']))); return [('ret', st, None)]
def s_arr(mode, T, vec):
    def s(h):
        p = value(h, mode); j = h.v['j']; h.assume(KD(j) == ARR); k = z3.Int('e?'); e = EL(j, k)
        if not (mode == 'json' and T.kind == 'f'): h.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < SZ(j)), allowed(h, T, k)), patterns=[e]))      # the element kinds were checked by the caller
        if vec: b = h.buf('src'); v = h.obj('vec'); h.v['vec'] = v; h.v['n'] = SZ(j); h.v['ws'] = WriteSpec(h, 'src', 0, 8, 8, SZ(j), lambda k: want(h, T, k)); d = P(v, 0)
        else:
            A = Arr(h, 'a', T, ele_bytes=8, endianness=0); h.v['a'] = A; h.assume(A.f['num_ele'] >= SZ(j)); h.v['ws'] = WriteSpec(h, A.buf, A.f['offset'], A.f['stride'], 8, SZ(j), lambda k: want(h, T, k)); d = A.p
        return [p, d] if mode == 'json' else [P('doc', 0), p, d, I(32, SZ(j))]
    return s
def e_arr(mode, T):
    def e(h, st): k = z3.Int('x?'); return [('an error only for an element of another kind', z3.Exists([k], z3.And(k >= 0, k < SZ(h.v['j']), z3.Not(allowed(h, T, k)))))]
    return e
for T, nm in ((T64, 'int64'), (TU64, 'uint64'), (TF64, 'float64')):
    V = 'std::vector<%s, std::allocator<%s>>' % (T.cpp, T.cpp); cs = dict(vec_c(T.cpp, 8)); cs[V + '::resize(unsigned long, %s const&)' % T.cpp] = c_rsz
    for cont, vec in ((V, True), ('conduit::DataArray<%s>' % T.cpp, False)):
        FUNCS.append(Fn(GJ + 'parse_json_%s_array(%s const&, %s&)' % (nm, JV, cont), s_arr('json', T, vec), lambda h, st, v: h.v['ws'].post(st), exc=e_arr('json', T), contracts=cs, templates=[ws_tpl], opts={'bits': 1}, label='json %s array into a %s' % (nm, ('data array', 'vector')[vec])))
        FUNCS.append(Fn('void ' + GY + 'parse_yaml_array<%s>(yaml_document_s*, yaml_node_s const*, %s&, int)' % (T.cpp, cont), s_arr('yaml', T, vec), lambda h, st, v: h.v['ws'].post(st), exc=e_arr('yaml', T), contracts=cs, templates=[ws_tpl], opts={'bits': 1}, label='yaml %s array into a %s' % (nm, ('data array', 'vector')[vec])))
# a node takes an array of values as the type it has; a scalar likewise
def c_dt(ex, st, a, ins, fr): selfn(ex, st, a[0], 'the type looked at'); return [('ret', st, P('ndt', 0))]
ASA = re.compile(r'^conduit::Node::as_(\w+)_array\(\)$'); ASET = re.compile(r'^conduit::DataArray<([\w ]+)>::set\(std::vector<([\w ]+), std::allocator<[\w ]+>> const&\)$'); NSET = re.compile(r'^conduit::Node::set(_char8_str)?\(([\w :<>,*&]+)\)$')
BYCPP = {t.cpp: t for t in TYS}
def c_asa(nm):
    def c(ex, st, a, ins, fr):
        selfn(ex, st, a[1], 'the array set'); T = BYNAME.get(nm) or Unsup(nm); st.ghost[(a[0].base, 0, 'view')] = T; return [('ret', st, None)]
    return c
def Unsup(x): raise Unsupported('array of ' + str(x))
def c_aset(T, V):
    def c(ex, st, a, ins, fr):
        w = st.ghost.get((a[0].base, 0, 'view')); ex.require(st, 'the values are set in the node\'s own array', w is BYCPP[T]); log(st, 'array', BYCPP[T], BYCPP[V], st.ghost.get((a[1].base, 0, 'values'))); return [('ret', st, None)]
    return c
def c_nset(kind_, ty):
    def c(ex, st, a, ins, fr):
        if not isself(ex, a[0], 'node') and isinstance(a[0].base, str): return None
        selfn(ex, st, a[0], 'the value set')
        if ty in BYCPP: log(st, 'scalar', BYCPP[ty], to_bv(a[1], BYCPP[ty].bits))
        elif kind_ or ty == 'char const*': log(st, 'text', tid(ex, st, a[1], fr))
        elif 'basic_string' in ty: log(st, 'text', str_get(ex, st, a[1]))
        elif ty == 'conduit::DataType const&': log(st, 'alloc', dt_fields(ex, st, a[1]))
        else: return None
        return [('ret', st, None)]
    return c
def vstar(dn):
    m = ASA.match(dn)
    if m: return c_asa(m.group(1))
    m = ASET.match(dn)
    if m: return c_aset(m.group(1), m.group(2))
    m = NSET.match(dn)
    if m: return c_nset(m.group(1), m.group(2))
    return star(dn)
def c_vals(T, pj, pv):
    def c(ex, st, a, ins, fr):
        j = jid(ex, a[pj]); ex.require(st, 'the values of this text', j == ex.h.v['j'])
        if T is TF64 and ex.h.v['mode'] == 'json':
            s2 = st.copy(); s2.ghost[G('threw')] = True; st.ghost[(a[pv].base, 0, 'values')] = (T, j); return [('ret', st, None), ('exc', s2, 'error')]
        st.ghost[(a[pv].base, 0, 'values')] = (T, j); return [('ret', st, None)]
    return c
VC = {'*': vstar, N + 'dtype() const': c_dt}
for T, nm in ((T64, 'int64'), (TU64, 'uint64'), (TF64, 'float64')):
    V = 'std::vector<%s, std::allocator<%s>>' % (T.cpp, T.cpp); VC[V + '::vector()'] = nop; VC[V + '::~vector()'] = nop
    for cont in (V, 'conduit::DataArray<%s>' % T.cpp):
        VC[GJ + 'parse_json_%s_array(%s const&, %s&)' % (nm, JV, cont)] = c_vals(T, 0, 1); VC['void ' + GY + 'parse_yaml_array<%s>(yaml_document_s*, yaml_node_s const*, %s&, int)' % (T.cpp, cont)] = c_vals(T, 1, 2)
def nodev(h, mode, arr=True):
    p = value(h, mode); h.assume(z3.Int('node') > 0); q_, h.v['nd'] = h.dtype(base='ndt', hint='ndt') if False else mk_ndt(h); f = h.v['nd']; h.assume(f['id'] >= 0, f['id'] <= 13, f['num_ele'] >= 0)
    if arr: h.assume(KD(h.v['j']) == ARR)
    return p
def mk_ndt(h): h.st.objs['ndt'] = {}; return h.dtype(base='ndt', hint='ndt')
def evs(st): return st.ghost.get(LEAF, ())
def arr_set(h, st, W):
    """exactly one array set, of the node's own type, with the values parsed as W"""
    e = evs(st); T = z3.BoolVal; nid = h.v['nd']['id']
    if len(e) != 1 or e[0][0] != 'array': return T(False)
    return z3.And(nid == e[0][1].id, T(e[0][2] is W and e[0][3] is not None and e[0][3][0] is W), e[0][3][1] == h.v['j'] if e[0][3] else T(False))
numeric = lambda h: z3.And(h.v['nd']['id'] >= 3, h.v['nd']['id'] <= 12)
for T, nm in ((T64, 'int64'), (TU64, 'uint64'), (TF64, 'float64')):
    FUNCS.append(Fn(GJ + 'parse_json_%s_array(%s const&, conduit::Node&)' % (nm, JV), lambda h: [nodev(h, 'json'), P(z3.Int('node'), 0)], lambda h, st, v, T=T: [('the node holds the values, as its own type', arr_set(h, st, T))], exc=lambda h, st: [('an error only for a node that is not numeric', z3.Or(st.ghost.get(G('threw'), False), z3.Not(numeric(h))))], contracts=VC, label='json %s array into a node' % nm))
def scal(h, st, T, bits_): e = evs(st); return z3.And(e[0][2] == bits_) if len(e) == 1 and e[0][0] == 'scalar' and e[0][1] is T else z3.BoolVal(False)
def text_(h, st, t): e = evs(st); return e[0][1] == t if len(e) == 1 and e[0][0] == 'text' else z3.BoolVal(False)
def c_reset(ex, st, a, ins, fr): selfn(ex, st, a[0], 'what is reset'); log(st, 'reset'); return [('ret', st, None)]
VC[N + 'reset()'] = c_reset
RST = lambda st: len(evs(st)) == 1 and evs(st)[0][0] == 'reset'
def p_il(h, st, v):
    j = h.v['j']; nid = h.v['nd']['id']; g_ = []; ex = h.ex
    for T in TYS:
        n = {'s': conv(ex, T64, T, IB(j)), 'u': conv(ex, TU64, T, IB(j)), 'f': conv(ex, TF64, T, DV(j))}[T.kind]
        g_.append(('a number is stored as %s' % T.name, z3.Implies(z3.And(KD(j) == NUM, nid == T.id), scal(h, st, T, n))))
        if T.kind == 'f': g_.append(('a text such as nan is stored as %s' % T.name, z3.Implies(z3.And(KD(j) == STR, nid == T.id), z3.And(ISD(SV(j)), scal(h, st, T, conv(ex, TF64, T, TD(SV(j))))))))
    b8 = TYS[4]
    return g_ + [('a text is stored in a text leaf', z3.Implies(z3.And(KD(j) == STR, nid == 13), text_(h, st, SV(j)))), ('a truth value is stored in a uint8 leaf', z3.Implies(KD(j) == BOL, z3.And(nid == 7, scal(h, st, b8, z3.If(BV_(j), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))))), ('null empties the node', z3.Implies(KD(j) == NUL, z3.BoolVal(RST(st)))),
                 ('nothing else is stored', z3.Implies(z3.Or(z3.And(KD(j) == NUM, z3.Not(numeric(h))), z3.And(KD(j) == STR, nid != 11, nid != 12, nid != 13), z3.And(KD(j) == BOL, nid != 7)), z3.BoolVal(False)))]
def e_il(h, st):
    j = h.v['j']; nid = h.v['nd']['id']
    return [('an error only for a value that does not fit the leaf', z3.Or(z3.And(KD(j) == NUM, z3.Not(numeric(h))), z3.And(KD(j) == STR, nid != 13, z3.Not(z3.And(z3.Or(nid == 11, nid == 12), ISD(SV(j))))), z3.And(KD(j) == BOL, nid != 7))), ('and the node keeps its value', z3.BoolVal(not evs(st)))]
FUNCS.append(Fn(GJ + 'parse_inline_leaf(%s const&, conduit::Node&)' % JV, lambda h: [nodev(h, 'json', False), P(z3.Int('node'), 0)], p_il, exc=e_il, contracts=VC, opts={'bits': 1}, label='json parse_inline_leaf'))
def s_yl(h): nodev(h, 'yaml', False); h.v['t'] = z3.Int('t'); h.assume(z3.Implies(ISE(h.v['t']), z3.And(z3.Not(ISI(h.v['t'])), z3.Not(ISD(h.v['t']))))); return [cstr(h.ex, h.st, h.v['t']), P(z3.Int('node'), 0)]
def p_yl(h, st, v):
    t = h.v['t']; nid = h.v['nd']['id']; g_ = []; isn = z3.Or(ISI(t), ISD(t)); ex = h.ex
    for T in TYS:
        n = {'s': lambda: conv(ex, T64, T, TL(t)), 'u': lambda: conv(ex, TU64, T, TU(t)), 'f': lambda: conv(ex, TF64, T, TD(t))}[T.kind]()
        g_.append(('a number is stored as %s' % T.name, z3.Implies(z3.And(isn, nid == T.id), scal(h, st, T, n))))
    return g_ + [('a text leaf takes the text', z3.Implies(nid == 13, text_(h, st, t))), ('an empty text empties other leaves', z3.Implies(z3.And(nid != 13, z3.Not(isn)), z3.And(ISE(t), z3.BoolVal(RST(st))))), ('numbers go to numeric leaves only', z3.Implies(z3.And(isn, nid != 13), numeric(h)))]
FUNCS.append(Fn(GY + 'parse_inline_leaf(char const*, conduit::Node&)', s_yl, p_yl, exc=lambda h, st: [('an error only for a value that does not fit the leaf', z3.And(h.v['nd']['id'] != 13, z3.If(z3.Or(ISI(h.v['t']), ISD(h.v['t'])), z3.Not(numeric(h)), z3.Not(ISE(h.v['t']))))), ('and the node keeps its value', z3.BoolVal(not evs(st)))], contracts=VC, opts={'bits': 1}, label='yaml parse_inline_leaf'))
def p_pyl(h, st, v):
    t = h.v['t']; return [('a whole number is an int64', z3.Implies(ISI(t), scal(h, st, T64, TL(t)))), ('another number is a float64', z3.Implies(z3.And(z3.Not(ISI(t)), ISD(t)), scal(h, st, TF64, TD(t)))), ('an empty text is an empty node', z3.Implies(ISE(t), z3.BoolVal(RST(st)))), ('anything else is a text', z3.Implies(z3.And(z3.Not(ISI(t)), z3.Not(ISD(t)), z3.Not(ISE(t))), text_(h, st, t)))]
FUNCS.append(Fn(GY + 'parse_yaml_inline_leaf(char const*, conduit::Node&)', s_yl, p_pyl, contracts=VC, opts={'bits': 1}, label='yaml parse_yaml_inline_leaf'))
# the inline value of a leaf: a scalar or an array no longer than the leaf
HT = z3.Function('array_type', INT, INT)
def c_ht(pj, psz=None):
    def c(ex, st, a, ins, fr):
        j = jid(ex, a[pj]); st.assume(z3.And(z3.Or(HT(j) == 0, HT(j) == 6, HT(j) == 12), z3.Implies(SZ(j) == 0, HT(j) == 0)))
        if psz is not None: ex.store(st, a[psz], I(64, z3.If(HT(j) != 0, SZ(j), z3.Int('size.unset'))), ('i', 64), None)
        return [('ret', st, I(64, HT(j)))]
    return c
HTC = {GJ + 'check_homogenous_json_array(%s const&)' % JV: c_ht(0), GY + 'check_homogenous_yaml_numeric_sequence(conduit::Node const&, yaml_document_s*, yaml_node_s const*, long&)': c_ht(2, 3)}
def c_pil(ex, st, a, ins, fr):
    selfn(ex, st, a[1], 'the value set'); log(st, 'leaf', jid(ex, a[0]) if ex.h.v['mode'] == 'json' else tid(ex, st, a[0], fr)); s2 = st.copy(); s2.ghost[G('threw')] = True; return [('ret', st, None), ('exc', s2, 'error')]
def c_pan(T):
    def c(ex, st, a, ins, fr):
        selfn(ex, st, a[1], 'the array set'); log(st, 'array', None, T, (T, jid(ex, a[0]))); s2 = st.copy(); s2.ghost[G('threw')] = True; return [('ret', st, None), ('exc', s2, 'error')]
    return c
IVC = dict(VC, **HTC); IVC.update({GJ + 'parse_inline_leaf(%s const&, conduit::Node&)' % JV: c_pil, GY + 'parse_inline_leaf(char const*, conduit::Node&)': c_pil})
for T, nm in ((T64, 'int64'), (TU64, 'uint64'), (TF64, 'float64')): IVC[GJ + 'parse_json_%s_array(%s const&, conduit::Node&)' % (nm, JV)] = c_pan(T)
def p_iv(h, st, v):
    j = h.v['j']; e = evs(st); nid = h.v['nd']['id']; T = z3.BoolVal; uns = z3.And(nid >= 7, nid <= 10); W = e[0][2] if e and e[0][0] == 'array' else None
    def arr(w): return z3.And(T(W is w and e[0][3] is not None and e[0][3][0] is w), e[0][3][1] == j if W is not None and e[0][3] else T(False), nid == e[0][1].id if W is not None and e[0][1] is not None else T(True))
    A = KD(j) == ARR
    return [('at most one value is set', T(len(e) <= 1)), ('no more elements than the leaf holds', z3.Implies(A, SZ(j) <= h.v['nd']['num_ele'])), ('whole numbers go to unsigned leaves as such', z3.Implies(z3.And(A, HT(j) == 6, uns), arr(TU64))), ('whole numbers go to other leaves as such', z3.Implies(z3.And(A, HT(j) == 6, z3.Not(uns)), arr(T64))),
            ('other numbers as float64', z3.Implies(z3.And(A, HT(j) == 12), arr(TF64))), ('an array that holds no numbers sets nothing', z3.Implies(z3.And(A, HT(j) == 0), T(not e))), ('a scalar is set as such', z3.Implies(z3.Not(A), e[0][1] == (j if h.v['mode'] == 'json' else SV(j)) if e and e[0][0] == 'leaf' else T(False)))]
def e_iv(h, st):
    j = h.v['j']; nid = h.v['nd']['id']; return [('an error only for a value that does not fit the leaf', z3.Or(z3.BoolVal(bool(st.ghost.get(G('threw')))), z3.And(KD(j) == ARR, z3.Or(SZ(j) > h.v['nd']['num_ele'], z3.And(HT(j) != 0, z3.Not(numeric(h)) if h.v['mode'] == 'json' else z3.Or(z3.Not(numeric(h)), z3.And(HT(j) == 12, nid < 11)))))))]
def s_iv(mode):
    def s(h):
        p = nodev(h, mode, False)
        if mode == 'yaml': h.assume(z3.Or(KD(h.v['j']) == ARR, KD(h.v['j']) == STR))      # a value is a scalar or a sequence
        return [p, P(z3.Int('node'), 0)] if mode == 'json' else [P('doc', 0), p, P(z3.Int('node'), 0)]
    return s
FUNCS.append(Fn(GJ + 'parse_inline_value(%s const&, conduit::Node&)' % JV, s_iv('json'), p_iv, exc=e_iv, contracts=IVC, label='json parse_inline_value'))
FUNCS.append(Fn(GY + 'parse_inline_value(yaml_document_s*, yaml_node_s const*, conduit::Node&)', s_iv('yaml'), p_iv, exc=e_iv, contracts=IVC, label='yaml parse_inline_value'))
# --- pure json and yaml: the text itself is the tree
VOP = re.compile(r'^conduit::Node::Value::operator conduit::DataArray<([\w ]+)>\(\) const$')
def c_val(ex, st, a, ins, fr): selfn(ex, st, a[1], 'the value used'); st.ghost[(a[0].base, 0, 'nodevalue')] = True; return [('ret', st, None)]
def c_vop(T):
    def c(ex, st, a, ins, fr):
        ex.require(st, 'the array is the node\'s', bool(st.ghost.get((a[1].base, 0, 'nodevalue')))); st.ghost[(a[0].base, 0, 'nodearray')] = BYCPP[T]; return [('ret', st, None)]
    return c
def c_asx(nm):
    def c(ex, st, a, ins, fr): selfn(ex, st, a[1], 'the array used'); st.ghost[(a[0].base, 0, 'nodearray')] = BYNAME.get(nm) or Unsup(nm); return [('ret', st, None)]
    return c
def c_into(T, pj, pv, psz=None):
    def c(ex, st, a, ins, fr):
        j = jid(ex, a[pj]); ex.require(st, 'the values go to the array of the node, in its type', st.ghost.get((a[pv].base, 0, 'nodearray')) is T)
        if psz is not None: ex.require(st, 'all elements of the array', iv(a[psz]) == SZ(j))
        log(st, 'values', T, j); s2 = st.copy(); s2.ghost[G('threw')] = True; return [('ret', st, None)] + ([('exc', s2, 'error')] if T is TF64 and ex.h.v['mode'] == 'json' else [])
    return c
def pstar(dn):
    m = VOP.match(dn)
    if m: return c_vop(m.group(1))
    m = ASA.match(dn)
    if m: return c_asx(m.group(1))
    m = NSET.match(dn)
    if m: return c_nset(m.group(1), m.group(2))
    return star(dn)
PC = dict(NC, **HTC); PC.update({'*': pstar, N + 'value()': c_val, N + 'Value::~Value()': nop, N + 'dtype() const': c_dt, N + 'reset()': c_reset})
PC.pop(N + 'set(conduit::DataType const&)')
for T, nm in ((T64, 'int64'), (TU64, 'uint64'), (TF64, 'float64')):
    cont = 'conduit::DataArray<%s>' % T.cpp; PC[cont + '::~DataArray()'] = nop
    PC[GJ + 'parse_json_%s_array(%s const&, %s&)' % (nm, JV, cont)] = c_into(T, 0, 1); PC['void ' + GY + 'parse_yaml_array<%s>(yaml_document_s*, yaml_node_s const*, %s&, int)' % (T.cpp, cont)] = c_into(T, 1, 2, 3)
def c_pyl(ex, st, a, ins, fr): selfn(ex, st, a[1], 'the value set'); log(st, 'leaf', tid(ex, st, a[0], fr)); return [('ret', st, None)]
PC[GY + 'parse_yaml_inline_leaf(char const*, conduit::Node&)'] = c_pyl
AI, AU = z3.Function('first_all_int64', INT, BOOL), z3.Function('first_all_uint64', INT, BOOL)
def ai_hook(ex, v):
    e = EL(ex.h.v['j'], v.it); return [AI(v.it + 1) == z3.And(AI(v.it), I64(e)), AU(v.it + 1) == z3.And(AU(v.it), U64(e))]
def ai_tpl(ex, loop, hv):
    out = []; h = ex.h; bb = lambda x: zbool(x.t) if isinstance(x, Bo) else iv(x) != 0
    for r in list(hv.phis):
        for f, n in ((AI, 'int64'), (AU, 'uint64')): out.append(('%s says whether all are %s so far' % (r, n), lambda v, r=r, f=f: bb(v.phis[r]) == f(v.it) if isinstance(v.phis[r], (Bo, I, B)) else None))
    out.append(('within the array', lambda v: v.it <= SZ(h.v['j']))); return out
def s_pw(mode):
    def s(h):
        h.v['pure'] = True; j = base(h, mode, auto=False); h.v['hasdata'] = False; _, h.v['nd'] = mk_ndt(h); h.assume(h.v['nd']['id'] == 0, AI(0), AU(0))      # a new node is empty
        return [P(z3.Int('node'), 0), P(z3.Int('schema'), 0)] + ([j] if mode == 'json' else [P('doc', 0), j])
    return s
def p_pw(h, st, v):
    j = h.v['j']; i = z3.Int('gi!'); T = z3.BoolVal; role = st.ghost.get(ROLE, 0); e = evs(st); js = h.v['mode'] == 'json'
    kids_ = z3.Or(KD(j) == OBJ, z3.And(KD(j) == ARR, HT(j) == 0)); n = count(h)
    r = [('one child per entry of the text, each walked with its own node', z3.Implies(kids_, z3.And(g(st, NA) == n, g(st, NW) == n, g(st, NQ) == n, T(not e), z3.Implies(z3.And(i >= 0, i < n), sel(st.ghost[NDA], i) == sel(st.ghost[NDW], i))))),
         ('a value has no children', z3.Implies(z3.Not(kids_), z3.And(g(st, NA) == 0, T(role == 0)))), ('the role of the text', z3.And(z3.Implies(KD(j) == OBJ, T(role == 1)), z3.Implies(z3.And(KD(j) == ARR, HT(j) == 0), T(role == 2))))]
    def arr(t):
        if len(e) != 2 or e[0][0] != 'alloc' or e[1][0] != 'values': return T(False)
        f = e[0][1]; return z3.And(f['id'] == t.id, f['num_ele'] == SZ(j), f['offset'] == 0, f['stride'] == 8, f['ele_bytes'] == 8, T(e[1][1] is t), e[1][2] == j)
    A = KD(j) == ARR; n_ = SZ(j)
    if js:
        r += [('whole numbers that fit are an int64 array', z3.Implies(z3.And(A, HT(j) == 6, AI(n_)), arr(T64))), ('larger ones are a uint64 array', z3.Implies(z3.And(A, HT(j) == 6, z3.Not(AI(n_)), AU(n_)), arr(TU64))), ('with negative ones too, or with fractions, a float64 array', z3.Implies(z3.And(A, z3.Or(HT(j) == 12, z3.And(HT(j) == 6, z3.Not(AI(n_)), z3.Not(AU(n_))))), arr(TF64))),
              ('a text is a text', z3.Implies(KD(j) == STR, text_(h, st, SV(j)))), ('null is an empty node', z3.Implies(KD(j) == NUL, T(RST(st)))), ('a truth value is a uint8', z3.Implies(KD(j) == BOL, scal(h, st, TYS[4], z3.If(BV_(j), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))),
              ('a number is an int64, a uint64 or a float64', z3.Implies(KD(j) == NUM, z3.If(I64(j), scal(h, st, T64, IB(j)), z3.If(U64(j), scal(h, st, TU64, IB(j)), scal(h, st, TF64, DV(j))))))]
    else: r += [('whole numbers are an int64 array', z3.Implies(z3.And(A, HT(j) == 6), arr(T64))), ('others a float64 array', z3.Implies(z3.And(A, HT(j) == 12), arr(TF64))), ('a scalar is read as such', z3.Implies(KD(j) == STR, e[0][1] == SV(j) if len(e) == 1 and e[0][0] == 'leaf' else T(False)))]
    return r
e_pw = lambda h, st: [('an error only for a name used twice or a text that is no value', z3.Or(z3.BoolVal(bool(st.ghost.get(G('threw')))), z3.And(KD(h.v['j']) == OBJ, DUP(g(st, NA))), badkey(h, g(st, NA)), z3.And(h.v['mode'] == 'yaml', KD(h.v['j']) == NUL)))]
WPJ, WPY = GJ + 'walk_pure_json_schema(conduit::Node*, conduit::Schema*, %s const&)' % JV, GY + 'walk_pure_yaml_schema(conduit::Node*, conduit::Schema*, yaml_document_s*, yaml_node_s*)'
for mode, sig, sub in (('json', WPJ, w_walk(1, 2, None, 0)), ('yaml', WPY, w_walk(1, 3, None, 0))):
    FUNCS.append(Fn(sig, s_pw(mode), p_pw, exc=e_pw, templates=[walk_tpl(True), ai_tpl], hooks=[ai_hook], contracts=dict(PC, **{sig: sub}), opts={'recursive': 1, 'alloc': (64, 88), 'bits': 1}, label='pure %s walk' % mode))
# --- from the text to the walk: the generator hands the text to the reader its protocol names
JP = z3.Function('json_document_of', INT, INT); SAN = z3.Function('json_sanitized', INT, INT); BADJ = z3.Function('not_json', INT, BOOL); YP = z3.Function('yaml_root_of', INT, INT); BADY = z3.Function('not_yaml', INT, BOOL); HASR = z3.Function('yaml_has_root', INT, BOOL); FIND = z3.Function('text_contains', INT, INT, BOOL)
GEN = 'conduit::Generator::'
def c_san(ex, st, a, ins, fr): str_set(ex, st, a[0], SAN(str_get(ex, st, a[1]))); return [('ret', st, None)]
DOCP = ('document', 0, 'parsed')
def c_jparse(ex, st, a, ins, fr): st.ghost[(a[0].base, 0, 'parsed')] = tid(ex, st, a[1], fr); return [('ret', st, a[0])]
def parsed(st, p):
    if not isinstance(p.base, str) or (p.base, 0, 'parsed') not in st.ghost: raise Unsupported('a document that was not parsed')
    return st.ghost[(p.base, 0, 'parsed')]
def c_jbad(ex, st, a, ins, fr): return [('ret', st, Bo(BADJ(parsed(st, a[0]))))]
def c_find(ex, st, a, ins, fr):
    t = FIND(str_get(ex, st, a[0]), tid(ex, st, a[1], fr)); r = fresh_int('found'); st.assume(z3.If(t, z3.And(r >= 0, r < 2**62), r == -1)); return [('ret', st, I(64, r))]
def ev(st, *x): st.ghost[G('calls')] = st.ghost.get(G('calls'), ()) + (x,)
def throws(st, v=None):
    s2 = st.copy(); s2.ghost[G('threw')] = True; return [('ret', st, v), ('exc', s2, 'error')]
def same_(ex, p, nm): return isinstance(p, P) and p.base == ex.h.v[nm] if isinstance(p.base, str) else False
def n_reset(ex, st, a, ins, fr): ev(st, 'reset', isinstance(a[0].base, str) and a[0].base == 'target'); return [('ret', st, None)]
def n_sptr(ex, st, a, ins, fr): ex.require(st, 'the schema of the node being read', isinstance(a[0].base, str) and a[0].base == 'target'); return [('ret', st, P('targetschema', 0))]
def rd_(kind, text, pn=None, ps=None, pd=None, po=None, pe=None):
    def c(ex, st, a, ins, fr):
        h = ex.h; ok = True
        for k, w in ((pn, 'target'), (ps, 'targetschema' if pn is not None else 'target')):
            if k is not None: ok = ok and isinstance(a[k].base, str) and a[k].base == w
        ev(st, kind, ok, text(ex, st, a, fr), P(a[pd].base, a[pd].off) if pd is not None else None, iv(a[po]) if po is not None else None, (zbool(a[pe].t) if isinstance(a[pe], Bo) else iv(a[pe]) != 0) if pe is not None else None); return throws(st)
    return c
jt = lambda k: lambda ex, st, a, fr: ('json', parsed(st, a[k]))
yt = lambda k: lambda ex, st, a, fr: ('yaml', tid(ex, st, a[k], fr))
def gstar(dn):
    if 'conduit_rapidjson' in dn and 'GenericDocument' in dn:
        if '::HasParseError() const' in dn: return c_jbad
        if re.search(r'::Parse<\d+u>\(char const\*\)$', dn): return c_jparse
        if dn.startswith('conduit_rapidjson::GenericDocument<') and ('::GenericDocument(' in dn or '::~GenericDocument()' in dn): return nop
        if '::GetParseError() const' in dn or '::GetErrorOffset() const' in dn: return lambda ex, st, a, ins, fr: [('ret', st, ex.fresh_of(st, ins.ty, 'detail'))]
    if dn.startswith(GJ + 'parse_error_details') or dn.startswith(GY + 'parse_error_details'): return nop
    return star(dn)
nret = lambda v: (lambda ex, st, a, ins, fr: [('ret', st, v(ex, st) if callable(v) else v)])
def c_throw(ex, st, a, ins, fr): return [('exc', st, 'error')]
GC = {'*': gstar, 'conduit::utils::json_sanitize(%s const&)' % STD: c_san, STD + '::find(char const*, unsigned long) const': c_find, N + 'reset()': n_reset, S + 'reset()': n_reset, N + 'schema_ptr()': n_sptr,
      '__cxa_begin_catch': nret(P('exn', 0)), '__cxa_end_catch': nop, '__cxa_allocate_exception': nret(lambda ex, st: P(ex.new_region(st, 'obj', 'exn'), 0)), '__cxa_throw': c_throw, '__cxa_free_exception': nop, '__cxa_rethrow': c_throw, 'conduit::Error::Error(conduit::Error const&)': nop,
      GJ + 'walk_pure_json_schema(conduit::Node*, conduit::Schema*, %s const&)' % JV: rd_('json', jt(2), 0, 1), GY + 'walk_pure_yaml_schema(conduit::Node*, conduit::Schema*, char const*)': rd_('yaml', yt(2), 0, 1),
      GJ + 'parse_base64(conduit::Node*, %s const&)' % JV: rd_('conduit_base64_json', jt(1), 0), GJ + 'walk_json_schema(conduit::Node*, conduit::Schema*, void*, %s const&, long)' % JV: rd_('conduit_json', jt(3), 0, 1, 2, 4),
      GJ + 'walk_json_schema_external(conduit::Node*, conduit::Schema*, void*, %s const&, long)' % JV: rd_('external conduit_json', jt(3), 0, 1, 2, 4), GY + 'walk_yaml_schema(conduit::Node*, conduit::Schema*, void*, char const*, long, bool)': rd_('conduit_yaml', yt(3), 0, 1, 2, 4, 5),
      GJ + 'walk_json_schema(conduit::Schema*, %s const&, long)' % JV: rd_('schema json', jt(1), None, 0, None, 2), GY + 'walk_yaml_schema(conduit::Schema*, char const*, long)': rd_('schema yaml', yt(1), None, 0, None, 2)}
def s_gen(h):
    g_ = h.obj('generator'); h.v['g'] = g_; h.v['text'] = z3.Int('text'); h.v['proto'] = z3.Int('protocol'); h.st.objs[g_][64] = (8, P(z3.Int('data'), 0))
    str_set(h.ex, h.st, P(g_, 0), h.v['text']); str_set(h.ex, h.st, P(g_, 32), h.v['proto']); h.st.objs['target'] = {}; h.st.objs['targetschema'] = {}; return [P(g_, 0), P('target', 0)]
PROTO = ['json', 'yaml', 'conduit_base64_json', 'conduit_json', 'conduit_json_external', 'conduit_yaml', 'conduit_yaml_external']
def p_gen(ext):
    def p(h, st, v):
        E_ = st.ghost.get(G('calls'), ()); T = z3.BoolVal; pr = h.v['proto']; r = [('the node is emptied, then filled by one reader', T(len(E_) == 2 and E_[0] == ('reset', True) and E_[1][0] != 'reset'))]
        if len(E_) != 2 or E_[1][0] == 'reset': return r
        _, (kind, ok, (lang, t), data, off, e) = E_
        r += [('the reader works on the given node and its schema', T(ok)), ('the reader is given the generator\'s text', t == (SAN(h.v['text']) if lang == 'json' else h.v['text'])), ('the text was well formed', z3.Not(BADJ(t)) if lang == 'json' else T(True))]
        for p_ in PROTO:
            want = {'conduit_json_external': 'conduit_json', 'conduit_yaml_external': 'conduit_yaml'}.get(p_, p_); want = 'external conduit_json' if ext and want == 'conduit_json' else want; good = kind == want
            r.append(('%s is read by its own reader%s' % (p_, ' over the given memory' if ext and p_.startswith('conduit_') and 'base64' not in p_ else ''), z3.Implies(pr == TX(p_), z3.And(T(good), T(True) if e is None else e == T(ext)))))
        r.append(('only known protocols are read', z3.Or(*[pr == TX(p_) for p_ in PROTO])))
        if data is not None: r.append(('with the generator\'s data, from its start', z3.And(zi(h.ex.ref_of(data)) == z3.Int('data'), off == 0)))
        return r
    return p
def e_gen(h, st):
    E_ = st.ghost.get(G('calls'), ()); pr = h.v['proto']; T = z3.BoolVal
    return [('on an error the node is left empty', T(len(E_) > 0 and E_[-1] == ('reset', True))), ('an error only for an unknown protocol, a malformed text, or one its reader rejects', z3.Or(T(bool(st.ghost.get(G('threw')))), BADJ(SAN(h.v['text'])), z3.And(*[pr != TX(p_) for p_ in PROTO])))]
FUNCS.append(Fn(GEN + 'walk(conduit::Node&) const', s_gen, p_gen(False), exc=e_gen, contracts=GC, opts={'catch': 1}, label='Generator::walk into a node'))
FUNCS.append(Fn(GEN + 'walk_external(conduit::Node&) const', s_gen, p_gen(True), exc=e_gen, contracts=GC, opts={'catch': 1}, label='Generator::walk_external'))
def p_gs(h, st, v):
    E_ = st.ghost.get(G('calls'), ()); T = z3.BoolVal; pr = h.v['proto']; r = [('the schema is emptied, then filled by one reader', T(len(E_) == 2 and E_[0] == ('reset', True) and E_[1][0] != 'reset'))]
    if len(E_) != 2 or E_[1][0] == 'reset': return r
    kind, ok, (lang, t), data, off, e = E_[1]
    return r + [('the reader works on the given schema', T(ok)), ('the reader is given the generator\'s text', t == (SAN(h.v['text']) if lang == 'json' else h.v['text'])), ('from offset 0', off == 0), ('the text was well formed', z3.Not(BADJ(t)) if lang == 'json' else T(True)),
        ('json protocols are read as json', z3.Implies(FIND(pr, TX('json')), T(kind == 'schema json'))), ('yaml protocols are read as yaml', z3.Implies(z3.And(z3.Not(FIND(pr, TX('json'))), FIND(pr, TX('yaml'))), T(kind == 'schema yaml'))), ('others are not read', z3.Or(FIND(pr, TX('json')), FIND(pr, TX('yaml'))))]
e_gs = lambda h, st: [('an error only for an unknown protocol, a malformed text, or one its reader rejects', z3.Or(z3.BoolVal(bool(st.ghost.get(G('threw')))), BADJ(SAN(h.v['text'])), z3.Not(z3.Or(FIND(h.v['proto'], TX('json')), FIND(h.v['proto'], TX('yaml'))))))]
FUNCS.append(Fn(GEN + 'walk(conduit::Schema&) const', s_gen, p_gs, exc=e_gs, contracts=GC, label='Generator::walk into a schema'))
# --- the yaml readers of a text parse it and walk its root
YW = GY + 'YAMLParserWrapper::'
def y_parse(ex, st, a, ins, fr):
    t = tid(ex, st, a[1], fr); st.ghost[(a[0].base, 0, 'parsed')] = t; s2 = st.copy(); s2.assume(BADY(t)); st.assume(z3.Not(BADY(t))); return [('ret', st, None), ('exc', s2, 'error')]
def y_doc(ex, st, a, ins, fr): parsed(st, a[0]); return [('ret', st, P('document:' + a[0].base, 0))]
def y_root(ex, st, a, ins, fr):
    t = parsed(st, a[0]); s2 = st.copy(); s2.assume(z3.Not(HASR(t))); st.assume(z3.And(HASR(t), YP(t) > 0)); return [('ret', st, P(YP(t), 0)), ('ret', s2, NULL)]
def y_walked(n, pdoc, pj, others):
    def c(ex, st, a, ins, fr):
        h = ex.h; d = a[pdoc]; ok = isinstance(d.base, str) and d.base.startswith('document:')
        ev(st, 'walk', z3.And(z3.BoolVal(ok), jid(ex, a[pj]) == YP(h.v['text']), *[same_arg(ex, a[i], h.v['args'][k]) for i, k in others])); return throws(st, I(64, fresh_int('bytes')) if ins.ty != ('void',) else None)
    return c
def same_arg(ex, x, y):
    if isinstance(y, P): return zi(ex.ref_of(x)) == zi(ex.ref_of(y))
    if isinstance(y, Bo): return (zbool(x.t) if isinstance(x, Bo) else iv(x) != 0) == zbool(y.t)
    return iv(x) == iv(y)
def s_yt(kinds):
    def s(h):
        h.v['text'] = z3.Int('text'); r = []
        for i, k in enumerate(kinds):
            if k == 't': h.st.ghost[('cstr:in', 0, 'cid')] = h.v['text']; r.append(P('cstr:in', 0))
            elif k == 'p': r.append(P(z3.Int('p%d' % i), 0))
            elif k == 'i': x, _ = h.int('i%d' % i); r.append(x)
            elif k == 'b': r.append(Bo(z3.Bool('b%d' % i)))
        h.v['args'] = r; return r
    return s
p_yt = lambda h, st, v: [('the root of the text is walked, once, with the arguments given', z3.And(z3.BoolVal(len(st.ghost.get(G('calls'), ())) == 1), *[x[1] for x in st.ghost.get(G('calls'), ())])), ('the text has a root and is well formed', z3.And(HASR(h.v['text']), z3.Not(BADY(h.v['text']))))]
e_yt = lambda h, st: [('an error only for a malformed or empty text or one the walk rejects', z3.Or(z3.BoolVal(bool(st.ghost.get(G('threw')))), BADY(h.v['text']), z3.Not(HASR(h.v['text']))))]
YC = {YW + 'YAMLParserWrapper()': nop, YW + '~YAMLParserWrapper()': nop, YW + 'parse(char const*)': y_parse, YW + 'yaml_doc_ptr()': y_doc, YW + 'yaml_doc_root_ptr()': y_root}
for sig, kinds, sub, c_ in ((GY + 'walk_yaml_schema(conduit::Schema*, char const*, long)', 'pti', GY + 'walk_yaml_schema(conduit::Schema*, yaml_document_s*, yaml_node_s const*, long)', y_walked(4, 1, 2, [(0, 0), (3, 2)])),
                            (GY + 'walk_yaml_schema(conduit::Node*, conduit::Schema*, void*, char const*, long, bool)', 'ppptib', GY + 'walk_yaml_schema(conduit::Node*, conduit::Schema*, void*, yaml_document_s*, yaml_node_s const*, long, bool)', y_walked(7, 3, 4, [(0, 0), (1, 1), (2, 2), (5, 4), (6, 5)])),
                            (GY + 'walk_pure_yaml_schema(conduit::Node*, conduit::Schema*, char const*)', 'ppt', WPY, y_walked(4, 2, 3, [(0, 0), (1, 1)]))):
    FUNCS.append(Fn(sig, s_yt(kinds), p_yt, exc=e_yt, contracts=dict(YC, **{sub: c_, '*': gstar}), label=sig.split('YAML::')[1].split('(')[0] + (' of a text into a node' if 'Node' in sig else ' of a text into a schema')))
# --- the helpers that look into a parsed yaml node, on its real layout
def s_y(ctype):
    def s(h):
        o = h.obj('node'); x, t = h.int('type'); h.assume(t >= 0, t < 4); h.v['t'] = t; h.st.objs[o][0] = (4, I(32, t)); return [P(o, 0)]
    return s
for nm, k in (('scalar_node', 1), ('sequence', 2), ('mapping_node', 3)):
    FUNCS.append(Fn(GY + 'check_yaml_is_%s(yaml_node_s const*)' % nm, s_y(k), lambda h, st, v, k=k: [('says whether the node is one', zbool(v.t) == (h.v['t'] == k))], contracts={}))
def s_ys(h): o = h.obj('node'); h.st.objs[o][16] = (8, P('cstr:scalar', 0)); h.st.ghost[('cstr:scalar', 0, 'cid')] = z3.Int('text'); return [P(o, 0)]
FUNCS.append(Fn(GY + 'get_yaml_string(yaml_node_s const*)', s_ys, lambda h, st, v: [('the text of the scalar', z3.BoolVal(isinstance(v, P) and v.base == 'cstr:scalar' and v.off == 0))], contracts={}))
def s_yn(h): j = z3.Int('j'); h.v['j'] = j; known(h.st, j); h.assume(KD(j) != NUM, KD(j) != BOL); return [P(j, 0)]
for nm, f_ in (('number', lambda j: z3.And(KD(j) == STR, z3.Or(ISI(SV(j)), ISD(SV(j))))), ('int', lambda j: z3.And(KD(j) == STR, ISI(SV(j))))):
    sig = GY + 'check_yaml_is_%s(yaml_node_s const*)' % nm; c_ = dict(CONTRACTS); c_.pop(sig); FUNCS.append(Fn(sig, s_yn, lambda h, st, v, f_=f_: [('says whether the text is one', zbool(v.t) == f_(h.v['j']))], contracts=c_))
def s_yl(h): r = s_yn(h); h.assume(KD(h.v['j']) == STR); return r
for nm, f_ in (('long', TLI), ('unsigned_long', TUI)):
    sig = GY + 'get_yaml_%s(yaml_node_s const*)' % nm; c_ = dict(CONTRACTS); c_.pop(sig); FUNCS.append(Fn(sig, s_yl, lambda h, st, v, f_=f_: [('the number its text says', iv(v) == f_(SV(h.v['j'])))], contracts=c_))
def s_yc(w):
    def s(h):
        o = h.obj('node'); x, n = h.int('n'); h.assume(n >= 0, n < 2**31 - 1); h.v['n'] = n; h.buf('entries'); h.st.objs[o].update({16: (8, P('entries', 0)), 32: (8, P('entries', lmul(n, w)))}); return [P(o, 0)]
    return s
for nm, w in (('sequence_length', 4), ('num_members', 8)): FUNCS.append(Fn(GY + 'get_yaml_%s(yaml_node_s const*)' % nm, s_yc(w), lambda h, st, v: [('the number of entries', iv(v) == h.v['n'])], contracts={}))
ENT = z3.Const('entries', AII)
def y_docget(ex, st, a, ins, fr): ex.require(st, 'looked up in the given document', isinstance(a[0].base, str) and a[0].base == 'doc'); return y_get(ex, st, a, ins, fr)
def s_yf(h):
    o = h.obj('node'); x, i = h.int('index'); h.v['i'] = i; h.assume(i >= 0, i < 2**31 - 1); h.st.tarr['entries'] = (4, 'int', ENT); h.st.objs[o][16] = (8, P('entries', 0)); h.st.objs['doc'] = {}; return [P('doc', 0), P(o, 0), I(32, i)]
FUNCS.append(Fn(GY + 'fetch_yaml_node_from_list(yaml_document_s*, yaml_node_s const*, int)', s_yf, lambda h, st, v: [('the node of that entry', zi(h.ex.ref_of(v)) == YN(sel(ENT, h.v['i'])))], contracts={'yaml_document_get_node': y_docget}))
ETXT = lambda k: SV(YN(sel(ENT, 2 * zi(k)))); NOT_YET = z3.Function('name_not_met_before', INT, BOOL)
def s_yo(h):
    o = 'ynode'; h.st.objs[o] = {}; x, n = h.int('n'); h.assume(n >= 0, n < 2**30); h.v['n'] = n; h.st.tarr['entries'] = (4, 'int', ENT); h.st.objs[o].update({16: (8, P('entries', 0)), 32: (8, P('entries', lmul(n, 8)))}); h.st.objs['doc'] = {}
    nm = h.obj('name'); h.v['name'] = z3.Int('wanted'); str_set(h.ex, h.st, P(nm, 0), h.v['name']); h.assume(NOT_YET(0)); return [P('doc', 0), P(o, 0), P(nm, 0)]
FIRST = z3.Int('first_entry_so_named'); BADK = z3.Bool('some_key_is_no_text')
def yo_hook(ex, v):
    k = v.it; m = ETXT(k) == ex.h.v['name']; return [NOT_YET(k + 1) == z3.And(NOT_YET(k), z3.Not(m)), z3.Implies(z3.And(NOT_YET(k), m, k >= 0, k < ex.h.v['n']), FIRST == k), z3.Implies(KD(YN(sel(ENT, 2 * k))) != STR, BADK)]
yo_tpl = lambda ex, loop, hv: [('no earlier entry has the name', lambda v: NOT_YET(v.it)), ('within the entries', lambda v: v.it <= ex.h.v['n'])]
def p_yo(h, st, v):
    if v.base is None: return [('absent only if no entry has the name', NOT_YET(h.v['n']))]
    return [('the value of the first entry so named', zi(h.ex.ref_of(v)) == YN(sel(ENT, 2 * FIRST + 1)))]
sig = GY + 'fetch_yaml_node_from_object_by_name(yaml_document_s*, yaml_node_s const*, %s)' % STD
FUNCS.append(Fn(sig, s_yo, p_yo, exc=lambda h, st: [('an error only for a key that is no text', BADK)], templates=[yo_tpl], hooks=[yo_hook], contracts={'yaml_document_get_node': y_docget, GY + 'get_yaml_num_members(yaml_node_s const*)': lambda ex, st, a, ins, fr: [('ret', st, I(32, ex.h.v['n']))], GY + 'check_yaml_is_scalar_node(yaml_node_s const*)': kind(STR), GY + 'get_yaml_string(yaml_node_s const*)': y_str}))
# --- numbers in texts: the whole text must be a number in base 10
CONS = z3.Int('characters_used')
def c_strto(ex, st, a, ins, fr):
    ex.require(st, 'the text asked about is read', z3.And(z3.BoolVal(isinstance(a[0].base, str) and a[0].base == ex.h.v.get('txt')), zi(a[0].off) == 0))
    if len(a) > 2: ex.require(st, 'in base 10', iv(a[2]) == 10)
    if a[1].base is not None: ex.store(st, a[1], P(a[0].base, CONS), ('ptr',), None)
    return [('ret', st, F(64, z3.BitVec('number', 64)) if ins.ty[0] == 'f' else I(64, z3.Int('number')))]
def c_emp(ex, st, a, ins, fr): return [('ret', st, Bo(z3.Bool('empty')))]
def s_txt(h): h.v['txt'] = h.buf('txt'); h.assume(CONS >= 0, CONS < 2**31); h.v['b0'] = h.st.bufs[h.v['txt']] if h.v['txt'] in getattr(h.st, 'bufs', {}) else None; return [P(h.v['txt'], 0)]
def endch(h, st): return to_bv(h.ex.load(st, P(h.v['txt'], CONS), ('i', 8), None))
XC = {'strtol': c_strto, 'strtod': c_strto, 'strtoul': c_strto, '__isoc23_strtol': c_strto, '__isoc23_strtoul': c_strto, GP + 'string_is_empty(char const*)': c_emp}
for nm in ('double', 'integer'): FUNCS.append(Fn(GP + 'string_is_%s(char const*)' % nm, s_txt, lambda h, st, v: [('the whole of a text that is not empty is one', zbool(v.t) == z3.And(z3.Not(z3.Bool('empty')), endch(h, st) == 0))], contracts=XC))
for nm in ('double', 'long', 'unsigned_long'): FUNCS.append(Fn(GP + 'string_to_%s(char const*)' % nm, s_txt, lambda h, st, v: [('the number read from the text', v.t == z3.BitVec('number', 64) if isinstance(v, F) else iv(v) == z3.Int('number'))], contracts=XC))
def c_two(nm): return lambda ex, st, a, ins, fr: [('ret', st, Bo(z3.And(z3.Bool(nm), z3.BoolVal(isinstance(a[0].base, str) and a[0].base == ex.h.v['txt']))))]
FUNCS.append(Fn(GP + 'string_is_number(char const*)', s_txt, lambda h, st, v: [('a whole number or a decimal one', zbool(v.t) == z3.Or(z3.Bool('isint'), z3.Bool('isdbl')))], contracts={GP + 'string_is_integer(char const*)': c_two('isint'), GP + 'string_is_double(char const*)': c_two('isdbl')}))
FUNCS.append(Fn(GP + 'string_is_empty(char const*)', s_txt, lambda h, st, v: [('no characters', zbool(v.t) == (z3.Int('len') == 0))], contracts={'strlen': lambda ex, st, a, ins, fr: [('ret', st, I(64, z3.Int('len')))]}))
FUNCS.append(Fn(GP + 'string_is_empty(char const*)', lambda h: [NULL], lambda h, st, v: [('no text is empty', zbool(v.t))], contracts={}, label=GP + 'string_is_empty(NULL)'))
# --- entry points: a generator keeps what it is given, and nodes and schemas hand their texts to one
def s_gset(f):
    def s(h):
        r = s_gen(h)[:1]; x = h.obj('new'); h.v['new'] = z3.Int('new'); str_set(h.ex, h.st, P(x, 0), h.v['new']); return r + ([P(z3.Int('newdata'), 0)] if f == 'data' else [P(x, 0)])
    return s
def gfields(h, st, at=None):
    o = at or P(h.v['g'], 0); q_ = lambda k: P(o.base, o.off + k); d = h.ex.load(st, q_(64), ('ptr',), None); return {'schema': str_get(h.ex, st, q_(0)), 'protocol': str_get(h.ex, st, q_(32)), 'data': zi(h.ex.ref_of(d)) if d.base is not None else zi(0)}
for f, fn_ in (('schema', 'set_schema(%s const&)' % STD), ('protocol', 'set_protocol(%s const&)' % STD), ('data', 'set_data_ptr(void*)')):
    FUNCS.append(Fn(GEN + fn_, s_gset(f), lambda h, st, v, f=f: [('%s as set' % k if k == f else 'the %s unchanged' % k, x == ((z3.Int('newdata') if k == 'data' else h.v['new']) if k == f else z3.Int({'schema': 'text', 'protocol': 'protocol', 'data': 'data'}[k]))) for k, x in gfields(h, st).items()], contracts={}))
for f, fn_, off in (('schema', 'schema() const', 0), ('protocol', 'protocol() const', 32)): FUNCS.append(Fn(GEN + fn_, lambda h: s_gen(h)[:1], lambda h, st, v, f=f: [('the %s set' % f, str_get(h.ex, st, v) == z3.Int({'schema': 'text', 'protocol': 'protocol'}[f]))], contracts={}))
FUNCS.append(Fn(GEN + 'data_ptr() const', lambda h: s_gen(h)[:1], lambda h, st, v: [('the data set', zi(h.ex.ref_of(v)) == z3.Int('data'))], contracts={}))
def s_gctor(h):
    h.v['g'] = h.obj('generator'); r = [P(h.v['g'], 0)]
    for k in ('text', 'protocol'): x = h.obj('in' + k); str_set(h.ex, h.st, P(x, 0), z3.Int(k)); r.append(P(x, 0))
    return r + [P(z3.Int('data'), 0)]
FUNCS.append(Fn(GEN + 'Generator(%s const&, %s const&, void*)' % (STD, STD), s_gctor, lambda h, st, v: [('keeps the %s' % k, x == z3.Int({'schema': 'text'}.get(k, k))) for k, x in gfields(h, st).items()], contracts={}))
FUNCS.append(Fn(GEN + 'Generator()', lambda h: s_gctor(h)[:1], lambda h, st, v: [('no text, json schemas, no data', z3.And(gfields(h, st)['schema'] == lit(b''), gfields(h, st)['protocol'] == TX('conduit_json'), gfields(h, st)['data'] == 0))], contracts={}))
def c_gwalk(kind):
    def c(ex, st, a, ins, fr): ev(st, kind, isinstance(a[1].base, str) and a[1].base == 'self', gfields(ex.h, st, a[0])); return throws(st)
    return c
EC = {GEN + 'walk(conduit::Node&) const': c_gwalk('walk'), GEN + 'walk_external(conduit::Node&) const': c_gwalk('walk_external'), GEN + 'walk(conduit::Schema&) const': c_gwalk('schema'), N + 'init_defaults()': nop, S + 'init_defaults()': nop, S + 'reset()': lambda ex, st, a, ins, fr: [('ret', st, None)], N + 'reset()': lambda ex, st, a, ins, fr: [('ret', st, None)]}
def s_ent(kinds):
    def s(h):
        h.st.objs['self'] = {}; r = [P('self', 0)]
        for k in kinds:
            if k == 'd': r.append(P(z3.Int('data'), 0))
            elif k == 'b': r.append(Bo(z3.Bool('external')))
            elif k == 'g': r += s_gen(h)[:1]
            elif k == 'c': h.st.ghost[('cstr:in', 0, 'cid')] = z3.Int('text'); r.append(P('cstr:in', 0))
            else: nm = {'t': 'text', 'p': 'protocol'}[k]; x = h.obj('in' + nm); str_set(h.ex, h.st, P(x, 0), z3.Int(nm)); r.append(P(x, 0))
        return r
    return s
def p_ent(kind, proto=None, data=True):
    def p(h, st, v):
        E_ = st.ghost.get(G('calls'), ())
        if len(E_) != 1: return [('the text is read once', z3.BoolVal(False))]
        k, ok, f = E_[0]; want = z3.If(z3.Bool('external'), z3.BoolVal(k == 'walk_external'), z3.BoolVal(k == 'walk')) if kind == '?' else z3.BoolVal(k == kind)
        return [('by the generator, into this', z3.And(z3.BoolVal(ok), want)), ('the text given', f['schema'] == z3.Int('text')), ('with the protocol given', f['protocol'] == (z3.Int('protocol') if proto is None else TX(proto))), ('over the data given', f['data'] == (z3.Int('data') if data else 0))]
    return p
e_ent = lambda h, st: [('an error only if the reader has one', z3.BoolVal(bool(st.ghost.get(G('threw')))))]
for sig, kinds, p_ in ((N + 'generate(conduit::Generator const&)', 'g', p_ent('walk')), (N + 'generate_external(conduit::Generator const&)', 'g', p_ent('walk_external')), (N + 'generate(%s const&, %s const&, void*)' % (STD, STD), 'tpd', p_ent('walk')), (N + 'generate_external(%s const&, %s const&, void*)' % (STD, STD), 'tpd', p_ent('walk_external')),
                       (N + 'parse(%s const&, %s const&)' % (STD, STD), 'tp', p_ent('walk', None, False)), (N + 'Node(%s const&, void*, bool)' % STD, 'tdb', p_ent('?', 'conduit_json')),
                       (S + 'set(%s const&)' % STD, 't', p_ent('schema', 'conduit_json', False)), (S + 'Schema(%s const&)' % STD, 't', p_ent('schema', 'conduit_json', False)), (S + 'Schema(char const*)', 'c', p_ent('schema', 'conduit_json', False))):
    FUNCS.append(Fn(sig, s_ent(kinds), p_, exc=e_ent, contracts=EC))
# --- an address given in the text
HEX = z3.Function('hex_value_of', INT, INT)
def c_hex(ex, st, a, ins, fr): return [('ret', st, P(HEX(str_get(ex, st, a[0])), 0))]
HC = {'void* conduit::utils::hex_string_to_value<void*>(%s const&)' % STD: c_hex}
for sig, mode in ((GJ + 'parse_inline_address(%s const&)' % JV, 'json'), (GY + 'parse_inline_address(yaml_node_s const*)', 'yaml')):
    FUNCS.append(Fn(sig, s_yn if mode == 'yaml' else (lambda h: [value(h, 'json')]), lambda h, st, v: [('the address its text names', z3.And(KD(h.v['j']) == STR, zi(h.ex.ref_of(v)) == HEX(SV(h.v['j']))))], exc=lambda h, st: [('an error only if it is no text', KD(h.v['j']) != STR)], contracts=HC, label=mode + ' parse_inline_address'))
# --- the parser wrapper: the document is available exactly after a successful parse, and is released once
_wl = {}
def woff(k):
    if not _wl:
        import build
        t = open(build.layouts('libs/conduit/conduit_generator.cpp')).read(); m = re.search(r'\n\s+0 \| class conduit::Generator::Parser::YAML::YAMLParserWrapper\n(.*?)\n\n', t, re.S)
        if not m: raise Unsupported('no layout for YAMLParserWrapper')
        for l in m.group(1).split('\n'):
            x = re.match(r'\s+(\d+) \|   (\S.*) (\S+)$', l)
            if x: _wl.setdefault(x.group(3), int(x.group(1)))
    if k not in _wl: raise Unsupported('no field ' + k)
    return _wl[k]
def s_w(known_=True, text=False):
    def s(h):
        o = h.obj('wrapper'); h.v['w'] = o
        if known_:
            for k in ('m_yaml_parser_is_valid', 'm_yaml_doc_is_valid'): h.v[k] = z3.Int(k); h.assume(h.v[k] >= 0, h.v[k] <= 1); h.st.objs[o][woff(k)] = (1, I(8, h.v[k]))
        if text: h.v['text'] = z3.Int('text'); h.st.ghost[('cstr:in', 0, 'cid')] = h.v['text']; return [P(o, 0), P('cstr:in', 0)]
        return [P(o, 0)]
    return s
def flag(h, st, k): return iv(h.ex.load(st, P(h.v['w'], woff(k)), ('i', 8), None)) != 0
def wat(ex, p, k): return isinstance(p.base, str) and p.base == ex.h.v['w'] and z3.is_true(z3.simplify(zi(p.off) == woff(k)))
FUNCS.append(Fn(YW + 'YAMLParserWrapper()', s_w(False), lambda h, st, v: [('nothing to read or release yet', z3.Not(z3.Or(flag(h, st, 'm_yaml_parser_is_valid'), flag(h, st, 'm_yaml_doc_is_valid'))))], contracts={}))
def c_yinit(ex, st, a, ins, fr): ev(st, 'init', wat(ex, a[0], 'm_yaml_parser')); r = z3.Int('inited'); return [('ret', st, I(32, r))]
def c_yin(ex, st, a, ins, fr): ev(st, 'input', wat(ex, a[0], 'm_yaml_parser') and isinstance(a[1].base, str) and a[1].base == 'cstr:in' and a[1].off == 0, iv(a[2])); return [('ret', st, None)]
def c_yload(ex, st, a, ins, fr): ev(st, 'load', wat(ex, a[0], 'm_yaml_parser') and wat(ex, a[1], 'm_yaml_doc')); return [('ret', st, I(32, z3.Int('loaded')))]
def c_len(ex, st, a, ins, fr): ex.require(st, 'the length of the text', tid(ex, st, a[0], fr) == ex.h.v['text']); st.assume(z3.Int('length') >= 0); return [('ret', st, I(64, z3.Int('length')))]
def c_ydel(k): return lambda ex, st, a, ins, fr: (ev(st, 'release ' + k, wat(ex, a[0], k)), [('ret', st, None)])[1]
WC = {'yaml_parser_initialize': c_yinit, 'yaml_parser_set_input_string': c_yin, 'yaml_parser_load': c_yload, 'strlen': c_len, 'yaml_parser_delete': c_ydel('m_yaml_parser'), 'yaml_document_delete': c_ydel('m_yaml_doc'), '*': gstar}
def p_wparse(h, st, v):
    E_ = st.ghost.get(G('calls'), ()); ok = [x[0] for x in E_] == ['init', 'input', 'load'] and all(x[1] for x in E_)
    return [('the parser is set up, given the text, and loads it into the document', z3.BoolVal(ok)), ('the whole text is given', E_[1][2] == z3.Int('length') if ok else z3.BoolVal(False)), ('both succeeded', z3.And(z3.Int('inited') != 0, z3.Int('loaded') != 0)), ('the document can be read and both will be released', z3.And(flag(h, st, 'm_yaml_parser_is_valid'), flag(h, st, 'm_yaml_doc_is_valid')))]
FUNCS.append(Fn(YW + 'parse(char const*)', s_w(True, True), p_wparse, exc=lambda h, st: [('an error only if the parser fails', z3.Or(z3.Int('inited') == 0, z3.Int('loaded') == 0)), ('a parser set up is released', z3.Implies(z3.Int('inited') != 0, flag(h, st, 'm_yaml_parser_is_valid')))], contracts=WC))
def p_wdtor(h, st, v):
    E_ = [x for x in st.ghost.get(G('calls'), ())]; r = []
    for k, f_ in (('m_yaml_parser', 'm_yaml_parser_is_valid'), ('m_yaml_doc', 'm_yaml_doc_is_valid')): n = [x for x in E_ if x[0] == 'release ' + k]; r.append(('%s is released exactly when it is valid' % k, z3.And(z3.BoolVal(len(n) == 1 and n[0][1]) == (h.v[f_] == 1), z3.BoolVal(len(n) <= 1))))
    return r
FUNCS.append(Fn(YW + '~YAMLParserWrapper()', s_w(), p_wdtor, contracts=WC))
FUNCS.append(Fn(YW + 'yaml_doc_ptr()', s_w(), lambda h, st, v: [('the document, if there is one', z3.If(h.v['m_yaml_doc_is_valid'] == 1, z3.BoolVal(v.base is not None and wat(h.ex, v, 'm_yaml_doc')), z3.BoolVal(v.base is None)))], contracts=WC))
def c_yroot(ex, st, a, ins, fr): ex.require(st, 'the root of the document', wat(ex, a[0], 'm_yaml_doc')); return [('ret', st, P(z3.Int('root'), 0))]
FUNCS.append(Fn(YW + 'yaml_doc_root_ptr()', s_w(), lambda h, st, v: [('its root, if there is one', z3.If(h.v['m_yaml_doc_is_valid'] == 1, (zi(h.ex.ref_of(v)) if v.base is not None else zi(0)) == z3.Int('root'), z3.BoolVal(v.base is None)))], contracts=dict(WC, yaml_document_get_root_node=c_yroot)))
# --- data given as base64 text
NB = z3.Function('decoded_buffer_bytes', INT, INT)
def b_walk(ex, st, a, ins, fr):
    ev(st, 'schema', a[0].base, jid(ex, a[1]), iv(a[2])); return throws(st)
def b_size(ex, st, a, ins, fr): ex.require(st, 'the size for the whole text', iv(a[0]) == SLEN(ex.h)); st.assume(z3.And(NB(iv(a[0])) > 0, NB(iv(a[0])) < 2**40)); return [('ret', st, I(64, NB(iv(a[0]))))]
def b_set(ex, st, a, ins, fr):
    f = dt_fields(ex, st, a[1]); ex.require(st, 'the buffer has room for the whole text', z3.And(f['num_ele'] == NB(SLEN(ex.h)), f['offset'] == 0)); st.ghost[(a[0].base, 0, 'buffer')] = True; return [('ret', st, None)]
def b_ptr(ex, st, a, ins, fr):
    if (a[0].base, 0, 'buffer') not in st.ghost: raise Unsupported('data of a node without a buffer')
    return [('ret', st, P('decoded', 0))]
def SLEN(h): return slen_(MV(MV(h.v['j'], TX('data')), TX('base64')))
slen_ = z3.Function('length_of_text_of', INT, INT)
def b_len(ex, st, a, ins, fr):
    ex.require(st, 'the length of the base64 text', str_get(ex, st, a[0]) == SV(MV(MV(ex.h.v['j'], TX('data')), TX('base64')))); r = SLEN(ex.h); st.assume(z3.And(r >= 0, r < 2**31)); return [('ret', st, I(64, r))]
def b_cstr(ex, st, a, ins, fr): return [('ret', st, cstr(ex, st, str_get(ex, st, a[0])))]
def b_dec(ex, st, a, ins, fr): ev(st, 'decode', tid(ex, st, a[0], fr), iv(a[1]), isinstance(a[2].base, str) and a[2].base == 'decoded' and a[2].off == 0); return [('ret', st, None)]
def b_nset(ex, st, a, ins, fr): ev(st, 'set', isself(ex, a[0], 'node'), a[1].base, isinstance(a[2].base, str) and a[2].base == 'decoded' and a[2].off == 0); return [('ret', st, None)]
BC = {GJ + 'walk_json_schema(conduit::Schema*, %s const&, long)' % JV: b_walk, 'conduit::utils::base64_decode_buffer_size(long)': b_size, 'conduit::utils::base64_decode(void const*, long, void*)': b_dec, N + 'set(conduit::DataType const&)': b_set, N + 'data_ptr()': b_ptr, N + 'set(conduit::Schema const&, void*)': b_nset, N + 'Node()': nop, N + '~Node()': nop, S + 'Schema()': nop, S + '~Schema()': nop, STD + '::length() const': b_len, STD + '::size() const': b_len, STD + '::c_str() const': b_cstr}
def s_b64(h): j = value(h, 'json'); h.buf('decoded'); h.assume(KD(MV(MV(h.v['j'], TX('data')), TX('base64'))) == STR); return [P(z3.Int('node'), 0), j]
def p_b64(h, st, v):
    E_ = st.ghost.get(G('calls'), ()); j = h.v['j']; T = z3.BoolVal; d = MV(MV(j, TX('data')), TX('base64'))
    if [x[0] for x in E_] not in (['schema', 'decode', 'set'], ['decode', 'schema', 'set']): return [('the schema is read, the data decoded, then the node set', T(False))]
    e = {x[0]: x[1:] for x in E_}
    return [('both parts are there', z3.And(KD(j) == OBJ, HM(j, TX('data')), HM(MV(j, TX('data')), TX('base64')), HM(j, TX('schema')))), ('the schema is the one given, from offset 0', z3.And(e['schema'][1] == MV(j, TX('schema')), e['schema'][2] == 0)), ('the base64 text is decoded whole into the buffer', z3.And(e['decode'][0] == SV(d), e['decode'][1] == SLEN(h), T(e['decode'][2]))),
            ('the node is set from that schema and the decoded bytes', T(e['set'][0] and e['set'][1] == e['schema'][0] and e['set'][2]))]
FUNCS.append(Fn(GJ + 'parse_base64(conduit::Node*, %s const&)' % JV, s_b64, p_b64, exc=lambda h, st: [('an error only if a part is missing or the schema is rejected', z3.Or(z3.BoolVal(bool(st.ghost.get(G('threw')))), KD(h.v['j']) != OBJ, z3.Not(HM(h.v['j'], TX('data'))), z3.Not(HM(MV(h.v['j'], TX('data')), TX('base64'))), z3.Not(HM(h.v['j'], TX('schema')))))], contracts=BC, label='json parse_base64'))
DRIVER = 'd_C18.cpp'
DRIVER_SCOPE = 'random described trees written as conduit_json and conduit_yaml schemas (offsets, strides, counts, byte orders, lists of, references, inline values), read into schemas and nodes, with and without data, copied and external, and pure json and yaml texts, against the tree described; malformed texts leave the node empty; under AddressSanitizer'
DRIVER_BOUND = 'about 3700 texts of depth up to 3 (x8 in the thorough tier)'
ASSUMES = ['rapidjson and libyaml parse texts correctly and their accessors return the parts of the parsed value (kinds, members in order, elements, texts, numbers)', 'strtol, strtoul and strtod read numbers as the C standard says', 'counts, offsets, strides and sizes given in a text are numbers that fit index_t, "reference" and base64 data are texts (others end in an assertion of the parser library)', 'leaf type names "object" and "list" are not used as leaf types, and element_bytes is the size of the type where data is copied', 'names of one json object are distinct where it is read into a Schema', 'Schema and Node operations used to build the tree satisfy the contracts of C07, C09 and C10']
