"""C02: type and byte-order names map one to one to ids."""
from core import *
UNITS = ['libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_endianness.cpp', 'libs/conduit/conduit_utils.cpp', 'libs/conduit/conduit_data_array.cpp']
FUNCS = []
D, E = 'conduit::DataType::', 'conduit::Endianness::'
iv = lambda v: zi(to_int(v))
CN = {'char': 3, 'short': 4, 'int': 5, 'long': 6, 'signed char': 3, 'signed short': 4, 'signed int': 5, 'signed long': 6, 'unsigned char': 7, 'unsigned short': 8,
      'unsigned int': 9, 'unsigned long': 10, 'float': 11, 'double': 12, 'char8_str': 13, 'long long': 6, 'signed long long': 6, 'unsigned long long': 10}
EN = {'big': 1, 'little': 2}
def s_name(h):
    p, t = h.string('name'); h.v['s'] = t; return [p]
def chain(s, table, dflt):
    r = z3.IntVal(dflt)
    for n, i in table.items(): r = z3.If(s == lit(n), z3.IntVal(i), r)
    return r
TN = {v: k for k, v in NAMES.items()}
FUNCS.append(Fn(D + 'name_to_id(@STR const&)'.replace('@STR', 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'), s_name,
    lambda h, st, v: [('each type name has its id, any other name is empty', iv(v) == chain(h.v['s'], TN, 0))]))
FUNCS.append(Fn(D + 'c_type_name_to_id(@STR const&)'.replace('@STR', 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'), s_name,
    lambda h, st, v: [('each C type name has the id of its width and signedness', z3.Implies(h.v['s'] != lit('long double'), iv(v) == chain(h.v['s'], CN, 0)))]))
FUNCS.append(Fn(E + 'name_to_id(@STR const&)'.replace('@STR', 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'), s_name,
    lambda h, st, v: [('big and little have their ids, anything else is default', iv(v) == chain(h.v['s'], EN, 0))]))
def s_id(h):
    b = h.obj('out'); a, i = h.int('id'); h.v['i'] = i; h.v['p'] = P(b, 0); return [P(b, 0), a]
def rchain(i, table, dflt):
    r = lit(dflt)
    for k, n in table.items(): r = z3.If(i == k, lit(n), r)
    return r
FUNCS.append(Fn(D + 'id_to_name(long)', s_id, lambda h, st, v: [('each id has its name', str_get(h.ex, st, h.v['p']) == rchain(h.v['i'], NAMES, 'empty'))]))
FUNCS.append(Fn(E + 'id_to_name(long)', s_id, lambda h, st, v: [('each byte order id has its name', str_get(h.ex, st, h.v['p']) == rchain(h.v['i'], {1: 'big', 2: 'little'}, 'default'))]))
FUNCS.append(Fn(E + 'machine_default()', lambda h: [], lambda h, st, v: [('this machine is little-endian', iv(v) == 2)]))
FUNCS.append(Fn(E + 'machine_is_little_endian()', lambda h: [], lambda h, st, v: [('this machine is little-endian', v.t is True or v.t)]))
FUNCS.append(Fn(E + 'machine_is_big_endian()', lambda h: [], lambda h, st, v: [('this machine is little-endian', bnot(v.t))]))
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
# descriptions made from a type name
def s_named(h):
    b = h.obj('new'); h.v['p'] = P(b, 0); h.v['w'] = {}; p, h.v['s'] = h.string('name'); a = []
    for n in DT[1:]:
        x, t = h.int('a.' + n); a.append(x); h.v['w'][n] = t
    return [P(b, 0), p] + a
def p_named(h, st, v):
    g = dt_fields(h.ex, st, h.v['p'])
    return [('the type is the one of that name', g['id'] == chain(h.v['s'], TN, 0)), ('every other field takes the given value', z3.And(*[g[n] == h.v['w'][n] for n in DT[1:]]))]
for sg in ('DataType(%s const&, long, long, long, long, long)', 'set(%s const&, long, long, long, long, long)'): FUNCS.append(Fn(D + sg % STR, s_named, p_named))
FUNCS.append(Fn(D + 'default_bytes(%s const&)' % STR, s_name, lambda h, st, v: [('the native size of the type of that name', iv(v) == default_bytes_of(chain(h.v['s'], TN, 0)))]))
def s_ndd(h):
    b = h.obj('new'); h.v['p'] = P(b, 0); p, h.v['s'] = h.string('name'); i = chain(h.v['s'], TN, 0); h.assume(i >= 3, i <= 12); return [P(b, 0), p]
def p_ndd(h, st, v):
    g = dt_fields(h.ex, st, h.v['p']); i = chain(h.v['s'], TN, 0); d = default_bytes_of(i); w = dict(id=i, num_ele=1, offset=0, stride=d, ele_bytes=d, endianness=0)
    return [('one native element of the type of that name', z3.And(*[g[n] == zi(w[n]) for n in DT]))]
FUNCS.append(Fn(D + 'default_dtype(%s const&)' % STR, s_ndd, p_ndd))
def s_dn(h):
    b = h.obj('out'); p, f = h.dtype(hint='self'); h.v['i'] = f['id']; h.v['p'] = P(b, 0); return [P(b, 0), p]
FUNCS.append(Fn(D + 'name() const', s_dn, lambda h, st, v: [('the name of its type id', str_get(h.ex, st, h.v['p']) == rchain(h.v['i'], NAMES, 'empty'))]))
FUNCS.append(Fn(D + 'sizeof_index_t()', lambda h: [], lambda h, st, v: [('positions are 64-bit', iv(v) == 8)]))
def inv():
    i = z3.Int('i')
    yield 'name of the id of a name: ids round trip', [i >= 0, i <= 13], chain(rchain(i, NAMES, 'empty'), TN, 0) == i
    yield 'byte order ids round trip', [i >= 0, i <= 2], chain(rchain(i, {1: 'big', 2: 'little'}, 'default'), EN, 0) == i
    s = z3.Int('s')
    yield 'known names round trip', [z3.Or(*[s == lit(n) for n in TN])], rchain(chain(s, TN, 0), NAMES, 'empty') == s
FUNCS.append(Lemma('names and ids are inverse', inv))
DRIVER = 'd_C02.cpp'
