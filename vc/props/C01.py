"""C01: the layout arithmetic of a leaf description is exact for every layout."""
from core import *
UNITS = ['libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_endianness.cpp', 'libs/conduit/conduit_utils.cpp', 'probe/probe_core.cpp']
D = 'conduit::DataType::'
FUNCS = []
def this(h, name='self', **kw):
    p, f = h.dtype(hint=name, **kw); h.v[name] = f; h.v[name + 'p'] = p
    return p, f
def frame(h, st):
    a, b = h.v['self'], dt_fields(h.ex, st, h.v['selfp'])
    return [('the description itself is unchanged', z3.And(*[a[n] == b[n] for n in DT]))]
def getter(sig, goal, label, pre=None):
    def setup(h):
        p, f = this(h)
        if pre: h.assume(*pre(f))
        return [p]
    FUNCS.append(Fn(D + sig, setup, lambda h, st, v: [(label, goal(h.v['self'], v))] + frame(h, st)))
iv = lambda v: zi(to_int(v))
bv = lambda v: zbool(v.t)
# --- plain accessors
for g, n in (('id', 'id'), ('number_of_elements', 'num_ele'), ('offset', 'offset'), ('stride', 'stride'), ('element_bytes', 'ele_bytes'), ('endianness', 'endianness')):
    getter(g + '() const', lambda f, v, n=n: iv(v) == f[n], '%s() reports the stored %s' % (g, n))
# --- extents
strided = lambda f: z3.If(f['num_ele'] >= 1, f['stride'] * (f['num_ele'] - 1) + f['ele_bytes'], 0)
nonneg = lambda f: [f['num_ele'] >= 0]
getter('strided_bytes() const', lambda f, v: iv(v) == strided(f), 'extent from first to last element = stride*(n-1) + element size (0 when empty)', pre=nonneg)
getter('spanned_bytes() const', lambda f, v: iv(v) == f['offset'] + strided(f), 'extent including the offset = offset + stride*(n-1) + element size', pre=nonneg)
getter('bytes_compact() const', lambda f, v: iv(v) == default_bytes_of(f['id']) * f['num_ele'], 'compact size = native size * n')
getter('is_compact() const', lambda f, v: bv(v) == z3.And(f['id'] >= 3, f['id'] <= 13, f['offset'] + strided(f) == default_bytes_of(f['id']) * f['num_ele']),
       'compact exactly when the span equals the compact size', pre=lambda f: [f['id'] >= 0, f['id'] <= 13, f['num_ele'] >= 0])
# --- element addressing
def s_ei(h):
    p, f = this(h); a, i = h.int('idx'); h.v['i'] = i
    return [p, a]
FUNCS.append(Fn(D + 'element_index(long) const', s_ei, lambda h, st, v: [
    ('address of element i = offset + stride*i', iv(v) == h.v['self']['offset'] + h.v['self']['stride'] * h.v['i'])] + frame(h, st)))
# two corollaries a user relies on, as lemmas over the contract of element_index
# --- comparison
def s_two(h):
    p, f = this(h); q, g = h.dtype(hint='other'); h.v['other'] = g
    return [p, q]
FUNCS.append(Fn(D + 'compatible(conduit::DataType const&) const', s_two, lambda h, st, v: [
    ('compatible = same type, same element size, at least as many elements', bv(v) == z3.And(h.v['self']['id'] == h.v['other']['id'],
        h.v['self']['ele_bytes'] == h.v['other']['ele_bytes'], h.v['self']['num_ele'] >= h.v['other']['num_ele']))] + frame(h, st)))
FUNCS.append(Fn(D + 'equals(conduit::DataType const&) const', s_two, lambda h, st, v: [
    ('equals = every layout field equal', bv(v) == z3.And(*[h.v['self'][n] == h.v['other'][n] for n in DT]))] + frame(h, st)))
# --- classification
def pred(sig, ids):
    getter(sig + '() const', lambda f, v, ids=ids: bv(v) == z3.Or(*([f['id'] == i for i in ids] or [False])), '%s holds exactly for its type ids' % sig,
           pre=lambda f: [f['id'] >= 0, f['id'] <= 13])
for n, ids in dict(is_empty=[0], is_object=[1], is_list=[2], is_number=range(3, 13), is_floating_point=[11, 12], is_integer=range(3, 11),
                   is_signed_integer=range(3, 7), is_unsigned_integer=range(7, 11), is_int8=[3], is_int16=[4], is_int32=[5], is_int64=[6], is_uint8=[7],
                   is_uint16=[8], is_uint32=[9], is_uint64=[10], is_float32=[11], is_float64=[12], is_string=[13], is_char8_str=[13], is_index_t=[6],
                   is_char=[3], is_short=[4], is_int=[5], is_long=[6], is_signed_char=[3], is_signed_short=[4], is_signed_int=[5],
                   is_signed_long=[6], is_unsigned_char=[7], is_unsigned_short=[8], is_unsigned_int=[9],
                   is_unsigned_long=[10], is_float=[11], is_double=[12], is_long_long=[6], is_signed_long_long=[6], is_unsigned_long_long=[10], is_long_double=[]).items():
    pred(n, list(ids))
# --- native sizes
def s_id(h):
    a, i = h.int('id'); h.v['i'] = i; return [a]
FUNCS.append(Fn(D + 'default_bytes(long)', s_id, lambda h, st, v: [('native size of each type id', iv(v) == default_bytes_of(h.v['i']))]))
# --- construction / assignment
def all_eq(h, st, p, want): 
    g = dt_fields(h.ex, st, p)
    return z3.And(*[g[n] == zi(want[n]) for n in DT])
def s_ctor6(h):
    b = h.obj('new'); h.v['p'] = P(b, 0); a = []
    h.v['w'] = {}
    for n in DT:
        x, t = h.int('a.' + n); a.append(x); h.v['w'][n] = t
    return [P(b, 0)] + a
FUNCS.append(Fn(D + 'DataType(long, long, long, long, long, long)', s_ctor6, lambda h, st, v: [('every field takes the given value', all_eq(h, st, h.v['p'], h.v['w']))]))
FUNCS.append(Fn(D + 'set(long, long, long, long, long, long)', s_ctor6, lambda h, st, v: [('every field takes the given value', all_eq(h, st, h.v['p'], h.v['w']))]))
def s_ctor2(h):
    b = h.obj('new'); h.v['p'] = P(b, 0); x, h.v['id'] = h.int('a.id'); y, h.v['n'] = h.int('a.n')
    return [P(b, 0), x, y]
FUNCS.append(Fn(D + 'DataType(long, long)', s_ctor2, lambda h, st, v: [('compact layout of n elements', all_eq(h, st, h.v['p'], dict(id=h.v['id'], num_ele=h.v['n'], offset=0,
        stride=default_bytes_of(h.v['id']), ele_bytes=default_bytes_of(h.v['id']), endianness=0)))]))
def s_copy(h):
    b = h.obj('new'); q, g = h.dtype(hint='other'); h.v['p'] = P(b, 0); h.v['w'] = g; return [P(b, 0), q]
for sg in ('DataType(conduit::DataType const&)', 'set(conduit::DataType const&)', 'operator=(conduit::DataType const&)'):
    FUNCS.append(Fn(D + sg, s_copy, lambda h, st, v: [('copy preserves every field', all_eq(h, st, h.v['p'], h.v['w']))]))
def s_self(h):
    p, f = this(h); h.v['p'] = p; return [p]
EMPTYDT = dict(id=0, num_ele=0, offset=0, stride=0, ele_bytes=0, endianness=0)
FUNCS.append(Fn(D + 'reset()', s_self, lambda h, st, v: [('reset yields the empty description', all_eq(h, st, h.v['p'], EMPTYDT))]))
def s_default(h):
    b = h.obj('new'); h.v['p'] = P(b, 0); return [P(b, 0)]
FUNCS.append(Fn(D + 'DataType()', s_default, lambda h, st, v: [('default construction yields the empty description', all_eq(h, st, h.v['p'], EMPTYDT))]))
for n, k in (('set_id', 'id'), ('set_number_of_elements', 'num_ele'), ('set_offset', 'offset'), ('set_stride', 'stride'), ('set_element_bytes', 'ele_bytes'), ('set_endianness', 'endianness')):
    def s_set(h):
        p, f = this(h); h.v['p'] = p; x, h.v['x'] = h.int('x'); return [p, x]
    FUNCS.append(Fn(D + n + '(long)', s_set, lambda h, st, v, k=k: [('changes only that field', all_eq(h, st, h.v['p'], dict(h.v['self'], **{k: h.v['x']})))]))
# --- factories
for nm, i in list((NAMES[k], k) for k in range(3, 14)) + [('index_t', 6), ('c_char', 3), ('c_short', 4), ('c_int', 5), ('c_long', 6), ('c_signed_char', 3), ('c_signed_short', 4),
        ('c_signed_int', 5), ('c_signed_long', 6), ('c_unsigned_char', 7), ('c_unsigned_short', 8), ('c_unsigned_int', 9), ('c_unsigned_long', 10), ('c_float', 11), ('c_double', 12), ('c_long_long', 6), ('c_signed_long_long', 6), ('c_unsigned_long_long', 10)]:
    def s_fac(h):
        b = h.obj('new'); h.v['p'] = P(b, 0); a = []; h.v['w'] = {}
        for n in DT[1:]:
            x, t = h.int('a.' + n); a.append(x); h.v['w'][n] = t
        return [P(b, 0)] + a
    FUNCS.append(Fn(D + nm + '(long, long, long, long, long)', s_fac, lambda h, st, v, i=i: [('factory sets its type id and passes the layout through', all_eq(h, st, h.v['p'], dict(h.v['w'], id=i)))]))
for nm, i in (('empty', 0), ('object', 1), ('list', 2)):
    FUNCS.append(Fn(D + nm + '()', s_default, lambda h, st, v, i=i: [('container factory', z3.And(dt_fields(h.ex, st, h.v['p'])['id'] == i, dt_fields(h.ex, st, h.v['p'])['num_ele'] == 0, dt_fields(h.ex, st, h.v['p'])['offset'] == 0))]))
def s_dd(h):
    b = h.obj('new'); h.v['p'] = P(b, 0); x, h.v['id'] = h.int('a.id'); h.assume(h.v['id'] >= 3, h.v['id'] <= 12)
    return [P(b, 0), x]
FUNCS.append(Fn(D + 'default_dtype(long)', s_dd, lambda h, st, v: [('default description of a numeric type is one native element', all_eq(h, st, h.v['p'], dict(id=h.v['id'], num_ele=1, offset=0,
        stride=default_bytes_of(h.v['id']), ele_bytes=default_bytes_of(h.v['id']), endianness=0)))]))
# --- compaction of the description
def s_ct(h):
    p, f = this(h); q, g = h.dtype(hint='dest'); h.v['q'] = q; return [p, q]
FUNCS.append(Fn(D + 'compact_to(conduit::DataType&) const', s_ct, lambda h, st, v: [
    ('compacted description: same type, count, byte order; offset 0; native stride', all_eq(h, st, h.v['q'], dict(id=h.v['self']['id'], num_ele=h.v['self']['num_ele'], offset=0,
        stride=default_bytes_of(h.v['self']['id']), ele_bytes=default_bytes_of(h.v['self']['id']), endianness=h.v['self']['endianness'])))] + frame(h, st)))
# --- byte order classification on this (little-endian) machine
getter('is_little_endian() const', lambda f, v: bv(v) == z3.Or(f['endianness'] == 2, f['endianness'] == 0), 'little-endian = declared little or machine default')
getter('is_big_endian() const', lambda f, v: bv(v) == (f['endianness'] == 1), 'big-endian = declared big')
getter('endianness_matches_machine() const', lambda f, v: bv(v) == z3.Or(f['endianness'] == 2, f['endianness'] == 0), 'matches the machine')

# --- consequences of the contracts a user relies on
def lemmas():
    o, s, e, n, i, j = z3.Ints('o s e n i j')
    addr = lambda k: o + s * k
    pre = [s >= e, e >= 1, n >= 1, 0 <= i, i < n, 0 <= j, j < n]
    yield 'distinct elements never share a byte', pre + [i < j], addr(i) + e <= addr(j)
    yield 'every element lies inside the spanned bytes', pre + [o >= 0], z3.And(addr(i) >= o, addr(i) + e <= o + s * (n - 1) + e)
    d = default_bytes_of(z3.Int('id'))
    yield 'the compacted description is compact', [z3.Int('id') >= 3, z3.Int('id') <= 13, n >= 1], 0 + d * (n - 1) + d == d * n
FUNCS.append(Lemma('element addresses and extents', lemmas))
DRIVER = 'd_C01.cpp'
DRIVER_SCOPE = 'executable form of the same layout contracts on the compiled DataType class'
DRIVER_BOUND = 'all 14 type ids x counts 0..6 x offsets x strides x element sizes x byte orders, plus random 40-bit values'
