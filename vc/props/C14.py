"""C14: one-to-many relations, n-d indices and multi-component arrays address exactly the entries they describe."""
import nod
from nod import *
from props.C10 import N, S, STD, nop, c_path, at, log, SEQ
from props.C11 import INFO, key, tr
import props.C07 as C07
nod.EXTRA_LAYOUTS.append(build.HERE + '/vc/probe/probe_blueprint.cpp')
BP = 'libs/blueprint/conduit_blueprint_'
UNITS = ['libs/conduit/conduit_node.cpp', 'libs/conduit/conduit_schema.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_data_accessor.cpp', 'libs/conduit/conduit_data_array.cpp', 'libs/conduit/conduit_utils.cpp', 'libs/conduit/conduit_endianness.cpp', 'libs/conduit/conduit_node_iterator.cpp',
         BP + 'o2mrelation.cpp', BP + 'o2mrelation_index.cpp', BP + 'o2mrelation_iterator.cpp', BP + 'ndarray_index.cpp', BP + 'mcarray.cpp', 'probe/probe_blueprint.cpp']
FUNCS = []
iv = lambda v: zi(to_int(v))
R = 2**62
ACC = 'conduit::DataAccessor<long>::'
# --- integer arrays: a buffer with a description; element k, read as an index, is VAL_<buffer>(k) (DataAccessor::element is proved in C05)
def VAL(b): return z3.Function('val_' + b, INT, INT)
def SUMS(b): return z3.Function('before_' + b, INT, INT)      # sum of the elements before position k, by its definition below
class IArr:
    def __init__(s, h, nm, n=None):
        s.nm, s.h = nm, h; s.buf = h.buf('M_' + nm); s.pre = h.st.bufs[s.buf]; s.val = VAL(s.buf)
        s.f = {d: z3.Int('%s.%s' % (nm, d)) for d in DT}; s.n = s.f['num_ele']; h.assume(s.n >= 0, s.n < 2**60, s.f['id'] >= 3, s.f['id'] <= 12)
        h.v.setdefault('arrs', {})[s.buf] = s
    def put(s, obj, off):
        """an accessor over this array"""
        c = s.h.st.objs[obj]; c[off] = (8, P(s.buf, 0))
        for k, d in enumerate(DT): c[off + 8 + 8 * k] = (8, I(64, s.f[d]))
    def node(s):
        o = NodeObj(s.h, 'node_' + s.nm, buf=s.buf, **s.f); s.o = o; return o
def put_empty(h, obj, off):
    c = h.st.objs[obj]; c[off] = (8, NULL)
    for k, d in enumerate(DT): c[off + 8 + 8 * k] = (8, I(64, 0))
def view_of(ex, st, p):
    """the array an accessor object looks at: its data pointer and description must be exactly those of a known array"""
    d = ex.load(st, P(p.base, p.off), ('ptr',), None); f = dt_fields(ex, st, P(p.base, ladd(p.off, 8)))
    a = ex.h.v.get('arrs', {}).get(d.base) if isinstance(d, P) else None
    if a is None: raise Unsupported('a view of unknown data')
    return a, z3.And(zi(d.off) == 0, *[f[n] == a.f[n] for n in DT])
def c_elem(ex, st, a, ins, fr):
    v, ok = view_of(ex, st, a[0]); i = iv(a[1])
    ex.require(st, 'an index array is read through its own description', ok)
    ex.require(st, 'only existing entries of an index array are read', z3.And(i >= 0, i < v.n))
    r = v.val(i); st.assume(z3.And(r >= -R, r < R)); return [('ret', st, I(64, r))]
def c_sum(ex, st, a, ins, fr):
    v, ok = view_of(ex, st, a[0]); ex.require(st, 'an index array is summed through its own description', ok)
    r = SUMS(v.buf)(v.n); st.assume(z3.And(r >= -R, r < R)); return [('ret', st, I(64, r))]
ELEM = {ACC + 'element(long) const': c_elem, ACC + 'operator[](long) const': c_elem, ACC + 'sum() const': c_sum}
# --- nodes with named integer arrays below them
def same_str(ex, st, p, nm): return str_get(ex, st, p) == lit(nm)
def which(ex, st, p):
    s = z3.simplify(str_get(ex, st, p)); r = [n for n in ex.h.v['named'] if s.eq(lit(n))]
    if not r: raise Unsupported('a name the contract does not know')
    return r[0]
def c_has(ex, st, a, ins, fr):
    if a[0].base != ex.h.v['root']: return None
    return [('ret', st, Bo(z3.BoolVal(ex.h.v['named'][which(ex, st, a[1])] is not None)))]
def c_get(ex, st, a, ins, fr):
    if a[0].base != ex.h.v['root']: return None
    o = ex.h.v['named'][which(ex, st, a[1])]
    if o is None: raise Unsupported('a child that is not there')
    return [('ret', st, o.p)]
GET = {key(N + 'has_child(@STR const&) const'): c_has, key(N + 'has_path(@STR const&) const'): c_has, key(N + 'operator[](@STR const&)'): c_get, key(N + 'operator[](@STR const&) const'): c_get, key(N + 'fetch_ptr(@STR const&) const'): c_get, key(N + 'fetch_ptr(@STR const&)'): c_get,
       key(N + 'fetch_existing(@STR const&) const'): c_get, key(N + 'fetch_existing(@STR const&)'): c_get, key(N + 'fetch(@STR const&)'): c_get, key(N + 'child(@STR const&) const'): c_get, key(N + 'child(@STR const&)'): c_get}
CONTRACTS = dict(ELEM, **GET); CONTRACTS.update({S + 'path() const': c_path, N + 'path() const': c_path, S + '~Schema()': nop, N + '~Node()': nop})
def untouched(h, st):
    x = z3.Int('ob!'); return [('the described data is unchanged', z3.And(*[z3.Select(st.bufs[a.buf], x) == z3.Select(a.pre, x) for a in h.v.get('arrs', {}).values()]))]
CASES = [(s, o, i) for s in (0, 1) for o in (0, 1) for i in (0, 1)]
def cname(c): return '+'.join(n for n, x in zip(('sizes', 'offsets', 'indices'), c) if x) or 'no meta arrays'
# --- O2MIndex
OI = 'conduit::blueprint::o2mrelation::O2MIndex::'; OIC = OI[:-2]
MEM = [('sizes', 'm_sizes_acc'), ('offsets', 'm_offsets_acc'), ('indices', 'm_indices_acc')]
def mk_oi(h, case, hint='self'):
    o = h.obj(hint); h.v['o'] = o; d = {}
    for (nm, m), x in zip(MEM, case):
        if x: d[nm] = IArr(h, nm); h.assume(d[nm].n >= 1); d[nm].put(o, fld(OIC, m))
        else: put_empty(h, o, fld(OIC, m))
    h.v['d'] = d; return P(o, 0)
def entry(d, one, many):
    """the position, in the values, of a relation's (one, many) pair"""
    k = (d['offsets'].val(one) if 'offsets' in d else one) + many
    return d['indices'].val(k) if 'indices' in d else k
def oi_pre(h, one, many=None):
    d = h.v['d']; h.assume(one >= 0, one < R)
    for nm in ('sizes', 'offsets'):
        if nm in d: h.assume(one < d[nm].n)
    if many is not None:
        h.assume(many >= 0, many < R)
        if 'sizes' in d: h.assume(many < d['sizes'].val(one))
        else: h.assume(many == 0)
        k = (d['offsets'].val(one) if 'offsets' in d else one) + many
        if 'indices' in d: h.assume(k >= 0, k < d['indices'].n)
def s_oi_index(c):
    def s(h):
        p = mk_oi(h, c); i, one = h.int('one'); j, many = h.int('many'); h.v['one'], h.v['many'] = one, many; oi_pre(h, one, many); return [p, i, j]
    return s
def s_oi_one(c, all_=False):
    def s(h):
        p = mk_oi(h, c); i, one = h.int('one'); h.v['one'] = one
        if all_: return [p, I(64, -1)]
        oi_pre(h, one); return [p, i]
    return s
for c in CASES:
    FUNCS.append(Fn(OI + 'index(long, long) const', s_oi_index(c), lambda h, st, v: [('the entry of this pair: indices[offsets[one] + many], with the documented defaults', iv(v) == entry(h.v['d'], h.v['one'], h.v['many']))] + untouched(h, st), label=OI + 'index [%s]' % cname(c)))
    FUNCS.append(Fn(OI + 'size(long) const', s_oi_one(c), lambda h, st, v: [('the size of this one (1 by default)', iv(v) == (h.v['d']['sizes'].val(h.v['one']) if 'sizes' in h.v['d'] else 1))] + untouched(h, st), label=OI + 'size of one [%s]' % cname(c)))
    if c[0] == c[1] and (c[1] or c[2]): FUNCS.append(Fn(OI + 'size(long) const', s_oi_one(c, True), lambda h, st, v: [('the number of ones', iv(v) == h.v['d']['sizes' if 'sizes' in h.v['d'] else 'indices'].n if 'sizes' not in h.v['d'] else z3.Implies(h.v['d']['sizes'].n == h.v['d']['offsets'].n, iv(v) == h.v['d']['sizes'].n))], label=OI + 'size(-1) [%s]' % cname(c)))
    FUNCS.append(Fn(OI + 'offset(long) const', s_oi_one(c), lambda h, st, v: [('the offset of this one (itself by default)', iv(v) == (h.v['d']['offsets'].val(h.v['one']) if 'offsets' in h.v['d'] else h.v['one']))] + untouched(h, st), label=OI + 'offset [%s]' % cname(c)))
def mk_root(h, case, names=('sizes', 'offsets', 'indices')):
    h.v['root'] = h.obj('root'); h.v['named'] = {}; h.v['d'] = {}
    for nm, x in zip(names, case):
        if x: a = IArr(h, nm); h.v['d'][nm] = a; h.v['named'][nm] = a.node(); h.assume(a.n >= 1)
        else: h.v['named'][nm] = None
    return P(h.v['root'], 0)
def views(mem, cls, extra=None):
    def p(h, st, v):
        g = []; o = h.v['o']
        for nm, m in mem:
            off = fld(cls, m); d = h.ex.load(st, P(o, off), ('ptr',), None); f = dt_fields(h.ex, st, P(o, off + 8)); a = h.v['d'].get(nm)
            if a is None: g.append(('%s: absent' % nm, f['num_ele'] == 0))
            else: g.append(('%s: a view of exactly that array' % nm, z3.And(isinstance(d, P) and d.base == a.buf and zi(d.off) == 0, *[f[n] == a.f[n] for n in DT])))
        return g + (extra(h, st) if extra else []) + untouched(h, st)
    return p
def s_from_node(c, names):
    def s(h): r = mk_root(h, c, names); h.v['o'] = h.obj('self'); return [P(h.v['o'], 0), r]
    return s
for c in CASES:
    for sig in ('const*', 'const&'): FUNCS.append(Fn(OI + 'O2MIndex(conduit::Node %s)' % sig, s_from_node(c, ('sizes', 'offsets', 'indices')), views(MEM, OIC), label=OI + 'O2MIndex(Node %s) [%s]' % (sig, cname(c))))
def s_copy(mk, c, twice=False):
    def s(h):
        p = mk(h, c, 'other'); h.v['o'] = h.obj('self')
        if twice:
            for nm, m in h.v['mem']: put_empty(h, h.v['o'], fld(h.v['cls'], m))
        return [P(h.v['o'], 0), p]
    return s
def with_(mem, cls, f):
    def s(h): h.v['mem'], h.v['cls'] = mem, cls; return f(h)
    return s
for c in ((1, 1, 1), (0, 0, 1), (0, 0, 0)):
    FUNCS.append(Fn(OI + 'O2MIndex(conduit::blueprint::o2mrelation::O2MIndex const&)', with_(MEM, OIC, s_copy(mk_oi, c)), views(MEM, OIC), label=OI + 'copy [%s]' % cname(c)))
    FUNCS.append(Fn(OI + 'operator=(conduit::blueprint::o2mrelation::O2MIndex const&)', with_(MEM, OIC, s_copy(mk_oi, c, True)), views(MEM, OIC), label=OI + 'assignment [%s]' % cname(c)))
# --- NDIndex
ND = 'conduit::blueprint::ndarray::NDIndex::'; NDC = ND[:-2]
NMEM = [('shape', 'm_shape_acc'), ('offset', 'm_offset_acc'), ('stride', 'm_stride_acc')]
NCASES = [(1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1)]
def nname(c): return '+'.join(n for n, x in zip(('shape', 'offset', 'stride'), c) if x)
STEP = z3.Function('default_stride', INT, INT)       # S(0) = 1, S(d+1) = S(d) * (shape(d) + offset(d))
def mk_nd(h, case, hint='self', nd=None):
    o = h.obj(hint); h.v['o'] = o; d = {}; n = z3.Int('ndim'); h.assume(n >= 1, n < 2**31 - 1); h.v['nd'] = n
    if nd: h.assume(n == nd)
    h.st.objs[o][fld(NDC, 'm_ndim')] = (8, I(64, n))
    for (nm, m), x in zip(NMEM, case):
        if x: d[nm] = IArr(h, nm); h.assume(d[nm].n == n); d[nm].put(o, fld(NDC, m))
        else: put_empty(h, o, fld(NDC, m))
    h.v['d'] = d; h.assume(STEP(0) == 1)
    for k in range(nd or 0): h.assume(STEP(k + 1) == STEP(k) * (d['shape'].val(k) + noff(d, k)))
    return P(o, 0)
def noff(d, k): return d['offset'].val(k) if 'offset' in d else z3.IntVal(0)
def nstr(d, k): return d['stride'].val(k) if 'stride' in d else STEP(k)
def s_nd(c):
    def s(h): p = mk_nd(h, c); i, k = h.int('dim'); h.v['k'] = k; h.assume(k >= 0, k < h.v['nd']); return [p, i]
    return s
def step_hook(ex, v): d = ex.h.v['d']; return [STEP(v.it + 1) == STEP(v.it) * (d['shape'].val(v.it) + noff(d, v.it))]
def step_tpl(ex, loop, hv): return [('the product so far is the stride so far', lambda v, r=r: iv(v.phis[r]) == STEP(v.it)) for r, x in hv.phis.items() if isinstance(x, I) and x.w == 64]
def s_ndx(c, k):
    def s(h):
        p = mk_nd(h, c, nd=k); a = [h.int('i%d' % j) for j in range(k)]; h.v['is'] = [x[1] for x in a]; h.assume(*[z3.And(x[1] >= -R, x[1] < R) for x in a]); return [p] + [x[0] for x in a]
    return s
def p_ndx(h, st, v):
    d = h.v['d']; return [('the flat index is the sum over the dimensions of (offset + index) * stride', iv(v) == z3.Sum([(noff(d, j) + x) * nstr(d, j) for j, x in enumerate(h.v['is'])]))] + untouched(h, st)
def c_stride(ex, st, a, ins, fr):
    if not (isinstance(a[0], P) and a[0].base == ex.h.v['o']): return None
    k = iv(a[1]); ex.require(st, 'the stride of an existing dimension is asked for', z3.And(k >= 0, k < ex.h.v['nd'])); r = nstr(ex.h.v['d'], k); return [('ret', st, I(64, z3.simplify(r)))]
for c in NCASES:
    FUNCS.append(Fn(ND + 'shape(long) const', s_nd(c), lambda h, st, v: [('the extent of that dimension', iv(v) == h.v['d']['shape'].val(h.v['k']))] + untouched(h, st), label=ND + 'shape [%s]' % nname(c)))
    FUNCS.append(Fn(ND + 'offset(long) const', s_nd(c), lambda h, st, v: [('the offset of that dimension, 0 by default', iv(v) == noff(h.v['d'], h.v['k']))] + untouched(h, st), label=ND + 'offset [%s]' % nname(c)))
    FUNCS.append(Fn(ND + 'stride(long) const', s_nd(c), lambda h, st, v: [('the stride of that dimension; by default the product of shape + offset over the dimensions before it', iv(v) == nstr(h.v['d'], h.v['k']))] + untouched(h, st), templates=[step_tpl], hooks=[step_hook], label=ND + 'stride [%s]' % nname(c)))
    FUNCS.append(Fn(ND + 'ndims() const', lambda h, c=c: [mk_nd(h, c)], lambda h, st, v: [('the number of dimensions', iv(v) == h.v['nd'])], label=ND + 'ndims [%s]' % nname(c)))
    for k in (1, 2, 3, 4):
        FUNCS.append(Fn('probe_nd%d(conduit::blueprint::ndarray::NDIndex const&%s)' % (k, ', long' * k), s_ndx(c, k), p_ndx, contracts={ND + 'stride(long) const': c_stride}, label=ND + 'index of %d indices [%s]' % (k, nname(c))))
    nd_of = lambda h, st: [('as many dimensions as the shape has', iv(st.objs[h.v['o']][fld(NDC, 'm_ndim')][1]) == h.v['d']['shape'].n)]
    for sig in ('const*', 'const&'): FUNCS.append(Fn(ND + 'NDIndex(conduit::Node %s)' % sig, s_from_node(c, ('shape', 'offset', 'stride')), views(NMEM, NDC, nd_of), label=ND + 'NDIndex(Node %s) [%s]' % (sig, nname(c))))
    FUNCS.append(Fn(ND + 'NDIndex(conduit::blueprint::ndarray::NDIndex const&)', with_(NMEM, NDC, s_copy(mk_nd, c)), views(NMEM, NDC, nd_of), label=ND + 'copy [%s]' % nname(c)))
    FUNCS.append(Fn(ND + 'operator=(conduit::blueprint::ndarray::NDIndex const&)', with_(NMEM, NDC, s_copy(mk_nd, c, True)), views(NMEM, NDC, nd_of), label=ND + 'assignment [%s]' % nname(c)))
    def s_raw(h, c=c):
        h.v['o'] = h.obj('self'); h.v['d'] = {}; i, n = h.int('ndim'); h.assume(n >= 1, n < 2**31 - 1); a = [P(h.v['o'], 0), i]
        for nm, x in zip(('shape', 'offset', 'stride'), c):
            if x:
                q = IArr(h, nm); h.v['d'][nm] = q; h.assume(q.n == n, q.f['id'] == 6, q.f['offset'] == 0, q.f['stride'] == 8, q.f['ele_bytes'] == 8, q.f['endianness'] == 0); a.append(P(q.buf, 0))
            else: a.append(NULL)
        return a
    FUNCS.append(Fn(ND + 'NDIndex(long, long const*, long const*, long const*)', s_raw, views(NMEM, NDC, nd_of), label=ND + 'NDIndex(arrays) [%s]' % nname(c)))
# --- O2MIterator: a position is a pair (one, many); many counts from 1, and (0, 0) is the position before the first entry
IT = 'conduit::blueprint::o2mrelation::O2MIterator::'; ITC = IT[:-2]; IX = 'conduit::blueprint::o2mrelation::IndexType'
DATA, ONE, MANY = 0, 1, 2; TN3 = {0: 'DATA', 1: 'ONE', 2: 'MANY'}
PRE = z3.Function('entries_before', INT, INT)          # number of entries of the ones before k: P(0) = 0, P(k+1) = P(k) + size(k)
def mk_it(h, case, hint='self', inv=True):
    o = h.obj(hint); h.v['o'] = o; d = {}; c = h.st.objs[o]
    root = h.obj('root'); c[fld(ITC, 'm_node')] = (8, P(root, 0))
    da = IArr(h, 'values'); d['values'] = da; c[fld(ITC, 'm_data_node')] = (8, da.node().p)
    for nm, x in zip(('sizes', 'offsets', 'indices'), case):
        m = fld(ITC, 'm_%s_node' % nm)
        if x: d[nm] = IArr(h, nm); c[m] = (8, d[nm].node().p)
        else: c[m] = (8, NULL)
    h.v['d'] = d; one, many = z3.Int('self.one'), z3.Int('self.many'); h.v['one'], h.v['many'] = one, many
    c[fld(ITC, 'm_one_index')] = (8, I(64, one)); c[fld(ITC, 'm_many_index')] = (8, I(64, many))
    n = nones(d); h.v['n'] = n; i, j = z3.Ints('i? j?')
    if 'offsets' in d: h.assume(d['offsets'].n == n)
    # every one has at least one entry, and every entry exists
    if 'sizes' in d: h.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(d['sizes'].val(i) >= 1, d['sizes'].val(i) < 2**60)), patterns=[d['sizes'].val(i)]))
    def base(i): return d['offsets'].val(i) if 'offsets' in d else i
    if 'indices' in d: h.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(base(i) >= 0, base(i) + size(d, i) <= d['indices'].n)), patterns=[base(i)] if 'offsets' in d else ([size(d, i)] if 'sizes' in d else [PRE(i)])))
    # running totals, by definition; that they are ordered follows by induction (lemma below)
    h.assume(PRE(0) == 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), PRE(i + 1) == PRE(i) + size(d, i)), patterns=[PRE(i + 1)]), z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= n), z3.And(PRE(i) + (j - i) <= PRE(j), PRE(i) >= i)), patterns=[z3.MultiPattern(PRE(i), PRE(j))]))
    if 'sizes' in d: h.assume(SUMS(d['sizes'].buf)(d['sizes'].n) == PRE(n))
    h.assume(PRE(n) >= n, n >= 0)
    return P(o, 0)
def size(d, i): return d['sizes'].val(i) if 'sizes' in d else z3.IntVal(1)
def nones(d): return d['sizes'].n if 'sizes' in d else d['indices'].n if 'indices' in d else d['values'].n
def on_entry(h, one, many): return z3.And(one >= 0, one < h.v['n'], many >= 1, many <= size(h.v['d'], one))
def inst(h, *ks):
    """definitional instances of the running total"""
    for k in ks: h.assume(z3.Implies(z3.And(k >= 0, k < h.v['n']), PRE(k + 1) == PRE(k) + size(h.v['d'], k)), PRE(k) == PRE(k))
def rank(one, many): return PRE(one) + many - 1
def val(h, one, many, t):
    d = h.v['d']; return entry(d, one, many - 1) if t == DATA else one if t == ONE else many - 1
def pos(h, st): c = st.objs[h.v['o']]; return iv(c[fld(ITC, 'm_one_index')][1]), iv(c[fld(ITC, 'm_many_index')][1])
def moved(h, st, one, many, what='the position moves exactly there'): a, b = pos(h, st); return [(what, z3.And(a == one, b == many))] + kept(h, st)
def kept(h, st):
    c = st.objs[h.v['o']]; p = h.pre.objs[h.v['o']]
    return [('the iterator stays on its relation', all(c[fld(ITC, m)][1] is p[fld(ITC, m)][1] or (isinstance(c[fld(ITC, m)][1], P) and at(c[fld(ITC, m)][1], p[fld(ITC, m)][1])) for m in ('m_node', 'm_data_node', 'm_sizes_node', 'm_offsets_node', 'm_indices_node')))] + untouched(h, st)
def still(h, st): return moved(h, st, h.v['one'], h.v['many'], 'the position does not move')
def s_it(case, *extra, where='entry', pre=None):
    def s(h):
        p = mk_it(h, case); o, m = h.v['one'], h.v['many']; n = h.v['n']
        e = on_entry(h, o, m); front = z3.And(o == 0, m == 0, n >= 1); anyone = z3.And(o >= 0, o < n, m >= 0, m <= size(h.v['d'], o))
        h.assume({'entry': e, 'entry or front': z3.Or(e, front), 'any': z3.And(o >= 0, o <= n, m >= 0, m < 2**60), 'one': anyone}[where])
        inst(h, o, o - 1, o + 1)
        if pre is not None: h.assume(pre(h))
        return [p] + [I(32, x) if isint(x) else x(h) for x in extra]
    return s
def FN(nm, case, s, p, lab, **kw): FUNCS.append(Fn(IT + nm, s, p, label=IT + lab + ' [%s]' % cname(case), **kw))
for c in CASES:
    for t in (DATA, ONE, MANY):
        FN('index(%s) const' % IX, c, s_it(c, t), lambda h, st, v, t=t: [('the index of the current position', iv(v) == val(h, h.v['one'], h.v['many'], t))] + still(h, st), 'index(%s)' % TN3[t])
        FN('elements(%s) const' % IX, c, s_it(c, t, where='any'), lambda h, st, v, t=t: [('how many there are', iv(v) == (PRE(h.v['n']) if t == DATA and 'sizes' in h.v['d'] else h.v['n'] if t != MANY else z3.If(h.v['one'] < h.v['n'], size(h.v['d'], h.v['one']), 0)))] + still(h, st), 'elements(%s)' % TN3[t])
        def p_hn(h, st, v, t=t):
            o, m, n = h.v['one'], h.v['many'], h.v['n']; r = tr(v); w = {DATA: rank(o, m) + 1 < PRE(n), ONE: o + 1 < n, MANY: m < size(h.v['d'], o)}[t]
            return [('true exactly when there is a next one', r == w)] + still(h, st)
        FN('has_next(%s) const' % IX, c, s_it(c, t, where='entry or front'), p_hn, 'has_next(%s)' % TN3[t])
        def p_hp(h, st, v, t=t):
            o, m = h.v['one'], h.v['many']; r = tr(v); return [('true exactly when there is a previous one', r == {DATA: rank(o, m) > 0, ONE: o > 0, MANY: m > 1}[t])] + still(h, st)
        FN('has_previous(%s) const' % IX, c, s_it(c, t), p_hp, 'has_previous(%s)' % TN3[t])
        def nxt(h, t=t):
            o, m = h.v['one'], h.v['many']
            if t == DATA: e = m < size(h.v['d'], o); return z3.If(e, o, o + 1), z3.If(e, m + 1, z3.IntVal(1))
            if t == ONE: return z3.If(m < 1, o, o + 1), z3.If(m < 1, m + 1, m)
            return o, m + 1
        def prv(h, t=t):
            o, m = h.v['one'], h.v['many']
            if t == DATA: return z3.If(m > 1, o, o - 1), z3.If(m > 1, m - 1, size(h.v['d'], o - 1))
            return (o - 1, m) if t == ONE else (o, m - 1)
        can = {DATA: lambda h: rank(h.v['one'], h.v['many']) + 1 < PRE(h.v['n']), ONE: lambda h: z3.Or(h.v['many'] < 1, h.v['one'] + 1 < h.v['n']), MANY: lambda h: h.v['many'] < size(h.v['d'], h.v['one'])}[t]
        canp = {DATA: lambda h: rank(h.v['one'], h.v['many']) > 0, ONE: lambda h: h.v['one'] > 0, MANY: lambda h: h.v['many'] > 1}[t]
        def p_n(h, st, v, t=t, nxt=nxt):
            a, b = nxt(h); g = [('the index of the next position', iv(v) == val(h, a, b, t))] + moved(h, st, a, b)
            if t == DATA: o, m = pos(h, st); g += [('the next entry in order', z3.And(rank(o, m) == rank(h.v['one'], h.v['many']) + 1, on_entry(h, o, m)))]
            return g
        def p_p(h, st, v, t=t, prv=prv):
            a, b = prv(h); g = [('the index of the previous position', iv(v) == val(h, a, b, t))] + moved(h, st, a, b)
            if t == DATA: o, m = pos(h, st); g += [('the previous entry in order', z3.And(rank(o, m) == rank(h.v['one'], h.v['many']) - 1, on_entry(h, o, m)))]
            return g
        FN('next(%s)' % IX, c, s_it(c, t, where='entry or front', pre=can), p_n, 'next(%s)' % TN3[t])
        FN('peek_next(%s) const' % IX, c, s_it(c, t, where='entry or front', pre=can), lambda h, st, v, t=t, nxt=nxt: [('what next would return', iv(v) == val(h, *nxt(h), t))] + still(h, st), 'peek_next(%s)' % TN3[t])
        if t == MANY and not c[0]: canp = None      # without sizes there is one entry each: no previous one
        FN('previous(%s)' % IX, c, s_it(c, t, pre=canp), p_p, 'previous(%s)' % TN3[t]) if canp else None
        FN('peek_previous(%s) const' % IX, c, s_it(c, t, pre=canp), lambda h, st, v, t=t, prv=prv: [('what previous would return', iv(v) == val(h, *prv(h), t))] + still(h, st), 'peek_previous(%s)' % TN3[t]) if canp else None
        FN('to_front(%s)' % IX, c, s_it(c, t, where='any'), lambda h, st, v, t=t: moved(h, st, h.v['one'] if t == MANY else z3.IntVal(0), h.v['many'] if t == ONE else z3.IntVal(0), 'before the first'), 'to_front(%s)' % TN3[t])
        def p_back(h, st, v, t=t):
            a, b = pos(h, st); o, m, n = h.v['one'], h.v['many'], h.v['n']
            return [('past the last one' if t != MANY else 'at the last of this one', z3.And(a == n, b == 1) if t == DATA else z3.And(a == n, b == m) if t == ONE else z3.And(a == o, b == z3.If(o < n, size(h.v['d'], o), 0)))] + kept(h, st)
        FN('to_back(%s)' % IX, c, s_it(c, t, where='any'), p_back, 'to_back(%s)' % TN3[t])
        def ai(h): x, h.v['i'] = h.int('i'); return x
        def p_to(h, st, v, t=t):
            a, b = pos(h, st); i = h.v['i']
            if t == DATA: return [('at the entry with that number', z3.And(rank(a, b) == i, on_entry(h, a, b)))] + kept(h, st)
            return moved(h, st, i if t == ONE else h.v['one'], i + 1 if t == MANY else h.v['many'])
        ipre = {DATA: lambda h: z3.And(z3.Int('i') >= 0, z3.Int('i') < PRE(h.v['n']), h.v['n'] >= 1), ONE: lambda h: z3.And(z3.Int('i') >= 0, z3.Int('i') < R), MANY: lambda h: z3.And(z3.Int('i') >= 0, z3.Int('i') < R)}[t]
        def to_tpl(ex, loop, hv):
            h = ex.h
            def inv(v): a, b = pos(h, v.st); return z3.And(rank(a, b) == v.it, on_entry(h, a, b))
            return [('as many steps, as many entries further', inv)]
        def to_hook(ex, v): a, b = pos(ex.h, v.st); n = ex.h.v['n']; return [z3.Implies(z3.And(k >= 0, k < n), PRE(k + 1) == PRE(k) + size(ex.h.v['d'], k)) for k in (a, a + 1)]
        FN('to(long, %s)' % IX, c, s_it(c, ai, t, where='any', pre=ipre), p_to, 'to(%s)' % TN3[t], templates=[to_tpl] if t == DATA else [], hooks=[to_hook] if t == DATA else [])
def pre_lemma():
    i, j, n = z3.Ints('i j n'); sz = z3.Function('sz', INT, INT); a, b = z3.Ints('a b'); ordered = lambda j: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= j), PRE(i) + (j - i) <= PRE(j)), patterns=[PRE(i)])
    yield 'running totals are ordered: start', [PRE(0) == 0], ordered(z3.IntVal(0))
    yield 'running totals are ordered: step', [j >= 0, ordered(j), PRE(j + 1) == PRE(j) + sz(j), sz(j) >= 1], ordered(j + 1)
    m, k = z3.Ints('m k')
    yield 'an entry number determines the position', [0 <= a, a < b, b < n, m >= 1, m <= sz(a), k >= 1, PRE(a + 1) == PRE(a) + sz(a), PRE(a + 1) <= PRE(b)], PRE(a) + m - 1 != PRE(b) + k - 1
FUNCS.append(Lemma('numbering of the entries of a relation', pre_lemma))
# --- generate_offsets
RR = 'conduit::blueprint::o2mrelation::'
FILL = z3.Const('offsets_before', AB(INT, INT))
def c_reset(ex, st, a, ins, fr):
    o = ex.h.v.get('out')
    if o is None or not at(a[0], o.p): return None
    log(st, 'reset'); return [('ret', st, None)]
def c_setdt(ex, st, a, ins, fr):
    """Node::set(DataType) (C07): described memory of its own"""
    o = ex.h.v.get('out')
    if o is None or not at(a[0], o.p): return None
    f = dt_fields(ex, st, a[1]); log(st, 'dtype', f['id'], f['num_ele'])
    ex.require(st, 'the new array is described as a dense array of indices', z3.And(f['id'] == 6, f['offset'] == 0, f['stride'] == 8, f['ele_bytes'] == 8))
    dt_store(ex, st, P(o.schema.obj, fld('conduit::Schema', 'm_dtype')), dict(f, id=z3.IntVal(6), offset=z3.IntVal(0), stride=z3.IntVal(8), ele_bytes=z3.IntVal(8)))
    st.tarr['offv'] = (8, 'int', FILL); st.objs[o.obj][fld('conduit::Node', 'm_data')] = (8, P('offv', 0)); st.writes |= {('tarr', 'offv'), ('obj', o.obj)}
    return [('ret', st, None)]
def s_gen(kind):
    def s(h):
        r = HNode(h, 'base', id=6 if kind == 'leaf' else 1, lock=False); h.v['root'] = r.obj; h.v['named'] = {'sizes': None, 'offsets': None}; h.v['d'] = {}
        if kind == 'sizes':
            a = IArr(h, 'sizes'); h.v['d']['sizes'] = a; h.v['named']['sizes'] = a.node(); o = NodeObj(h, 'out', id=z3.Int('out.id')); h.v['named']['offsets'] = o; h.v['out'] = o
            h.assume(PRE(0) == 0)
        i = h.obj('info'); return [r.p, P(i, 0)]
    return s
def gen_hook(ex, v): d = ex.h.v['d']; i = v.it; return [PRE(i + 1) == PRE(i) + d['sizes'].val(i), z3.Implies(i > 0, PRE(i) == PRE(i - 1) + d['sizes'].val(i - 1)), d['sizes'].val(i) >= -R, d['sizes'].val(i) < R, PRE(i) >= -R, PRE(i) < R]
def gen_tpl(ex, loop, hv):
    g = z3.Int('gi!'); i = z3.Int('i?')
    def inv(v):
        a = v.st.tarr['offv'][2]; return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.it), z3.Select(a, i) == PRE(i)), patterns=[z3.Select(a, i)])
    return [('offsets filled so far', inv), ('this offset is filled', lambda v: z3.Implies(z3.And(g >= 0, g < v.it), z3.Select(v.st.tarr['offv'][2], g) == PRE(g)))]
def p_gen(kind):
    def p(h, st, v):
        r = tr(v)
        if kind != 'sizes': return [('reported as not possible', z3.Not(r)), ('nothing is written', not st.ghost.get(SEQ, ()))]
        g = z3.Int('gi!'); L = [l for l in st.ghost.get(SEQ, ()) if l[0] == 'dtype']; n = h.v['d']['sizes'].n
        return [('reported as done', r), ('as many offsets as sizes', z3.And(len(L) == 1, L[0][2] == n) if len(L) == 1 else False), ('every offset is the number of entries before', z3.Implies(z3.And(g >= 0, g < n), z3.Select(st.tarr['offv'][2], g) == PRE(g)) if 'offv' in st.tarr else False)] + untouched(h, st)
    return p
NATIVE_END = {}
for kind in ('sizes', 'object without sizes', 'leaf'):
    FUNCS.append(Fn(RR + 'generate_offsets(conduit::Node&, conduit::Node&)', s_gen(kind), p_gen(kind), templates=[gen_tpl], hooks=[gen_hook] if kind == 'sizes' else [], contracts=dict({k: v for k, v in INFO.items() if 'log' in k}, **{N + 'reset()': c_reset, N + 'set(conduit::DataType const&)': c_setdt}), label=RR + 'generate_offsets [%s]' % kind))
# --- multi-component arrays
MC = 'conduit::blueprint::mcarray::'; SDT = lambda: fld('conduit::Schema', 'm_dtype')
def kf(h, i, n):
    """a field of the description of child i of the source (before the call)"""
    a = h.v['src']; return z3.Select(h.v['hf'][n], z3.Select(a.schema.pre.ch, zi(i)))
def s_mc(id, dest=True):
    def s(h):
        a = HNode(h, 'src', id=id); h.v['src'] = a; h.v['hf'] = {n: h.ex.heap_arr(h.st, (SDT() + 8 * k, 8)) for k, n in enumerate(DT)}
        i = z3.Int('i?'); x = z3.Select(a.schema.pre.ch, i) if id in (1, 2) else None
        if x is not None: h.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), z3.And(z3.Select(h.v['hf']['num_ele'], x) >= 0, z3.Select(h.v['hf']['num_ele'], x) < 2**31, z3.Select(h.v['hf']['id'], x) >= 0, z3.Select(h.v['hf']['id'], x) <= 13)), patterns=[x]))
        o = h.obj('other'); h.v['other'] = o; return [a.p, P(o, 0)] if dest else [a.p]
    return s
def child_hook(ex, v):
    h = ex.h; i = v.it; return [z3.Implies(z3.And(i >= 0, i < h.v['src'].n), z3.And(kf(h, i, 'num_ele') >= 0, kf(h, i, 'num_ele') < 2**31, kf(h, i, 'id') >= 0, kf(h, i, 'id') <= 13))]
def fine(h, i): return z3.And(kf(h, i, 'id') >= 3, kf(h, i, 'id') <= 12, kf(h, i, 'num_ele') == kf(h, 0, 'num_ele'))
def mcv_tpl(ex, loop, hv):
    h = ex.h; a = h.v['src']; i = z3.Int('i?'); out = []
    if a.id not in (1, 2): return out
    ch = a.schema.pre.ch; allf = lambda n: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), fine(h, i)), patterns=[z3.Select(ch, i)]); firstok = lambda n: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), fine(h, i)), patterns=[z3.Select(ch, i)])
    cells = [(lambda v, r=r: v.phis[r], x) for r, x in hv.phis.items()] + [(lambda v, o=o, k=k: v.st.objs[o][k][1], x) for o, c in hv.st.objs.items() if str(o).startswith('stk') for k, (sz, x) in c.items()]
    for get, x in cells:
        if isinstance(x, Bo) or (isinstance(x, I) and x.w <= 8):
            out.append(('components seen so far are numbers of one length, unless refused', lambda v, g=get: z3.Implies(tr(g(v)), allf(v.it))))
            out.append(('refused only for a real reason', lambda v, g=get: z3.Implies(z3.Not(tr(g(v))), z3.Not(allf(a.n)))))
        elif isinstance(x, I) and x.w == 64:
            for get2, y in cells:
                if isinstance(y, Bo) or (isinstance(y, I) and y.w <= 8): out.append(('the length is that of the first component', lambda v, g=get, g2=get2: z3.Implies(z3.And(v.it > 0, tr(g2(v))), iv(g(v)) == kf(h, 0, 'num_ele'))))
            out.append(('no length is known before the first component', lambda v, g=get: z3.Implies(v.it == 0, iv(g(v)) == -1)))
            out.append(('a known length is real', lambda v, g=get: z3.And(iv(g(v)) >= -1, iv(g(v)) < 2**31)))
    return out
def p_mcv(h, st, v):
    a = h.v['src']; i = z3.Int('i?'); r = tr(v)
    if a.id not in (1, 2): return [('not a multi-component array', z3.Not(r))]
    return [('true exactly when every component is a number array of the same length', r == z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), fine(h, i)), patterns=[z3.Select(a.schema.pre.ch, i)])), ('the report records the verdict', st.ghost[('verdict', 0, 'b')] == r), a.same_nodes(st), same_kids(a.schema.pre, a.schema.now(st), 'the input is unchanged')]
for id in (1, 2, 0, 6): FUNCS.append(Fn(MC + 'verify(conduit::Node const&, conduit::Node&)', s_mc(id), p_mcv, templates=[mcv_tpl], hooks=[child_hook] if id in (1, 2) else [], contracts=INFO, label=MC + 'verify [%s]' % NAMES[id]))
# the description that is built: entry k of the destination, in ghost arrays
GK = [('mc', 0, n) for n in ('id', 'num_ele', 'offset', 'stride', 'ele_bytes', 'endianness')]; GN, GC, GCUR = ('mc', 0, 'name'), ('mc', 0, 'count'), ('mc', 0, 'cur')
def c_slot(named):
    def c(ex, st, a, ins, fr):
        if 'mcdest' not in ex.h.v: return None
        st.ghost[GCUR] = str_get(ex, st, a[1]) if named else lit(b''); st.writes.add(('ghost', GCUR)); return [('ret', st, P('slot', 0))]
    return c
def c_slotset(ex, st, a, ins, fr):
    if not (isinstance(a[0], P) and a[0].base == 'slot'): return None
    f = dt_fields(ex, st, a[1]); k = st.ghost[GC]
    for key_, n in zip(GK, DT): st.ghost[key_] = z3.Store(st.ghost[key_], k, f[n])
    st.ghost[GN] = z3.Store(st.ghost[GN], k, st.ghost[GCUR]); st.ghost[GC] = k + 1; st.writes |= {('ghost', x) for x in GK + [GN, GC]}; return [('ret', st, a[0])]
def c_dset(ex, st, a, ins, fr):
    if not at(a[0], P(ex.h.v['other'], 0)): return None
    log(st, 'set'); ex.h.v['sd'] = a[1]; return [('ret', st, None)]
def c_upd(ex, st, a, ins, fr):
    log(st, 'update', at(a[0], P(ex.h.v['other'], 0)) and at(a[1], ex.h.v['src'].p)); return [('ret', st, None)]
MCC = {key(S + 'operator[](@STR const&)'): c_slot(True), key(S + 'fetch(@STR const&)'): c_slot(True), key(S + 'add_child(@STR const&)'): c_slot(True), S + 'append()': c_slot(False), S + 'operator=(conduit::DataType const&)': c_slotset, S + 'set(conduit::DataType const&)': c_slotset,
       N + 'set(conduit::Schema const&)': c_dset, N + 'update(conduit::Node const&)': c_upd, S + 'Schema()': nop}
BEFORE = z3.Function('bytes_before', INT, INT)       # B(0) = 0, B(k+1) = B(k) + bytes of component k (contiguous) or of one of its elements (interleaved)
def width(h, k, inter): return default_bytes_of(kf(h, k, 'id')) if inter else kf(h, k, 'ele_bytes') * kf(h, k, 'num_ele')
def s_mcx(id, inter):
    def s(h):
        r = s_mc(id)(h); h.v['mcdest'] = 1; h.buf('slot'); st = h.st
        for k in GK + [GN]: st.ghost[k] = z3.Const('ghost.' + k[2], AB(INT, INT))
        st.ghost[GC] = z3.IntVal(0); st.ghost[GCUR] = z3.Int('ghost.cur'); i = z3.Int('i?'); a = h.v['src']; ch = a.schema.pre.ch
        h.assume(BEFORE(0) == 0)
        h.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), z3.And(kf(h, i, 'id') >= 3, kf(h, i, 'id') <= 12, kf(h, i, 'ele_bytes') == default_bytes_of(kf(h, i, 'id')))), patterns=[z3.Select(ch, i)]))
        return r
    return s
def mcx_hook(inter):
    def k(ex, v):
        h = ex.h; i = v.it; inr = z3.And(i >= 0, i < h.v['src'].n); e = kf(h, i, 'ele_bytes') * kf(h, i, 'num_ele')
        return child_hook(ex, v) + [z3.Implies(inr, z3.And(BEFORE(i + 1) == BEFORE(i) + width(h, i, inter), BEFORE(i + 1) >= BEFORE(i), BEFORE(i) >= 0, kf(h, i, 'id') >= 3, kf(h, i, 'id') <= 12, kf(h, i, 'ele_bytes') == default_bytes_of(kf(h, i, 'id'))))]
    return k
def placed(h, st, g, inter):
    a = h.v['src']; G = {n: z3.Select(st.ghost[k], g) for k, n in zip(GK, DT)}
    return z3.And(G['id'] == kf(h, g, 'id'), G['num_ele'] == kf(h, g, 'num_ele'), G['ele_bytes'] == kf(h, g, 'ele_bytes'), G['endianness'] == kf(h, g, 'endianness'), G['offset'] == BEFORE(g), G['stride'] == (BEFORE(a.n) if inter else kf(h, g, 'ele_bytes')),
                  z3.Select(st.ghost[GN], g) == (z3.Select(a.schema.pre.order, g) if a.id == 1 else lit(b'')))
def mcx_tpl(inter):
    def t(ex, loop, hv):
        h = ex.h; g = z3.Int('gi!'); out = []
        out.append(('one component described per step', lambda v: v.st.ghost[GC] == v.it))
        out.append(('nothing described yet', lambda v: v.st.ghost[GC] == 0))
        out.append(('components described so far are in place', lambda v: z3.Implies(z3.And(g >= 0, g < v.it), placed(h, v.st, g, inter))))
        for r, x in hv.phis.items():
            if isinstance(x, I) and x.w == 64: out.append(('the running total is the bytes before', lambda v, r=r: iv(v.phis[r]) == BEFORE(v.it)))
        return out
    return t
def p_mcx(inter):
    def p(h, st, v):
        a = h.v['src']; g = z3.Int('gi!'); L = list(st.ghost.get(SEQ, ()))
        return [('one entry per component', st.ghost[GC] == a.n), ('every component is described at its place: ' + ('interleaved' if inter else 'one after the other'), z3.Implies(z3.And(g >= 0, g < a.n), placed(h, st, g, inter))),
                ('that layout is allocated, then filled from the source', [l[0] for l in L] == ['set', 'update'] and bool(L[1][1])), ('reported as done', tr(v)), a.same_nodes(st)]
    return p
for nm, inter in (('to_contiguous', 0), ('to_interleaved', 1)):
    for id in (1, 2): FUNCS.append(Fn(MC + nm + '(conduit::Node const&, conduit::Node&)', s_mcx(id, inter), p_mcx(inter), templates=[mcx_tpl(inter)], hooks=[mcx_hook(inter)], contracts=MCC, label=MC + nm + ' [%s]' % NAMES[id]))
# --- is_interleaved: every component starts where the elements of the ones before it end, all with one stride
def addr0(h, i): a = h.v['src']; return z3.Select(h.v['hd'], z3.Select(a.ch, zi(i))) + kf(h, i, 'offset')
def s_mci(id):
    def s(h):
        r = s_mc(id, False)(h); h.v['hd'] = h.ex.heap_arr(h.st, (NF('m_data'), 8)); a = h.v['src']; i = z3.Int('i?'); h.assume(BEFORE(0) == 0, ALLI(0)); j = z3.Int('j?'); h.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, ALLI(j)), ALLI(i)), patterns=[z3.MultiPattern(ALLI(i), ALLI(j))]))
        h.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), addr0(h, i) > 0), patterns=[z3.Select(a.ch, i)])); return r
    return s
def mci_one(h, i): return z3.And(addr0(h, i) == addr0(h, 0) + BEFORE(i), kf(h, i, 'stride') == kf(h, 0, 'stride'))
ALLI = z3.Function('interleaved_so_far', INT, BOOL)      # of the components before k, by definition
def mci_hook(ex, v):
    h = ex.h; i = v.it; a = h.v['src']; return [ALLI(i + 1) == z3.And(ALLI(i), mci_one(h, i)), z3.Implies(z3.And(i >= 0, i < a.n), z3.Select(ex.heap_arr(v.st, (NF('m_schema'), 8)), z3.Select(a.ch, i)) == z3.Select(a.schema.pre.ch, i)), z3.Implies(z3.And(i >= 0, i < h.v['src'].n), z3.And(BEFORE(i + 1) == BEFORE(i) + kf(h, i, 'ele_bytes'), addr0(h, i) > 0))]
def c_eptr(ex, st, a, ins, fr):
    """Node::element_ptr(i) (C12): data + offset + stride * i, here as a plain address"""
    if isinstance(a[0].base, str): return None
    r = zi(ex.ref_of(a[0])); s_ = z3.Select(ex.heap_arr(st, (NF('m_schema'), 8)), r); i = iv(a[1]); q = z3.Select(ex.h.v['hd'], r) + z3.Select(ex.h.v['hf']['offset'], s_) + (z3.Select(ex.h.v['hf']['stride'], s_) * i if not (z3.is_int_value(i) and i.as_long() == 0) else 0)
    return [('ret', st, P(None, q))]
def mci_tpl(ex, loop, hv):
    h = ex.h; a = h.v['src']; allf = ALLI; out = []
    for r, x in hv.phis.items():
        if isinstance(x, Bo) or (isinstance(x, I) and x.w <= 8):
            out.append(('components so far are in place, unless refused', lambda v, r=r: z3.Implies(tr(v.phis[r]), allf(v.it))))
            out.append(('refused only for a real reason', lambda v, r=r: z3.Implies(z3.Not(tr(v.phis[r])), z3.Not(allf(a.n)))))
        elif isinstance(x, I) and x.w == 64:
            out.append(('the bytes before', lambda v, r=r: iv(v.phis[r]) == BEFORE(v.it)))
            out.append(('the stride of the first', lambda v, r=r: z3.Implies(v.it > 0, iv(v.phis[r]) == kf(h, 0, 'stride'))))
        elif isinstance(x, P) and x.base is None: out.append(('a start is known after the first', lambda v, r=r: z3.And((v.it > 0) == (zi(v.phis[r].off) != 0), z3.Implies(v.it > 0, zi(v.phis[r].off) == addr0(h, 0))) if isinstance(v.phis[r], P) and v.phis[r].base is None else None))
    return out
def p_mci(h, st, v):
    a = h.v['src']; i = z3.Int('i?'); return [('true exactly when the components are interleaved', tr(v) == ALLI(a.n)), a.same_nodes(st)]
for id in (1, 2): FUNCS.append(Fn(MC + 'is_interleaved(conduit::Node const&)', s_mci(id), p_mci, templates=[mci_tpl], hooks=[mci_hook], contracts={N + 'element_ptr(long) const': c_eptr, N + 'element_ptr(long)': c_eptr}, opts={'abs': 1}, label=MC + 'is_interleaved [%s]' % NAMES[id]))
def alli_lemma():
    i, j, n = z3.Ints('i j n'); ok = z3.Function('ok', INT, BOOL); al = lambda n: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), ok(i)))
    yield 'the running verdict starts true', [ALLI(0)], ALLI(0) == al(z3.IntVal(0))
    yield 'the running verdict means: every component so far', [j >= 0, ALLI(j) == al(j), ALLI(j + 1) == z3.And(ALLI(j), ok(j))], ALLI(j + 1) == al(j + 1)
FUNCS.append(Lemma('the running verdict means that every component is in place', alli_lemma))
DRIVER = 'd_C14.cpp'
DRIVER_SRCS = [BP + x for x in ('o2mrelation.cpp', 'o2mrelation_utils.cpp', 'o2mrelation_index.cpp', 'o2mrelation_iterator.cpp', 'ndarray_index.cpp', 'mcarray.cpp')]
DRIVER_SCOPE = 'O2MIndex, O2MIterator, data_paths, verify, compact_to and generate_offsets on random relations; NDIndex in 1..4 dimensions; mcarray verify, to_contiguous, to_interleaved and is_interleaved on random components, index arrays in every integer type and layout, under AddressSanitizer'
DRIVER_BOUND = '3000 relations of up to 9 ones and 36 entries, 6400 n-d indices, 4000 multi-component arrays (x8 in the thorough tier)'
BOUNDED_ONLY = ['o2mrelation::compact_to, data_paths and verify', 'O2MIterator(node)', 'NDIndex::info, O2MIndex::info']
ASSUMES = ['every one of a relation that is iterated over entry by entry has at least one entry, and every entry it names exists', 'the elements of an index array read as indices are what DataAccessor::element gives (proved in C05), and sum() their sum (C06)', 'child lookup by name (C10), readers (C12) and set (C07) satisfy their contracts', 'Node::update fills the described layout from the source (checked by the driver)']
