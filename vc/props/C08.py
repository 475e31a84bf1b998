"""C08: compaction, serialization and contiguity are exact for every tree."""
from nod import *
from models import ALLOC
from props.C10 import N, S, STD, sel, nop, c_path, at, SEQ, log, lg, c_allocb, WALK
UNITS = ['libs/conduit/conduit_node.cpp', 'libs/conduit/conduit_schema.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_utils.cpp', 'libs/conduit/conduit_endianness.cpp', 'probe/probe_core.cpp']
FUNCS = []
CONTRACTS = {S + 'path() const': c_path, N + 'path() const': c_path, S + '~Schema()': nop, N + '~Node()': nop}
LEAVES = list(range(3, 14))
iv = lambda v: zi(to_int(v))
# --- the byte totals of a schema, by recursion over the children
F1 = lambda n: z3.Function(n, INT, INT)
TBC, TSB, SPAN = F1('tbc'), F1('tsb'), F1('span')
PS, PT, MX = F1('sum_tbc'), F1('sum_tsb'), F1('max_span')
strided = lambda f: z3.If(f['num_ele'] >= 1, f['stride'] * (f['num_ele'] - 1) + f['ele_bytes'], 0)
def total(F):
    def c(ex, st, a, ins, fr):
        if isinstance(a[0].base, str): return None           # the schema under study: its own body
        r = F(zi(ex.ref_of(a[0]))); st.assume(r >= 0); return [('ret', st, I(64, r))]
    return c
TOT = {S + 'total_bytes_compact() const': total(TBC), S + 'total_strided_bytes() const': total(TSB), S + 'spanned_bytes() const': total(SPAN)}
def sums(h, ch):
    """running totals over the children, defined by recursion"""
    i = z3.Int('i?'); x = sel(ch, i)
    h.assume(PS(0) == 0, PT(0) == 0, MX(0) == 0, z3.ForAll([i], z3.Implies(i >= 0, z3.And(PS(i + 1) == PS(i) + TBC(x), PT(i + 1) == PT(i) + TSB(x), MX(i + 1) == z3.If(SPAN(x) > MX(i), SPAN(x), MX(i)))), patterns=[x]))
def s_tot(id):
    def s(h):
        o = HSchema(h, id=id); h.v['s'] = o
        if o.pre is not None: sums(h, o.pre.ch)
        else: h.assume(o.f['num_ele'] >= 0)
        return [o.p]
    return s
def run_tpl(F, base=lambda h: 0):
    """some loop variable carries the running total of the children seen"""
    def t(ex, loop, hv):
        out = []
        for r, x in hv.phis.items():
            if isinstance(x, I) and x.w == 64: out.append(('running total', lambda v, r=r: zi(to_int(v.phis[r])) == zi(base(ex.h)) + F(v.it)))
        for o, c in hv.st.objs.items():
            for k, (sz, x) in c.items():
                if sz == 8 and isinstance(x, I) and str(o).startswith('stk'): out.append(('running total', lambda v, o=o, k=k: zi(to_int(v.st.objs[o][k][1])) == zi(base(ex.h)) + F(v.it)))
        return out
    return t
for fn, F, R, leaf in (('total_bytes_compact', TBC, PS, lambda f: default_bytes_of(f['id']) * f['num_ele']), ('total_strided_bytes', TSB, PT, strided), ('spanned_bytes', SPAN, MX, lambda f: f['offset'] + strided(f))):
    for id in (1, 2, 0) + tuple(LEAVES):
        def p(h, st, v, id=id, R=R, leaf=leaf):
            o = h.v['s']
            return [('the total of the children' if id in (1, 2) else 'the bytes of the leaf', iv(v) == (R(o.pre.n) if id in (1, 2) else 0 if id == 0 else leaf(o.f)))] + ([same_kids(o.pre, o.now(st))] if o.pre is not None else [])
        def s0(h, id=id):
            r = s_tot(id)(h)
            if id == 0: h.assume(*[h.v['s'].f[x] == 0 for x in ('num_ele', 'offset', 'stride', 'ele_bytes')])
            return r
        FUNCS.append(Fn(S + fn + '() const', s0, p, templates=[run_tpl(R)], contracts=TOT, opts={'recursive': 1}, label=S + fn + ' of ' + NAMES[id]))
# --- strided element copy
CPYS = 'conduit::utils::conduit_memcpy_strided_elements(void*, unsigned long, unsigned long, unsigned long, void const*, unsigned long)'
def s_cpy(sz):
    def s(h):
        d, b = h.buf('D'), h.buf('Sx'); n, ds, ss = z3.Ints('n ds ss'); do, so = z3.Ints('doff soff'); h.assume(n >= 0, ds >= sz, ss >= 0, n < 2**62, ds < 2**62, ss < 2**62); pre = h.st.bufs[b]
        WriteSpec(h, d, do, ds, sz, n, lambda k: rd(pre, so + ss * k, sz), others=[b])
        return [P(d, do), I(64, n), I(64, sz), I(64, ds), P(b, so), I(64, ss)]
    return s
for sz in (1, 2, 4, 8):
    FUNCS.append(Fn(CPYS, s_cpy(sz), lambda h, st, v: h.ws.post(st), templates=[ws_tpl], label='conduit_memcpy_strided_elements, %d-byte elements' % sz))
# --- one leaf, compacted
def s_leaf(id, off=False, well=False):
    def s(h):
        o = NodeObj(h, id=id); h.v['s'] = o; d = h.buf('D'); do = z3.Int('doff') if off else z3.IntVal(0); sz = BYTES[id]
        h.assume(o.stride >= 0, o.n < 2**60, o.stride < 2**60)
        if well: h.assume(o.f['ele_bytes'] == sz)
        WriteSpec(h, d, do, sz, sz, o.n, lambda k: rd(o.pre, o.addr(k), sz), others=[o.buf])
        return [o.p, P(d, 0)] + ([I(64, do)] if off else [])
    return s
def n_leaf(h, st, v): return h.ws.post(st) + [h.v['s'].desc_unchanged(st)]
def compact_hook(ex, hv): return []
for id in LEAVES:
    FUNCS.append(Fn(N + 'compact_elements_to(unsigned char*) const', s_leaf(id), n_leaf, templates=[ws_tpl], label=N + 'compact_elements_to of ' + NAMES[id]))
    for fn in ('compact_to', 'serialize'):
        FUNCS.append(Fn(N + fn + '(unsigned char*, long) const', s_leaf(id, True, True), n_leaf, templates=[ws_tpl], opts={'recursive': 1}, label=N + fn + '(data, offset) of ' + NAMES[id]))
def s_emp(h):
    o = NodeObj(h, id=0, data=False); h.v['s'] = o; d = h.buf('D'); h.v['pre'] = h.st.bufs[d]; h.assume(*[o.f[x] == 0 for x in ('num_ele', 'offset', 'stride', 'ele_bytes')]); return [o.p, P(d, 0), I(64, z3.Int('doff'))]
def p_emp(h, st, v): x = z3.Int('ob!'); return [('an empty node writes nothing', z3.Select(st.bufs['D'], x) == z3.Select(h.v['pre'], x))]
for fn in ('compact_to', 'serialize'): FUNCS.append(Fn(N + fn + '(unsigned char*, long) const', s_emp, p_emp, opts={'recursive': 1}, label=N + fn + '(data, offset) of empty'))
# --- a tree: child i goes after the compact bytes of the children before it
CN, CO, CC = ('cmp', 0, 'node'), ('cmp', 0, 'off'), ('cmp', 0, 'cnt')
def clog(h): h.st.ghost[CN] = z3.Const('cmp.node', AB(INT, INT)); h.st.ghost[CO] = z3.Const('cmp.off', AB(INT, INT)); h.st.ghost[CC] = z3.IntVal(0)
def c_ser(ex, st, a, ins, fr):
    if isinstance(a[0].base, str): return None
    n = zi(st.ghost[CC]); st.ghost[CN] = z3.Store(st.ghost[CN], n, zi(ex.ref_of(a[0]))); st.ghost[CC] = z3.simplify(n + 1); st.writes |= {('ghost', CN), ('ghost', CC), ('ghost', CO)}
    ex.require(st, 'the children write to the same buffer', isinstance(a[1], P) and a[1].base == ex.h.v['dest'])
    if len(a) > 2: st.ghost[CO] = z3.Store(st.ghost[CO], n, iv(a[2]) + (zi(a[1].off) if isinstance(a[1], P) else 0))
    return [('ret', st, None)]
def s_tree(id, ofs=False):
    def s(h):
        o = HNode(h, id=id); h.v['s'] = o; sums(h, o.schema.pre.ch); clog(h)
        if ofs: h.v['dest'] = h.obj('ofs'); return [o.p, P(h.v['dest'], 0)]
        h.v['dest'] = h.buf('D'); h.v['pre'] = h.st.bufs['D']; return [o.p, P('D', 0), I(64, z3.Int('doff'))]
    return s
def tree_facts(h, st, it, ofs=False):
    o = h.v['s']; i = z3.Int('gi!'); inr = z3.And(i >= 0, i < it)
    g = [('each child once', zi(st.ghost[CC]) == it), ('in order', z3.Implies(inr, sel(st.ghost[CN], i) == sel(o.ch, i)))]
    if not ofs: g.append(('each after the compact bytes of those before it', z3.Implies(inr, sel(st.ghost[CO], i) == z3.Int('doff') + PS(i))))
    return g
def tree_tpl(ofs):
    def t(ex, loop, hv): return [('children seen: %d' % k, lambda v, k=k: tree_facts(ex.h, v.st, v.it, ofs)[k][1]) for k in range(2 if ofs else 3)] + [('bounded', lambda v: v.it <= ex.h.v['s'].n)]
    return t
def p_tree(ofs):
    def p(h, st, v):
        o = h.v['s']; x = z3.Int('ob!')
        return tree_facts(h, st, o.n, ofs) + ([] if ofs else [('the node itself writes nothing', z3.Select(st.bufs['D'], x) == z3.Select(h.v['pre'], x))]) + [o.same_nodes(st), same_kids(o.schema.pre, o.schema.now(st))]
    return p
OFS = 'std::basic_ofstream<char, std::char_traits<char>>'
for id in (1, 2):
    for fn in ('compact_to', 'serialize'):
        sig = N + fn + '(unsigned char*, long) const'
        FUNCS.append(Fn(sig, s_tree(id), p_tree(False), templates=[tree_tpl(False), run_tpl(PS, lambda h: z3.Int('doff'))], contracts=dict(TOT, **{sig: c_ser}), opts={'recursive': 1}, label=N + fn + '(data, offset) of ' + NAMES[id]))
    sig = N + 'serialize(%s&) const' % OFS
    FUNCS.append(Fn(sig, s_tree(id, True), p_tree(True), templates=[tree_tpl(True)], contracts=dict(TOT, **{sig: c_ser}), opts={'recursive': 1}, label=N + 'serialize(stream) of ' + NAMES[id]))
# --- to a stream: a leaf writes exactly its compact bytes
OUT = ('out', 0, 'log')
def c_write(ex, st, a, ins, fr): st.ghost[OUT] = st.ghost.get(OUT, ()) + ((a[0], a[1], iv(a[2]), st.bufs.get(a[1].base) if isinstance(a[1], P) else None),); return [('ret', st, a[0])]
def c_newb(ex, st, a, ins, fr): st.ghost[('nb', 0, 'size')] = iv(a[0]); return [('ret', st, P(ex.new_region(st, 'buf', 'tmpbuf'), 0))]
def c_delb(ex, st, a, ins, fr): st.ghost[('nb', 0, 'freed')] = st.ghost.get(('nb', 0, 'freed'), 0) + 1; return [('ret', st, None)]
def s_ofs(id):
    def s(h):
        o = NodeObj(h, id=id, data=id != 0); h.v['s'] = o; h.v['ofs'] = h.obj('ofs'); h.assume(o.stride >= 0, o.n < 2**60, o.stride < 2**60)
        if id: h.assume(o.f['ele_bytes'] == BYTES[id])
        else: h.assume(*[o.f[x] == 0 for x in ('num_ele', 'offset', 'stride', 'ele_bytes')])
        return [o.p, P(h.v['ofs'], 0)]
    return s
def ofs_tpl(ex, loop, hv):
    """the temporary buffer receives the elements in order"""
    o = ex.h.v['s']; sz = BYTES.get(cint(o.f['id']), 1); k = z3.Int('k!'); out = []
    for b in hv.st.bufs:
        if str(b).startswith('tmpbuf'):
            out.append(('elements so far', lambda v, b=b: z3.Implies(z3.And(k >= 0, k < v.it, k < o.n), rd(v.st.bufs[b], sz * k, sz) == rd(o.pre, o.addr(k), sz))))
    x = z3.Int('ob!'); out.append(('the source is untouched', lambda v: z3.Select(v.st.bufs[o.buf], x) == z3.Select(o.pre, x)))
    return out
def p_ofs(id):
    def p(h, st, v):
        o = h.v['s']; w = st.ghost.get(OUT, ()); k = z3.Int('k!')
        if id == 0: return [('nothing is written', len(w) == 0 or (len(w) == 1 and w[0][2] == 0))]
        if len(w) != 1: return [('the leaf is written once', False)]
        sz = BYTES[id]; s_, p_, n_, a_ = w[0]
        g = [('to the stream given', isinstance(s_, P) and s_.base == h.v['ofs']), ('exactly the compact bytes', n_ == sz * o.n)]
        if a_ is None: return g + [('from a buffer', False)]
        g.append(('the elements, in order, with nothing between them', z3.Implies(z3.And(k >= 0, k < o.n), rd(a_, zi(p_.off) + sz * k, sz) == rd(o.pre, o.addr(k), sz))))
        if str(p_.base).startswith('tmpbuf'): g += [('the temporary buffer holds them all', st.ghost[('nb', 0, 'size')] == sz * o.n), ('and is freed once', st.ghost.get(('nb', 0, 'freed')) == 1)]
        return g
    return p
OW = {'std::ostream::write(char const*, long)': c_write, 'operator new[](unsigned long)': c_newb, 'operator delete[](void*)': c_delb}
for id in [0] + LEAVES:
    FUNCS.append(Fn(N + 'serialize(%s&) const' % OFS, s_ofs(id), p_ofs(id), templates=[ofs_tpl], contracts=OW, opts={'recursive': 1}, label=N + 'serialize(stream) of ' + NAMES[id]))
# --- to a vector: sized to the compact bytes, written from its start
VB = 'std::vector<unsigned char, std::allocator<unsigned char>>'
def c_vctor(ex, st, a, ins, fr): b = ex.new_region(st, 'buf', 'vec'); st.ghost[('vb', a[0].base, 'v')] = (b, iv(a[1])); return [('ret', st, None)]
def c_vmove(ex, st, a, ins, fr): st.ghost[('vb', a[0].base, 'v')] = st.ghost[('vb', a[1].base, 'v')]; return [('ret', st, a[0])]
def c_vat(ex, st, a, ins, fr): b, n = st.ghost[('vb', a[0].base, 'v')]; return [('ret', st, P(b, iv(a[1])))]
def c_vres(ex, st, a, ins, fr): b = ex.new_region(st, 'buf', 'vec'); st.ghost[('vb', a[0].base, 'v')] = (b, iv(a[1])); return [('ret', st, None)]
VEC = {VB + '::vector(unsigned long, unsigned char const&, std::allocator<unsigned char> const&)': c_vctor, VB + '::operator=(%s&&)' % VB: c_vmove, VB + '::operator[](unsigned long)': c_vat, VB + '::~vector()': nop, VB + '::resize(unsigned long)': c_vres, VB + '::data()': lambda ex, st, a, i, f: [('ret', st, P(st.ghost[('vb', a[0].base, 'v')][0], 0))], VB + '::resize(unsigned long, unsigned char const&)': c_vres,
       'std::allocator<unsigned char>::allocator()': nop, 'std::allocator<unsigned char>::~allocator()': nop, N + 'serialize(unsigned char*, long) const': lg('ser')}
def s_vec(h):
    o = HNode(h, id=1); h.v['s'] = o; h.v['d'] = h.obj('data'); h.st.ghost[('vb', h.v['d'], 'v')] = (h.buf('oldvec'), z3.Int('oldsize')); return [o.p, P(h.v['d'], 0)]
TT = {S + 'total_bytes_compact() const': lambda ex, st, a, i, f: (st.assume(TBC(zi(ex.ref_of(a[0]))) >= 0), [('ret', st, I(64, TBC(zi(ex.ref_of(a[0])))))])[1]}
def p_vec(h, st, v):
    o = h.v['s']; b, n = st.ghost[('vb', h.v['d'], 'v')]; L = st.ghost.get(SEQ, ()); ok = len(L) == 1 and at(L[0][1], o.p) and isinstance(L[0][2], P) and L[0][2].base == b
    return [('the vector holds exactly the compact bytes', n == TBC(zi(h.ex.region_ref(o.schema.obj)))), ('the node is serialized to its start', z3.And(zi(L[0][2].off) + iv(L[0][3]) == 0) if ok else False)]
FUNCS.append(Fn(N + 'serialize(%s&) const' % VB, s_vec, p_vec, contracts=dict(VEC, **TT), label=N + 'serialize(vector)'))
# --- the compact schema describes the compact data
SC = S + 'compact_to(conduit::Schema&, long) const'
XS, XD, XO, XC = ('cs', 0, 'src'), ('cs', 0, 'dst'), ('cs', 0, 'off'), ('cs', 0, 'cnt')
def c_sc(ex, st, a, ins, fr):
    if isinstance(a[0].base, str): return None
    n = zi(st.ghost[XC]); s_, d_ = zi(ex.ref_of(a[0])), zi(ex.ref_of(a[1])); st.writes |= {('ghost', x) for x in (XS, XD, XO, XC)}
    st.ghost[XS] = z3.Store(st.ghost[XS], n, s_); st.ghost[XD] = z3.Store(st.ghost[XD], n, d_); st.ghost[XO] = z3.Store(st.ghost[XO], n, iv(a[2])); st.ghost[XC] = z3.simplify(n + 1)
    st.assume(TBC(d_) == TBC(s_)); return [('ret', st, None)]          # a compact copy has as many compact bytes (proved for each kind below)
def s_sc(id, dst=0):
    def s(h):
        q = HSchema(h, hint='src', id=id); h.v['q'] = q; o = HSchema(h, hint='dest', id=dst); h.v['s'] = o
        for x in (XS, XD, XO): h.st.ghost[x] = z3.Const('%s.%s' % (x[0], x[2]), AB(INT, INT))
        h.st.ghost[XC] = z3.IntVal(0); a = z3.Int('alloc'); h.st.ghost[ALLOC] = a; h.assume(a > 0)
        if q.pre is not None:
            sums(h, q.pre.ch); j = z3.Int('j?'); h.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q.pre.n), sel(q.pre.ch, j) < a), patterns=[sel(q.pre.ch, j)]))
        elif id: h.assume(q.f['num_ele'] >= 0)
        return [q.p, o.p, I(64, z3.Int('doff'))]
    return s
def sc_facts(h, st, it):
    o, q = h.v['s'], h.v['q']; b = o.now(st); i = z3.Int('gi!'); inr = z3.And(i >= 0, i < it); a0 = z3.Int('alloc')
    if b is None: return None
    hp = h.ex.heap_arr(st, (fld('conduit::Schema', 'm_parent'), 8))
    return [('as many children', z3.And(b.n == it, zi(st.ghost[XC]) == it)), ('child i is the compact copy of child i', z3.Implies(inr, z3.And(sel(st.ghost[XS], i) == sel(q.pre.ch, i), sel(st.ghost[XD], i) == sel(b.ch, i)))),
            ('child i starts after the compact bytes of the children before it', z3.Implies(inr, sel(st.ghost[XO], i) == z3.Int('doff') + PS(i))), ('new children', z3.Implies(inr, z3.And(sel(b.ch, i) >= a0, sel(b.ch, i) < zi(st.ghost[ALLOC])))),
            ('the children point back', z3.Implies(inr, sel(hp, sel(b.ch, i)) == zi(h.ex.region_ref(o.obj))))]
def sc_tpl(ex, loop, hv):
    h = ex.h; q = h.v['q']; out = [('bounded', lambda v: v.it <= q.pre.n), ('references only grow', lambda v: zi(v.st.ghost[ALLOC]) >= z3.Int('alloc'))]
    for k in range(5): out.append(('compact copy %d' % k, lambda v, k=k: (lambda f: None if f is None else f[k][1])(sc_facts(h, v.st, v.it))))
    if q.id == 1:
        def nm(v):
            b = h.v['s'].now(v.st); return None if b is None or b.order is None else (b, q.pre)
        def ordq(v):
            r = nm(v); i = z3.Int('i?')
            return None if r is None else z3.And(r[0].on == v.it, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.it), sel(r[0].order, i) == sel(r[1].order, i)), patterns=[sel(r[0].order, i)]))
        def domq(v):
            r = nm(v); y = z3.Int('y?')
            return None if r is None else z3.ForAll([y], z3.And(sel(r[0].dom, y) == z3.And(sel(r[1].dom, y), sel(r[1].mp, y) < v.it), z3.Implies(sel(r[0].dom, y), sel(r[0].mp, y) == sel(r[1].mp, y))), patterns=[sel(r[0].dom, y)])
        out += [('names so far', ordq), ('index of names so far', domq)]
    return out
def p_sc(h, st, v):
    o, q = h.v['s'], h.v['q']; now = dt_fields(h.ex, st, P(o.obj, fld('conduit::Schema', 'm_dtype')))
    if q.pre is not None:
        f = sc_facts(h, st, q.pre.n)
        if f is None: return [('the copy has the kind of the source', False)]
        b = o.now(st); g = [('the kind is kept', now['id'] == q.id)] + f + [same_kids(q.pre, q.now(st), 'the source is unchanged')]
        if q.id == 1:
            i, y = z3.Ints('gi! gx!'); g += inv_goals(b) + [('the names are the same, in the same order', z3.And(z3.Implies(z3.And(i >= 0, i < q.pre.n), sel(b.order, i) == sel(q.pre.order, i)), sel(b.dom, y) == sel(q.pre.dom, y)))]
        return g
    if q.id == 0: return [('an empty schema compacts to an empty schema', now['id'] == 0)]
    sz = BYTES[q.id]
    return [('same type and number of elements', z3.And(now['id'] == q.id, now['num_ele'] == q.f['num_ele'], now['endianness'] == q.f['endianness'])), ('elements adjacent, starting at the offset given', z3.And(now['offset'] == z3.Int('doff'), now['stride'] == sz, now['ele_bytes'] == sz)),
            ('as many compact bytes as before', default_bytes_of(now['id']) * now['num_ele'] == default_bytes_of(q.f['id']) * q.f['num_ele'])]
for id in [1, 2, 0] + LEAVES:
    FUNCS.append(Fn(SC, s_sc(id), p_sc, templates=[sc_tpl, run_tpl(PS, lambda h: z3.Int('doff'))] if id in (1, 2) else [], contracts=dict(TOT, **{SC: c_sc}), opts={'alloc': (64, 88), 'recursive': 1}, label=S + 'compact_to(dest, offset) of ' + NAMES[id]))
def s_sc0(h): q, o = HSchema(h, hint='src', id=1), HSchema(h, hint='dest', id=1); h.v['q'], h.v['s'] = q, o; return [q.p, o.p]
def p_sc0(h, st, v):
    L = st.ghost.get(SEQ, ()); q, o = h.v['q'], h.v['s']
    return [('the destination is emptied, then the compact copy is built from offset 0', len(L) == 2 and L[0][0] == 'reset' and at(L[0][1], o.p) and L[1][0] == 'sc' and at(L[1][1], q.p) and at(L[1][2], o.p) and cint(to_int(L[1][3])) == 0)]
FUNCS.append(Fn(S + 'compact_to(conduit::Schema&) const', s_sc0, p_sc0, contracts={S + 'reset()': lg('reset'), SC: lg('sc')}, label=S + 'compact_to(dest)'))
# --- a compact node: own buffer of the compact bytes, described by the compact schema, filled from offset 0
def s_cn(h):
    q, o = HNode(h, hint='src', id=1), HNode(h, hint='dest', id=0); h.v['q'], h.v['s'] = q, o; h.assume(o.alloc >= -2**31, o.alloc < 2**31); return [q.p, o.p]
def p_cn(h, st, v):
    q, o = h.v['q'], h.v['s']; L = st.ghost.get(SEQ, ()); got = [l[0] for l in L]; n = TBC(zi(h.ex.region_ref(q.schema.obj))); c = st.objs[o.obj]; d = c[NF('m_data')][1]; A = [l for l in L if l[0] == 'alloc']
    rest = [x for x in got if x != 'alloc']; g = [('emptied, described, filled and built, each once', sorted(rest) == ['compact', 'reset', 'schema', 'walk'] and len(A) <= 1)]
    if not g[0][1]: return g
    ix = got.index; by = {l[0]: l for l in L}
    g += [('in an order that keeps what is used', ix('reset') < min(ix('schema'), ix('compact')) and ix('schema') < ix('walk') and (not A or ix('reset') < ix('alloc') < min(ix('compact'), ix('walk')))),
          ('the destination is emptied', at(by['reset'][1], o.p)), ('it is described by the compact schema', at(by['schema'][1], q.schema.p) and at(by['schema'][2], o.schema.p)),
          ('filled from the start with the data of the source', at(by['compact'][1], q.p) and at(by['compact'][2], d) and cint(to_int(by['compact'][3])) == 0), ('its tree is built over that schema and data', at(by['walk'][1], o.p) and at(by['walk'][2], o.schema.p) and at(by['walk'][3], d))]
    if A: g += [('the compact bytes are allocated and owned', z3.And(iv(A[0][1]) * iv(A[0][2]) == n, iv(c[NF('m_alloced')][1]) == 1, iv(c[NF('m_data_size')][1]) == n)), ('that buffer is the data', isinstance(d, P) and str(d.base).startswith('fresh'))]
    else: g.append(('no buffer only for no bytes', n == 0))
    return g
FUNCS.append(Fn(N + 'compact_to(conduit::Node&) const', s_cn, p_cn, contracts=dict(TT, **{N + 'reset()': lg('reset'), S + 'compact_to(conduit::Schema&) const': lg('schema'), N + 'compact_to(unsigned char*, long) const': lg('compact'), WALK: lg('walk'), 'conduit::utils::conduit_allocate(unsigned long, unsigned long, long)': c_allocb, 'conduit::utils::conduit_memset(void*, int, unsigned long)': nop}), label=N + 'compact_to(node)'))
# --- contiguity: every leaf starts where the one before it ended
CW = N + 'contiguous_with(unsigned char*, unsigned char*&) const'
CONT, ENDA = z3.Function('cont', INT, INT, BOOL), z3.Function('enda', INT, INT, INT)
AD, ALLC = F1('addr'), z3.Function('allc', INT, BOOL)
def absp(p): return zi(p.off) if isinstance(p, P) and p.base is None else None
def c_cw(ex, st, a, ins, fr):
    if isinstance(a[0].base, str): return None
    r, s_ = zi(ex.ref_of(a[0])), absp(a[1]); ex.store(st, a[2], P(None, ENDA(r, s_)), ('ptr',), None); return [('ret', st, Bo(CONT(r, s_)))]
def s_cw(id):
    def s(h):
        s0 = z3.Int('start'); e = h.obj('endref'); h.st.objs[e][0] = (8, P(None, z3.Int('endin'))); h.v['e'] = e
        h.assume(s0 >= 0)
        if id in (1, 2):
            o = HNode(h, id=id); i = z3.Int('i?'); x = sel(o.ch, i)
            # AD(i): where child i must start; ALLC(i): the children before i are contiguous
            h.assume(AD(0) == s0, ALLC(0), z3.ForAll([i], z3.Implies(i >= 0, z3.And(AD(i + 1) == ENDA(x, AD(i)), ALLC(i + 1) == z3.And(ALLC(i), CONT(x, AD(i))))), patterns=[x]),
                     z3.ForAll([i], z3.Implies(z3.And(i >= 0, z3.Not(ALLC(i))), z3.Not(ALLC(i + 1))), patterns=[ALLC(i)]))
            j = z3.Int('j?'); h.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= i, ALLC(j)), ALLC(i)), patterns=[z3.MultiPattern(ALLC(i), ALLC(j))]))
        else:
            o = NodeObj(h, id=id, data=False); d = z3.Int('data'); h.st.objs[o.obj][NF('m_data')] = (8, P(None, d)); h.v['d'] = d; h.assume(d >= 0)
            if id == 0: h.assume(*[o.f[x] == 0 for x in ('num_ele', 'offset', 'stride', 'ele_bytes')])
        h.v['s'] = o; return [o.p, P(None, s0), P(e, 0)]
    return s
def p_cw(id):
    def p(h, st, v):
        o = h.v['s']; s0 = z3.Int('start'); r = zbool(v.t); e = absp(st.objs[h.v['e']][0][1])
        if e is None: return [('the end is an address', False)]
        if id in (1, 2): return [('contiguous exactly when every child starts where the one before it ended', r == ALLC(o.n)), ('the end is where the last child ended', z3.Implies(r, e == AD(o.n))), o.same_nodes(st)]
        if id == 0: return [('a node without data is contiguous with anything and ends where it starts', z3.And(r, e == s0))]
        cur = h.v['d'] + o.off
        return [('a leaf is contiguous exactly when it has data starting at the address asked for', r == z3.And(cur != 0, z3.Or(s0 == 0, s0 == cur))), ('its end is after its last element', z3.Implies(r, e == cur + strided(o.f))), o.desc_unchanged(st)]
    return p
def cw_tpl(ex, loop, hv):
    out = [('so far contiguous', lambda v: ALLC(v.it)), ('bounded', lambda v: v.it <= ex.h.v['s'].n)]
    for r, x in hv.phis.items():
        if isinstance(x, P) and x.base is None: out.append(('address so far', lambda v, r=r: zi(v.phis[r].off) == AD(v.it) if v.phis[r].base is None else None))
        if isinstance(x, (I, Bo)): out.append(('no gap so far', lambda v, r=r: zbool(v.phis[r].t) if isinstance(v.phis[r], Bo) else zi(to_int(v.phis[r])) != 0))
    out.append(('end so far', lambda v: (lambda e: None if e is None else e == AD(v.it))(absp(v.st.objs[ex.h.v['e']][0][1]))))
    return out
for id in [1, 2, 0] + LEAVES:
    FUNCS.append(Fn(CW, s_cw(id), p_cw(id), templates=[cw_tpl] if id in (1, 2) else [], contracts={CW: c_cw}, opts={'recursive': 1, 'abs': 1}, label=N + 'contiguous_with(start, end) of ' + NAMES[id]))
FIRST = F1('first')
def c_cwa(ex, st, a, ins, fr):
    r, s_ = zi(ex.ref_of(a[0])), absp(a[1]); ex.store(st, a[2], P(None, ENDA(r, s_)), ('ptr',), None); return [('ret', st, Bo(CONT(r, s_)))]
def s_two(kind):
    def s(h):
        a, b = h.obj('self'), h.obj('other'); h.v['a'], h.v['b'] = z3.Int('ref(%s)' % a), z3.Int('ref(%s)' % b); x = z3.Int('addr_in'); h.assume(x >= 0)
        return [P(a, 0)] + ([P(None, x)] if kind == 'addr' else [P(b, 0)] if kind == 'node' else [])
    return s
ABS = {CW: c_cwa, N + 'find_first_data_ptr() const': lambda ex, st, a, i, f: [('ret', st, P(None, FIRST(zi(ex.ref_of(a[0])))))]}
FUNCS.append(Fn(N + 'is_contiguous() const', s_two(''), lambda h, st, v: [('contiguous starting anywhere', zbool(v.t) == CONT(h.v['a'], 0))], contracts=ABS, opts={'abs': 1}, label=N + 'is_contiguous'))
FUNCS.append(Fn(N + 'contiguous_with(void*) const', s_two('addr'), lambda h, st, v: [('contiguous starting at that address, which is not NULL', zbool(v.t) == z3.And(z3.Int('addr_in') != 0, CONT(h.v['a'], z3.Int('addr_in'))))], contracts=ABS, opts={'abs': 1}, label=N + 'contiguous_with(address)'))
FUNCS.append(Fn(N + 'contiguous_with(conduit::Node const&) const', s_two('node'), lambda h, st, v: [('contiguous with the end of the other, itself contiguous', zbool(v.t) == z3.And(CONT(h.v['b'], 0), ENDA(h.v['b'], 0) != 0, CONT(h.v['a'], ENDA(h.v['b'], 0))))], contracts=ABS, opts={'abs': 1}, label=N + 'contiguous_with(node)'))
for c in ('', ' const'):
    FUNCS.append(Fn(N + 'contiguous_data_ptr()' + c, s_two(''), lambda h, st, v: [('the first data pointer of a contiguous node, otherwise NULL', absp(v) == z3.If(CONT(h.v['a'], 0), FIRST(h.v['a']), 0) if absp(v) is not None else False)], contracts=ABS, opts={'abs': 1}, label=N + 'contiguous_data_ptr()' + c))
FF = N + 'find_first_data_ptr() const'
def c_ff(ex, st, a, ins, fr): return None if isinstance(a[0].base, str) else [('ret', st, P(None, FIRST(zi(ex.ref_of(a[0])))))]
def p_ff(id):
    def p(h, st, v):
        o = h.v['s']; r = absp(v); i, j = z3.Ints('gi! j?')
        if r is None: return [('an address', False)]
        if id in (1, 2): return [('the data of the first child that has any', z3.And(z3.Implies(z3.And(i >= 0, i < o.n, FIRST(sel(o.ch, i)) != 0), r != 0), z3.Implies(r != 0, z3.Exists([j], z3.And(j >= 0, j < o.n, r == FIRST(sel(o.ch, j)), z3.Implies(z3.And(i >= 0, i < j), FIRST(sel(o.ch, i)) == 0)))))) ]
        return [('the address of the first element', r == (0 if id == 0 else h.v['d'] + o.off))]
    return p
def ff_tpl(ex, loop, hv):
    o = ex.h.v['s']; i, j = z3.Ints('gi! j?'); out = [('bounded', lambda v: v.it <= o.n)]
    for r, x in hv.phis.items():
        if isinstance(x, P) and x.base is None:
            out.append(('none before the last', lambda v, r=r: z3.And(z3.Implies(z3.And(i >= 0, i < v.it - 1), FIRST(sel(o.ch, i)) == 0), z3.If(v.it == 0, zi(v.phis[r].off) == 0, zi(v.phis[r].off) == FIRST(sel(o.ch, v.it - 1)))) if v.phis[r].base is None else None))
    return out
for id in [1, 2, 0, 6, 13]:
    FUNCS.append(Fn(FF, s_cw(id), p_ff(id), templates=[ff_tpl] if id in (1, 2) else [], contracts={FF: c_ff}, opts={'recursive': 1, 'abs': 1}, label=N + 'find_first_data_ptr of ' + NAMES[id]))
DRIVER = 'd_C08.cpp'
DRIVER_SCOPE = 'totals, serialization to memory and file, compaction, round trip and contiguity questions on random trees with strided, offset and empty leaves, under AddressSanitizer'
DRIVER_BOUND = '2500 random trees up to depth 5 and 6000 placements (x8 in the thorough tier)'
ASSUMES = ['std::ostream::write writes the bytes it is given', 'recursive calls satisfy the contract they are proved against (induction over the depth of the tree)', 'the installed memory handlers behave as memcpy and memset', 'destination and source buffers do not overlap']
