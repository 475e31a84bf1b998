"""C04: reading and writing through a typed array view touches exactly the addressed elements, with exact conversion."""
from arr import *
UNITS = ['libs/conduit/conduit_data_array.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_utils.cpp', 'libs/conduit/conduit_data_accessor.cpp', 'probe/probe_core.cpp']
FUNCS = []
def asb(v): return v.t if isinstance(v.t, (bool, z3.BoolRef)) else v.t != 0
def A(t): return 'conduit::DataArray<%s>::' % t.cpp
for t in TYS:
    # element references address offset + stride*i
    def s_el(h, t=t):
        a = Arr(h, 'self', t); i, h.v['i'] = h.int('idx'); h.v['a'] = a; return [a.p, i]
    def p_el(h, st, v):
        a = h.v['a']
        return [('refers to offset + stride*idx of the data', z3.And(v.base == a.buf, zi(v.off) == a.addr(h.v['i']))), a.unchanged_desc(st)]
    for sg in ('element(long)', 'element(long) const', 'element_ptr(long)', 'element_ptr(long) const', 'operator[](long)', 'operator[](long) const'):
        FUNCS.append(Fn(A(t) + sg, s_el, p_el))
    def s_n(h, t=t):
        a = Arr(h, 'self', t); h.v['a'] = a; return [a.p]
    FUNCS.append(Fn(A(t) + 'number_of_elements() const', s_n, lambda h, st, v: [('reports the described count', zi(to_int(v)) == h.v['a'].n)]))
    for u in TYS:
        # set one element
        def s_set1(h, t=t, u=u):
            a = Arr(h, 'self', t); i, h.v['i'] = h.int('idx'); x, xb = mkval(h, u, 'value'); h.v['a'] = a; h.v['x'] = xb
            h.v['r'] = z3.Int('r!'); h.assume(z3.Or(h.v['r'] < 0, h.v['r'] >= t.nb))
            return [a.p, i, x]
        def p_set1(h, st, v, t=t, u=u):
            a = h.v['a']; ad = a.addr(h.v['i'])
            return [('the element holds the converted value', rd(a.now(st), ad, t.nb) == conv(h.ex, u, t, h.v['x'])),
                    ('no other byte changes', z3.Select(a.now(st), ad + h.v['r']) == z3.Select(a.pre, ad + h.v['r'])), a.unchanged_desc(st)]
        FUNCS.append(Fn(A(t) + 'set(long, %s)' % u.cpp, s_set1, p_set1))
        # fill
        def s_fill(h, t=t, u=u):
            a = Arr(h, 'self', t); x, xb = mkval(h, u, 'value'); h.v['a'] = a; w = conv(h.ex, u, t, xb)
            WriteSpec(h, a.buf, a.off, a.stride, t.nb, a.n, lambda k: w); return [a.p, x]
        p_ws = lambda h, st, v: h.ws.post(st) + [h.v['a'].unchanged_desc(st)]
        FUNCS.append(Fn(A(t) + 'fill(%s)' % u.cpp, s_fill, p_ws, templates=[ws_tpl]))
        # set from raw values
        def s_setp(h, t=t, u=u):
            a = Arr(h, 'self', t); b = h.buf('M_src'); n, nn = h.int('num'); h.assume(nn >= 0); h.v['a'] = a; pre = h.st.bufs[b]
            WriteSpec(h, a.buf, a.off, a.stride, t.nb, nn, lambda k: conv(h.ex, u, t, rd(pre, u.nb * k, u.nb)), others=[b]); return [a.p, P(b, 0), n]
        FUNCS.append(Fn(A(t) + 'set(%s const*, long)' % u.cpp, s_setp, p_ws, templates=[ws_tpl]))
        # set from another array
        def s_seta(h, t=t, u=u):
            a = Arr(h, 'self', t); b = Arr(h, 'src', u); h.v['a'] = a
            WriteSpec(h, a.buf, a.off, a.stride, t.nb, z3.If(b.n < a.n, b.n, a.n), lambda k: conv(h.ex, u, t, b.pre_elem(k)), others=[b.buf]); return [a.p, b.p]
        FUNCS.append(Fn(A(t) + 'set(conduit::DataArray<%s> const&)' % u.cpp, s_seta, p_ws, templates=[ws_tpl]))
        # set from a converting view
        def s_setacc(h, t=t, u=u):
            a = Arr(h, 'self', t); b = Arr(h, 'src'); h.v['a'] = a; h.v['b'] = b; h.assume(b.f['id'] >= 3, b.f['id'] <= 12)
            WriteSpec(h, a.buf, a.off, a.stride, t.nb, z3.If(b.n < a.n, b.n, a.n), lambda k: conv(h.ex, u, t, acc_elem(h.ex, b, b.pre, k, u)), others=[b.buf]); return [a.p, b.p]
        FUNCS.append(Fn(A(t) + 'set(conduit::DataAccessor<%s> const&)' % u.cpp, s_setacc, p_ws, templates=[ws_tpl], contracts=c_acc_element(u)))
        # initializer lists
        def s_il(h, t=t, u=u):
            a = Arr(h, 'self', t); b = h.buf('M_src'); o = h.obj('il'); n, nn = h.int('num'); h.assume(nn >= 0); h.v['a'] = a; pre = h.st.bufs[b]
            h.st.objs[o][0] = (8, P(b, 0)); h.st.objs[o][8] = (8, n)
            WriteSpec(h, a.buf, a.off, a.stride, t.nb, z3.If(nn < a.n, nn, a.n), lambda k: conv(h.ex, u, t, rd(pre, u.nb * k, u.nb)), others=[b]); return [a.p, P(o, 0)]
        FUNCS.append(Fn(A(t) + 'set(std::initializer_list<%s> const&)' % u.cpp, s_il, p_ws, templates=[ws_tpl]))
        # vectors: exactly their sequence, through the raw-values form
        def s_vec(h, t=t, u=u):
            a = Arr(h, 'self', t); h.v['b'] = h.buf('src'); o = h.obj('vec'); h.v['n'] = z3.Int('n'); h.assume(h.v['n'] >= 1); h.v['a'] = a; h.v['vec'] = o; return [a.p, P(o, 0)]
        def c_vec(ex, st, a, ins, fr):
            st.ghost['vec'] = st.ghost.get('vec', ()) + (tuple(a),); return [('ret', st, None)]
        def p_vec(h, st, v):
            g = st.ghost.get('vec', ()); a = h.v['a']
            if len(g) != 1: return [('the raw-values form is used once', False)]
            s_, p_, n_ = g[0]
            return [('the values of the vector, all of them, are set on this array', z3.And(s_.base == a.obj, zi(s_.off) == 0, p_.base == h.v['b'], zi(p_.off) == 0, zi(to_int(n_)) == h.v['n']))]
        FUNCS.append(Fn(A(t) + 'set(std::vector<%s, std::allocator<%s>> const&)' % (u.cpp, u.cpp), s_vec, p_vec, contracts=dict(vec_c(u.cpp, u.nb), **{A(t) + 'set(%s const*, long)' % u.cpp: c_vec})))
    # copies of a view are the same view
    def s_cv(h, t=t):
        a = Arr(h, 'self', t); b = Arr(h, 'other', t); h.v['a'] = a; h.v['b'] = b; return [a.p, b.p]
    def p_cv(h, st, v):
        a, b = h.v['a'], h.v['b']; c = st.objs[a.obj]; ok = isinstance(c[0][1], P) and c[0][1].base == b.buf and c[0][1].off == 0
        return [('the same data with the same description', z3.And(*[zi(c[8 + 8*i][1].t) == b.f[n] for i, n in enumerate(DT)]) if ok else False), b.unchanged_desc(st)]
    for sg in ('DataArray(conduit::DataArray<%s> const&)' % t.cpp, 'operator=(conduit::DataArray<%s> const&)' % t.cpp): FUNCS.append(Fn(A(t) + sg, s_cv, p_cv))
    FUNCS.append(Fn(A(t) + 'compatible(conduit::DataArray<%s> const&) const' % t.cpp, s_cv, lambda h, st, v: [('compatible descriptions', asb(v) == z3.And(h.v['a'].f['id'] == h.v['b'].f['id'], h.v['a'].f['ele_bytes'] == h.v['b'].f['ele_bytes'], h.v['a'].n >= h.v['b'].n))]))
    def s_ctor(h, t=t):
        o = h.obj('new'); b = h.buf('M_data'); q, g = h.dtype(hint='dt'); h.v['o'] = o; h.v['b'] = b; h.v['g'] = g; return [P(o, 0), P(b, 0), q]
    def p_ctor(h, st, v):
        c = st.objs[h.v['o']]; ok = isinstance(c[0][1], P) and c[0][1].base == h.v['b'] and c[0][1].off == 0
        return [('views the given data with the given description', z3.And(*[zi(c[8 + 8*i][1].t) == h.v['g'][n] for i, n in enumerate(DT)]) if ok else False)]
    for sg in ('DataArray(void*, conduit::DataType const&)', 'DataArray(void const*, conduit::DataType const&)'): FUNCS.append(Fn(A(t) + sg, s_ctor, p_ctor))
    # compaction
    def s_cp(h, t=t):
        a = Arr(h, 'self', t); b = h.buf('M_dest'); h.v['a'] = a
        WriteSpec(h, b, 0, t.nb, t.nb, a.n, lambda k: a.pre_elem(k), others=[a.buf]); return [a.p, P(b, 0)]
    FUNCS.append(Fn(A(t) + 'compact_elements_to(unsigned char*) const', s_cp, p_ws, templates=[ws_tpl]))
DRIVER = 'd_C04.cpp'
