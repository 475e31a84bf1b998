"""C05: a converting view reads and writes through the described type, whatever it is."""
from arr import *
UNITS = ['libs/conduit/conduit_data_accessor.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_utils.cpp', 'probe/probe_core.cpp']
FUNCS = []
def A(t): return 'conduit::DataAccessor<%s>::' % t.cpp
num = lambda a: z3.And(a.f['id'] >= 3, a.f['id'] <= 12)
bad = lambda h, st: [('an error is raised only for a non-numeric description', z3.Not(num(h.v['a'])))]
for t in TYS:
    def s_el(h, t=t):
        a = Arr(h, 'self'); i, h.v['i'] = h.int('idx'); h.v['a'] = a; return [a.p, i]
    def p_el(h, st, v, t=t):
        a = h.v['a']
        return [('the value is the element at offset + stride*idx, converted from the described type', z3.And(num(a), bits(v, t.bits) == acc_elem(h.ex, a, a.pre, h.v['i'], t))), a.unchanged_desc(st)]
    for sg in ('element(long) const', 'operator[](long) const'):
        FUNCS.append(Fn(A(t) + sg, s_el, p_el, exc=bad))
    FUNCS.append(Fn(A(t) + 'element_ptr(long) const', s_el, lambda h, st, v: [('refers to offset + stride*idx of the data', z3.And(v.base == h.v['a'].buf, zi(v.off) == h.v['a'].addr(h.v['i'])))]))
    FUNCS.append(Fn(A(t) + 'number_of_elements() const', lambda h, s_el=s_el: s_el(h)[:1], lambda h, st, v: [('reports the described count', zi(to_int(v)) == h.v['a'].n)]))
    def s_set(h, t=t):
        a = Arr(h, 'self'); i, h.v['i'] = h.int('idx'); x, h.v['x'] = mkval(h, t, 'value'); h.v['a'] = a; h.v['r'] = z3.Int('r!')
        return [a.p, i, x]
    def p_set(h, st, v, t=t):
        a = h.v['a']; ad = a.addr(h.v['i']); g = [('the description is numeric', num(a))]
        for u in TYS: g.append(('a %s element holds the converted value' % u.name, z3.Implies(a.f['id'] == u.id, rd(a.now(st), ad, u.nb) == conv(h.ex, t, u, h.v['x']))))
        r = h.v['r']
        g.append(('no byte outside the element changes', z3.Implies(z3.Or(r < 0, r >= default_bytes_of(a.f['id'])), z3.Select(a.now(st), ad + r) == z3.Select(a.pre, ad + r))))
        return g + [a.unchanged_desc(st)]
    FUNCS.append(Fn(A(t) + 'set(long, %s)' % t.cpp, s_set, p_set, exc=bad))
    for u in TYS:
        def s_fill(h, t=t, u=u):
            a = Arr(h, 'self', id=u.id); x, xb = mkval(h, t, 'value'); h.v['a'] = a
            w = conv(h.ex, t, u, xb); WriteSpec(h, a.buf, a.off, a.stride, u.nb, a.n, lambda k: w); return [a.p, x]
        FUNCS.append(Fn(A(t) + 'fill(%s)' % t.cpp, s_fill, lambda h, st, v: h.ws.post(st) + [h.v['a'].unchanged_desc(st)], templates=[ws_tpl], label=A(t) + 'fill(%s) on %s data' % (t.cpp, u.name)))
    def s_copy(h, t=t):
        a = Arr(h, 'other'); b = h.obj('new'); h.v['a'] = a; h.v['p'] = P(b, 0); return [P(b, 0), a.p]
    def p_copy(h, st, v):
        a = h.v['a']; f = dt_fields(h.ex, st, P(h.v['p'].base, 8)); d = h.ex.load(st, h.v['p'], ('ptr',), None)
        return [('the copy views the same data with the same description', z3.And(d.base == a.buf, zi(d.off) == 0, *[f[n] == a.f[n] for n in DT]))]
    FUNCS.append(Fn(A(t) + 'DataAccessor(conduit::DataAccessor<%s> const&)' % t.cpp, s_copy, p_copy))
    FUNCS.append(Fn(A(t) + 'operator=(conduit::DataAccessor<%s> const&)' % t.cpp, s_copy, p_copy))
    def s_ctor(h, t=t):
        a = Arr(h, 'other'); b = h.obj('new'); h.v['a'] = a; h.v['p'] = P(b, 0); return [P(b, 0), P(a.buf, 0), P(a.obj, 8)]
    for sg in ('DataAccessor(void*, conduit::DataType const&)', 'DataAccessor(void const*, conduit::DataType const&)'):
        FUNCS.append(Fn(A(t) + sg, s_ctor, p_copy))
DRIVER = 'd_C05.cpp'
