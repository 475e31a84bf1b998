"""C03: changing byte order reverses exactly the bytes of each element, and nothing else."""
from nod import *
UNITS = ['libs/conduit/conduit_endianness.cpp', 'libs/conduit/conduit_node.cpp', 'libs/conduit/conduit_schema.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_utils.cpp', 'probe/probe_core.cpp']
FUNCS = []
E = 'conduit::Endianness::'
for n in (2, 4, 8):
    def s1(h, n=n):
        b = h.buf('M'); h.v['b'] = b; h.v['pre'] = h.st.bufs[b]; a, o = h.int('addr'); h.v['o'] = o; h.v['r'] = z3.Int('r!'); return [P(b, o)]
    def p1(h, st, v, n=n):
        a, pre, o, r = st.bufs[h.v['b']], h.v['pre'], h.v['o'], h.v['r']
        return [('byte i becomes byte n-1-i', z3.And(*[z3.Select(a, o + i) == z3.Select(pre, o + n - 1 - i) for i in range(n)])),
                ('no other byte changes', z3.Implies(z3.Or(r < 0, r >= n), z3.Select(a, o + r) == z3.Select(pre, o + r)))]
    FUNCS.append(Fn(E + 'swap%d(void*)' % (8*n), s1, p1))
    def s2(h, n=n):
        b, c = h.buf('M'), h.buf('D'); h.v['b'], h.v['c'] = b, c; h.v['pre'], h.v['dpre'] = h.st.bufs[b], h.st.bufs[c]; a, o = h.int('src'); d, q = h.int('dst')
        h.v['o'], h.v['q'], h.v['r'] = o, q, z3.Int('r!'); return [P(b, o), P(c, q)]
    def p2(h, st, v, n=n):
        a, pre, o, q, r = st.bufs[h.v['c']], h.v['pre'], h.v['o'], h.v['q'], h.v['r']
        return [('destination byte i is source byte n-1-i', z3.And(*[z3.Select(a, q + i) == z3.Select(pre, o + n - 1 - i) for i in range(n)])),
                ('no other destination byte changes', z3.Implies(z3.Or(r < 0, r >= n), z3.Select(a, q + r) == z3.Select(h.v['dpre'], q + r))),
                ('the source is unchanged', z3.Select(st.bufs[h.v['b']], r) == z3.Select(pre, r))]
    FUNCS.append(Fn(E + 'swap%d(void*, void*)' % (8*n), s2, p2))
def rev(bv):
    n = bv.size() // 8
    return bv if n == 1 else z3.Concat(*[z3.Extract(8*i+7, 8*i, bv) for i in range(n)])
def norm_e(e): return z3.If(e == 0, 2, e)
for i in range(3, 14):
    nb = BYTES[i]; ty = Ty('x', 'x', 'u', 8*nb, i)
    def s(h, i=i, nb=nb, ty=ty):
        nd = NodeObj(h, id=i); e, ee = h.int('endianness'); h.v['n'] = nd; h.v['e'] = ee
        h.assume(ee >= 0, ee <= 2, nd.f['endianness'] >= 0, nd.f['endianness'] <= 2)
        sw = norm_e(nd.f['endianness']) != norm_e(ee)
        WriteSpec(h, nd.buf, nd.off, nd.stride, nb, nd.n, lambda k: z3.If(sw, rev(nd.pre_elem(k, ty)), nd.pre_elem(k, ty))); return [nd.p, e]
    def notyet(ex, loop, hv, nb=nb, ty=ty):
        w = ex.h.ws; nd = ex.h.v['n']
        return [('elements not reached yet keep their value', lambda v: z3.Implies(z3.And(w.k >= v.it, w.k < w.count), rd(v.st.bufs[w.buf], w.off + w.stride * w.k, nb) == nd.pre_elem(w.k, ty))),
                ('elements not reached yet keep their value (from the end)', lambda v: z3.Implies(w.k < w.count - v.it, rd(v.st.bufs[w.buf], w.off + w.stride * w.k, nb) == nd.pre_elem(w.k, ty)))]
    def hook(ex, v, nb=nb, ty=ty):
        return []
    FUNCS.append(Fn('conduit::Node::endian_swap(long)', s, lambda h, st, v: h.ws.post(st) + [h.v['n'].desc_unchanged(st, but=('endianness',)),
        ('the recorded byte order is the requested one', h.v['n'].desc(st)['endianness'] == norm_e(h.v['e']))], templates=[ws_tpl, notyet], label='conduit::Node::endian_swap(long) on %s leaves' % NAMES[i]))
def lem():
    for n in (16, 32, 64):
        x = z3.BitVec('x', n); yield 'swapping twice restores a %d-bit value' % n, [], rev(rev(x)) == x
FUNCS.append(Lemma('byte reversal is an involution', lem))
DRIVER = 'd_C03.cpp'
