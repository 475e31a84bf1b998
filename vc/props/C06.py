"""C06: the reductions over an array are exact for every array."""
from arr import *
UNITS = ['libs/conduit/conduit_data_array.cpp', 'libs/conduit/conduit_data_accessor.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_utils.cpp']
FUNCS = []
fin = lambda t, b: z3.Not(z3.Or(z3.fpIsNaN(fp(F(t.bits, b))), z3.fpIsInf(fp(F(t.bits, b)))))
def lt(t, a, b):
    if t.kind == 'f': return z3.fpLT(fp(F(t.bits, a)), fp(F(t.bits, b)))
    return a < b if t.kind == 's' else z3.ULT(a, b)
def eq(t, a, b): return z3.fpEQ(fp(F(t.bits, a)), fp(F(t.bits, b))) if t.kind == 'f' else a == b
def extreme(t, which):
    if t.kind == 'f':
        m = {32: 0x7f7fffff, 64: 0x7fefffffffffffff}[t.bits]
        return z3.BitVecVal(m if which == 'min' else m | (1 << (t.bits - 1)), t.bits)
    lo, hi = (-(1 << (t.bits-1)), (1 << (t.bits-1)) - 1) if t.kind == 's' else (0, (1 << t.bits) - 1)
    return z3.BitVecVal(hi if which == 'min' else lo, t.bits)
for cls in ('DataArray', 'DataAccessor'):
    for t in TYS:
        C = 'conduit::%s<%s>::' % (cls, t.cpp)
        def mk(h, t=t, cls=cls):
            a = Arr(h, 'self', t if cls == 'DataArray' else None); h.v['a'] = a
            if cls == 'DataAccessor': h.assume(a.f['id'] >= 3, a.f['id'] <= 12)
            # the element sequence, as the contract of element() defines it
            el = z3.Function('el', z3.IntSort(), z3.BitVecSort(t.bits)); h.v['el'] = el
            h.v['raw'] = (lambda k: a.pre_elem(k)) if cls == 'DataArray' else (lambda k: acc_elem(h.ex, a, a.pre, k, t))
            h.v['k'] = z3.Int('k!'); h.assume(h.v['k'] >= 0, h.v['k'] < a.n)
            h.assume(el(h.v['k']) == h.v['raw'](h.v['k']))
            if t.kind == 'f':
                h.v['fin'] = True; h.assume(fin(t, el(h.v['k'])))
            return a
        def unf(t=t):
            def hook(ex, v):
                h = ex.h; el = h.v['el']; i = v.it; f = [el(i) == h.v['raw'](i)]
                if t.kind == 'f': f.append(z3.Implies(z3.And(i >= 0, i < h.v['a'].n), fin(t, el(i))))
                for g in h.v.get('defs', ()): f += g(i)
                return f
            return [hook]
        cs = c_acc_element(t) if cls == 'DataAccessor' else None
        def per_phi(hv, w, mk):
            """one candidate family per loop variable that could be the accumulator"""
            out = []
            for nm, x in hv.phis.items():
                if isinstance(x, (F, B)) and x.w == w:
                    def get(v, nm=nm):
                        y = v.phis.get(nm); return None if y is None or isinstance(y, (P, PI, Un)) else to_bv(y, w)
                    out += mk(get)
            return out
        # min / max: bound for every element, and attained
        for which in ('min', 'max'):
            def s_mm(h, t=t, which=which, mk=mk):
                a = mk(h)
                In = z3.Function('In', z3.BitVecSort(t.bits), z3.IntSort(), z3.BoolSort())   # value occurs among the first i elements
                w = z3.BitVec('w!', t.bits); h.v['In'] = In
                h.v['In0'] = extreme(t, which)
                return [a.p]
            def tpl(ex, loop, hv, t=t, which=which, per_phi=per_phi):
                h = ex.h; el, k, In = h.v['el'], h.v['k'], h.v['In']; x0 = h.v['In0']
                def mk(get):
                    def w(f):
                        def g(v):
                            r = get(v); return None if r is None else f(v, r)
                        return g
                    return [('bounds every element seen', w(lambda v, r: z3.Implies(k < v.it, z3.Not(lt(t, el(k), r) if which == 'min' else lt(t, r, el(k)))))),
                            ('value is attained', w(lambda v, r: z3.Or(In(r, v.it), r == x0))),
                            ('value is finite', w(lambda v, r: fin(t, r) if t.kind == 'f' else None))]
                return per_phi(hv, t.bits, mk)
            def hook(ex, v, t=t):
                h = ex.h; el, In = h.v['el'], h.v['In']; i = v.it
                out = []
                cands = [x.t for x in v.phis.values() if isinstance(x, (F, B)) and x.w == t.bits] + [el(i)]
                for c in cands: out.append(In(c, i + 1) == z3.Or(In(c, i), c == el(i)))
                return out
            def p_mm(h, st, v, t=t, which=which):
                r = bits(v, t.bits); a = h.v['a']; el, k, In = h.v['el'], h.v['k'], h.v['In']
                g = [('no element is %s' % ('smaller' if which == 'min' else 'larger'), z3.Not(lt(t, el(k), r) if which == 'min' else lt(t, r, el(k))))]
                g.append(('the result is one of the elements (or the extreme value of the type, which every element then equals)',
                          z3.Or(In(r, a.n), z3.And(r == h.v['In0'], z3.Not(lt(t, h.v['In0'], el(k)) if which == 'max' else lt(t, el(k), h.v['In0']))))))
                return g
            FUNCS.append(Fn(C + which + '() const', s_mm, p_mm, templates=[tpl], hooks=unf() + [hook], contracts=cs))
        # sum: the left fold of machine addition
        def s_sum(h, t=t, mk=mk):
            a = mk(h); S = z3.Function('S', z3.IntSort(), z3.BitVecSort(t.bits)); h.v['S'] = S
            h.assume(S(0) == 0)
            def step(i):
                e = h.v['el'](i)
                return [S(i + 1) == (S(i) + e if t.kind != 'f' else h.ex.binop(h.st, 'fadd', ('f', t.bits), F(t.bits, S(i)), F(t.bits, e)).t)]
            h.v['defs'] = [step]; return [a.p]
        def t_sum(ex, loop, hv, t=t, per_phi=per_phi):
            return per_phi(hv, t.bits, lambda get: [('accumulator is the sum of the elements seen', lambda v: None if get(v) is None else get(v) == ex.h.v['S'](v.it))])
        FUNCS.append(Fn(C + 'sum() const', s_sum, lambda h, st, v, t=t: [('result is the sum of all elements, in order', bits(v, t.bits) == h.v['S'](h.v['a'].n))],
                        templates=[t_sum], hooks=unf(), contracts=cs))
        # mean
        f64 = BYNAME['float64']
        def s_mean(h, t=t, mk=mk):
            a = mk(h); S = z3.Function('S', z3.IntSort(), z3.BitVecSort(64)); h.v['S'] = S; h.assume(S(0) == 0)
            h.v['defs'] = [lambda i: [S(i + 1) == h.ex.binop(h.st, 'fadd', ('f', 64), F(64, S(i)), F(64, conv(h.ex, t, f64, h.v['el'](i)))).t]]
            return [a.p]
        def t_mean(ex, loop, hv):
            def inv(v):
                for x in v.phis.values():
                    if isinstance(x, F) and x.w == 64: return x.t == ex.h.v['S'](v.it)
                return None
            return [('accumulator is the double sum of the elements seen', inv)]
        def p_mean(h, st, v):
            a = h.v['a']; n = h.ex.fcast('sitofp', I(64, a.n), ('i', 64), ('f', 64))
            return [('mean = double sum / count', bits(v, 64) == h.ex.binop(st, 'fdiv', ('f', 64), F(64, h.v['S'](a.n)), n).t)]
        FUNCS.append(Fn(C + 'mean() const', s_mean, p_mean, templates=[t_mean], hooks=unf(), contracts=cs))
        # count
        def s_cnt(h, t=t, mk=mk):
            a = mk(h); x, h.v['x'] = mkval(h, t, 'val'); N = z3.Function('N', z3.IntSort(), z3.IntSort()); h.v['N'] = N; h.assume(N(0) == 0)
            h.v['defs'] = [lambda i: [N(i + 1) == N(i) + z3.If(eq(t, h.v['el'](i), h.v['x']), 1, 0)]]; return [a.p, x]
        def t_cnt(ex, loop, hv):
            out = []
            for nm in hv.phis:
                out.append(('count so far (%s)' % nm, lambda v, nm=nm: zi(v.phis[nm].t) == ex.h.v['N'](v.it) if isinstance(v.phis.get(nm), I) else None))
            return out
        FUNCS.append(Fn(C + 'count(%s) const' % t.cpp, s_cnt, lambda h, st, v: [('result is the number of elements equal to the value', zi(to_int(v)) == h.v['N'](h.v['a'].n))],
                        templates=[t_cnt], hooks=unf(), contracts=cs))
DRIVER = 'd_C06.cpp'
