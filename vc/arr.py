"""Vocabulary for specifications about numeric arrays in raw memory."""
from core import *
class Ty:
    def __init__(s, name, cpp, kind, bits, id): s.name, s.cpp, s.kind, s.bits, s.id, s.nb = name, cpp, kind, bits, id, bits // 8
TYS = [Ty('int8', 'signed char', 's', 8, 3), Ty('int16', 'short', 's', 16, 4), Ty('int32', 'int', 's', 32, 5), Ty('int64', 'long', 's', 64, 6),
       Ty('uint8', 'unsigned char', 'u', 8, 7), Ty('uint16', 'unsigned short', 'u', 16, 8), Ty('uint32', 'unsigned int', 'u', 32, 9), Ty('uint64', 'unsigned long', 'u', 64, 10),
       Ty('float32', 'float', 'f', 32, 11), Ty('float64', 'double', 'f', 64, 12)]
BYID = {t.id: t for t in TYS}; BYNAME = {t.name: t for t in TYS}
def rd(arr, addr, n):
    bs = [z3.Select(arr, zi(ladd(addr, i))) for i in range(n)]
    return bs[0] if n == 1 else z3.Concat(*reversed(bs))
def conv(ex, src, dst, bv):
    """C++ value conversion, on bit patterns; conversions involving floating point are the same uninterpreted functions the code uses"""
    if src.kind == 'f' and dst.kind == 'f':
        if src.bits == dst.bits: return bv
        return ex.fcast('fpext' if dst.bits > src.bits else 'fptrunc', F(src.bits, bv), ('f', src.bits), ('f', dst.bits)).t
    if src.kind == 'f': return ex.fcast('fptosi' if dst.kind == 's' else 'fptoui', F(src.bits, bv), ('f', src.bits), ('i', dst.bits)).t
    if dst.kind == 'f': return ex.fcast('sitofp' if src.kind == 's' else 'uitofp', B(src.bits, bv), ('i', src.bits), ('f', dst.bits)).t
    if dst.bits <= src.bits: return z3.Extract(dst.bits - 1, 0, bv)
    return (z3.SignExt if src.kind == 's' else z3.ZeroExt)(dst.bits - src.bits, bv)
def mkval(h, ty, name):
    """a symbolic argument of that C++ type; returns (value, bits)"""
    return h.fl(name, ty.bits) if ty.kind == 'f' else h.bv(name, ty.bits)
def bits(v, w=None): return to_bv(v, w)

class Arr:
    """a described array in memory: data buffer (region), description fields"""
    def __init__(s, h, hint, ty=None, buf=None, off_data=0, cells=None, at=0, nonoverlap=True, **fixed):
        ex, st = h.ex, h.st
        s.h, s.ty = h, ty
        s.buf = buf or h.buf('M_' + hint)
        s.obj = h.obj(hint)
        st.objs[s.obj][0] = (8, P(s.buf, off_data))
        fx = dict(fixed)
        if ty is not None: fx.setdefault('id', ty.id)
        _, s.f = h.dtype(base=s.obj, off=8, hint=hint, **fx)
        s.p = P(s.obj, 0); s.pre = st.bufs[s.buf]
        s.n, s.stride, s.off = s.f['num_ele'], s.f['stride'], s.f['offset']
        h.assume(s.n >= 0)
    def addr(s, k): return s.off + s.stride * zi(k)
    def elem(s, arr, k, ty=None): return rd(arr, s.addr(k), (ty or s.ty).nb)
    def pre_elem(s, k, ty=None): return s.elem(s.pre, k, ty)
    def now(s, st): return st.bufs[s.buf]
    def unchanged_desc(s, st):
        c = st.objs[s.obj]
        ok = isinstance(c[0][1], P) and c[0][1].base == s.buf
        return ('the view itself is unchanged', z3.And(ok, *[zi(c[8 + 8*i][1].t) == s.f[n] for i, n in enumerate(DT)]) if ok else z3.BoolVal(False))
def separated(h, a, size):
    """elements of a do not overlap one another"""
    h.assume(a.stride >= zi(size))

def acc_elem(ex, a, arr, k, dst):
    """spec of reading element k of a described array as type dst: convert from the described type"""
    r = None
    for t in reversed(TYS):
        x = conv(ex, t, dst, rd(arr, a.addr(k), t.nb))
        r = x if r is None else z3.If(a.f['id'] == t.id, x, r)
    return r
def val_of(ty, x): return F(ty.bits, x) if ty.kind == 'f' else B(ty.bits, x)
def c_acc_element(ty):
    """contract of DataAccessor<ty>::element(idx) const, used at call sites (proved in C05)"""
    def c(ex, st, args, ins, fr):
        for nm in ('a', 'b'):
            b = ex.h.v.get(nm)
            if isinstance(b, Arr) and b.ty is None and isinstance(args[0], P) and args[0].base == b.obj:
                return [('ret', st, val_of(ty, acc_elem(ex, b, st.bufs[b.buf], to_int(args[1]), ty)))]
        return None
    return {'conduit::DataAccessor<%s>::element(long) const' % ty.cpp: c}

class WriteSpec:
    """dest element k receives want(k), for every 0 <= k < count; every other byte of every buffer keeps its value.
    The invariants are stated for an arbitrary element k and an arbitrary byte outside the elements."""
    def __init__(s, h, buf, off, stride, size, count, want, others=(), what='element'):
        s.h, s.buf, s.off, s.stride, s.size, s.count, s.want, s.what = h, buf, zi(off), zi(stride), size, zi(count), want, what
        s.pre = h.st.bufs[buf]; s.others = [(b, h.st.bufs[b]) for b in others if b != buf]
        s.k, s.q, s.r = z3.Ints('k! q! r!')
        h.assume(s.stride >= zi(size), z3.Implies(s.count > 0, z3.And(s.k >= 0, s.k < s.count)) if False else z3.BoolVal(True))
        h.assume(s.r >= 0, s.r < s.stride, z3.Not(z3.And(s.q >= 0, s.q < s.count, s.r < zi(size))))
        h.assume(s.k >= 0)
        s.inside = s.k < s.count
        s.fb = s.off + s.stride * s.q + s.r
        s.done = lambda v, arr: z3.Implies(s.inside, rd(arr, s.off + s.stride * s.k, s.size) == s.want(s.k)) if isint(s.size) else None
        h.ws = s
    def val(s, arr): return rd(arr, s.off + s.stride * s.k, s.size) == s.want(s.k)
    def templates(s):
        def tpl(ex, loop, hv):
            out = []
            def A(v): return v.st.bufs.get(s.buf)
            out.append(('elements before the current one hold their value', lambda v: z3.Implies(z3.And(s.inside, s.k < v.it), s.val(A(v)))))
            out.append(('elements from the end hold their value', lambda v: z3.Implies(z3.And(s.inside, s.count - s.k <= v.it), s.val(A(v)))))
            out.append(('bytes outside the elements are untouched', lambda v: z3.Select(A(v), s.fb) == z3.Select(s.pre, s.fb)))
            for b, a in s.others:
                x = z3.Int('ob!'); out.append(('other buffers are untouched', lambda v, b=b, a=a: z3.Select(v.st.bufs[b], x) == z3.Select(a, x)))
            return out
        return [tpl]
    def post(s, st):
        arr = st.bufs[s.buf]
        g = [('every %s holds its specified value' % s.what, z3.Implies(s.inside, s.val(arr))),
             ('no other byte of the destination changes', z3.Select(arr, s.fb) == z3.Select(s.pre, s.fb))]
        for b, a in s.others: g.append(('the source is unchanged', z3.Select(st.bufs[b], z3.Int('ob!')) == z3.Select(a, z3.Int('ob!'))))
        return g
def ws_tpl(ex, loop, hv): return ex.h.ws.templates()[0](ex, loop, hv)

def vec_c(T, nb):
    V = 'std::vector<%s, std::allocator<%s>>::' % (T, T)
    mine = lambda a, ex: isinstance(a[0], P) and a[0].base == ex.h.v.get('vec')
    size = lambda ex, st, a, ins, fr: [('ret', st, I(64, ex.h.v['n']))] if mine(a, ex) else None
    at_ = lambda ex, st, a, ins, fr: [('ret', st, P('src', nb * zi(to_int(a[1]))))] if mine(a, ex) else None
    dat = lambda ex, st, a, ins, fr: [('ret', st, P('src', 0))] if mine(a, ex) else None
    emp = lambda ex, st, a, ins, fr: [('ret', st, I(1, z3.If(ex.h.v['n'] == 0, z3.IntVal(1), z3.IntVal(0))))] if mine(a, ex) else None
    r = {V + 'size() const': size, V + 'empty() const': emp}
    for q in ('', ' const'): r[V + 'operator[](unsigned long)' + q] = at_; r[V + 'data()' + q] = dat
    return r
