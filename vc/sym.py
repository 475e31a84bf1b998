"""Verification-condition generator: symbolic execution of the LLVM IR of the real functions,
function by function, callees by contract, loops cut by inductive invariants."""
import z3, re, itertools, time, os
import llir, solve

class Unsupported(Exception): pass
class Budget(Exception): pass

# ------------------------------------------------------------------ values
class I:      # machine integer treated as a mathematical (signed) integer
    __slots__ = ('w', 't')
    def __init__(s, w, t): s.w, s.t = w, t
    def __repr__(s): return 'I%d(%s)' % (s.w, s.t)
class B:      # machine integer as a bit-vector
    __slots__ = ('w', 't')
    def __init__(s, w, t): s.w, s.t = w, t
    def __repr__(s): return 'B%d(%s)' % (s.w, s.t)
class F:      # floating point, as its bit pattern
    __slots__ = ('w', 't')
    def __init__(s, w, t): s.w, s.t = w, t
    def __repr__(s): return 'F%d(%s)' % (s.w, s.t)
class Bo:     # i1
    __slots__ = ('t',); w = 1
    def __init__(s, t): s.t = t
    def __repr__(s): return 'Bo(%s)' % s.t
class P:      # pointer: region name (str) / object reference (z3 Int) / None + offset
    __slots__ = ('base', 'off')
    def __init__(s, base, off=0): s.base, s.off = base, off
    def __repr__(s): return 'P(%s,%s)' % (s.base, s.off)
class PI:     # pointer as integer
    __slots__ = ('base', 'off'); w = 64
    def __init__(s, base, off): s.base, s.off = base, off
class Un:     # undef
    def __repr__(s): return 'undef'
class Agg:
    def __init__(s, d): s.d = d
NULL = P(None, 0)

_cnt = itertools.count()
def fresh_int(n='v'): return z3.Int('%s!%d' % (n, next(_cnt)))
def fresh_bool(n='b'): return z3.Bool('%s!%d' % (n, next(_cnt)))
def fresh_bv(w, n='d'): return z3.BitVec('%s!%d' % (n, next(_cnt)), w)
def fresh_arr(n='A', dom=None, rng=None):
    return z3.Const('%s!%d' % (n, next(_cnt)), z3.ArraySort(z3.IntSort() if dom is None else dom, z3.BitVecSort(8) if rng is None else rng))

def isint(x): return isinstance(x, int) and not isinstance(x, bool)
def zi(x): return z3.IntVal(x) if isint(x) else x
def zbool(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def cint(x):
    """python int if the term is a constant"""
    if isint(x): return x
    if z3.is_int_value(x): return x.as_long()
    return x
def ladd(a, b):
    if isint(a) and isint(b): return a + b
    if isint(a) and a == 0: return b
    if isint(b) and b == 0: return a
    return cint(z3.simplify(zi(a) + zi(b)))
def lsub(a, b):
    if isint(a) and isint(b): return a - b
    if isint(b) and b == 0: return a
    return cint(z3.simplify(zi(a) - zi(b)))
def lmul(a, b):
    if isint(a) and isint(b): return a * b
    if (isint(a) and a == 0) or (isint(b) and b == 0): return 0
    if isint(a) and a == 1: return b
    if isint(b) and b == 1: return a
    return cint(z3.simplify(zi(a) * zi(b), som=True))
def bnot(x): return (not x) if isinstance(x, bool) else z3.simplify(z3.Not(x))
def band(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else: r.append(x)
    return True if not r else (r[0] if len(r) == 1 else z3.And(*r))
def bor(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else: r.append(x)
    return False if not r else (r[0] if len(r) == 1 else z3.Or(*r))
def cbool(x):
    if isinstance(x, bool): return x
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return x
def simpb(x): return x if isinstance(x, bool) else cbool(z3.simplify(x))

def to_bv(v, w=None):
    if isinstance(v, (B, F)): return v.t
    if isinstance(v, Bo): return z3.If(zbool(v.t), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    if isinstance(v, I):
        if isint(v.t): return z3.BitVecVal(v.t & ((1 << v.w) - 1), v.w)
        t = z3.simplify(v.t)
        if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)):
            return z3.If(t.arg(0), z3.BitVecVal(t.arg(1).as_long(), v.w), z3.BitVecVal(t.arg(2).as_long(), v.w))
        return z3.Int2BV(t, v.w)
    if isinstance(v, Un): return fresh_bv(w or 64, 'undef')
    raise Unsupported('to_bv %r' % (v,))
def to_int(v):
    """signed mathematical value"""
    if isinstance(v, I): return v.t
    if isinstance(v, B):
        t = z3.simplify(v.t)
        if z3.is_bv_value(t): return t.as_signed_long()
        if z3.is_app_of(t, z3.Z3_OP_INT2BV): pass
        return z3.BV2Int(t, True)
    if isinstance(v, Bo):
        if isinstance(v.t, bool): return -1 if v.t else 0
        return z3.If(v.t, z3.IntVal(-1), z3.IntVal(0))
    if isinstance(v, Un): return fresh_int('undef')
    raise Unsupported('to_int %r' % (v,))

def has_bv2int(e):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_BV2INT, getattr(z3, 'Z3_OP_SBV2INT', -77)): return True
            if x.num_args() == 0 and x.decl().name().startswith('bvtrunc'): return True
        stack.extend(x.children())
    return False
FSORT = {32: z3.Float32(), 64: z3.Float64()}
def fp(v): return z3.fpBVToFP(v.t, FSORT[v.w])
_uf = {}
def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _uf: _uf[k] = z3.Function(name, *sorts)
    return _uf[k]

def div_exact(off, n):
    """off / n when off is syntactically a multiple of n, else None"""
    if isint(off): return off // n if off % n == 0 else None
    if n == 1: return off
    t = z3.simplify(off, som=True)
    def go(t):
        if z3.is_int_value(t):
            v = t.as_long(); return z3.IntVal(v // n) if v % n == 0 else None
        if z3.is_add(t):
            p = [go(c) for c in t.children()]
            return None if any(x is None for x in p) else z3.Sum(*p)
        if z3.is_mul(t):
            cs = t.children()
            for k, c in enumerate(cs):
                if z3.is_int_value(c) and c.as_long() % n == 0:
                    rest = cs[:k] + cs[k+1:]
                    r = z3.IntVal(c.as_long() // n)
                    for x in rest: r = r * x
                    return r
            return None
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = go(t.arg(1)), go(t.arg(2))
            return None if a is None or b is None else z3.If(t.arg(0), a, b)
        return None
    r = go(t)
    return None if r is None else cint(z3.simplify(r))

# ------------------------------------------------------------------ state
class State:
    __slots__ = ('pc', 'objs', 'bufs', 'tarr', 'heap', 'ghost', 'writes', 'log', 'nfr')
    def __init__(s):
        s.pc, s.objs, s.bufs, s.tarr, s.heap, s.ghost, s.writes, s.log, s.nfr = [], {}, {}, {}, {}, {}, set(), [], 0
    def copy(s):
        n = State()
        n.pc = list(s.pc); n.objs = {k: dict(v) for k, v in s.objs.items()}; n.bufs = dict(s.bufs); n.tarr = dict(s.tarr)
        n.heap = dict(s.heap); n.ghost = dict(s.ghost); n.writes = set(s.writes); n.log = list(s.log); n.nfr = s.nfr
        return n
    def assume(s, c):
        c = simpb(c)
        if c is True: return
        s.pc.append(zbool(c))

class Loop:
    """what a loop-invariant template may look at"""
    def __init__(s, fn, header, entry, entry_phis): s.fn, s.header, s.entry, s.entry_phis = fn, header, entry, entry_phis
class View:
    def __init__(s, st, it, phis): s.st, s.it, s.phis = st, it, phis

class Exec:
    def __init__(self, prog, contracts=None, models=None, opts=None):
        self.prog = prog
        self.contracts = contracts or {}       # demangled name -> Contract (used at call sites)
        self.models = models or []
        self.model_cache = {}
        self.obls = []                         # (name, status, backend, time, detail)
        self.trial = 0
        self.templates = []                    # loop-invariant templates: f(ex, Loop) -> [(name, View->Bool)]
        self.lemma_hooks = []                  # f(View) -> [facts] (definitional unfoldings) assumed at loop heads
        self.opts = opts or {}
        self.depth = 0
        self.steps = 0
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.assumptions = set()
        self.cutloops = 0
        self.unwound = 0
        self.fnname = ''
        self.feas_cache = {}
        self.t0 = time.time()
        self.budget = self.opts.get('budget', 240)
        self.rname = itertools.count()

    # ---------------------------------------------------------- obligations
    def require(self, st, name, goal, info=None):
        """an obligation; assumed afterwards"""
        goal = simpb(goal)
        if self.trial:
            st.assume(goal); return
        t = time.time()
        if goal is True: r = ('valid', None, 'simplifier')
        else: r = solve.valid(st.pc, goal)
        self.obls.append({'name': name, 'fn': self.fnname, 'status': r[0], 'backend': r[2], 'time': time.time() - t,
                          'model': (str(r[1])[:3000] if r[1] is not None else None), 'z3model': r[1], 'goal': str(goal)[:600]})
        st.assume(goal)

    def feasible(self, st):
        if not st.pc: return True
        if time.time() - self.t0 > self.budget: raise Budget('time budget for %s exhausted' % self.fnname)
        key = tuple(x.get_id() for x in st.pc)
        if key in self.feas_cache: return self.feas_cache[key][0]
        if solve.quantified(st.pc): s = z3.SimpleSolver(); s.set('mbqi', False)
        else: s = z3.Solver()
        s.set('timeout', 400)
        s.add(*st.pc)
        r = s.check() != z3.unsat
        self.feas_cache[key] = (r, list(st.pc))
        return r

    def known(self, st, c, timeout=600):
        c = simpb(c)
        if c is True: return True
        if c is False: return False
        s = z3.Solver(); s.set('timeout', timeout); s.add(*st.pc); s.add(z3.Not(c))
        return s.check() == z3.unsat

    def fork(self, st, cond):
        """[(state, bool)] feasible sides"""
        cond = simpb(cond)
        if isinstance(cond, bool): return [(st, cond)]
        out = []
        a = st.copy(); a.assume(cond)
        b = st.copy(); b.assume(z3.Not(cond))
        fa = self.feasible(a)
        fb = self.feasible(b) if fa else True
        if fa: out.append((a, True))
        if fb: out.append((b, False))
        return out

    # ---------------------------------------------------------- memory
    def new_region(self, st, kind, hint='r', **kw):
        n = '%s#%d' % (hint, next(self.rname))
        if kind == 'obj': st.objs[n] = {}
        elif kind == 'buf': st.bufs[n] = kw.get('arr', fresh_arr(hint))
        elif kind == 'tarr': st.tarr[n] = (kw['esz'], kw['kind'], kw['arr'])
        return n

    def fresh_of(self, st, ty, hint='f'):
        if ty[0] == 'i':
            if ty[1] == 1: return Bo(fresh_bool(hint))
            t = fresh_int(hint)
            if ty[1] < 64: st.assume(z3.And(t >= -(1 << (ty[1]-1)), t < (1 << (ty[1]-1))))
            return I(ty[1], t)
        if ty[0] == 'f': return F(ty[1], fresh_bv(ty[1], hint))
        if ty[0] == 'ptr':
            r = fresh_int(hint + '.ref'); return P(r, 0)
        raise Unsupported('fresh %r' % (ty,))

    def load(self, st, p, ty, mod):
        ty = mod.ty(ty) if mod else ty
        if isinstance(p, Un): raise Unsupported('load through undef')
        if not isinstance(p, P): raise Unsupported('load via %r' % (p,))
        if p.base is None: raise Unsupported('load via null/absolute pointer')
        if ty[0] in ('st', 'arr'): raise Unsupported('aggregate load')
        size = mod.size(ty) if mod else llir_size(ty)
        if not isinstance(p.base, str):       # object reference
            return self.heap_load(st, p, ty, size)
        if ('sarr', 0, p.base) in st.ghost: p = self.struct_field(st, p, size)
        if p.base in st.objs:
            off = cint(p.off) if isint(p.off) else cint(z3.simplify(p.off))
            if not isint(off): raise Unsupported('symbolic offset into object %s' % p.base)
            c = st.objs[p.base]
            if off in c:
                s, v = c[off]
                if isinstance(v, Un): return v
                if s == size: return self.retype(st, v, ty)
                if s > size and isinstance(v, (I, B)) and ty[0] == 'i':
                    return self.trunc(st, v, ty[1])
            if any(o < off + size and off < o + s for o, (s, v) in c.items()): return self.pieces(st, c, off, size, ty, p)
            v = self.fresh_of(st, ty if ty != ('i', 1) else ('i', 8), '%s.%d' % (p.base.split('#')[0], off))
            c[off] = (size, v)
            return v if ty != ('i', 1) else self.trunc(st, v, 1)
        if p.base in st.bufs:
            if ty[0] == 'ptr': raise Unsupported('pointer load from byte buffer')
            v = self.read_bytes(st, p, size)
            if ty[0] == 'f': return F(ty[1], v)
            return B(ty[1], v) if ty[1] % 8 == 0 else self.trunc(st, B(size*8, v), ty[1])
        if p.base in st.tarr:
            esz, kind, arr = st.tarr[p.base]
            k = div_exact(p.off, esz)
            if k is None: raise Unsupported('inexact typed access')
            v = z3.Select(arr, zi(k))
            if kind == 'int': return I(ty[1], v) if ty[0] == 'i' else self.bad('typed load')
            if kind == 'ref': return self.as_ptr(st, v)
            if kind == 'bv' : return F(ty[1], v) if ty[0] == 'f' else B(ty[1], v)
            raise Unsupported('typed load kind ' + kind)
        raise Unsupported('load from unknown region %s' % (p.base,))
    def bad(self, m): raise Unsupported(m)
    def pieces(self, st, c, off, size, ty, p):
        """a load that straddles or splits the cells of an object: composed byte by byte"""
        out = []
        for k in range(off, off + size):
            for o, (s, v) in c.items():
                if o <= k < o + s:
                    if isinstance(v, (P, PI, Un, Agg)): raise Unsupported('byte of a pointer %s+%d' % (p.base, k))
                    b = to_bv(v, 8 * s)
                    if b.size() < 8 * s: b = z3.ZeroExt(8 * s - b.size(), b)
                    out.append(z3.Extract(8 * (k - o) + 7, 8 * (k - o), b)); break
            else:
                v = fresh_bv(8, 'b'); c[k] = (1, B(8, v)); out.append(v)
        b = z3.simplify(out[0] if len(out) == 1 else z3.Concat(*reversed(out)))
        if ty[0] == 'ptr': raise Unsupported('pointer from bytes')
        if ty[0] == 'f': return F(ty[1], b)
        return B(8 * size, b) if ty[1] == 8 * size else self.trunc(st, B(8 * size, b), ty[1])

    def read_bytes(self, st, p, n):
        a = st.bufs[p.base]
        bs = [z3.Select(a, zi(ladd(p.off, i))) for i in range(n)]
        return bs[0] if n == 1 else z3.Concat(*reversed(bs))

    def retype(self, st, v, ty):
        if ty[0] == 'ptr':
            if isinstance(v, P): return v
            if isinstance(v, PI): return P(v.base, v.off)
            if isinstance(v, I) and v.w == 64:
                return NULL if isint(v.t) and v.t == 0 else P(v.t, 0)
            raise Unsupported('retype to ptr')
        if ty[0] == 'f':
            return F(ty[1], to_bv(v)) if not isinstance(v, F) else v
        if isinstance(v, P): return PI(v.base, v.off)
        if isinstance(v, F): return B(v.w, v.t)
        if isinstance(v, Bo) and ty[1] > 1:
            return I(ty[1], z3.If(zbool(v.t), z3.IntVal(1), z3.IntVal(0)) if not isinstance(v.t, bool) else int(v.t))
        if ty[1] == 1 and not isinstance(v, Bo): return self.trunc(st, v, 1)
        return v

    def hkey(self, off, size): return (off, size)
    def heap_arr(self, st, key, rng=None):
        if key not in st.heap: st.heap[key] = z3.Const('H_%s_%s' % key, z3.ArraySort(z3.IntSort(), z3.IntSort() if rng is None else rng))
        return st.heap[key]
    def heap_load(self, st, p, ty, size):
        if not isint(p.off): raise Unsupported('symbolic offset via reference')
        if ty[0] == 'f' or (ty[0] == 'i' and ty[1] not in (64, 32, 8)): raise Unsupported('heap field type')
        v = z3.Select(self.heap_arr(st, (p.off, size)), p.base)
        return self.as_ptr(st, v) if ty[0] == 'ptr' else I(ty[1], v)

    def struct_field(self, st, p, size):
        """an access to field f of entry k of an array of structures: entry k of the array kept for that field"""
        stride, fields = st.ghost[('sarr', 0, p.base)]
        for f, r in fields.items():
            k = div_exact(lsub(p.off, f), stride)
            if k is not None and st.tarr[r][0] == size: return P(r, lmul(k, size))
        raise Unsupported('field of a structure at %s' % (p.off,))
    def store(self, st, p, v, ty, mod):
        ty = mod.ty(ty) if mod else ty
        size = mod.size(ty) if mod else llir_size(ty)
        if isinstance(p, P) and isinstance(p.base, str) and ('sarr', 0, p.base) in st.ghost: p = self.struct_field(st, p, size)
        if not isinstance(p, P): raise Unsupported('store via %r' % (p,))
        if p.base is None: raise Unsupported('store via null')
        if not isinstance(p.base, str):
            if not isint(p.off): raise Unsupported('symbolic offset via reference')
            key = (p.off, size)
            if isinstance(v, P): v = self.ref_of(v)
            else: v = to_int(v)
            st.heap[key] = z3.Store(self.heap_arr(st, key), p.base, zi(v)); st.writes.add(('heap', key)); return
        if p.base in st.objs:
            off = cint(p.off) if isint(p.off) else cint(z3.simplify(p.off))
            if not isint(off): raise Unsupported('symbolic offset store into object %s' % p.base)
            c = st.objs[p.base]
            for o in list(c):
                if o < off + size and off < o + c[o][0] and not (off <= o and o + c[o][0] <= off + size):
                    sz, old = c[o]
                    if isinstance(old, (P, PI, Agg)): raise Unsupported('partial store over a pointer')
                    del c[o]
                    if not isinstance(old, Un):
                        b = to_bv(old, 8 * sz)
                        if b.size() < 8 * sz: b = z3.ZeroExt(8 * sz - b.size(), b)
                        for k in range(sz): c[o + k] = (1, B(8, z3.simplify(z3.Extract(8 * k + 7, 8 * k, b)))); st.writes.add(('obj', p.base, o + k))
            for o in list(c):
                if o != off and off <= o < off + size: del c[o]
            c[off] = (size, v); st.writes.add(('obj', p.base, off)); return
        if p.base in st.bufs:
            if isinstance(v, (P, PI)): raise Unsupported('pointer store into byte buffer')
            bv = to_bv(v, size * 8)
            if bv.size() != size * 8: bv = z3.ZeroExt(size * 8 - bv.size(), bv)
            self.write_bytes(st, p, bv, size); return
        if p.base in st.tarr:
            esz, kind, arr = st.tarr[p.base]
            k = div_exact(p.off, esz)
            if k is None: raise Unsupported('inexact typed access')
            val = {'int': lambda: zi(to_int(v)), 'ref': lambda: zi(self.ref_of(v)), 'bv': lambda: to_bv(v)}[kind]()
            st.tarr[p.base] = (esz, kind, z3.Store(arr, zi(k), val)); st.writes.add(('tarr', p.base)); return
        raise Unsupported('store to unknown region %s' % (p.base,))

    def write_bytes(self, st, p, bv, n):
        a = st.bufs[p.base]
        for i in range(n):
            a = z3.Store(a, zi(ladd(p.off, i)), z3.simplify(z3.Extract(8*i+7, 8*i, bv)))
        st.bufs[p.base] = a; st.writes.add(('buf', p.base))

    def ref_of(self, v):
        """an Int naming the object a pointer refers to"""
        if isinstance(v, P):
            if v.base is None: return 0
            if not isinstance(v.base, str):
                if isint(v.off) and v.off == 0: return v.base
                raise Unsupported('interior reference')
            if isint(v.off) and v.off == 0: return self.region_ref(v.base)
        raise Unsupported('ref_of %r' % (v,))
    def as_ptr(self, st, v):
        t = z3.simplify(v)
        if z3.is_int_value(t) and t.as_long() == 0: return NULL
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.match(r'ref\((.*)\)$', t.decl().name())
            if m and m.group(1) in st.objs: return P(m.group(1), 0)
        return P(v, 0)
    def region_ref(self, base): return z3.Int('ref(%s)' % base)

    def memcpy(self, st, d, s, n, move=False):
        n = cint(n) if not isint(n) else n
        if isint(n) and n == 0: return
        if isinstance(d.base, str) and d.base in st.objs and isinstance(s.base, str) and s.base in st.objs:
            if not isint(n) or not isint(d.off) or not isint(s.off): raise Unsupported('symbolic struct copy')
            src = {o: c for o, c in st.objs[s.base].items() if s.off <= o < s.off + n}
            dst = st.objs[d.base]
            for o in list(dst):
                if d.off <= o < d.off + n: del dst[o]
            for o, c in src.items(): dst[o - s.off + d.off] = c; st.writes.add(('obj', d.base, o - s.off + d.off))
            for k in list(st.ghost):
                if k[0] == s.base and isint(k[1]) and s.off <= k[1] < s.off + n:
                    st.ghost[(d.base, k[1] - s.off + d.off) + k[2:]] = st.ghost[k]
            return
        if d.base in st.bufs and s.base in st.bufs:
            sa, da = st.bufs[s.base], st.bufs[d.base]
            if isint(n) and n <= 16:
                vals = [z3.Select(sa, zi(ladd(s.off, i))) for i in range(n)]
                for i in range(n): da = z3.Store(da, zi(ladd(d.off, i)), vals[i])
                st.bufs[d.base] = da
            else:
                j = z3.Int('j!%d' % next(_cnt))
                lo, hi = zi(d.off), zi(ladd(d.off, n))
                st.bufs[d.base] = z3.Lambda([j], z3.If(z3.And(j >= lo, j < hi), z3.Select(sa, j - lo + zi(s.off)), z3.Select(da, j)))
            st.writes.add(('buf', d.base)); return
        if isint(n) and d.base in st.objs and s.base in st.bufs and n in (1, 2, 4, 8):
            self.store(st, d, B(8*n, self.read_bytes(st, s, n)), ('i', 8*n), None); return
        if isint(n) and d.base in st.bufs and s.base in st.objs and isint(s.off):
            c = st.objs[s.base]
            if s.off in c and c[s.off][0] == n and not isinstance(c[s.off][1], (P, PI)):
                self.store(st, d, c[s.off][1], ('i', 8*n), None); return
        raise Unsupported('memcpy %r <- %r' % (d, s))

    def memset(self, st, d, val, n):
        n = cint(n) if not isint(n) else n
        if d.base in st.bufs:
            j = z3.Int('j!%d' % next(_cnt)); a = st.bufs[d.base]; v = to_bv(val)
            if v.size() > 8: v = z3.Extract(7, 0, v)
            st.bufs[d.base] = z3.Lambda([j], z3.If(z3.And(j >= zi(d.off), j < zi(ladd(d.off, n))), v, z3.Select(a, j)))
            st.writes.add(('buf', d.base)); return
        if d.base in st.objs and isint(n) and isint(d.off):
            for o in list(st.objs[d.base]):
                if d.off <= o < d.off + n: del st.objs[d.base][o]
            v = cint(to_int(val)) if not isinstance(val, Un) else None
            if v == 0:
                for o in range(d.off, d.off + n, 8):
                    if d.off + n - o >= 8: st.objs[d.base][o] = (8, I(64, 0)); st.writes.add(('obj', d.base, o))
                    else:
                        for q in range(o, d.off + n): st.objs[d.base][q] = (1, I(8, 0)); st.writes.add(('obj', d.base, q))
                return
        raise Unsupported('memset')

    # ---------------------------------------------------------- operands
    def val(self, fr, op, ty):
        k = op[0]
        if k == 'l':
            if op[1] not in fr.env: raise Unsupported('undefined %s' % op[1])
            return fr.env[op[1]]
        ty = fr.mod.ty(ty)
        if k == 'c':
            if ty == ('i', 1): return Bo(bool(op[1]))
            return I(ty[1], op[1])
        if k == 'fc': return F(ty[1], z3.BitVecVal(op[1], ty[1]))
        if k == 'null': return NULL
        if k == 'undef': return Un()
        if k == 'zero':
            if ty[0] == 'ptr': return NULL
            if ty[0] == 'i': return I(ty[1], 0)
            if ty[0] == 'f': return F(ty[1], z3.BitVecVal(0, ty[1]))
            return Agg({})
        if k == 'g': return self.glob(fr, op[1])
        if k == 'gep':
            return self.gep(fr, self.val(fr, op[2], ('ptr',)), op[1], [(t, self.val(fr, o, t)) for t, o in op[3]])
        raise Unsupported('operand %r' % (op,))

    def glob(self, fr, nm):
        return P('@G:%s:%d' % (nm, id(fr.mod) % 1000003), 0) if (nm.startswith('@.str') or nm.startswith('@"')) or nm not in self.prog.f else P('@F:' + nm, 0)

    def materialize_global(self, st, base, mod):
        """contents of a constant global table"""
        if base in st.bufs or base in st.objs: return True
        m = re.match(r'@G:(.*):\d+$', base)
        if not m: return False
        gi = mod.global_init(m.group(1))
        if not gi or gi[0] != 'constant': return False
        t = mod.ty(gi[1])
        if t[0] == 'arr' and mod.ty(t[2]) == ('i', 8):
            if gi[2][0] == 'str': data = llir.unescape(gi[2][1])
            elif gi[2][0] == 'agg': data = bytes((o[1] & 255) if o[0] == 'c' else 0 for _, o in gi[2][1])
            else: return False
            a = fresh_arr('G')
            for i, c in enumerate(data): a = z3.Store(a, i, z3.BitVecVal(c, 8))
            st.bufs[base] = a
            return True
        st.objs[base] = {}
        if gi[2][0] == 'c': st.objs[base][0] = (mod.size(t), I(t[1], gi[2][1]))
        elif gi[2][0] == 'fc': st.objs[base][0] = (mod.size(t), F(t[1], z3.BitVecVal(gi[2][1], t[1])))
        else: return False
        return True

    def cstring(self, p, mod):
        """python bytes of a string literal pointer, or None"""
        if not isinstance(p, P) or not isinstance(p.base, str) or not p.base.startswith('@G:'): return None
        m = re.match(r'@G:(.*):\d+$', p.base)
        gi = mod.global_init(m.group(1))
        if gi and gi[2][0] == 'str' and isint(p.off):
            d = llir.unescape(gi[2][1])[p.off:]
            return d.split(b'\0')[0]
        if gi and gi[2][0] == 'zero': return b''
        return None

    def gep(self, fr, base, st, idx):
        mod = fr.mod
        if not isinstance(base, P): raise Unsupported('gep on %r' % (base,))
        off = base.off; t = st
        for k, (ity, iv) in enumerate(idx):
            if k == 0:
                off = ladd(off, lmul(self.idx(iv), mod.size(t)))
            else:
                t = mod.ty(t)
                if t[0] == 'st':
                    o, t = mod.field_off(t, cint(iv.t)); off = ladd(off, o)
                elif t[0] in ('arr', 'vec'):
                    t = t[2]; off = ladd(off, lmul(self.idx(iv), mod.size(t)))
                else: raise Unsupported('gep type')
        return P(base.base, off)
    def idx(self, v):
        if isinstance(v, I): return v.t
        if isinstance(v, B): return to_int(v)
        raise Unsupported('gep index %r' % (v,))

    # ---------------------------------------------------------- integer operations
    def unsigned(self, st, v):
        t = v.t
        if isint(t): return t + (1 << v.w) if t < 0 else t
        if self.known(st, t >= 0, 200): return t
        return z3.If(t < 0, t + (1 << v.w), t)

    def trunc(self, st, v, w):
        if isinstance(v, Un): return v
        if isinstance(v, PI): raise Unsupported('trunc pointer')
        if isinstance(v, Bo): return v
        if w == 1:
            if isinstance(v, B): return Bo(simpb(z3.Extract(0, 0, v.t) == 1))
            if isint(v.t): return Bo(bool(v.t & 1))
            t = z3.simplify(v.t)
            if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)):
                a, b = t.arg(1).as_long() & 1, t.arg(2).as_long() & 1
                if a == b: return Bo(bool(a))
                return Bo(t.arg(0) if a else z3.Not(t.arg(0)))
            return Bo(simpb(t % 2 == 1))
        if isinstance(v, B): return B(w, z3.simplify(z3.Extract(w-1, 0, v.t)))
        if isint(v.t):
            x = v.t & ((1 << w) - 1)
            return I(w, x - (1 << w) if x >> (w-1) else x)
        if self.known(st, z3.And(v.t >= -(1 << (w-1)), v.t < (1 << (w-1)))): return I(w, v.t)
        r, q = fresh_int('bvtrunc' if has_bv2int(v.t) else 'trunc'), fresh_int('q')
        st.assume(z3.And(v.t == r + (1 << w) * q, r >= -(1 << (w-1)), r < (1 << (w-1))))
        return I(w, r)

    def ext(self, st, v, w, signed):
        if isinstance(v, Un): return v
        if isinstance(v, Bo):
            if w > 1:
                one = -1 if signed else 1
                if isinstance(v.t, bool): return I(w, one if v.t else 0)
                return I(w, z3.If(v.t, z3.IntVal(one), z3.IntVal(0)))
        if isinstance(v, B):
            return B(w, z3.simplify(z3.SignExt(w - v.w, v.t) if signed else z3.ZeroExt(w - v.w, v.t)))
        if isinstance(v, I): return I(w, v.t) if signed else I(w, self.unsigned(st, v))
        raise Unsupported('ext %r' % (v,))

    def binop(self, st, op, ty, a, b):
        if (isinstance(a, Un) or isinstance(b, Un)) and ty[0] == 'i' and ty[1] > 1 and op in ('and', 'or', 'xor', 'shl', 'lshr'):
            if isinstance(a, Un): a = B(ty[1], fresh_bv(ty[1], 'undef'))
            if isinstance(b, Un): b = B(ty[1], fresh_bv(ty[1], 'undef'))
        if isinstance(a, Un) or isinstance(b, Un): return Un()
        if op[0] == 'f':
            w = ty[1]
            if w not in FSORT: raise Unsupported('fp80')
            bv = z3.BitVecSort(w)
            return F(w, uf('%s%d' % (op, w), bv, bv, bv)(a.t, b.t))
        w = ty[1]
        if isinstance(a, Bo) or isinstance(b, Bo):
            x = a.t if isinstance(a, Bo) else bool(a.t & 1); y = b.t if isinstance(b, Bo) else bool(b.t & 1)
            if op == 'and': return Bo(simpb(band(x, y)))
            if op == 'or': return Bo(simpb(bor(x, y)))
            if op in ('xor', 'add', 'sub'):
                if isinstance(y, bool): return Bo(bnot(x) if y else x)
                if isinstance(x, bool): return Bo(bnot(y) if x else y)
                return Bo(z3.Xor(x, y))
            raise Unsupported('i1 ' + op)
        if isinstance(a, PI) or isinstance(b, PI):
            if op == 'sub' and isinstance(a, PI) and isinstance(b, PI):
                if self.same_base(a.base, b.base): return I(64, lsub(a.off, b.off))
                raise Unsupported('difference of pointers to different objects')
            if op == 'add' and isinstance(a, PI): return PI(a.base, ladd(a.off, to_int(b)))
            if op == 'sub' and isinstance(a, PI): return PI(a.base, lsub(a.off, to_int(b)))
            raise Unsupported('pointer arithmetic ' + op)
        bvops = op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr')
        if isinstance(a, I) and isinstance(b, I):
            x, y = a.t, b.t
            if self.opts.get('overflow') and op in ('add', 'sub', 'mul') and w < 64 and not (isint(x) and isint(y)):
                r_ = zi({'add': ladd, 'sub': lsub, 'mul': lmul}[op](x, y)); self.require(st, 'no overflow of %d-bit arithmetic' % w, z3.And(r_ >= -2 ** (w - 1), r_ < 2 ** (w - 1)))
            if op == 'add': return I(w, self.wrapc(ladd(x, y), w))
            if op == 'sub': return I(w, self.wrapc(lsub(x, y), w))
            if op == 'mul': return I(w, self.wrapc(lmul(x, y), w))
            if op in ('sdiv', 'srem', 'udiv', 'urem'):
                if op[0] == 'u': x, y = self.unsigned(st, a), self.unsigned(st, b)
                if isint(x) and isint(y):
                    if y == 0: return Un()
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    return I(w, q if op[1:] == 'div' else x - q * y)
                if op[0] == 's' and isint(y) and y > 0:
                    e = div_exact(x, y)
                    if e is not None: return I(w, e if op == 'sdiv' else 0)
                self.nonzero(st, y)
                xx, yy = zi(x), zi(y)
                if op[0] == 'u' or self.known(st, z3.And(xx >= 0, yy > 0)):
                    return I(w, cint(z3.simplify(xx / yy if op[1:] == 'div' else xx % yy)))
                ax, ay = z3.If(xx >= 0, xx, -xx), z3.If(yy >= 0, yy, -yy)
                q = z3.If((xx >= 0) == (yy >= 0), ax / ay, -(ax / ay))
                return I(w, q if op == 'sdiv' else xx - q * yy)
            if bvops:
                if isint(x) and isint(y):
                    ux, uy = x & ((1 << w) - 1), y & ((1 << w) - 1)
                    r = {'and': ux & uy, 'or': ux | uy, 'xor': ux ^ uy, 'shl': (ux << uy), 'lshr': ux >> uy, 'ashr': x >> uy}[op] & ((1 << w) - 1)
                    return I(w, r - (1 << w) if r >> (w-1) else r)
                if op == 'shl' and isint(y): return I(w, lmul(x, 1 << y))
                if op == 'ashr' and isint(y): return I(w, zi(x) / (1 << y))
                if op == 'lshr' and isint(y): return I(w, zi(self.unsigned(st, a)) / (1 << y))
                if op == 'and' and isint(y) and y > 0 and (y & (y+1)) == 0: return I(w, zi(x) % (y + 1))
                if op == 'xor' and isint(y) and y == -1: return I(w, -zi(x) - 1)
        elif isinstance(a, I) and not isint(a.t) or isinstance(b, I) and not isint(b.t):
            if not bvops:
                return self.binop(st, op, ty, I(w, to_int(a)), I(w, to_int(b)))
        x, y = to_bv(a, w), to_bv(b, w)
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'sdiv': lambda: x / y, 'udiv': lambda: z3.UDiv(x, y),
             'srem': lambda: z3.SRem(x, y), 'urem': lambda: z3.URem(x, y), 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y),
             'ashr': lambda: x >> y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[op]
        return B(w, z3.simplify(f()))
    def wrapc(self, t, w):
        if isint(t):
            t &= (1 << w) - 1
            return t - (1 << w) if t >> (w-1) else t
        return t
    def nonzero(self, st, y):
        self.require(st, 'division by non-zero', zi(y) != 0)

    def same_base(self, a, b):
        if isinstance(a, str) or isinstance(b, str): return isinstance(a, str) and isinstance(b, str) and a == b
        if a is None or b is None: return a is b
        return a.eq(b)

    def ptr_eq(self, st, a, b):
        if isinstance(a, Un) or isinstance(b, Un): return fresh_bool('undefcmp')
        an, bn = a.base is None, b.base is None
        if an and bn: return simpb(zi(a.off) == zi(b.off))
        if self.same_base(a.base, b.base): return simpb(zi(a.off) == zi(b.off))
        if an or bn:
            o = b if an else a
            if isinstance(o.base, str):
                nn = st.ghost.get((o.base, 0, 'maybe_null'))
                return nn if nn is not None else False
            return simpb(o.base == 0) if isint(o.off) and o.off == 0 else False
        if isinstance(a.base, str) and isinstance(b.base, str): return False
        if not isinstance(a.base, str) and not isinstance(b.base, str) and isint(a.off) and isint(b.off) and a.off == b.off:
            return simpb(a.base == b.base)
        try:
            return simpb(zi(self.ref_of(a)) == zi(self.ref_of(b)))
        except Unsupported:
            raise Unsupported('pointer comparison %r %r' % (a, b))

    def icmp(self, st, pred, a, b):
        if isinstance(a, Un) or isinstance(b, Un): return Bo(fresh_bool('undefcmp'))
        if isinstance(a, P) or isinstance(b, P):
            if pred in ('eq', 'ne'):
                e = self.ptr_eq(st, a, b)
                return Bo(e if pred == 'eq' else bnot(e))
            if not self.same_base(a.base, b.base): raise Unsupported('ordered pointer comparison')
            a, b = I(64, a.off), I(64, b.off)
        if isinstance(a, PI) and isinstance(b, PI) and self.same_base(a.base, b.base):
            a, b = I(64, a.off), I(64, b.off)
        elif isinstance(a, PI) or isinstance(b, PI):
            if pred in ('eq', 'ne') and isinstance(a, PI) and isinstance(b, I) and isint(b.t) and b.t == 0:
                e = self.ptr_eq(st, P(a.base, a.off), NULL); return Bo(e if pred == 'eq' else bnot(e))
            raise Unsupported('icmp on pointer ints')
        if isinstance(a, Bo) or isinstance(b, Bo):
            x, y = zbool(a.t) if isinstance(a, Bo) else z3.BoolVal(bool(a.t)), zbool(b.t) if isinstance(b, Bo) else z3.BoolVal(bool(b.t))
            if pred == 'eq': return Bo(simpb(x == y))
            if pred == 'ne': return Bo(simpb(x != y))
            raise Unsupported('i1 compare')
        if isinstance(a, B) or isinstance(b, B):
            if (isinstance(a, I) and not isint(a.t)) or (isinstance(b, I) and not isint(b.t)):
                a, b = I(a.w, to_int(a)), I(b.w, to_int(b))
            else:
                x, y = to_bv(a), to_bv(b)
                f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y,
                     'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[pred]
                return Bo(simpb(f()))
        if pred[0] == 'u' : x, y = self.unsigned(st, a), self.unsigned(st, b)
        else: x, y = a.t, b.t
        p = pred[1:] if pred not in ('eq', 'ne') else pred
        if isint(x) and isint(y):
            return Bo({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
        x, y = zi(x), zi(y)
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[p]
        return Bo(simpb(f()))

    def fcmp(self, pred, a, b):
        if isinstance(a, Un) or isinstance(b, Un): return Bo(fresh_bool('undefcmp'))
        if a.w not in FSORT: raise Unsupported('fp80')
        x, y = fp(a), fp(b)
        if pred == 'true': return Bo(True)
        if pred == 'false': return Bo(False)
        nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == 'ord': return Bo(simpb(z3.Not(nan)))
        if pred == 'uno': return Bo(simpb(nan))
        base = {'eq': lambda: z3.fpEQ(x, y), 'ne': lambda: z3.And(z3.Not(nan), z3.Not(z3.fpEQ(x, y))), 'lt': lambda: z3.fpLT(x, y), 'le': lambda: z3.fpLEQ(x, y),
                'gt': lambda: z3.fpGT(x, y), 'ge': lambda: z3.fpGEQ(x, y)}[pred[1:]]()
        return Bo(simpb(z3.Or(nan, base) if pred[0] == 'u' else base))

    def fcast(self, op, v, src, dst):
        """conversions are uninterpreted functions of the exact operand bits (never evaluated)"""
        if isinstance(v, Un): return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, I) and not isint(v.t):
                return F(dst[1], uf('%s_Int_%d' % (op, dst[1]), z3.IntSort(), z3.BitVecSort(dst[1]))(v.t))
            x = to_bv(v)
            if z3.is_bv_value(z3.simplify(x)):
                xv = z3.simplify(x)
                n = xv.as_signed_long() if op == 'sitofp' else xv.as_long()
                f = z3.simplify(z3.fpToIEEEBV(z3.fpToFP(z3.RNE(), z3.RealVal(n), FSORT[dst[1]])))
                return F(dst[1], f)
            if x.size() < 64:      # exact: widen first, so that equal values convert equally whatever the source width
                x = z3.simplify(z3.SignExt(64 - x.size(), x) if op == 'sitofp' else z3.ZeroExt(64 - x.size(), x)); op = 'sitofp'
            return F(dst[1], uf('%s_%d_%d' % (op, x.size(), dst[1]), x.sort(), z3.BitVecSort(dst[1]))(x))
        if op in ('fptosi', 'fptoui'):
            return B(dst[1], uf('%s_%d_%d' % (op, v.w, dst[1]), v.t.sort(), z3.BitVecSort(dst[1]))(v.t))
        if dst[1] == 80 or v.w == 80: raise Unsupported('fp80')
        return F(dst[1], uf('%s_%d_%d' % (op, v.w, dst[1]), v.t.sort(), z3.BitVecSort(dst[1]))(v.t))

    def ite(self, st, c, a, b, ty):
        """None if a fork is needed"""
        if isinstance(c, bool): return a if c else b
        if isinstance(a, Un): return b
        if isinstance(b, Un): return a
        if isinstance(a, Bo) and isinstance(b, Bo): return Bo(simpb(z3.If(c, zbool(a.t), zbool(b.t))))
        if isinstance(a, F) and isinstance(b, F): return F(a.w, z3.If(c, a.t, b.t))
        if isinstance(a, I) and isinstance(b, I): return I(a.w, z3.If(c, zi(a.t), zi(b.t)))
        if isinstance(a, (I, B)) and isinstance(b, (I, B)):
            if (isinstance(a, I) and not isint(a.t)) or (isinstance(b, I) and not isint(b.t)):
                return I(a.w, z3.If(c, zi(to_int(a)), zi(to_int(b))))
            return B(a.w, z3.If(c, to_bv(a), to_bv(b)))
        return None
def llir_size(ty): return {'i': lambda: max(1, ty[1] // 8), 'f': lambda: ty[1] // 8, 'ptr': lambda: 8}[ty[0]]()
