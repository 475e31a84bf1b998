"""C11: comparing trees, schemas and arrays tells exactly whether they differ."""
from nod import *
from props.C10 import N, S, STD, sel, nop, c_path
UNITS = ['libs/conduit/conduit_node.cpp', 'libs/conduit/conduit_schema.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_utils.cpp', 'libs/conduit/conduit_endianness.cpp', 'libs/conduit/conduit_node_iterator.cpp', 'libs/conduit/conduit_data_array.cpp', 'libs/conduit/conduit_data_accessor.cpp', 'probe/probe_core.cpp']
FUNCS = []
CONTRACTS = {S + 'path() const': c_path, N + 'path() const': c_path, S + '~Schema()': nop, N + '~Node()': nop}
LEAVES = list(range(3, 14))
# --- schemas
REL = lambda n: z3.Function(n, INT, INT, BOOL)
def c_rel(F, sym):
    def c(ex, st, a, ins, fr):
        if isinstance(a[0].base, str): return None
        x, y = zi(ex.ref_of(a[0])), zi(ex.ref_of(a[1]))
        if sym: st.assume(F(x, y) == F(y, x))       # the specification is symmetric in its two operands
        return [('ret', st, Bo(F(x, y)))]
    return c
def s_sch(ia, ib):
    def s(h):
        a, b = HSchema(h, hint='a', id=ia), HSchema(h, hint='b', id=ib); h.v['a'], h.v['b'] = a, b
        for o in (a, b):
            if o.id not in (1, 2) and o.id: h.assume(o.f['num_ele'] >= 0)
        return [a.p, b.p]
    return s
def holds(nm, F, a, b):
    """the relation, by definition"""
    x, i = z3.Ints('y? i?'); A, B = a.pre, b.pre
    if a.id != b.id: return z3.BoolVal(False)
    if a.id == 1:
        both = z3.And(sel(A.dom, x), sel(B.dom, x)); rel = F(sel(A.ch, sel(A.mp, x)), sel(B.ch, sel(B.mp, x)))
        if nm == 'equals': return z3.ForAll([x], z3.And(sel(A.dom, x) == sel(B.dom, x), z3.Implies(both, rel)), patterns=[sel(A.dom, x), sel(B.dom, x)])
        return z3.ForAll([x], z3.Implies(both, rel), patterns=[z3.MultiPattern(sel(A.dom, x), sel(B.dom, x))])
    if a.id == 2:
        each = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < B.n), F(sel(A.ch, i), sel(B.ch, i))), patterns=[sel(A.ch, i), sel(B.ch, i)])
        return z3.And(A.n == B.n if nm == 'equals' else A.n >= B.n, each)
    f, g = a.f, b.f
    if nm == 'equals': return z3.And(*[f[n] == g[n] for n in DT])
    return z3.And(f['ele_bytes'] == g['ele_bytes'], f['num_ele'] >= g['num_ele'])
def sch_tpl(nm, F):
    def t(ex, loop, hv):
        h = ex.h; a, b = h.v['a'], h.v['b']; i, y = z3.Ints('i? y?'); out = []
        if a.id == 2:
            A, B = a.pre, b.pre; okl = lambda v: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.it), F(sel(A.ch, i), sel(B.ch, i))), patterns=[sel(A.ch, i), sel(B.ch, i)])
            for r, x in hv.phis.items():
                if isinstance(x, (Bo, I)): out.append(('entries seen agree, unless a difference was found', lambda v, r=r: z3.And(z3.Implies(tr(v.phis[r]), okl(v)), z3.Or(tr(v.phis[r]), z3.And(v.it >= 1, v.it <= B.n, z3.Not(F(sel(A.ch, v.it - 1), sel(B.ch, v.it - 1))))))))
            return out
        A, B = a.pre, b.pre
        def one(x): return z3.And(z3.Implies(z3.And(sel(A.dom, x), sel(B.dom, x)), F(sel(A.ch, sel(A.mp, x)), sel(B.ch, sel(B.mp, x)))), sel(A.dom, x) == sel(B.dom, x) if nm == 'equals' else True)
        for k, v_ in hv.st.ghost.items():
            if not (isinstance(k[0], str) and k[-1] == 'enum'): continue
            E = v_[1]; n = v_[2]
            for r, x in hv.phis.items():
                if isinstance(x, (Bo, I)):
                    out.append(('names seen agree, unless a difference was found', lambda v, r=r, E=E, n=n: z3.And(v.it <= n, z3.Implies(tr(v.phis[r]), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.it), one(sel(E, i))), patterns=[sel(E, i)])), z3.Implies(z3.Not(tr(v.phis[r])), z3.And(v.it >= 1, z3.Not(one(sel(E, v.it - 1))))))))
                    out.append(('no difference so far', lambda v, r=r, E=E: z3.Implies(tr(v.phis[r]), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.it), one(sel(E, i))), patterns=[sel(E, i)]))))
                    # a loop that starts after a difference was found does not run
                    out.append(('a difference found is real', lambda v, r=r: z3.Implies(z3.Not(tr(v.phis[r])), z3.Not(holds(nm, F, a, b)))))
        return out
    return t
def tr(x): return zbool(x.t) if isinstance(x, Bo) else zi(to_int(x)) != 0
def p_sch(nm, F):
    def p(h, st, v):
        a, b = h.v['a'], h.v['b']; g = [('true exactly when the two agree by definition', zbool(v.t) == holds(nm, F, a, b))]
        for o in (a, b):
            if o.pre is not None: g.append(same_kids(o.pre, o.now(st), 'neither is changed'))
        return g
    return p
for nm in ('equals', 'compatible'):
    RF = REL('sch_' + nm); sig = S + nm + '(conduit::Schema const&) const'
    for ia, ib in [(1, 1), (2, 2), (0, 0), (1, 2), (2, 1), (0, 1), (6, 1), (1, 6), (6, 5)] + [(k, k) for k in LEAVES]:
        FUNCS.append(Fn(sig, s_sch(ia, ib), p_sch(nm, RF), templates=[sch_tpl(nm, RF)] if ia == ib and ia in (1, 2) else [], contracts={sig: c_rel(RF, nm == 'equals')}, opts={'recursive': 1}, label=S + '%s: %s with %s' % (nm, NAMES[ia], NAMES[ib])))
# --- arrays of one type
DA = 'conduit::DataArray<%s>::'
STRT = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
def key(s): return s.replace('@STR', STRT)
def c_self(ex, st, a, ins, fr): return [('ret', st, a[0])]
def c_dptr(ex, st, a, ins, fr):
    b = 'M_info'
    if b not in st.bufs: st.bufs[b] = z3.Const(b, z3.ArraySort(INT, z3.BitVecSort(8)))
    return [('ret', st, P(b, 0))]
def c_valid(ex, st, a, ins, fr):
    st.ghost[('verdict', 0, 'b')] = zbool(a[1].t) if isinstance(a[1], Bo) else zi(to_int(a[1])) != 0; st.writes.add(('ghost', ('verdict', 0, 'b'))); return [('ret', st, None)]
INFO = {N + 'reset()': nop, key('conduit::utils::log::error(conduit::Node&, @STR const&, @STR const&)'): nop, 'conduit::utils::log::validation(conduit::Node&, bool)': c_valid,
        key(N + 'operator[](@STR const&)'): c_self, N + 'set(conduit::DataType const&)': nop, N + 'data_ptr()': c_dptr}
ANY = z3.Function('any_bad', INT, BOOL)
def mono(h):
    i, j = z3.Ints('i? j?'); h.assume(z3.Not(ANY(0)), z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, ANY(i)), ANY(j)), patterns=[z3.MultiPattern(ANY(i), ANY(j))]))     # by induction, from its definition
def bad(h, t, a, b, k):
    x, y = a.pre_elem(k, t), b.pre_elem(k, t)
    if t.kind != 'f': return x != y
    ex = h.ex; d = ex.binop(h.st, 'fsub', ('f', t.bits), F(t.bits, x), F(t.bits, y))
    if t.bits == 32: d = ex.fcast('fpext', d, ('f', 32), ('f', 64))
    e = h.v['eps']; ne = F(64, e.t ^ z3.BitVecVal(1 << 63, 64)); nan = lambda z: zbool(ex.fcmp('uno', F(t.bits, z), F(t.bits, z)).t)
    return z3.Or(zbool(ex.fcmp('ogt', d, e).t), zbool(ex.fcmp('olt', d, ne).t), nan(x) != nan(y))
def s_ad(t):
    def s(h):
        a, b = Arr(h, 'self', t), Arr(h, 'other', t); h.v['a'], h.v['b'] = a, b; e, _ = h.fl('epsilon', 64); h.v['eps'] = e; i = h.obj('info'); mono(h)
        return [a.p, b.p, P(i, 0), e]
    return s
def any_hook(t):
    def k(ex, v):
        h = ex.h; return [ANY(v.it + 1) == z3.Or(ANY(v.it), bad(h, t, h.v['a'], h.v['b'], v.it))]
    return k
def flag(x, want):
    if isinstance(x, Bo): return zbool(x.t) == want
    if isinstance(x, (I, B)): return zi(to_int(x)) == z3.If(want, 1, 0)
    return None
def any_tpl(ex, loop, hv):
    out = []
    for r, x in hv.phis.items():
        if isinstance(x, (Bo, I)): out.append(('some difference was seen', lambda v, r=r: flag(v.phis[r], ANY(v.it))))
    for o, c in hv.st.objs.items():
        for k, (sz, x) in c.items():
            if sz == 1 and str(o).startswith('stk'): out.append(('some difference was seen', lambda v, o=o, k=k: flag(v.st.objs[o][k][1], ANY(v.it))))
    return out
def p_ad(t, comp):
    def p(h, st, v):
        a, b = h.v['a'], h.v['b']; r = tr(v)
        return [('differs exactly when the counts are wrong or some element differs', r == z3.Or(a.n > b.n if comp else a.n != b.n, ANY(a.n))),
                ('the report records the verdict', st.ghost[('verdict', 0, 'b')] == z3.Not(r)), a.unchanged_desc(st), b.unchanged_desc(st),
                ('the data is unchanged', z3.And(z3.Select(a.now(st), z3.Int('ob!')) == z3.Select(a.pre, z3.Int('ob!')), z3.Select(b.now(st), z3.Int('ob!')) == z3.Select(b.pre, z3.Int('ob!'))))]
    return p
for t in TYS:
    for nm in ('diff', 'diff_compatible'):
        FUNCS.append(Fn(DA % t.cpp + nm + '(conduit::DataArray<%s> const&, conduit::Node&, double) const' % t.cpp, s_ad(t), p_ad(t, nm != 'diff'), templates=[any_tpl], hooks=[any_hook(t)], contracts=INFO))

# --- text
CSTR = z3.Function('cstr', z3.ArraySort(INT, z3.BitVecSort(8)), INT, INT); PREFIX = REL('is_prefix_of'); CLEN = z3.Function('c_strlen', INT, INT)
def cs(st, p):
    if not isinstance(p, P) or p.base not in st.bufs: raise Unsupported('C string at %r' % (p,))
    return CSTR(st.bufs[p.base], zi(p.off))
def c_strcmp(ex, st, a, ins, fr):
    r = fresh_int('strcmp'); st.assume((r == 0) == (cs(st, a[0]) == cs(st, a[1]))); return [('ret', st, I(32, r))]
def c_strlen(ex, st, a, ins, fr):
    r = CLEN(cs(st, a[0])); st.assume(r >= 0); return [('ret', st, I(64, r))]
def c_strncmp(ex, st, a, ins, fr):
    x, y = cs(st, a[0]), cs(st, a[1]); n = zi(to_int(a[2])); r = fresh_int('strncmp')
    st.assume(z3.And(z3.Implies(n == CLEN(x), (r == 0) == PREFIX(x, y)), z3.Implies(n == CLEN(y), (r == 0) == PREFIX(y, x)))); return [('ret', st, I(32, r))]
def c_strstr(ex, st, a, ins, fr):
    y, x = cs(st, a[0]), cs(st, a[1]); k = fresh_int('strstr'); st.assume(z3.And(k >= 0, (k == 0) == PREFIX(x, y))); s2 = st.copy(); s2.assume(z3.Not(PREFIX(x, y)))
    return [('ret', st, P(a[0].base, ladd(a[0].off, k))), ('ret', s2, NULL)]
def c_compact(ex, st, a, ins, fr):
    """the bytes of the elements, packed (proved in C04): the text is the text of the array"""
    o = [x for x in (ex.h.v['a'], ex.h.v['b']) if isinstance(a[0], P) and a[0].base == x.obj][0]; b = a[1].base
    if b in st.objs: st.objs.pop(b)
    st.bufs[b] = z3.Const('packed_%d' % next(ex.rname), z3.ArraySort(INT, z3.BitVecSort(8))); st.writes.add(('buf', b)); st.assume(CSTR(st.bufs[b], 0) == text_of(o)); return [('ret', st, None)]
def text_of(o): return z3.Int('text.' + o.obj)
CS = {'strcmp': c_strcmp, 'strlen': c_strlen, 'strncmp': c_strncmp, 'strstr': c_strstr, DA % 'char' + 'compact_elements_to(unsigned char*) const': c_compact}
CHAR = Ty('char8_str', 'char', 's', 8, 13)
def s_txt(h):
    r = s_ad(CHAR)(h); x, y = z3.Ints('x? y?')
    h.assume(z3.ForAll([x, y], z3.Implies(PREFIX(x, y), CLEN(x) <= CLEN(y)), patterns=[PREFIX(x, y)]))
    for o in (h.v['a'], h.v['b']): h.assume(z3.Implies(z3.Or(o.n == 1, z3.And(o.n > 0, o.stride == 1)), CSTR(o.pre, o.off) == text_of(o)), o.f['ele_bytes'] == 1, o.stride >= 1, o.off >= 0)
    return r
def p_txt(comp):
    def p(h, st, v):
        a, b = h.v['a'], h.v['b']; r = tr(v); x, y = text_of(a), text_of(b)
        return [('differs exactly when the texts differ (an empty buffer is not an empty text)', r == z3.If(z3.And(a.n == 0, b.n == 0), False, z3.If(z3.Or(a.n == 0, b.n == 0), True, z3.Not(PREFIX(x, y) if comp else x == y)))),
                ('the report records the verdict', st.ghost[('verdict', 0, 'b')] == z3.Not(r)), a.unchanged_desc(st), b.unchanged_desc(st)]
    return p
for nm in ('diff', 'diff_compatible'):
    FUNCS.append(Fn(DA % 'char' + nm + '(conduit::DataArray<char> const&, conduit::Node&, double) const', s_txt, p_txt(nm != 'diff'), contracts=dict(INFO, **CS)))
# --- nodes
DIFF = lambda nm: z3.Function('node_' + nm, INT, INT, z3.BitVecSort(64), BOOL, BOOL)
def c_ndiff(D):
    def c(ex, st, a, ins, fr):
        if isinstance(a[0].base, str): return None
        return [('ret', st, Bo(D(zi(ex.ref_of(a[0])), zi(ex.ref_of(a[1])), a[3].t, tr(a[4]))))]
    return c
NINFO = dict(INFO); NINFO.update({N + 'append()': c_self, key(N + 'add_child(@STR const&)'): c_self, key(N + 'set(@STR const&)'): nop, N + 'set(long)': nop, key(N + 'operator[](char const*)'): c_self})
def nargs(h, a, b):
    e, _ = h.fl('epsilon', 64); h.v['eps'] = e; i = h.obj('info'); h.v['rx'] = z3.Bool('relaxint'); h.v['a'], h.v['b'] = a, b
    return [a.p, b.p, P(i, 0), e, Bo(h.v['rx'])]
def s_nd(ia, ib):
    def s(h): return nargs(h, HNode(h, 'self', id=ia), HNode(h, 'other', id=ib))
    return s
def nsame(h, D, comp):
    """no difference, by definition"""
    a, b = h.v['a'], h.v['b']; A, B = a.schema.pre, b.schema.pre; i, x = z3.Ints('i? y?'); d = lambda p, q: z3.Not(D(p, q, h.v['eps'].t, h.v['rx']))
    if a.id != b.id: return z3.BoolVal(False)
    if a.id == 0: return z3.BoolVal(True)
    if a.id == 1:
        def one(x): return z3.And(z3.Implies(sel(A.dom, x), sel(B.dom, x)) if comp else sel(A.dom, x) == sel(B.dom, x), z3.Implies(z3.And(sel(A.dom, x), sel(B.dom, x)), d(sel(a.ch, sel(A.mp, x)), sel(b.ch, sel(B.mp, x)))))
        h.v['one'] = one; return z3.ForAll([x], one(x), patterns=[sel(A.dom, x), sel(B.dom, x)])
    def one(i): return d(sel(a.ch, i), sel(b.ch, i))
    h.v['one'] = one; return z3.And(a.n <= b.n if comp else a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n, i < b.n), one(i)), patterns=[sel(a.ch, i), sel(b.ch, i)]))
def nd_tpl(D, comp):
    def t(ex, loop, hv):
        h = ex.h; a, b = h.v['a'], h.v['b']; same = nsame(h, D, comp); one = h.v['one']; i = z3.Int('i?'); out = []
        def each(ar, n): return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), one(sel(ar, i)) if ar is not None else one(i)), patterns=[sel(ar, i)] if ar is not None else [sel(a.ch, i), sel(b.ch, i)])
        for r, x in hv.phis.items():
            if not isinstance(x, (Bo, I)) or (isinstance(x, I) and x.w > 8): continue
            T = lambda v, r=r: tr(v.phis[r])
            if not isinstance(x, Bo): out.append(('a truth value', lambda v, r=r: z3.And(zi(to_int(v.phis[r])) >= 0, zi(to_int(v.phis[r])) <= 1)))
            out.append(('a difference found is real', lambda v, T=T: z3.Implies(T(v), z3.Not(same))))
            if a.id == 1:
                A, B = a.schema.pre, b.schema.pre
                out.append(('names of this node seen so far agree', lambda v, T=T: z3.Or(T(v), each(A.order, v.it))))
                out.append(('names of the other node seen so far agree', lambda v, T=T: z3.Or(T(v), each(B.order, v.it))))
                out.append(('all names of this node agree', lambda v, T=T: z3.Or(T(v), each(A.order, A.n))))
                out.append(('all names of the other node agree', lambda v, T=T: z3.Or(T(v), each(B.order, B.n))))
            else:
                m = z3.If(a.n < b.n, a.n, b.n)
                out.append(('entries seen so far agree', lambda v, T=T: z3.Or(T(v), each(None, v.it))))
                out.append(('all common entries agree', lambda v, T=T: z3.Or(T(v), each(None, m))))
                out.append(('every extra entry is a difference', lambda v, T=T: z3.Or(T(v), v.it == 0)))
        return out
    return t
def p_nd(D, comp):
    def p(h, st, v):
        a, b = h.v['a'], h.v['b']; r = tr(v)
        g = [('differs exactly when the trees differ by definition', r == z3.Not(nsame(h, D, comp))), ('the report records the verdict', st.ghost[('verdict', 0, 'b')] == z3.Not(r))]
        for o in (a, b):
            g.append(o.same_nodes(st))
            if o.schema.pre is not None: g.append(same_kids(o.schema.pre, o.schema.now(st), 'neither is changed'))
        return g
    return p
SIG = lambda nm: N + nm + '(conduit::Node const&, conduit::Node&, double, bool) const'
for nm in ('diff', 'diff_compatible'):
    D = DIFF(nm); cs_ = dict(NINFO); cs_[SIG(nm)] = c_ndiff(D); comp = nm != 'diff'
    for ia, ib in [(1, 1), (2, 2), (0, 0), (1, 2), (2, 1), (0, 1), (1, 0), (6, 1), (2, 6), (0, 6), (6, 0), (13, 6), (6, 12), (12, 11), (13, 2)]:
        FUNCS.append(Fn(SIG(nm), s_nd(ia, ib), p_nd(D, comp), templates=[nd_tpl(D, comp)] if ia == ib and ia in (1, 2) else [], contracts=cs_, opts={'recursive': 1}, label=N + '%s: %s with %s' % (nm, NAMES[ia], NAMES[ib])))
# leaves of one type: the typed comparison of the two views
LD = z3.Bool('views_differ')
def c_ldiff(ex, st, a, ins, fr):
    h = ex.h; ok = []
    for p, o in ((a[0], h.v['a']), (a[1], h.v['b'])):
        d = ex.load(st, P(p.base, p.off), ('ptr',), None); f = dt_fields(ex, st, P(p.base, ladd(p.off, 8)))
        ok.append(z3.And(isinstance(d, P) and d.base == o.buf and zi(d.off) == 0, *[f[n] == o.f[n] for n in DT]))
    st.ghost[('verdict', 0, 'views')] = z3.And(a[3].t == h.v['eps'].t, *ok); st.writes.add(('ghost', ('verdict', 0, 'views'))); st.ghost[('verdict', 0, 'b')] = z3.Not(LD); return [('ret', st, Bo(LD))]
def s_nl(i): return lambda h: nargs(h, NodeObj(h, 'self', id=z3.IntVal(i)), NodeObj(h, 'other', id=z3.IntVal(i)))
def p_nl(h, st, v):
    r = tr(v); return [('the views of exactly these two leaves are compared', st.ghost.get(('verdict', 0, 'views'), False)), ('their verdict is returned', r == LD), ('the report records the verdict', st.ghost[('verdict', 0, 'b')] == z3.Not(r)), h.v['a'].desc_unchanged(st), h.v['b'].desc_unchanged(st)]
for nm in ('diff', 'diff_compatible'):
    for t in TYS + [CHAR]:
        c = dict(NINFO); c[DA % t.cpp + nm + '(conduit::DataArray<%s> const&, conduit::Node&, double) const' % t.cpp] = c_ldiff
        FUNCS.append(Fn(SIG(nm), s_nl(t.id), p_nl, contracts=c, label=N + '%s: two %s leaves' % (nm, t.name)))
# relaxed integers: values of any two integer types
def wide(t, x): return (z3.SignExt if t.kind == 's' else z3.ZeroExt)(72 - t.bits, x)
def s_rx(t, u):
    def s(h): mono(h); return nargs(h, NodeObj(h, 'self', id=z3.IntVal(t.id)), NodeObj(h, 'other', id=z3.IntVal(u.id)))
    return s
def rx_hook(t, u):
    def k(ex, v): h = ex.h; return [ANY(v.it + 1) == z3.Or(ANY(v.it), wide(t, h.v['a'].pre_elem(v.it, t)) != wide(u, h.v['b'].pre_elem(v.it, u)))]
    return k
def rx_tpl(ex, loop, hv): return any_tpl(ex, loop, hv) + [('nothing found so far', lambda v: z3.Not(ANY(v.it)))]
def p_rx(comp):
    def p(h, st, v):
        a, b = h.v['a'], h.v['b']; r = tr(v)
        return [('differs exactly when not relaxed, or the counts are wrong, or some value differs', r == z3.Or(z3.Not(h.v['rx']), a.n > b.n if comp else a.n != b.n, ANY(a.n))), ('the report records the verdict', st.ghost[('verdict', 0, 'b')] == z3.Not(r)), a.desc_unchanged(st), b.desc_unchanged(st)]
    return p
INTS = [t for t in TYS if t.kind != 'f']
for nm in ('diff', 'diff_compatible'):
    for t in INTS:
        for u in INTS:
            if t is not u: FUNCS.append(Fn(SIG(nm), s_rx(t, u), p_rx(nm != 'diff'), templates=[rx_tpl], hooks=[rx_hook(t, u)], contracts=NINFO, opts={} if (INTS.index(u) - INTS.index(t)) % 8 in (1, 4, 7) or nm == 'diff' and t.bits == 64 else {'thorough': 1}, label=N + '%s: %s against %s leaves' % (nm, t.name, u.name)))
def any_lemma():
    i, j, n = z3.Ints('i j n'); bd = z3.Function('bad', INT, BOOL); some = lambda n: z3.Exists([j], z3.And(j >= 0, j < n, bd(j)))
    yield 'the running verdict starts as nothing found', [z3.Not(ANY(0))], ANY(0) == some(0)
    yield 'the running verdict is: some element differs', [i >= 0, ANY(i) == some(i), ANY(i + 1) == z3.Or(ANY(i), bd(i))], ANY(i + 1) == some(i + 1)
    yield 'the running verdict is monotone', [i >= 0, i <= n, z3.Implies(ANY(i), ANY(n)), ANY(n + 1) == z3.Or(ANY(n), bd(n))], z3.Implies(ANY(i), ANY(n + 1))
FUNCS.append(Lemma('the running verdict means that some element differs', any_lemma))
DRIVER = 'd_C11.cpp'
DRIVER_SCOPE = 'diff, diff_compatible, Schema::equals and Schema::compatible, in both directions, on random trees and mutated copies in other layouts, and on edge values of every pair of integer types, under AddressSanitizer'
DRIVER_BOUND = '6000 random pairs up to depth 4 and 10816 integer pairs (x8 random pairs in the thorough tier)'
ASSUMES = ['recursive calls satisfy the contract they are proved against (induction over the depth of the tree)', 'the report tree that diff fills is only written through its own operations: its contents beyond the verdict are not specified',
  'strcmp, strlen and strstr behave as the C standard says on null-terminated text', 'floating-point subtraction and widening are the same uninterpreted operations in code and specification; comparisons are IEEE',
  'a std::map is traversed in some order that visits every key once', 'packing a strided text keeps its bytes (proved in C04)']
