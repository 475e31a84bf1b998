"""C09: names, order and children of an object always agree."""
from nod import *
UNITS = ['libs/conduit/conduit_schema.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_utils.cpp', 'libs/conduit/conduit_endianness.cpp', 'probe/probe_core.cpp']
FUNCS = []
S = 'conduit::Schema::'
STD = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
S_PAR = lambda: fld('conduit::Schema', 'm_parent')
def c_path(ex, st, a, ins, fr): str_set(ex, st, a[0], fresh_int('path')); return [('ret', st, None)]
def c_dtor(ex, st, a, ins, fr):
    """destroying a child: its own subtree only (assumed disjoint from this schema)"""
    return [('ret', st, None)]
CONTRACTS = {S + 'path() const': c_path}
DT_ = {S + '~Schema()': c_dtor}
def sel(a, i): return z3.Select(a, zi(i))
def refp(h, v): return zi(h.ex.ref_of(v))
def setup(id, name=True, idx=False):
    def s(h):
        o = HSchema(h, id=id); h.v['s'] = o; r = [o.p]
        if name: p, h.v['x'] = h.string('name'); r.append(p)
        if idx: p, h.v['i'] = h.int('idx'); r.append(p)
        return r
    return s
def keep(h, st): return [same_kids(h.v['s'].pre, h.v['s'].now(st))]
NAMEERR = lambda h, st: [('an error is raised only for a name that is not a child', z3.Not(sel(h.v['s'].pre.dom, h.v['x'])))] + keep(h, st)
for sig, lab in (('child_index(%s const&) const' % STD, None),):
    FUNCS.append(Fn(S + sig, setup(1), lambda h, st, v: [('the index is the position carrying the name', z3.And(sel(h.v['s'].pre.dom, h.v['x']), zi(to_int(v)) == sel(h.v['s'].pre.mp, h.v['x'])))] + keep(h, st), exc=NAMEERR))
for sig in ('child(%s const&)' % STD, 'child(%s const&) const' % STD):
    FUNCS.append(Fn(S + sig, setup(1), lambda h, st, v: [('the child stored under that name is returned', refp(h, v) == sel(h.v['s'].pre.ch, sel(h.v['s'].pre.mp, h.v['x'])))] + keep(h, st), exc=NAMEERR))
FUNCS.append(Fn(S + 'has_child(%s const&) const' % STD, setup(1), lambda h, st, v: [('true exactly for existing names', zbool(v.t) == sel(h.v['s'].pre.dom, h.v['x']))] + keep(h, st)))
for id in (2, 5):
    FUNCS.append(Fn(S + 'has_child(%s const&) const' % STD, setup(id), lambda h, st, v: [('only objects have named children', zbool(bnot(v.t)))], label=S + 'has_child on id %d' % id))
for id in (1, 2):
    FUNCS.append(Fn(S + 'number_of_children() const', setup(id, False), lambda h, st, v: [('the number of children', zi(to_int(v)) == h.v['s'].pre.n)] + keep(h, st), label=S + 'number_of_children() on ' + NAMES[id]))
    for sig in ('child(long)', 'child(long) const', 'child_ptr(long)', 'child_ptr(long) const', 'operator[](long)', 'operator[](long) const'):
        def s(h, id=id):
            r = setup(id, False, True)(h); h.assume(h.v['i'] >= 0, h.v['i'] < h.v['s'].pre.n); return r
        FUNCS.append(Fn(S + sig, s, lambda h, st, v: [('child i is returned', refp(h, v) == sel(h.v['s'].pre.ch, h.v['i']))] + keep(h, st), label=S + sig + ' on ' + NAMES[id]))
FUNCS.append(Fn(S + 'number_of_children() const', setup(6, False), lambda h, st, v: [('leaves have no children', zi(to_int(v)) == 0)], label=S + 'number_of_children() on a leaf'))
def s_cn(h):
    out = h.obj('res'); h.v['out'] = P(out, 0); o = HSchema(h, id=1); h.v['s'] = o; p, h.v['i'] = h.int('idx'); h.assume(h.v['i'] >= -2**63, h.v['i'] < 2**63); return [P(out, 0), o.p, p]
def p_cn(h, st, v):
    k, i = h.v['s'].pre, h.v['i']
    return [('the name at that position, or empty when out of range', str_get(h.ex, st, h.v['out']) == z3.If(z3.And(i >= 0, i < k.n), sel(k.order, i), lit(b'')))] + keep(h, st)
FUNCS.append(Fn(S + 'child_name(long) const', s_cn, p_cn))
# --- add
def p_add(h, st, v):
    o = h.v['s']; k = o.pre; b = o.now(st); x = h.v['x']; i = z3.Int('gi!'); y = z3.Int('gx!')
    if b is None: return [('the result is an object', False)]
    g = inv_goals(b)
    had = sel(k.dom, x)
    newref = sel(b.ch, k.n)
    g += [('an existing name adds nothing', z3.Implies(had, z3.And(b.n == k.n, sel(b.dom, y) == sel(k.dom, y)))),
          ('a new name adds exactly one child, at the end', z3.Implies(z3.Not(had), z3.And(b.n == k.n + 1, sel(b.order, k.n) == x, sel(b.dom, y) == z3.Or(y == x, sel(k.dom, y))))),
          ('existing children keep their positions and names', z3.Implies(z3.And(i >= 0, i < k.n), z3.And(sel(b.ch, i) == sel(k.ch, i), sel(b.order, i) == sel(k.order, i)))),
          ('the child of that name is returned', refp(h, v) == sel(b.ch, sel(b.mp, x)))]
    if isinstance(v, P) and isinstance(v.base, str):
        c = st.objs[v.base]
        g += [('the new child points back to its parent', isinstance(c[S_PAR()][1], P) and c[S_PAR()][1].base == o.obj), ('the new child is empty', zi(to_int(c[fld('conduit::Schema', 'm_dtype')][1])) == 0)]
    return g
FUNCS.append(Fn(S + 'add_child(%s const&)' % STD, setup(1), p_add, contracts=DT_))
def one_child(h, st, v, named=True):
    o = h.v['s']; b = o.now(st)
    if b is None: return [('the result is an object or list', False)]
    g = [('exactly one child', b.n == 1), ('it is returned', refp(h, v) == sel(b.ch, 0))]
    if named: g += inv_goals(b) + [('under the given name', sel(b.order, 0) == h.v['x'])]
    if isinstance(v, P) and isinstance(v.base, str): g += [('the new child points back to its parent', st.objs[v.base][S_PAR()][1].base == o.obj)]
    else: g += [('the new child is a fresh schema', False)]
    return g
for id in (0, 2, 12):
    FUNCS.append(Fn(S + 'add_child(%s const&)' % STD, setup(id), one_child, contracts=DT_, label=S + 'add_child on ' + NAMES[id]))
def p_app(h, st, v):
    o = h.v['s']; k = o.pre; b = o.now(st); i = z3.Int('gi!')
    return [('one more child', b.n == k.n + 1), ('the new child is last and is returned', refp(h, v) == sel(b.ch, k.n)), ('existing children keep their positions', z3.Implies(z3.And(i >= 0, i < k.n), sel(b.ch, i) == sel(k.ch, i))),
            ('the new child points back to its parent', st.objs[v.base][S_PAR()][1].base == o.obj)]
FUNCS.append(Fn(S + 'append()', setup(2, False), p_app, contracts=DT_))
for id in (0, 1, 7):
    FUNCS.append(Fn(S + 'append()', setup(id, False), lambda h, st, v: one_child(h, st, v, False), contracts=DT_, label=S + 'append() on ' + NAMES[id]))
# --- rename
def s_ren(h):
    r = setup(1)(h); p, h.v['y'] = h.string('new_name'); return r + [p]
def p_ren(h, st, v):
    o = h.v['s']; k = o.pre; b = o.now(st); x, y = h.v['x'], h.v['y']; i = z3.Int('gi!'); z = z3.Int('gx!')
    return inv_goals(b) + [('same children in the same order', z3.And(b.n == k.n, z3.Implies(z3.And(i >= 0, i < k.n), sel(b.ch, i) == sel(k.ch, i)))),
        ('only that name changes', z3.And(sel(b.dom, z) == z3.If(z == y, True, z3.If(z == x, False, sel(k.dom, z))), sel(b.mp, y) == sel(k.mp, x))),
        ('old name existed, new one did not', z3.And(sel(k.dom, x), z3.Not(sel(k.dom, y))))]
FUNCS.append(Fn(S + 'rename_child(%s const&, %s const&)' % (STD, STD), s_ren, p_ren, exc=lambda h, st: [('an error is raised only for a missing source or an existing target', z3.Or(z3.Not(sel(h.v['s'].pre.dom, h.v['x'])), sel(h.v['s'].pre.dom, h.v['y'])))] + keep(h, st)))
def alias(setup_, sch):
    """the same call with the name passed as a reference into the name list itself"""
    def s(h):
        r = setup_(h); q = sch(h); k = z3.Int('alias.k'); h.assume(k >= 0, k < q.pre.n); reg = 'V(%s+%d)' % (q.hd, SOH('object_order'))
        h.assume(h.v['x'] == z3.Select(q.pre.order, k)); r[1] = P(reg, lmul(k, 32)); return r
    return s
FUNCS.append(Fn(S + 'rename_child(%s const&, %s const&)' % (STD, STD), alias(s_ren, lambda h: h.v['s']), p_ren, exc=lambda h, st: [('an error is raised only for an existing target', sel(h.v['s'].pre.dom, h.v['y']))] + keep(h, st), label=S + 'rename_child(child_names()[k], name)'))
# --- remove
def rem_tpl(ex, loop, hv):
    o = ex.h.v['s']; k = o.pre; hd = o.hd; x, i = z3.Ints('gx! gi!')
    idx = ex.h.v['at']
    def f(v, x):
        b = kids_of(v.st, 1, hd); p = sel(k.mp, x)
        return z3.Implies(sel(k.dom, x), z3.And(sel(b.dom, x), sel(b.mp, x) == z3.If(z3.And(p >= idx, p < idx + v.it), p - 1, p)))
    def d(v, x): b = kids_of(v.st, 1, hd); return sel(b.dom, x) == sel(k.dom, x)
    return [('indices at or above the removed one shift down, one by one', lambda v, x=x: f(v, x)), ('no name appears or disappears while shifting', lambda v: d(v, x)),
            ('(at the removed name)', lambda v: z3.And(f(v, ex.h.v['rn']), d(v, ex.h.v['rn']))),
            ('(at the name of an arbitrary position)', lambda v: z3.And(f(v, sel(k.order, i)), d(v, sel(k.order, i)))), ('(at the name of the following position)', lambda v: z3.And(f(v, sel(k.order, i + 1)), d(v, sel(k.order, i + 1))))]
def p_rem(h, st, v):
    o = h.v['s']; k = o.pre; b = o.now(st); i, z = z3.Ints('gi! gx!'); at = h.v['at']; rn = h.v['rn']
    j = z3.If(i < at, i, i + 1)
    return inv_goals(b) + [('one child fewer', b.n == k.n - 1), ('the others keep their order and names', z3.Implies(z3.And(i >= 0, i < b.n), z3.And(sel(b.ch, i) == sel(k.ch, j), sel(b.order, i) == sel(k.order, j)))),
        ('exactly that name is gone', sel(b.dom, z) == z3.And(z != rn, sel(k.dom, z)))]
def s_remi(h):
    r = setup(1, False, True)(h); k = h.v['s'].pre; h.v['at'] = h.v['i']; h.v['rn'] = sel(k.order, h.v['i']); h.assume(h.v['i'] >= 0); return r
FUNCS.append(Fn(S + 'remove(long)', s_remi, p_rem, exc=lambda h, st: [('an error is raised only for an index past the end', h.v['i'] >= h.v['s'].pre.n)] + keep(h, st), templates=[rem_tpl], contracts=DT_, label=S + 'remove(index) on an object'))
def s_remn(h):
    r = setup(1)(h); k = h.v['s'].pre; h.v['at'] = sel(k.mp, h.v['x']); h.v['rn'] = h.v['x']; return r
FUNCS.append(Fn(S + 'remove_child(%s const&)' % STD, s_remn, p_rem, exc=NAMEERR, templates=[rem_tpl], contracts=DT_))
FUNCS.append(Fn(S + 'remove_child(%s const&)' % STD, alias(s_remn, lambda h: h.v['s']), p_rem, templates=[rem_tpl], contracts=DT_, label=S + 'remove_child(child_names()[k])'))
def p_reml(h, st, v):
    o = h.v['s']; k = o.pre; b = o.now(st); i = z3.Int('gi!'); j = z3.If(i < h.v['i'], i, i + 1)
    return [('one child fewer', b.n == k.n - 1), ('the others keep their order', z3.Implies(z3.And(i >= 0, i < b.n), sel(b.ch, i) == sel(k.ch, j)))]
def s_reml(h):
    r = setup(2, False, True)(h); h.assume(h.v['i'] >= 0); return r
FUNCS.append(Fn(S + 'remove(long)', s_reml, p_reml, exc=lambda h, st: [('an error is raised only for an index past the end', h.v['i'] >= h.v['s'].pre.n)] + keep(h, st), contracts=DT_, label=S + 'remove(index) on a list'))
# --- paths: one step here, the rest by the contract of the recursive call on the child
from models import pcurr, pnext, chat, slen, ALLOC
SLASH = z3.BitVecVal(ord('/'), 8)
def c_split(ex, st, a, ins, fr):
    """contract of split_path (proved in C12): first segment and the rest"""
    p = str_get(ex, st, a[0]); c, n = pcurr(p), pnext(p)
    st.assume(z3.And(pcurr(c) == c, pnext(c) == lit(b''), z3.Implies(slen(c) > 0, chat(c, 0) != SLASH)))
    str_set(ex, st, a[1], c); str_set(ex, st, a[2], n); return [('ret', st, None)]
SPLIT = {'conduit::utils::split_path(%s const&, %s&, %s&)' % (STD, STD, STD): c_split}
rec = lambda nm: z3.Function('rec_' + nm, z3.IntSort(), z3.IntSort(), z3.IntSort())
def c_rec(nm, kind):
    def c(ex, st, a, ins, fr):
        """on a child or the parent: whatever that call yields for that schema and path"""
        if not isinstance(a[0], P) or (isinstance(a[0].base, str) and a[0].base == ex.h.v['s'].obj): return None
        r = zi(ex.ref_of(a[0])); x = str_get(ex, st, a[1]); ex.h.v.setdefault('rec', 0)
        k = ('recs', 0, nm); st.ghost[k] = (st.ghost.get(k) or ()) + ((r, x),)
        t = rec(nm)(r, x)
        if kind == 'bool': return [('ret', st, Bo(t != 0))]
        if kind == 'void': return [('ret', st, None), ('exc', st.copy(), 'error')]
        return [('ret', st, P(t, 0)), ('exc', st.copy(), 'error')] if kind == 'ref!' else [('ret', st, P(t, 0))]
    return c
DOTS = lit(b'..')
def s_path(parent):
    def s(h):
        o = HSchema(h, id=1, parent=P(z3.Int('parent'), 0) if parent else None); h.v['s'] = o; p, h.v['x'] = h.string('path'); h.v['par'] = z3.Int('parent') if parent else None
        if parent: h.assume(z3.Int('parent') != 0)
        return [o.p, p]
    return s
def step_spec(nm, added=False, up=True):
    def post(h, st, v):
        o = h.v['s']; k = o.pre; b = o.now(st); x = h.v['x']; c, n = pcurr(x), pnext(x); R = rec(nm); g = []
        i, y = z3.Ints('gi! gx!')
        up_ = z3.And(c == DOTS, up and h.v['par'] is not None)
        res = refp(h, v)
        g.append(('".." continues at the parent', z3.Implies(up_, res == R(h.v['par'], n)) if h.v['par'] is not None and up else z3.BoolVal(True)))
        g.append(('the path is followed from the child named by its first segment', z3.Implies(z3.Not(up_), z3.And(sel(b.dom, c), res == z3.If(n == lit(b''), sel(b.ch, sel(b.mp, c)), R(sel(b.ch, sel(b.mp, c)), n))))))
        if added:
            g += inv_goals(b) + [('an existing first segment adds nothing here', z3.Implies(z3.Or(up_, sel(k.dom, c)), z3.And(b.n == k.n, sel(b.dom, y) == sel(k.dom, y)))),
                  ('a missing first segment is added once, at the end', z3.Implies(z3.And(z3.Not(up_), z3.Not(sel(k.dom, c))), z3.And(b.n == k.n + 1, sel(b.order, k.n) == c, sel(b.dom, y) == z3.Or(y == c, sel(k.dom, y))))),
                  ('other children keep their positions and names', z3.Implies(z3.And(i >= 0, i < k.n), z3.And(sel(b.ch, i) == sel(k.ch, i), sel(b.order, i) == sel(k.order, i))))]
        else: g.append(same_kids(k, b))
        return g
    return post
for par in (True, False):
    t = ' (with a parent)' if par else ' (at the root)'
    sig = 'fetch(%s const&)' % STD
    FUNCS.append(Fn(S + sig, s_path(par), step_spec('fetch', True), contracts=dict(SPLIT, **{S + sig: c_rec('fetch', 'ref')}), opts={'recursive': 1}, label=S + 'fetch(path)' + t))
    FE = ('fetch_existing(%s const&) const' % STD, 'fetch_existing(%s const&)' % STD)
    for sig in FE:
        def exc(h, st):
            k = h.v['s'].pre; c = pcurr(h.v['x'])
            called = bool(st.ghost.get(('recs', 0, 'fe'))); up = h.v['par'] is not None
            return [('an error is raised only when a segment does not exist', z3.BoolVal(True) if called else z3.Or(z3.And(z3.Not(sel(k.dom, c)), z3.Or(c != DOTS, not up)), z3.And(c == DOTS, not up))), same_kids(k, h.v['s'].now(st))]
        FUNCS.append(Fn(S + sig, s_path(par), step_spec('fe'), exc=exc, contracts=dict(SPLIT, **{S + g: c_rec('fe', 'ref!') for g in FE}), opts={'recursive': 1}, label=S + sig.replace(STD, 'path') + t))
def s_hp(h):
    r = s_path(True)(h); h.assume(slen(h.v['x']) >= 0); return r
def p_hp(h, st, v):
    k = h.v['s'].pre; x = h.v['x']; R = rec('hp')
    sub = z3.Function('substr', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    lead = z3.And(slen(x) > 0, chat(x, 0) == SLASH); e = z3.If(lead, sub(x, 1, slen(x) - 1), x); c, n = pcurr(e), pnext(e)
    return [('true exactly when each segment names a child in turn', zbool(v.t) == z3.And(sel(k.dom, c), z3.Or(n == lit(b''), R(sel(k.ch, sel(k.mp, c)), n) != 0))), same_kids(k, h.v['s'].now(st))]
sig = 'has_path(%s const&) const' % STD
FUNCS.append(Fn(S + sig, s_hp, p_hp, contracts=dict(SPLIT, **{S + sig: c_rec('hp', 'bool')}), opts={'recursive': 1}, label=S + 'has_path(path)'))
# --- copying
SZ = lambda: 64
def s_set(id):
    def s(h):
        o = HSchema(h, id=0); h.v['s'] = o; q = HSchema(h, hint='src', id=id); h.v['q'] = q
        h.st.ghost[ALLOC] = z3.Int('alloc'); h.st.ghost[('copy', 0, 'of')] = z3.Const('copyof', AB(INT, INT)); return [o.p, q.p]
    return s
def c_copy(ex, st, a, ins, fr):
    k = ('copy', 0, 'of'); st.ghost[k] = z3.Store(st.ghost[k], zi(ex.ref_of(a[0])), zi(ex.ref_of(a[1]))); st.writes.add(('ghost', k))
    ex.store(st, P(a[0].base, S_PAR()), NULL, ('ptr',), None); return [('ret', st, None)]
COPY = dict(DT_, **{S + 'Schema(conduit::Schema const&)': c_copy})
def set_tpl(ex, loop, hv):
    o, q = ex.h.v['s'], ex.h.v['q']; i = z3.Int('gi!'); a0 = z3.Int('alloc'); par = zi(ex.region_ref(o.obj))
    def f(v):
        b = o.now(v.st)
        if b is None: return None
        hp = ex.heap_arr(v.st, (S_PAR(), 8))
        return z3.And(zi(v.st.ghost[ALLOC]) == a0 + v.it, b.n == v.it, z3.Implies(z3.And(i >= 0, i < v.it), z3.And(sel(b.ch, i) == a0 + i, sel(v.st.ghost[('copy', 0, 'of')], a0 + i) == sel(q.pre.ch, i), sel(hp, a0 + i) == par)))
    return [('the children copied so far are fresh copies of the source children, in order', f), ('at most as many as the source has', lambda v: v.it <= q.pre.n)]
def p_set(h, st, v):
    o, q = h.v['s'], h.v['q']; b = o.now(st); k = q.pre; i = z3.Int('gi!')
    if b is None: return [('the copy is an object or list like the source', False)]
    hp = h.ex.heap_arr(st, (S_PAR(), 8)); inr = z3.And(i >= 0, i < k.n)
    g = [('the same number of children', b.n == k.n), ('each child is a fresh copy of the child at that position', z3.Implies(inr, z3.And(sel(b.ch, i) >= z3.Int('alloc'), sel(st.ghost[('copy', 0, 'of')], sel(b.ch, i)) == sel(k.ch, i)))),
         ('each child points back to the copy', z3.Implies(inr, sel(hp, sel(b.ch, i)) == zi(h.ex.region_ref(o.obj)))), same_kids(k, q.now(st), 'the source is unchanged')]
    if q.id == 1: g += inv_goals(b) + [('names are the same', z3.And(z3.Implies(inr, sel(b.order, i) == sel(k.order, i)), sel(b.dom, z3.Int('gx!')) == sel(k.dom, z3.Int('gx!'))))]
    return g
for id in (1, 2):
    FUNCS.append(Fn(S + 'set(conduit::Schema const&)', s_set(id), p_set, templates=[set_tpl], contracts=COPY, opts={'alloc': (64,)}, label=S + 'set(schema) from ' + NAMES[id]))
def s_setl(h):
    o = HSchema(h, id=0); h.v['s'] = o; q = HSchema(h, hint='src', id=z3.Int('src.id')); h.v['q'] = q; h.assume(z3.Int('src.id') != 1, z3.Int('src.id') != 2); return [o.p, q.p]
def p_setl(h, st, v):
    a = dt_fields(h.ex, st, h.v['s'].p); return [('a leaf description is copied field by field', z3.And(*[a[n] == h.v['q'].f[n] for n in DT]))]
FUNCS.append(Fn(S + 'set(conduit::Schema const&)', s_setl, p_setl, contracts=COPY, label=S + 'set(schema) from a leaf'))
# --- forwarding overloads
def c_fwd(nm):
    def c(ex, st, a, ins, fr):
        st.ghost[('fwd', 0, nm)] = (a[0].base, str_get(ex, st, a[1])); return [('ret', st, P(z3.Int('fwd.ref'), 0)), ('exc', st.copy(), 'error')]
    return c
def p_fwd(nm):
    def p(h, st, v):
        b, x = st.ghost.get(('fwd', 0, nm), (None, z3.IntVal(0)))
        return [('the same schema is asked for the same path', z3.And(b == h.v['s'].obj, x == h.v['x'])), ('and its answer is returned', refp(h, v) == z3.Int('fwd.ref'))] + keep(h, st)
    return p
for sig, tgt in (('operator[](%s const&)', 'fetch(%s const&)'), ('operator[](%s const&) const', 'fetch_existing(%s const&) const'), ('fetch_ptr(%s const&)', 'fetch(%s const&)'), ('fetch_ptr(%s const&) const', 'fetch_existing(%s const&) const'), ('fetch(%s const&) const', 'fetch_existing(%s const&) const')):
    FUNCS.append(Fn(S + sig % STD, s_path(True), p_fwd(tgt), exc=lambda h, st: keep(h, st), contracts={S + tgt % STD: c_fwd(tgt)}, label=S + sig % 'path'))
# --- remove(path)
def c_remrec(ex, st, a, ins, fr):
    if isinstance(a[0], P) and isinstance(a[0].base, str) and a[0].base == ex.h.v['s'].obj: return None
    st.ghost[('rem', 0, 'rec')] = (zi(ex.ref_of(a[0])), str_get(ex, st, a[1])); return [('ret', st, None), ('exc', st.copy(), 'error')]
def c_remchild(ex, st, a, ins, fr):
    st.ghost[('rem', 0, 'child')] = (a[0].base, str_get(ex, st, a[1])); return [('ret', st, None), ('exc', st.copy(), 'error')]
def p_remp(h, st, v):
    k = h.v['s'].pre; x = h.v['x']; c, n = pcurr(x), pnext(x); r = st.ghost.get(('rem', 0, 'rec')); d = st.ghost.get(('rem', 0, 'child'))
    return [('a path of one segment removes that child here', z3.Implies(n == lit(b''), z3.BoolVal(False) if d is None or r is not None else z3.And(d[0] == h.v['s'].obj, d[1] == c))),
            ('a longer path removes the rest from the child named first', z3.Implies(n != lit(b''), z3.BoolVal(False) if r is None or d is not None else z3.And(sel(k.dom, c), r[0] == sel(k.ch, sel(k.mp, c)), r[1] == n)))] + keep(h, st)
def e_remp(h, st):
    g = st.ghost; called = g.get(('rem', 0, 'rec')) is not None or g.get(('rem', 0, 'child')) is not None
    return [('an error is raised only when a segment does not exist', z3.BoolVal(True) if called else z3.Not(sel(h.v['s'].pre.dom, pcurr(h.v['x']))))] + keep(h, st)
FUNCS.append(Fn(S + 'remove(%s const&)' % STD, s_path(True), p_remp, exc=e_remp, contracts=dict(SPLIT, **{S + 'remove(%s const&)' % STD: c_remrec, S + 'remove_child(%s const&)' % STD: c_remchild}), opts={'recursive': 1}, label=S + 'remove(path)'))
# --- child_index(schema pointer)
def s_cip(h):
    r = setup(1, False)(h); h.v['q'] = z3.Int('wanted'); h.assume(h.v['q'] != 0); return r + [P(h.v['q'], 0)]
def t_cip(ex, loop, hv):
    k = ex.h.v['s'].pre; i = z3.Int('gi!')
    return [('no earlier child is the wanted one', lambda v: z3.Implies(z3.And(i >= 0, i < v.it), sel(k.ch, i) != ex.h.v['q']))]
def p_cip(h, st, v):
    k = h.v['s'].pre; i = z3.Int('gi!'); r = zi(to_int(v)); q = h.v['q']
    return [('the first position holding that schema, or -1 when there is none', z3.If(r == -1, z3.Implies(z3.And(i >= 0, i < k.n), sel(k.ch, i) != q), z3.And(r >= 0, r < k.n, sel(k.ch, r) == q, z3.Implies(z3.And(i >= 0, i < r), sel(k.ch, i) != q))))] + keep(h, st)
FUNCS.append(Fn(S + 'child_index(conduit::Schema*) const', s_cip, p_cip, templates=[t_cip]))
# --- release: every child is destroyed exactly once, the schema ends empty
DLOG, DCNT = ('dtor', 0, 'log'), ('dtor', 0, 'cnt')
def c_dlog(ex, st, a, ins, fr):
    st.ghost[DLOG] = z3.Store(st.ghost[DLOG], zi(st.ghost[DCNT]), zi(ex.ref_of(a[0]))); st.ghost[DCNT] = z3.simplify(zi(st.ghost[DCNT]) + 1); st.writes |= {('ghost', DLOG), ('ghost', DCNT)}; return [('ret', st, None)]
def s_rel(id):
    def s(h):
        r = setup(id, False)(h); h.st.ghost[DLOG] = z3.Const('dtor.log', AB(INT, INT)); h.st.ghost[DCNT] = z3.IntVal(0)
        i = z3.Int('i?'); h.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < h.v['s'].pre.n), z3.Select(h.v['s'].pre.ch, i) != 0), patterns=[z3.Select(h.v['s'].pre.ch, i)])); return r
    return s
def t_rel(ex, loop, hv):
    k = ex.h.v['s'].pre; i = z3.Int('gi!')
    return [('the children seen are destroyed, in order', lambda v: z3.And(zi(v.st.ghost[DCNT]) == v.it, v.it <= k.n, z3.Implies(z3.And(i >= 0, i < v.it), sel(v.st.ghost[DLOG], i) == sel(k.ch, i))))]
def p_rel(h, st, v):
    k = h.v['s'].pre; i = z3.Int('gi!'); c = st.objs[h.v['s'].obj]; hp = c[fld('conduit::Schema', 'm_hierarchy_data')][1]
    return [('every child is destroyed exactly once', z3.And(zi(st.ghost[DCNT]) == k.n, z3.Implies(z3.And(i >= 0, i < k.n), sel(st.ghost[DLOG], i) == sel(k.ch, i)))),
            ('the schema ends empty, with no hierarchy', z3.And(zi(to_int(c[fld('conduit::Schema', 'm_dtype')][1])) == 0, isinstance(hp, P) and hp.base is None))]
for id in (1, 2):
    FUNCS.append(Fn(S + 'release()', s_rel(id), p_rel, templates=[t_rel], contracts={S + '~Schema()': c_dlog}, label=S + 'release() of ' + NAMES[id]))
# --- set from a type id or a data type: the hierarchy fits the type
def s_sid(id):
    def s(h):
        o = HSchema(h, id=5); h.v['s'] = o; return [o.p, I(64, id)]
    return s
def s_sdt(id):
    def s(h):
        o = HSchema(h, id=5); h.v['s'] = o; p, h.v['d'] = h.dtype(hint='dt', id=z3.IntVal(id)); return [o.p, p]
    return s
def p_fit(id):
    def p(h, st, v):
        o = h.v['s']; a = dt_fields(h.ex, st, o.p); i, hd = o.hier(st); g = [('the type is the given one', a['id'] == id)]
        if id in (1, 2):
            b = kids_of(st, id, hd); g += [('there are no children', False if b is None else b.n == 0)] + (inv_goals(b) if b is not None and id == 1 else [])
        if 'd' in h.v: g.append(('the description is copied field by field', z3.And(*[a[n] == h.v['d'][n] for n in DT])))
        return g
    return p
for id in (0, 1, 2, 6):
    FUNCS.append(Fn(S + 'set(long)', s_sid(id), p_fit(id), label=S + 'set(type id) to ' + NAMES[id]))
    FUNCS.append(Fn(S + 'set(conduit::DataType const&)', s_sdt(id), p_fit(id), label=S + 'set(DataType) to ' + NAMES[id]))
# --- construction and assignment: a new schema starts empty and takes the value set from the operand
def same(p, q): return isinstance(p, P) and isinstance(q, P) and p.base == q.base and isint(p.off) and isint(q.off) and p.off == q.off
def c_setlog(kind):
    def c(ex, st, a, ins, fr):
        if ex.h.v.get('new'):
            o = a[0]; f = dt_fields(ex, st, o); ld = lambda off: ex.load(st, P(o.base, off), ('ptr',), None)
            ex.require(st, 'a new schema is empty and has no parent before it is set', z3.And(f['id'] == 0, *[isnull(ld(x)) for x in (fld('conduit::Schema', 'm_hierarchy_data'), fld('conduit::Schema', 'm_parent'))]))
        st.ghost['sets'] = st.ghost.get('sets', ()) + ((kind, tuple(a)),); return [('ret', st, None)]
    return c
SETL = {S + 'set(conduit::Schema const&)': c_setlog('schema'), S + 'set(long)': c_setlog('id'), S + 'set(conduit::DataType const&)': c_setlog('dtype'), S + 'reset()': c_setlog('reset')}
def isnull(v): return z3.BoolVal(v is NULL or isinstance(v, P) and v.base == NULL.base and isint(v.off) and v.off == NULL.off)
def fwd_s(kind, new):
    def s(h):
        h.v['o'] = P(h.obj('self'), 0); h.v['new'] = new
        h.v['x'] = {'schema': lambda: HSchema(h, 'src', id=5).p, 'id': lambda: h.int('id')[0], 'dtype': lambda: h.dtype(hint='dt')[0]}[kind]()
        if not new: o = HSchema(h, id=5); h.v['o'] = o.p
        return [h.v['o'], h.v['x']]
    return s
def fwd_p(kind, new):
    def p(h, st, v):
        L = [l for l in st.ghost.get('sets', ()) if l[0] != 'reset']; x = h.v['x']
        ok = len(L) == 1 and L[0][0] == kind and same(L[0][1][0], h.v['o'])
        g = [('set from the operand, once', ok and (same(L[0][1][1], x) if isinstance(x, P) else zi(to_int(L[0][1][1])) == zi(to_int(x))))]
        if not new: g.append(('it yields the schema itself', same(v, h.v['o'])))
        return g
    return p
for k_, sg_ in (('schema', 'conduit::Schema const&'), ('id', 'long'), ('dtype', 'conduit::DataType const&')):
    FUNCS.append(Fn(S + 'Schema(%s)' % sg_, fwd_s(k_, True), fwd_p(k_, True), contracts=SETL))
    if k_ != 'id': FUNCS.append(Fn(S + 'operator=(%s)' % sg_, fwd_s(k_, False), fwd_p(k_, False), contracts=SETL))
def s_asgself(h): o = HSchema(h, id=5); h.v['o'] = o.p; h.v['s'] = o; return [o.p, o.p]
FUNCS.append(Fn(S + 'operator=(conduit::Schema const&)', s_asgself, lambda h, st, v: [('assigning a schema to itself changes nothing', not st.ghost.get('sets')), ('it yields the schema itself', same(v, h.v['o']))], contracts=SETL, label=S + 'operator=(itself)'))
def s_new(h): h.v['o'] = P(h.obj('self'), 0); return [h.v['o']]
def p_new(h, st, v):
    f = dt_fields(h.ex, st, h.v['o']); ld = lambda off: h.ex.load(st, P(h.v['o'].base, off), ('ptr',), None)
    return [('empty description', z3.And(*[f[n] == 0 for n in DT])), ('no children and no parent', z3.And(isnull(ld(fld('conduit::Schema', 'm_hierarchy_data'))), isnull(ld(fld('conduit::Schema', 'm_parent')))))]
FUNCS.append(Fn(S + 'Schema()', s_new, p_new))
DRIVER = 'd_C09.cpp'
DRIVER_SCOPE = 'random histories of add/append/fetch/rename/remove/copy/reset on Schema trees against a reference tree; includes name() and path(), which have no contract'
DRIVER_BOUND = '260 histories of 60 operations (x8 thorough), trees up to 60 nodes, depth up to 5'
BOUNDED_ONLY = ['conduit::Schema::name() const', 'conduit::Schema::path() const']
ASSUMES = ['std::vector, std::map and std::string behave as the contracts in vc/models.py state', 'deleting a child affects only its own subtree', 'the recursive call on a child or on the parent satisfies the same contract (induction over the height of the tree)']
