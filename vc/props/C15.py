"""C15: merging trees with update, update_compatible and update_external."""
from nod import *
from props.C10 import N, S, STD, sel, nop, c_path, log, SEQ, at
UNITS = ['libs/conduit/conduit_node.cpp', 'libs/conduit/conduit_schema.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_utils.cpp', 'libs/conduit/conduit_endianness.cpp', 'libs/conduit/conduit_node_iterator.cpp', 'probe/probe_core.cpp']
FUNCS = []
CONTRACTS = {S + 'path() const': c_path, N + 'path() const': c_path, S + '~Schema()': nop, N + '~Node()': nop}
iv = lambda x: zi(to_int(x))
# who is updated from whom: the child nodes of this node are identified by their name or position
FROM, CNT, APP = ('upd', 0, 'from'), ('upd', 0, 'count'), ('upd', 0, 'appended')
OF, ADDED, APPD = z3.Function('child_named', INT, INT), z3.Function('added', INT, INT), z3.Function('appended', INT, INT)
def mine(ex, p): return isinstance(p, P) and isinstance(p.base, str) and p.base == ex.h.v['s'].obj
def stale(ex, st):
    """what this node holds is read again only through its operations: forget it"""
    o = ex.h.v['s']; st.objs[o.schema.obj][fld('conduit::Schema', 'm_dtype')] = (8, I(64, fresh_int('id?'))); st.writes.add(('obj', o.schema.obj, fld('conduit::Schema', 'm_dtype'))); st.ghost[(o.obj, o.co, 'vec')] = fresh_int('n?'); st.writes.add(('ghost', (o.obj, o.co, 'vec')))
def c_upd(kind):
    def c(ex, st, a, ins, fr):
        if mine(ex, a[0]): return None
        d, s_ = zi(ex.ref_of(a[0])), zi(ex.ref_of(a[1])); st.ghost[FROM] = z3.Store(st.ghost[FROM], d, s_); st.ghost[CNT] = z3.simplify(zi(st.ghost[CNT]) + 1); st.writes |= {('ghost', FROM), ('ghost', CNT)}; return [('ret', st, None)]
    return c
def c_add(ex, st, a, ins, fr):
    """add_child(name) (C10): the child of that name, created if missing"""
    if not mine(ex, a[0]): return None
    x = str_get(ex, st, a[1]); o = ex.h.v['s']; k = o.schema.pre; r = ADDED(x)
    st.assume(r != 0)
    if o.id == 1: st.assume(z3.Implies(sel(k.dom, x), r == sel(o.ch, sel(k.mp, x))))
    stale(ex, st); return [('ret', st, P(r, 0))]
def c_app(ex, st, a, ins, fr):
    """append() (C10): a new last entry"""
    if not mine(ex, a[0]): return None
    n = zi(st.ghost[APP]); st.ghost[APP] = z3.simplify(n + 1); st.writes.add(('ghost', APP)); st.assume(APPD(n) != 0); stale(ex, st); return [('ret', st, P(APPD(n), 0))]
def distinct(h):
    """child nodes of one node are distinct objects (C10)"""
    o = h.v['s']; x, i = z3.Ints('x? i?'); nm, po, ap = z3.Function('name_of', INT, INT), z3.Function('pos_of', INT, INT), z3.Function('app_of', INT, INT); kind = z3.Function('kind_of', INT, INT)
    h.assume(z3.ForAll([x], z3.And(nm(ADDED(x)) == x), patterns=[ADDED(x)]), z3.ForAll([i], z3.And(ap(APPD(i)) == i, kind(APPD(i)) == 2), patterns=[APPD(i)]))
    if o.id in (1, 2): h.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o.n), z3.And(po(sel(o.ch, i)) == i, kind(sel(o.ch, i)) == 1)), patterns=[sel(o.ch, i)]))
def s_upd(dst, src, same=True):
    def s(h):
        o = HNode(h, hint='self', id=dst, data=P(h.buf('old'), 0) if dst > 2 else None); q = HNode(h, hint='src', id=src, data=P(h.buf('sdata'), 0) if src > 2 else None); h.v['s'], h.v['q'] = o, q
        h.st.ghost[FROM] = z3.Const('upd.from', AB(INT, INT)); h.v['from0'] = h.st.ghost[FROM]; h.st.ghost[CNT] = z3.IntVal(0); h.st.ghost[APP] = z3.IntVal(0); distinct(h); return [o.p, q.p]
    return s
def kid(h, st, i):
    """the child of this node that entry i of the source belongs to"""
    o, q = h.v['s'], h.v['q']
    if q.id == 1: return ADDED(sel(q.schema.pre.order, i))
    return z3.If(zi(i) < o.n, sel(o.ch, i), APPD(zi(i) - o.n)) if o.id == 2 else APPD(zi(i))
def apps(h, it):
    o, q = h.v['s'], h.v['q']
    if q.id == 1: return z3.IntVal(0)
    return z3.If(it > o.n, it - o.n, z3.IntVal(0)) if o.id == 2 else it
def t_upd(ex, loop, hv):
    h = ex.h; q = h.v['q']; g = z3.Int('gi!'); out = []; o = h.v['s']
    A = lambda v: v.st.ghost[FROM]
    dn = lambda v: zi(v.st.ghost[CNT])
    out += [('one update per entry', lambda v: z3.And(dn(v) == v.it, v.it <= q.n)), ('appended so far', lambda v: zi(v.st.ghost[APP]) == apps(h, dn(v))), ('bounded by both', lambda v: z3.And(v.it <= q.n, v.it <= o.n)),
            ('one update per entry, after the common ones', lambda v: z3.And(dn(v) == v.it + z3.If(o.n < q.n, o.n, q.n))), ('never past the source', lambda v: z3.And(dn(v) <= q.n)),
            ('entries so far went to their own child', lambda v: z3.Implies(z3.And(g >= 0, g < dn(v)), sel(A(v), kid(h, v.st, g)) == sel(q.ch, g)))]
    for r, x in hv.phis.items():
        if isinstance(x, I) and x.w == 64: out.append(('counts the updates', lambda v, r=r: zi(to_int(v.phis[r])) == dn(v)))
    return out
def p_upd(h, st, v):
    o, q = h.v['s'], h.v['q']; g = z3.Int('gi!'); L = st.ghost.get(SEQ, ())
    return [('as many updates as the source has entries', zi(st.ghost[CNT]) == q.n), ('each entry of the source goes to the child of its name or position', z3.Implies(z3.And(g >= 0, g < q.n), sel(st.ghost[FROM], kid(h, st, g)) == sel(q.ch, g))),
            ('entries are appended exactly beyond the end', zi(st.ghost[APP]) == apps(h, q.n)), q.same_nodes(st), same_kids(q.schema.pre, q.schema.now(st), 'the source is unchanged'), ('nothing else happens to this node', len(L) == 0)]
UP = lambda nm: N + nm + ('(conduit::Node&)' if nm == 'update_external' else '(conduit::Node const&)')
def lgd(tag):
    def c(ex, st, a, ins, fr): log(st, tag, *a); return [('ret', st, None)]
    return c
BASE = {N + 'add_child(%s const&)' % STD: c_add, N + 'append()': c_app, N + 'reset()': lgd('reset'), N + 'release()': lgd('release'), N + 'compact_to(conduit::Node&) const': lgd('compact_to'), N + 'set_external(conduit::Node const&)': lgd('external'), N + 'set(conduit::Node const&)': lgd('set')}
for nm in ('update', 'update_external'):
    cs = dict(BASE); cs[UP(nm)] = c_upd(nm)
    for src in (1, 2):
        for dst in (1, 2, 0, 6):
            FUNCS.append(Fn(UP(nm), s_upd(dst, src), p_upd, templates=[t_upd], contracts=cs, opts={'recursive': 1}, label=N + '%s: %s from %s' % (nm, NAMES[dst], NAMES[src])))
# --- update_compatible: only what both have
def t_cmp(ex, loop, hv):
    h = ex.h; o, q = h.v['s'], h.v['q']
    if o.id != q.id: return [('nothing is updated', lambda v: zi(v.st.ghost[CNT]) == 0)]
    g = z3.Int('gi!'); x = z3.Int('gx!'); A = lambda v: v.st.ghost[FROM]; k = q.schema.pre
    if q.id == 2: return [('entries so far', lambda v: z3.And(z3.Implies(z3.And(g >= 0, g < v.it), sel(A(v), sel(o.ch, g)) == sel(q.ch, g)), z3.Implies(z3.And(g >= v.it, g < o.n), sel(A(v), sel(o.ch, g)) == sel(h.v['from0'], sel(o.ch, g))))), ('bounded', lambda v: z3.And(v.it <= o.n, v.it <= q.n)), ('one update each', lambda v: zi(v.st.ghost[CNT]) == v.it)]
    K = o.schema.pre
    return [('names so far', lambda v: z3.Implies(sel(K.dom, x), sel(A(v), sel(o.ch, sel(K.mp, x))) == z3.If(z3.And(sel(k.dom, x), sel(k.mp, x) < v.it), sel(q.ch, sel(k.mp, x)), sel(h.v['from0'], sel(o.ch, sel(K.mp, x)))))), ('bounded', lambda v: v.it <= q.n), ('no other node is touched', lambda v: zi(v.st.ghost[CNT]) <= v.it)]
def p_cmp(h, st, v):
    o, q = h.v['s'], h.v['q']; g, x = z3.Ints('gi! gx!'); A = st.ghost[FROM]; k, K = q.schema.pre, o.schema.pre; L = st.ghost.get(SEQ, ())
    if o.id != q.id: r = [('nothing is updated', zi(st.ghost[CNT]) == 0)]
    elif o.id == 2: m = z3.If(o.n < q.n, o.n, q.n); r = [('common positions, and only those, are updated from their counterpart', z3.Implies(z3.And(g >= 0, g < o.n), sel(A, sel(o.ch, g)) == z3.If(g < m, sel(q.ch, g), sel(h.v['from0'], sel(o.ch, g))))), ('each once', zi(st.ghost[CNT]) == m)]
    else: r = [('common names, and only those, are updated from their counterpart', z3.Implies(sel(K.dom, x), sel(A, sel(o.ch, sel(K.mp, x))) == z3.If(sel(k.dom, x), sel(q.ch, sel(k.mp, x)), sel(h.v['from0'], sel(o.ch, sel(K.mp, x))))))]
    r += [('nothing is added, removed or replaced', len(L) == 0), o.same_nodes(st), q.same_nodes(st), same_kids(k, q.schema.now(st), 'the source is unchanged')]
    if K is not None: r.append(same_kids(K, o.schema.now(st)))
    return r
def never(what):
    def c(ex, st, a, ins, fr): ex.require(st, 'update_compatible never ' + what, z3.BoolVal(False)); return [('ret', st, P(fresh_int('x'), 0))]
    return c
CC = dict(BASE); CC.update({UP('update_compatible'): c_upd('update_compatible'), N + 'add_child(%s const&)' % STD: never('adds a child'), N + 'append()': never('appends')})
for src in (1, 2):
    for dst in (1, 2, 0, 6):
        FUNCS.append(Fn(UP('update_compatible'), s_upd(dst, src), p_cmp, templates=[t_cmp], contracts=CC, opts={'recursive': 1}, label=N + 'update_compatible: %s from %s' % (NAMES[dst], NAMES[src])))
# --- leaves
CPYS = 'conduit::utils::conduit_memcpy_strided_elements(void*, unsigned long, unsigned long, unsigned long, void const*, unsigned long)'
def c_cpys(ex, st, a, ins, fr):
    """element k of the destination takes element k of the source, for k < count; no other byte changes (C08)"""
    h = ex.h; w = h.ws; d, n, eb, ds, s_, ss = a
    if not (isinstance(d, P) and isinstance(s_, P) and d.base in st.bufs and s_.base in st.bufs): return None
    U = lambda x: zi(ex.unsigned(st, I(64, to_int(x))))
    n, eb, ds, ss = U(n), U(eb), U(ds), U(ss); t = h.v['t']; old = st.bufs[d.base]; new = z3.Const('copied_%d' % next(ex.rname), old.sort()); st.bufs[d.base] = new; st.writes.add(('buf', d.base)); src = st.bufs[s_.base]
    ex.require(st, 'elements are copied whole', eb == t.nb)
    # its postcondition at the element and the byte the specification asks about
    st.assume(z3.Implies(z3.And(w.k >= 0, w.k < n), rd(new, zi(d.off) + ds * w.k, t.nb) == rd(src, zi(s_.off) + ss * w.k, t.nb)))
    st.assume(z3.Implies(z3.And(zi(d.off) == w.off, ds == w.stride, n <= w.count, eb == w.size), z3.Select(new, w.fb) == z3.Select(old, w.fb)))
    st.assume(z3.Implies(z3.Not(z3.And(w.k >= 0, w.k < n)), z3.Implies(z3.And(zi(d.off) == w.off, ds == w.stride), rd(new, w.off + w.stride * w.k, t.nb) == rd(old, w.off + w.stride * w.k, t.nb))))
    return [('ret', st, None)]
def s_leaf(dst, t):
    def s(h):
        q = NodeObj(h, 'src', id=z3.IntVal(t.id)); h.v['q'] = q; h.v['t'] = t
        if dst in (0, 1, 2): o = HNode(h, hint='self', id=dst)
        else:
            o = NodeObj(h, 'self', id=z3.IntVal(dst)); h.assume(o.stride < 2**60, o.stride >= BYID.get(dst, t).nb, o.f['ele_bytes'] == (BYID[dst].nb if dst in BYID else 1))
        h.assume(q.f['ele_bytes'] == t.nb, q.stride >= 0, q.n < 2**60, q.stride < 2**60)
        h.v['s'] = o
        if dst == t.id: WriteSpec(h, o.buf, o.off, o.stride, t.nb, q.n, lambda k: q.pre_elem(k, t), others=(q.buf,))
        return [o.p, q.p]
    return s
def p_leaf(compat):
    def p(h, st, v):
        o, q = h.v['s'], h.v['q']; L = st.ghost.get(SEQ, ()); g = [q.desc_unchanged(st)]
        rep = z3.BoolVal(not compat and len(L) == 1 and L[0][0] in ('compact_to', 'set') and (at(L[0][1], q.p) and at(L[0][2], o.p) if L[0][0] == 'compact_to' else at(L[0][1], o.p) and at(L[0][2], q.p))); none = z3.BoolVal(len(L) == 0)
        if isinstance(o, NodeObj):
            same = z3.Select(o.now(st), z3.Int('ob!')) == z3.Select(o.pre, z3.Int('ob!'))
            if cint(o.f['id']) == h.v['t'].id:
                fits = o.n >= q.n
                g += [('a leaf with room is updated in place', z3.Implies(fits, none)), ('a leaf without room is %s' % ('left alone' if compat else 'replaced by a compact copy'), z3.Implies(z3.Not(fits), none if compat else rep))]
                g += [(a, z3.Implies(fits, b)) for a, b in h.ws.post(st)] + [('nothing is written otherwise', z3.Implies(z3.Not(fits), same)), o.desc_unchanged(st)]
            else: g += [('a leaf of another type is %s' % ('left alone' if compat else 'replaced by a compact copy'), none if compat else rep), ('nothing is written into its old data', same)]
        else: g += [('%s' % ('left alone' if compat else 'replaced by a compact copy'), none if compat else rep)]
        return g
    return p
LC = dict(BASE); LC[CPYS] = c_cpys
from props.C11 import CHAR
for t in TYS + [CHAR]:
    for nm in ('update', 'update_compatible'):
        for dst in [t.id] + ([0, 1, 2, 13 if t.id == 6 else 6] if t.id in (6, 11, 13, 3) else []):
            if dst != t.id or True: FUNCS.append(Fn(UP(nm), s_leaf(dst, t), p_leaf(nm == 'update_compatible'), contracts=LC, label=N + '%s: %s from a %s leaf' % (nm, NAMES[dst], t.name)))
def p_ext(h, st, v):
    o, q = h.v['s'], h.v['q']; L = st.ghost.get(SEQ, ()); return [('the node becomes a view of exactly the source', len(L) == 1 and L[0][0] == 'external' and at(L[0][1], o.p) and at(L[0][2], q.p)), q.desc_unchanged(st)]
for t in TYS + [CHAR]: FUNCS.append(Fn(UP('update_external'), s_leaf(6, t), p_ext, contracts=LC, label=N + 'update_external: from a %s leaf' % t.name))
# --- an empty source changes nothing
def s_emp(dst):
    def s(h): r = s_upd(dst, 0)(h); return r
    return s
def p_emp(h, st, v):
    o = h.v['s']; g = [('nothing happens', len(st.ghost.get(SEQ, ())) == 0 and True), ('no child is updated', zi(st.ghost[CNT]) == 0), o.same_nodes(st)]
    if o.schema.pre is not None: g.append(same_kids(o.schema.pre, o.schema.now(st)))
    return g
for nm in ('update', 'update_compatible', 'update_external'):
    for dst in (0, 1, 2, 6): FUNCS.append(Fn(UP(nm), s_emp(dst), p_emp, contracts=CC, label=N + '%s: %s from an empty node' % (nm, NAMES[dst])))
DRIVER = 'd_C15.cpp'
DRIVER_SCOPE = 'update, update_compatible and update_external on random pairs of trees against a reference merge, leaves of every type in random layouts, under AddressSanitizer'
DRIVER_BOUND = '6000 random pairs up to depth 4 (x8 in the thorough tier)'
ASSUMES = ['recursive calls satisfy the contract they are proved against (induction over the depth of the tree)', 'add_child, append, compact_to, set_external and the strided element copy satisfy their contracts (proved in C08 and C10)', 'neither operand is part of the other, and source and destination memory are disjoint', 'both operands are in the same byte order (as everywhere in the library, raw elements are copied)']
