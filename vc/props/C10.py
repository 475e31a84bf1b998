"""C10: a node tree and its schema tree stay in lockstep."""
from nod import *
from models import pcurr, pnext, chat, slen
UNITS = ['libs/conduit/conduit_node.cpp', 'libs/conduit/conduit_schema.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_utils.cpp', 'libs/conduit/conduit_endianness.cpp', 'probe/probe_core.cpp']
FUNCS = []
N, S = 'conduit::Node::', 'conduit::Schema::'
STD = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
def sel(a, i): return z3.Select(a, zi(i))
def refp(h, v): return zi(h.ex.ref_of(v))
def c_path(ex, st, a, ins, fr): str_set(ex, st, a[0], fresh_int('path')); return [('ret', st, None)]
def nop(ex, st, a, ins, fr): return [('ret', st, None)]
def c_split(ex, st, a, ins, fr):
    p = str_get(ex, st, a[0]); c, n = pcurr(p), pnext(p)
    st.assume(z3.And(pcurr(c) == c, pnext(c) == lit(b''), z3.Implies(slen(c) > 0, chat(c, 0) != z3.BitVecVal(47, 8)))); str_set(ex, st, a[1], c); str_set(ex, st, a[2], n); return [('ret', st, None)]
CONTRACTS = {S + 'path() const': c_path, N + 'path() const': c_path, S + '~Schema()': nop, N + '~Node()': nop,
             'conduit::utils::split_path(%s const&, %s&, %s&)' % (STD, STD, STD): c_split, 'conduit::utils::conduit_free(void*, long)': nop}
def setup(id, name=True, idx=False, parent=False):
    def s(h):
        if parent: h.assume(z3.Int('parent') != 0, z3.Int('sparent') != 0)
        o = HNode(h, id=id, parent=P(z3.Int('parent'), 0) if parent else None, sparent=P(z3.Int('sparent'), 0) if parent else None); h.v['s'] = o; r = [o.p]
        h.v['par'] = z3.Int('parent') if parent else None
        if name: p, h.v['x'] = h.string('name'); r.append(p)
        if idx: p, h.v['i'] = h.int('idx'); h.assume(h.v['i'] >= -2**63, h.v['i'] < 2**63); r.append(p)
        return r
    return s
def keep(h, st): o = h.v['s']; return [o.same_nodes(st), same_kids(o.schema.pre, o.schema.now(st))] + o.lock_goals(st)
K = lambda h: h.v['s'].schema.pre
NAMEERR = lambda h, st: [('an error is raised only for a name that is not a child', z3.Not(sel(K(h).dom, h.v['x'])))] + keep(h, st)
for sig in ('child(%s const&)', 'child(%s const&) const'):
    FUNCS.append(Fn(N + sig % STD, setup(1), lambda h, st, v: [('the child node of that name is returned', refp(h, v) == sel(h.v['s'].ch, sel(K(h).mp, h.v['x'])))] + keep(h, st), exc=NAMEERR, label=N + sig % 'name'))
for id in (1, 2):
    for sig in ('child(long)', 'child(long) const', 'child_ptr(long)', 'child_ptr(long) const', 'operator[](long)', 'operator[](long) const'):
        FUNCS.append(Fn(N + sig, setup(id, False, True), lambda h, st, v: [('child node i is returned', z3.And(h.v['i'] >= 0, h.v['i'] < h.v['s'].n, refp(h, v) == sel(h.v['s'].ch, h.v['i'])))] + keep(h, st),
                        exc=lambda h, st: [('an error is raised only for an index that is not a child', z3.Or(h.v['i'] < 0, h.v['i'] >= h.v['s'].n))] + keep(h, st), label=N + sig + ' on ' + NAMES[id]))
    FUNCS.append(Fn(N + 'number_of_children() const', setup(id, False), lambda h, st, v: [('the number of child nodes', zi(to_int(v)) == h.v['s'].n)] + keep(h, st), label=N + 'number_of_children() on ' + NAMES[id]))
FUNCS.append(Fn(N + 'has_child(%s const&) const' % STD, setup(1), lambda h, st, v: [('true exactly for existing names', zbool(v.t) == sel(K(h).dom, h.v['x']))] + keep(h, st), label=N + 'has_child(name)'))
# --- add / append
def newest(h, st):
    """region of the node returned / created last"""
    o = h.v['s']; n, ch = o.kids(st); return n
def p_add(h, st, v):
    o = h.v['s']; k = K(h); x = h.v['x']; i = z3.Int('gi!'); b = o.schema.now(st); n, ch = o.kids(st)
    isnew = isinstance(v, P) and isinstance(v.base, str)
    g = o.lock_goals(st, (n - 1, v.base) if isnew else None)
    if k is not None and o.id == 1:
        g += inv_goals(b) + [('child nodes that existed keep their positions', z3.Implies(z3.And(i >= 0, i < o.n), sel(ch, i) == sel(o.ch, i)))]
        g += [('a node is created exactly for a new name', z3.And(n == o.n + 1, z3.Not(sel(k.dom, x))) if isnew else z3.And(n == o.n, sel(k.dom, x)))]
    else: g += [('exactly one child', n == 1)] + inv_goals(b)
    g += [('the child node of that name is returned', z3.And(sel(b.dom, x), refp(h, v) == sel(ch, sel(b.mp, x))))]
    if isnew: g += [('the new child inherits the allocator', zi(to_int(st.objs[v.base][NF('m_allocator_id')][1])) == o.alloc), ('the new child does not own its schema', zi(to_int(st.objs[v.base][NF('m_owns_schema')][1])) == 0)]
    return g
for id in (1, 0, 2):
    FUNCS.append(Fn(N + 'add_child(%s const&)' % STD, setup(id), p_add, label=N + 'add_child(name) on ' + NAMES[id]))
def p_app(h, st, v):
    o = h.v['s']; n, ch = o.kids(st); b = o.schema.now(st); i = z3.Int('gi!'); isnew = isinstance(v, P) and isinstance(v.base, str)
    if not isnew or b is None: return [('a new node is returned', False)]
    g = o.lock_goals(st, (n - 1, v.base)) + [('it is the last child', refp(h, v) == sel(ch, n - 1)), ('the new child inherits the allocator', zi(to_int(st.objs[v.base][NF('m_allocator_id')][1])) == o.alloc)]
    if o.id == 2: g += [('one child more', n == o.n + 1), ('child nodes that existed keep their positions', z3.Implies(z3.And(i >= 0, i < o.n), sel(ch, i) == sel(o.ch, i)))]
    else: g += [('exactly one child', n == 1)]
    return g
for id in (2, 0):
    FUNCS.append(Fn(N + 'append()', setup(id, False), p_app, label=N + 'append() on ' + NAMES[id]))
# --- paths: one step here, the rest by the contract of the recursive call
rec = lambda nm: z3.Function('rec_' + nm, INT, INT, INT)
DOTS, EMPTY = lit(b'..'), lit(b'')
def c_rec(nm):
    def c(ex, st, a, ins, fr):
        r = zi(ex.ref_of(a[0])); x = str_get(ex, st, a[1]); st.ghost[('recs', 0, nm)] = (r, x)
        return [('ret', st, P(rec(nm)(r, x), 0)), ('exc', st.copy(), 'error')]
    return c
def p_fetch(nm, create):
    def p(h, st, v):
        o = h.v['s']; k = K(h); b = o.schema.now(st); n, ch = o.kids(st); x = h.v['x']; c, nx = pcurr(x), pnext(x); R = rec(nm); i = z3.Int('gi!')
        res = refp(h, v); called = st.ghost.get(('recs', 0, nm))
        up = z3.And(c == DOTS, h.v['par'] is not None)
        made = z3.simplify(n == o.n + 1); isnew = not z3.is_false(made) and not z3.is_true(z3.simplify(n == o.n))
        reg = None
        if isnew:
            last = z3.simplify(sel(ch, o.n)); m = re.match(r'ref\((.*)\)$', str(last)); reg = m.group(1) if m else None
        g = o.lock_goals(st, (o.n, reg) if reg else None) + inv_goals(b)
        child = sel(ch, sel(b.mp, c))
        g += [('an empty first segment is skipped', z3.Implies(c == EMPTY, res == R(o.me, nx))),
              ('".." continues at the parent', z3.Implies(z3.And(up, c != EMPTY), res == R(h.v['par'], nx)) if h.v['par'] is not None else z3.Implies(c == DOTS, z3.BoolVal(False))),
              ('otherwise the path is followed from the child node named by its first segment', z3.Implies(z3.And(c != EMPTY, c != DOTS), z3.And(sel(b.dom, c), res == z3.If(nx == EMPTY, child, R(child, nx)))))]
        if create: g += [('a child node is created only for a missing first segment', z3.And(n == z3.If(z3.Or(sel(k.dom, c), c == EMPTY, c == DOTS), o.n, o.n + 1), z3.Implies(z3.And(i >= 0, i < o.n), sel(ch, i) == sel(o.ch, i))))]
        else: g += [o.same_nodes(st), same_kids(k, b)]
        return g
    return p
def e_fetch(nm, create):
    def e(h, st):
        o = h.v['s']; x = h.v['x']; c = pcurr(x); k = K(h); called = st.ghost.get(('recs', 0, nm)) is not None; g = []
        why = [z3.And(c == DOTS, h.v['par'] is None)]
        if create: why.append(x == EMPTY)
        else: why += [z3.And(z3.Not(sel(k.dom, c)), c != DOTS, c != EMPTY)]
        g.append(('an error is raised only for a missing segment, a missing parent or an empty path', z3.BoolVal(True) if called else z3.Or(*why)))
        if not called: g += keep(h, st)
        return g
    return e
for par in (True, False):
    t = ' (with a parent)' if par else ' (at the root)'
    for sig, nm, create in (('fetch(%s const&)', 'fetch', True), ('fetch_existing(%s const&) const', 'fe', False), ('fetch_existing(%s const&)', 'fe', False)):
        cs = {N + g % STD: c_rec('fe') for g in ('fetch_existing(%s const&) const', 'fetch_existing(%s const&)')}
        if nm == 'fetch': cs = {N + sig % STD: c_rec('fetch')}
        FUNCS.append(Fn(N + sig % STD, setup(1, parent=par), p_fetch(nm, create), exc=e_fetch(nm, create), contracts=cs, opts={'recursive': 1}, label=N + sig % 'path' + t))

# --- remove / rename
def rem_tpl(ex, loop, hv):
    """the loop of the schema that shifts indices down (as in C09)"""
    if 'at' not in ex.h.v: return []
    o = ex.h.v['s'].schema; k = o.pre; hd = o.hd; x, i = z3.Ints('gx! gi!'); idx, rn = ex.h.v['at'], ex.h.v['rn']
    def f(v, x):
        b = kids_of(v.st, 1, hd); p = sel(k.mp, x)
        return z3.And(sel(b.dom, x) == sel(k.dom, x), z3.Implies(sel(k.dom, x), sel(b.mp, x) == z3.If(z3.And(p >= idx, p < idx + v.it), p - 1, p)))
    return [('indices above the removed one shift down', lambda v, y=y: f(v, y)) for y in (x, rn, sel(k.order, i), sel(k.order, i + 1))]
def p_rem(h, st, v):
    o = h.v['s']; n, ch = o.kids(st); i = z3.Int('gi!'); at = h.v['at']; j = z3.If(i < at, i, i + 1); b = o.schema.now(st)
    g = o.lock_goals(st) + [('one child node fewer, the others in their order', z3.And(n == o.n - 1, z3.Implies(z3.And(i >= 0, i < n), sel(ch, i) == sel(o.ch, j)))), ('exactly the removed node is destroyed', st.ghost[DCNT] == 1), ('and it is the child asked for', sel(st.ghost[DLOG], 0) == sel(o.ch, at))]
    if o.id == 1: g += inv_goals(b)
    return g
DLOG, DCNT = ('dtor', 0, 'log'), ('dtor', 0, 'cnt')
def dlog(h): h.st.ghost[DLOG] = z3.Const('dtor.log', AB(INT, INT)); h.st.ghost[DCNT] = z3.IntVal(0)
def c_dlog(ex, st, a, ins, fr):
    st.ghost[DLOG] = z3.Store(st.ghost[DLOG], zi(st.ghost[DCNT]), zi(ex.ref_of(a[0]))); st.ghost[DCNT] = z3.simplify(zi(st.ghost[DCNT]) + 1); st.writes |= {('ghost', DLOG), ('ghost', DCNT)}; return [('ret', st, None)]
DT_ = {N + '~Node()': c_dlog}
IDXERR = lambda h, st: [('an error is raised only for an index that is not a child', z3.Or(h.v['i'] < 0, h.v['i'] >= h.v['s'].n)), ('nothing is destroyed', st.ghost[DCNT] == 0)] + keep(h, st)
for id in (1, 2):
    def s_remi(h, id=id):
        r = setup(id, False, True)(h); dlog(h); h.v['at'] = h.v['i']; h.v['rn'] = sel(K(h).order, h.v['i']) if id == 1 else None
        if id == 2: h.v['at_'] = 1
        return r
    FUNCS.append(Fn(N + 'remove(long)', s_remi, p_rem, exc=IDXERR, templates=[rem_tpl] if id == 1 else [], contracts=DT_, label=N + 'remove(index) on ' + NAMES[id]))
def s_remn(h):
    r = setup(1)(h); dlog(h); h.v['at'] = sel(K(h).mp, h.v['x']); h.v['rn'] = h.v['x']; return r
FUNCS.append(Fn(N + 'remove_child(%s const&)' % STD, s_remn, p_rem, exc=lambda h, st: NAMEERR(h, st) + [('nothing is destroyed', st.ghost[DCNT] == 0)], templates=[rem_tpl], contracts=DT_, label=N + 'remove_child(name)'))
def c_remrec(ex, st, a, ins, fr):
    if isinstance(a[0], P) and isinstance(a[0].base, str) and a[0].base == ex.h.v['s'].obj: return None
    st.ghost[('rem', 0, 'rec')] = (zi(ex.ref_of(a[0])), str_get(ex, st, a[1])); return [('ret', st, None), ('exc', st.copy(), 'error')]
def c_remchild(ex, st, a, ins, fr):
    st.ghost[('rem', 0, 'child')] = (a[0].base, str_get(ex, st, a[1])); return [('ret', st, None), ('exc', st.copy(), 'error')]
def p_remp(h, st, v):
    o = h.v['s']; k = K(h); x = h.v['x']; c, n = pcurr(x), pnext(x); r = st.ghost.get(('rem', 0, 'rec')); d = st.ghost.get(('rem', 0, 'child'))
    return [('a path of one segment removes that child here', z3.Implies(n == EMPTY, z3.BoolVal(False) if d is None or r is not None else z3.And(d[0] == o.obj, d[1] == c))),
            ('a longer path removes the rest below the child node named first', z3.Implies(n != EMPTY, z3.BoolVal(False) if r is None or d is not None else z3.And(sel(k.dom, c), r[0] == sel(o.ch, sel(k.mp, c)), r[1] == n)))] + keep(h, st)
def e_remp(h, st):
    called = st.ghost.get(('rem', 0, 'rec')) is not None or st.ghost.get(('rem', 0, 'child')) is not None
    return [('an error is raised only when a segment does not exist', z3.BoolVal(True) if called else z3.Not(sel(K(h).dom, pcurr(h.v['x']))))] + keep(h, st)
FUNCS.append(Fn(N + 'remove(%s const&)' % STD, setup(1), p_remp, exc=e_remp, contracts={N + 'remove(%s const&)' % STD: c_remrec, N + 'remove_child(%s const&)' % STD: c_remchild}, opts={'recursive': 1}, label=N + 'remove(path)'))
def s_ren(h):
    r = setup(1)(h); p, h.v['y'] = h.string('new_name'); return r + [p]
def p_ren(h, st, v):
    o = h.v['s']; b = o.schema.now(st); x, y = h.v['x'], h.v['y']; i = z3.Int('gi!')
    return o.lock_goals(st) + inv_goals(b) + [o.same_nodes(st), ('the node is found under the new name only', z3.And(sel(b.dom, y), sel(b.mp, y) == sel(K(h).mp, x), z3.Implies(x != y, z3.Not(sel(b.dom, x)))))]
FUNCS.append(Fn(N + 'rename_child(%s const&, %s const&)' % (STD, STD), s_ren, p_ren, exc=lambda h, st: [('an error is raised only for a missing source or an existing target', z3.Or(z3.Not(sel(K(h).dom, h.v['x'])), sel(K(h).dom, h.v['y'])))] + keep(h, st), label=N + 'rename_child(name, name)'))
from props.C09 import alias
for nm, a in (('rename_child(%s const&, %s const&)' % (STD, STD), (s_ren, p_ren, lambda h, st: [('an error is raised only for an existing target', sel(K(h).dom, h.v['y']))] + keep(h, st), [])), ('remove_child(%s const&)' % STD, (s_remn, p_rem, None, [rem_tpl]))):
    FUNCS.append(Fn(N + nm, alias(a[0], lambda h: h.v['s'].schema), a[1], exc=a[2], templates=a[3], contracts=DT_, label=N + nm.split('(')[0] + '(child_names()[k])'))
# --- release / reset: every child node destroyed once, owned data freed once
FREED = ('freed', 0, 'cnt')
def c_free(ex, st, a, ins, fr):
    st.ghost[FREED] = st.ghost.get(FREED, ()) + ((a[0], zi(to_int(a[1]))),); return [('ret', st, None)]
def s_rel(id, alloced):
    def s(h):
        b = h.buf('data') if alloced else None
        o = HNode(h, id=id, data=P(b, 0) if b else None, alloced=1 if alloced else 0); h.v['s'] = o; dlog(h); h.assume(o.alloc >= -2**31, o.alloc < 2**31); return [o.p]
    return s
def t_rel(ex, loop, hv):
    o = ex.h.v['s']; i = z3.Int('gi!')
    return [('the child nodes seen are destroyed, in order', lambda v: z3.And(zi(v.st.ghost[DCNT]) == v.it, v.it <= o.n, z3.Implies(z3.And(i >= 0, i < v.it), sel(v.st.ghost[DLOG], i) == sel(o.ch, i))))]
def p_rel(reset):
    def p(h, st, v):
        o = h.v['s']; i = z3.Int('gi!'); n, ch = o.kids(st); c = st.objs[o.obj]; fr = st.ghost.get(FREED, ()); al = cint(to_int(h.pre.objs[o.obj][NF('m_alloced')][1])) == 1
        d = c[NF('m_data')][1]
        g = [('no child nodes are left', n == 0), ('every child node is destroyed exactly once', z3.And(zi(st.ghost[DCNT]) == o.n, z3.Implies(z3.And(i >= 0, i < o.n), sel(st.ghost[DLOG], i) == sel(o.ch, i)))),
             ('owned data is freed exactly once, with its allocator; other data never', (len(fr) == 1 and isinstance(fr[0][0], P) and fr[0][0].base == 'data' and fr[0][1] == o.alloc) if al else len(fr) == 0)]
        if al: g += [('the freed data is forgotten', isinstance(d, P) and d.base is None and cint(to_int(c[NF('m_alloced')][1])) == 0)]
        if reset: g += [('the node is empty', zi(to_int(st.objs[o.schema.obj][fld('conduit::Schema', 'm_dtype')][1])) == 0)]
        return g
    return p
for id, al in ((1, False), (2, False), (6, True), (6, False)):
    for nm in ('release', 'reset'):
        FUNCS.append(Fn(N + nm + '()', s_rel(id, al), p_rel(nm == 'reset'), templates=[t_rel], contracts={N + '~Node()': c_dlog, 'conduit::utils::conduit_free(void*, long)': c_free}, label=N + nm + '() of %s%s' % (NAMES[id], ' with owned data' if al else '')))

# --- swap: the two places exchange contents; both trees stay in lockstep
SP, SD = lambda: fld('conduit::Schema', 'm_parent'), lambda: fld('conduit::Schema', 'm_dtype')
def s_swap(pa, pb, sib=False):
    def s(h):
        ps = {}
        def parent(hint):
            q = HSchema(h, hint=hint, id=1); i = z3.Int('at.' + hint); h.assume(i >= 0, i < q.pre.n, z3.Int('np.' + hint) != 0); return q, i
        h.v['pa'] = parent('pa') if pa else None
        h.v['pb'] = (h.v['pa'][0], z3.Int('at.pb')) if sib else (parent('pb') if pb else None)
        if sib: h.assume(z3.Int('at.pb') >= 0, z3.Int('at.pb') < h.v['pa'][0].pre.n, z3.Int('at.pb') != h.v['pa'][1])
        a = HNode(h, hint='a', id=1, parent=P(z3.Int('np.pa'), 0) if pa else None, sparent=h.v['pa'][0].p if pa else None)
        b = HNode(h, hint='b', id=2, parent=P(z3.Int('np.pa' if sib else 'np.pb'), 0) if pb else None, sparent=h.v['pb'][0].p if pb else None, data=P(h.buf('bdata'), 0), alloced=1)
        h.v['a'], h.v['b'] = a, b; h.v['s'] = a
        refs = [a.me, b.me, zi(h.ex.region_ref(a.schema.obj)), zi(h.ex.region_ref(b.schema.obj))]; h.assume(z3.Distinct(*refs))
        j = z3.Int('j?')
        for who, nd in (('pa', a), ('pb', b)):
            if h.v[who]:
                q, i = h.v[who]; sr = zi(h.ex.region_ref(nd.schema.obj)); h.assume(sel(q.pre.ch, i) == sr)
                h.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q.pre.n, j != i), sel(q.pre.ch, j) != sr), patterns=[sel(q.pre.ch, j)]))
            else: pass
        return [a.p, b.p]
    return s
def swap_tpl(ex, loop, hv):
    h = ex.h; a, b = h.v['a'], h.v['b']; i = z3.Int('gi!'); out = []
    hp = lambda v: ex.heap_arr(v.st, (NF('m_parent'), 8))
    if hp(hv).eq(hp(View(hv.entry, 0, {}))):      # a search: no parent link changes in this loop
        return [('the wanted schema was not passed', lambda v, at=h.v[who][1]: v.it <= at) for who in ('pa', 'pb') if h.v[who]]
    for ch, n, me in ((b.ch, b.n, a.me), (a.ch, a.n, b.me)):
        out.append(('moved children seen so far point to their new parent', lambda v, ch=ch, n=n, me=me: z3.Implies(z3.And(i >= 0, i < v.it, i < n), sel(hp(v), sel(ch, i)) == me)))
        out.append(('all moved children point to their new parent', lambda v, ch=ch, n=n, me=me: z3.Implies(z3.And(i >= 0, i < n), sel(hp(v), sel(ch, i)) == me)))
        out.append(('children not reached yet still point to the old one', lambda v, ch=ch, n=n, me=me, o=(b.me if me is a.me else a.me): z3.Implies(z3.And(i >= 0, i < n), sel(hp(v), sel(ch, i)) == o)))
    return out
def p_swap(h, st, v):
    ex = h.ex; a, b = h.v['a'], h.v['b']; g = []; i = z3.Int('gi!'); hs, hp = ex.heap_arr(st, (NF('m_schema'), 8)), ex.heap_arr(st, (NF('m_parent'), 8))
    for x, y, who in ((a, b, 'pa'), (b, a, 'pb')):
        c = st.objs[x.obj]; t = ' (%s)' % ('this' if x is a else 'other'); ms = c[NF('m_schema')][1]; n, ch = x.kids(st)
        g += [('its schema is the one the other had' + t, isinstance(ms, P) and ms.base == y.schema.obj), ('its children are the ones the other had' + t, z3.And(n == y.n, z3.Implies(z3.And(i >= 0, i < y.n), sel(ch, i) == sel(y.ch, i)))),
              ('the children point back to it' + t, z3.Implies(z3.And(i >= 0, i < y.n), z3.And(sel(hp, sel(y.ch, i)) == x.me, sel(hs, sel(y.ch, i)) == sel(y.schema.pre.ch, i)))),
              ('its place in the node tree is unchanged' + t, zi(ex.ref_of(c[NF('m_parent')][1])) == zi(ex.ref_of(h.pre.objs[x.obj][NF('m_parent')][1]))),
              ('schema ownership stays with the place' + t, zi(to_int(c[NF('m_owns_schema')][1])) == zi(to_int(h.pre.objs[x.obj][NF('m_owns_schema')][1])))]
        for f in ('m_data', 'm_data_size', 'm_alloced', 'm_mmaped', 'm_allocator_id'):
            p, q = c[NF(f)][1], h.pre.objs[y.obj][NF(f)][1]
            g.append(('%s moved with the contents' % f + t, (isinstance(p, P) and p.base == q.base) if isinstance(q, P) else zi(to_int(p)) == zi(to_int(q))))
        sp = st.objs[y.schema.obj][SP()][1]
        if h.v[who]:
            q, at = h.v[who]; now = q.now(st)
            g += [('the parent schema holds the schema now at this place' + t, z3.And(now.n == q.pre.n, sel(now.ch, at) == zi(ex.region_ref(y.schema.obj)))), ('that schema points to this parent' + t, isinstance(sp, P) and sp.base == q.obj)]
            other = h.v['pb' if who == 'pa' else 'pa']; ex_ = [i != at] + ([i != other[1]] if other and other[0] is q else [])
            g.append(('the siblings are untouched' + t, z3.Implies(z3.And(i >= 0, i < q.pre.n, *ex_), sel(now.ch, i) == sel(q.pre.ch, i))))
        else: g.append(('a root stays a root' + t, isinstance(sp, P) and sp.base is None))
    return g
for lab, c in (('two roots', (False, False)), ('a child with a root', (True, False)), ('a root with a child', (False, True)), ('children of different parents', (True, True)), ('two siblings', (True, True, True))):
    FUNCS.append(Fn(N + 'swap(conduit::Node&)', s_swap(*c), p_swap, templates=[swap_tpl], label=N + 'swap: ' + lab))
# --- deep copy
from models import ALLOC
COPY = ('copy', 0, 'of')
def s_setn(id, dst=0):
    def s(h):
        o = HNode(h, hint='self', id=dst, data=P(h.buf('old'), 0) if dst > 2 else None, alloced=1 if dst > 2 else 0); dlog(h); q = HNode(h, hint='src', id=id); h.v['s'], h.v['q'] = o, q
        a = z3.Int('alloc'); h.st.ghost[ALLOC] = a; h.st.ghost[COPY] = z3.Const('copyof', AB(INT, INT)); j = z3.Int('j?')
        h.assume(a > 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q.n), z3.And(sel(q.ch, j) < a, sel(q.schema.pre.ch, j) < a)), patterns=[sel(q.ch, j), sel(q.schema.pre.ch, j)]))
        return [o.p, q.p]
    return s
def c_nctor(ex, st, a, ins, fr):
    """Node(): no children, no parent, owns an empty schema of its own (proved below)"""
    if isinstance(a[0].base, str): return None
    for f, v, ty in (('m_parent', NULL, ('ptr',)), ('m_schema', P(fresh_int('own.schema'), 0), ('ptr',)), ('m_owns_schema', I(8, 1), ('i', 8)), ('m_allocator_id', I(64, 0), ('i', 64)), ('m_data', NULL, ('ptr',))):
        ex.store(st, P(a[0].base, NF(f)), v, ty, None)
    return [('ret', st, None)]
def c_setrec(ex, st, a, ins, fr):
    st.ghost[COPY] = z3.Store(st.ghost[COPY], zi(ex.ref_of(a[0])), zi(ex.ref_of(a[1]))); st.writes.add(('ghost', COPY)); return [('ret', st, None)]
def setn_facts(h, st, it):
    ex = h.ex; o, q = h.v['s'], h.v['q']; i = z3.Int('gi!'); n, ch = o.kids(st); b = o.schema.now(st)
    if b is None: return None
    hs, hp, ha = ex.heap_arr(st, (NF('m_schema'), 8)), ex.heap_arr(st, (NF('m_parent'), 8)), ex.heap_arr(st, (NF('m_allocator_id'), 8)); x = sel(ch, i)
    hsp = ex.heap_arr(st, (fld('conduit::Schema', 'm_parent'), 8))
    inr = z3.And(i >= 0, i < it); a0 = z3.Int('alloc')
    return [('as many as seen', z3.And(n == it, b.n == it)), ('fresh', z3.Implies(inr, z3.And(x >= a0, x < zi(st.ghost[ALLOC]), sel(b.ch, i) >= a0, sel(b.ch, i) < zi(st.ghost[ALLOC])))),
            ('linked', z3.Implies(inr, z3.And(sel(hs, x) == sel(b.ch, i), sel(hp, x) == o.me))), ('copies, in order', z3.Implies(inr, sel(st.ghost[COPY], x) == sel(q.ch, i))),
            ('allocator inherited', z3.Implies(inr, sel(ha, x) == o.alloc)), ('schemas point back', z3.Implies(inr, sel(hsp, sel(b.ch, i)) == zi(ex.region_ref(o.schema.obj))))]
def setn_tpl(ex, loop, hv):
    h = ex.h; q = h.v['q']; i, y = z3.Ints('gi! gx!'); out = [('bounded by the source', lambda v: v.it <= q.n), ('references only grow', lambda v: zi(v.st.ghost[ALLOC]) >= z3.Int('alloc'))]
    for k in range(6):
        out.append(('copy invariant %d' % k, lambda v, k=k: (lambda f: None if f is None else f[k][1])(setn_facts(h, v.st, v.it))))
    if q.id == 1:
        def nm(v):
            b = h.v['s'].schema.now(v.st)
            return None if b is None or b.order is None else (b, q.schema.pre)
        def ordq(v):
            r = nm(v); i = z3.Int('i?')
            return None if r is None else z3.And(r[0].on == v.it, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.it), sel(r[0].order, i) == sel(r[1].order, i)), patterns=[sel(r[0].order, i)]))
        out.append(('names so far', ordq))
        def dom(y): return lambda v: (lambda r: None if r is None else z3.And(sel(r[0].dom, y) == z3.And(sel(r[1].dom, y), sel(r[1].mp, y) < v.it), z3.Implies(sel(r[0].dom, y), sel(r[0].mp, y) == sel(r[1].mp, y))))(nm(v))
        def domq(v):
            r = nm(v); y = z3.Int('y?')
            return None if r is None else z3.ForAll([y], z3.And(sel(r[0].dom, y) == z3.And(sel(r[1].dom, y), sel(r[1].mp, y) < v.it), z3.Implies(sel(r[0].dom, y), sel(r[0].mp, y) == sel(r[1].mp, y))), patterns=[sel(r[0].dom, y)])
        out.append(('index of names so far', domq))
    return out
def p_setn(h, st, v):
    o, q = h.v['s'], h.v['q']; f = setn_facts(h, st, q.n)
    if f is None: return [('the copy has the kind of the source', False)]
    g = [('the copy: ' + a, b) for a, b in f]
    if q.id == 1:
        b = o.schema.now(st); i, y = z3.Ints('gi! gx!'); k = q.schema.pre
        g += inv_goals(b) + [('the names are the same, in the same order', z3.And(z3.Implies(z3.And(i >= 0, i < q.n), sel(b.order, i) == sel(k.order, i)), sel(b.dom, y) == sel(k.dom, y)))]
    n, ch = q.kids(st); i = z3.Int('gi!')
    return g + [('the source is unchanged', z3.And(n == q.n, z3.Implies(z3.And(i >= 0, i < n), sel(ch, i) == sel(q.ch, i)))), same_kids(q.schema.pre, q.schema.now(st), 'the source schema is unchanged')]
def c_setalloc(ex, st, a, ins, fr):
    """of a node with no children and no data: only the allocator changes (proved below)"""
    if isinstance(a[0].base, str): return None
    ex.store(st, P(a[0].base, NF('m_allocator_id')), a[1], ('i', 64), None); return [('ret', st, None)]
def s_seta(id):
    def s(h):
        r = s_rel(id, False)(h); v, h.v['id'] = h.int('allocator'); return r + [v]
    return s
def p_seta(h, st, v):
    o = h.v['s']; n, ch = o.kids(st); c = st.objs[o.obj]; i = z3.Int('gi!'); same = h.v['id'] == o.alloc
    return [('the allocator is set', zi(to_int(c[NF('m_allocator_id')][1])) == h.v['id']), ('the schema and parent links are unchanged', c[NF('m_schema')][1].base == o.schema.obj and c[NF('m_parent')][1].base is None),
            ('a change of allocator empties the node; otherwise nothing changes', z3.And(z3.Implies(z3.Not(same), z3.And(n == 0, zi(st.ghost[DCNT]) == o.n)), z3.Implies(same, z3.And(n == o.n, zi(st.ghost[DCNT]) == 0))))]
for id in (0, 1, 2):
    FUNCS.append(Fn(N + 'set_allocator(long)', s_seta(id), p_seta, templates=[t_rel], contracts={N + '~Node()': c_dlog, 'conduit::utils::conduit_free(void*, long)': c_free}, label=N + 'set_allocator of ' + NAMES[id]))
CP = {N + '~Node()': c_dlog, 'conduit::utils::conduit_free(void*, long)': c_free, N + 'set_allocator(long)': c_setalloc, N + 'Node()': c_nctor, N + 'set(conduit::Node const&)': c_setrec}
for id in (1, 2):
    for dst in (0, 1, 2, 6):
        FUNCS.append(Fn(N + 'set_node(conduit::Node const&)', s_setn(id, dst), p_setn, templates=[setn_tpl, t_rel], contracts=CP, opts={'alloc': (64, 88)}, label=N + 'set_node of %s from %s' % (NAMES[dst], NAMES[id])))
# --- the constructor
def s_ctor(h): o = h.obj('self'); h.v['o'] = o; return [P(o, 0)]
def p_ctor(h, st, v):
    c = st.objs[h.v['o']]; ms = c[NF('m_schema')][1]; nul = lambda f: isinstance(c[NF(f)][1], P) and c[NF(f)][1].base is None
    return [('no parent, no data, no mapping', nul('m_parent') and nul('m_data') and nul('m_mmap')), ('no children', zi(st.ghost[(h.v['o'], NF('m_children'), 'vec')]) == 0), ('it owns an empty schema', cint(to_int(c[NF('m_owns_schema')][1])) == 1 and isinstance(ms, P) and isinstance(ms.base, str) and cint(to_int(st.objs[ms.base][SD()][1])) == 0),
            ('nothing is allocated or mapped', cint(to_int(c[NF('m_alloced')][1])) == 0 and cint(to_int(c[NF('m_mmaped')][1])) == 0)]
FUNCS.append(Fn(N + 'Node()', s_ctor, p_ctor))
# --- building the node tree over an existing schema tree
WS, WD = ('walk', 0, 'schema'), ('walk', 0, 'src')
WALK, MIRR = N + 'walk_schema(conduit::Node*, conduit::Schema*, void*, long)', N + 'mirror_node(conduit::Node*, conduit::Schema*, conduit::Node const*)'
def c_walk(ex, st, a, ins, fr):
    """recursive use: the child tree is built over that schema, with that data"""
    if isinstance(a[0].base, str): return None
    src = zi(ex.ref_of(a[2])); al = zi(to_int(a[3])) if len(a) > 3 else None
    n = zi(ex.ref_of(a[0])); st.ghost[WS] = z3.Store(st.ghost[WS], n, zi(ex.ref_of(a[1]))); st.ghost[WD] = z3.Store(st.ghost[WD], n, src); st.writes |= {('ghost', WS), ('ghost', WD)}
    if al is not None: ex.require(st, 'the allocator is passed on', al == z3.Int('allocator'))
    return [('ret', st, None)]
def s_walk(id, mirror):
    def s(h):
        o = HNode(h, hint='self', id=id, bare=True); h.v['s'] = o; b = h.buf('data'); h.v['data'] = zi(h.ex.region_ref(b))
        a = z3.Int('alloc'); h.st.ghost[ALLOC] = a; h.st.ghost[WS] = z3.Const('walk.s', AB(INT, INT)); h.st.ghost[WD] = z3.Const('walk.d', AB(INT, INT)); j = z3.Int('j?')
        if o.schema.pre is not None: h.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < o.schema.pre.n), sel(o.schema.pre.ch, j) < a), patterns=[sel(o.schema.pre.ch, j)]))
        h.assume(a > 0)
        if not mirror: return [o.p, o.schema.p, P(b, 0), h.int('allocator')[0]]
        q = HNode(h, hint='src', id=id, data=P(b, 0)); h.v['q'] = q
        if o.schema.pre is not None: h.assume(q.n == o.schema.pre.n)       # the schema was copied from the source's (C09)
        return [o.p, o.schema.p, q.p]
    return s
def walk_facts(h, st, it):
    ex = h.ex; o = h.v['s']; i = z3.Int('gi!'); n, ch = o.kids(st); k = o.schema.pre; x = sel(ch, i); inr = z3.And(i >= 0, i < it); a0 = z3.Int('alloc')
    hs, hp, ha = ex.heap_arr(st, (NF('m_schema'), 8)), ex.heap_arr(st, (NF('m_parent'), 8)), ex.heap_arr(st, (NF('m_allocator_id'), 8)); ho = ex.heap_arr(st, (NF('m_owns_schema'), 1))
    d = sel(h.v['q'].ch, i) if 'q' in h.v else h.v['data']; al = o.alloc if 'q' in h.v else z3.Int('allocator')
    return [('one child node per child schema', n == it), ('child nodes are new', z3.Implies(inr, z3.And(x >= a0, x < zi(st.ghost[ALLOC])))),
            ('each is linked to its schema and parent', z3.Implies(inr, z3.And(sel(hs, x) == sel(k.ch, i), sel(hp, x) == o.me))),
            ('each subtree is built over its own schema and data', z3.Implies(inr, z3.And(sel(st.ghost[WS], x) == sel(k.ch, i), sel(st.ghost[WD], x) == d))),
            ('the allocator is inherited', z3.Implies(inr, sel(ha, x) == al))]
def walk_tpl(ex, loop, hv):
    h = ex.h; o = h.v['s']; k = o.schema.pre
    if k is None: return []
    out = [('bounded', lambda v: v.it <= k.n), ('references only grow', lambda v: zi(v.st.ghost[ALLOC]) >= z3.Int('alloc'))] + [('walk invariant %d' % j, lambda v, j=j: walk_facts(h, v.st, v.it)[j][1]) for j in range(5)]
    if k.order is not None:
        def un(v):
            b = o.schema.now(v.st); i, y = z3.Ints('i? y?')
            return z3.And(b.n == k.n, b.on == k.on, z3.ForAll([i], sel(b.ch, i) == sel(k.ch, i), patterns=[sel(b.ch, i)]), z3.ForAll([i], sel(b.order, i) == sel(k.order, i), patterns=[sel(b.order, i)]), z3.ForAll([y], z3.And(sel(b.dom, y) == sel(k.dom, y), z3.Implies(sel(k.dom, y), sel(b.mp, y) == sel(k.mp, y))), patterns=[sel(b.dom, y), sel(b.mp, y)]))
        out.append(('the schema is unchanged', un))
    return out
def p_walk(h, st, v):
    o = h.v['s']; k = o.schema.pre; d = st.objs[o.obj][NF('m_data')][1]
    g = [('the data pointer is shared', isinstance(d, P) and d.base == 'data')]
    if k is None: return g + [('a leaf has no children', zi(o.kids(st)[0]) == 0)]
    return g + walk_facts(h, st, k.n) + [same_kids(k, o.schema.now(st), 'the schema is unchanged')]
for nm, sig in (('walk_schema', WALK), ('mirror_node', MIRR)):
    for id in (1, 2, 6, 0):
        FUNCS.append(Fn(sig, s_walk(id, nm == 'mirror_node'), p_walk, templates=[walk_tpl], contracts={N + 'set_allocator(long)': c_setalloc, N + 'Node()': c_nctor, WALK: c_walk, MIRR: c_walk}, opts={'alloc': (64, 88), 'recursive': 1}, label=N + nm + ' over ' + NAMES[id]))
# --- the operations that build a node over a described buffer: release, take the schema, then build, in that order
SEQ = ('seq', 0, 'log')
def log(st, *x): st.ghost[SEQ] = st.ghost.get(SEQ, ()) + (x,)
def lg(tag):
    def c(ex, st, a, ins, fr): log(st, tag, *a); return [('ret', st, None)]
    return c
def c_span(ex, st, a, ins, fr): v = z3.Int('span'); st.assume(v >= 0); log(st, 'span', a[0], v); return [('ret', st, I(64, v))]
def c_allocb(ex, st, a, ins, fr):
    log(st, 'alloc', *a); n = ex.new_region(st, 'buf', 'fresh'); return [('ret', st, P(n, 0))]
def c_cpy(tag):
    def c(ex, st, a, ins, fr): log(st, tag, a[0], a[1], zi(ex.unsigned(st, I(64, to_int(a[2]))))); return [('ret', st, None)]
    return c
SSET, SSETD = S + 'set(conduit::Schema const&)', S + 'set(conduit::DataType const&)'
BUILD = {N + 'release()': lg('release'), N + 'reset()': lg('reset'), SSET: lg('schema'), SSETD: lg('dtype'), S + 'spanned_bytes() const': c_span, WALK: lg('walk'), MIRR: lg('mirror'),
         'conduit::utils::conduit_allocate(unsigned long, unsigned long, long)': c_allocb, 'conduit::utils::conduit_memcpy(void*, void const*, unsigned long)': c_cpy('memcpy'), 'conduit::utils::conduit_memset(void*, int, unsigned long)': c_cpy('memset')}
def s_build(src):
    def s(h):
        o = HNode(h, id=6); h.v['s'] = o; h.assume(o.alloc >= -2**31, o.alloc < 2**31)
        if src == 'node': q = HNode(h, hint='src', id=1); h.v['q'] = q; return [o.p, q.p]
        x = h.dtype(hint='dt')[0] if src.startswith('dtype') else HSchema(h, 'sch', id=1).p
        h.v['x'] = x; b = h.buf('ext'); return [o.p, x] + ([P(b, 0)] if src.endswith('+data') else [])
    return s
def at(p, q): return isinstance(p, P) and isinstance(q, P) and p.base == q.base and (isint(p.off) and isint(q.off) and p.off == q.off)
def p_build(steps):
    def p(h, st, v):
        o = h.v['s']; L = list(st.ghost.get(SEQ, ())); c = st.objs[o.obj]; g = []; span = None; mem = None
        main = [l for l in L if l[0] != 'span']
        got = [l[0] for l in main]; ix = got.index
        g.append(('each of these happens exactly once: ' + ', '.join(steps), sorted(got) == sorted(steps)))
        if not g[0][1]: return g
        g.append(('emptied, then described, then built', ix(steps[0]) < ix('schema') < ix(steps[-1]) and ('alloc' not in got or ix('schema') < ix('alloc') < min(ix(steps[-2]), ix(steps[-1])))))
        for l in main:
            if l[0] in ('release', 'reset'): g.append(('this node is emptied first', at(l[1], o.p)))
            if l[0] in ('schema', 'dtype'): g.append(('the schema of this node takes the description given', at(l[1], o.schema.p) and at(l[2], h.v['q'].schema.p if 'q' in h.v else h.v['x'])))
            if l[0] == 'alloc':
                sp = [x for x in L if x[0] == 'span']; ok = bool(sp) and all(at(x[1], o.schema.p) for x in sp); mem = c[NF('m_data')][1]
                g += [('the bytes spanned by the schema are allocated with the allocator of this node', z3.And(zi(to_int(l[1])) * zi(to_int(l[2])) == sp[0][2], zi(to_int(l[3])) == o.alloc) if ok else False),
                      ('the node owns the allocation and knows its size', z3.And(zi(to_int(c[NF('m_alloced')][1])) == 1, zi(to_int(c[NF('m_data_size')][1])) == sp[0][2], zi(to_int(c[NF('m_mmaped')][1])) == 0) if ok else False), ('the data pointer is the new allocation', isinstance(mem, P) and str(mem.base).startswith('fresh'))]
            if l[0] == 'memcpy': sp = [x for x in L if x[0] == 'span']; g.append(('all spanned bytes are copied from the data given', z3.And(l[3] == sp[-1][2]) if sp and at(l[1], mem) and at(l[2], P('ext', 0)) else False))
            if l[0] == 'memset': sp = [x for x in L if x[0] == 'span']; g.append(('all spanned bytes are zeroed', z3.And(l[3] == sp[-1][2], zi(to_int(l[2])) == 0) if sp and at(l[1], mem) else False))
            if l[0] == 'walk': g.append(('the tree is built over this schema and the data it must use', at(l[1], o.p) and at(l[2], o.schema.p) and at(l[3], mem or P('ext', 0)) and cint(z3.simplify(zi(to_int(l[4])) - o.alloc)) == 0))
            if l[0] == 'mirror': g.append(('the tree is built over this schema and the source node', at(l[1], o.p) and at(l[2], o.schema.p) and at(l[3], h.v['q'].p)))
        return g
    return p
for nm, sig, src, steps in (('set_external_node', 'set_external_node(conduit::Node const&)', 'node', ['reset', 'schema', 'mirror']), ('set_external_data_using_schema', 'set_external_data_using_schema(conduit::Schema const&, void*)', 'schema+data', ['reset', 'schema', 'walk']),
                            ('set_schema', 'set_schema(conduit::Schema const&)', 'schema', ['release', 'schema', 'alloc', 'memset', 'walk']), ('set_data_using_schema', 'set_data_using_schema(conduit::Schema const&, void*)', 'schema+data', ['release', 'schema', 'alloc', 'memcpy', 'walk'])):
    FUNCS.append(Fn(N + sig, s_build(src), p_build(steps), contracts=BUILD, label=N + nm))
# --- init: describe a node anew
def s_init(src, tgt):
    def s(h):
        own = src == 'owned leaf'; b = h.buf('old') if 'leaf' in src else None
        o = HNode(h, id={'empty': 0, 'object': 1, 'list': 2}.get(src, 6), data=P(b, 0) if b else None, alloced=1 if own else 0); h.v['s'] = o; dlog(h); h.assume(o.alloc >= -2**31, o.alloc < 2**31)
        p, h.v['f'] = h.dtype(hint='dt', id=z3.IntVal(tgt)); f = h.v['f']
        if tgt in (0, 1, 2): h.assume(*[f[x] == 0 for x in ('num_ele', 'offset', 'stride', 'ele_bytes')])
        if 'leaf' in src: h.assume(o.schema.f['num_ele'] >= 0)
        elif src == 'empty': h.assume(*[o.schema.f[x] == 0 for x in ('num_ele', 'offset', 'stride', 'ele_bytes')])
        return [o.p, p]
    return s
def p_init(h, st, v):
    o, f = h.v['s'], h.v['f']; c = st.objs[o.obj]; L = [l for l in st.ghost.get(SEQ, ()) if l[0] == 'alloc']; fr = st.ghost.get(FREED, ()); n, ch = o.kids(st); pf = o.schema.f
    comp = z3.And(pf['id'] == f['id'], pf['ele_bytes'] == f['ele_bytes'], pf['num_ele'] >= f['num_ele']); d = c[NF('m_data')][1]; now = dt_fields(h.ex, st, P(o.schema.obj, SD())); pd = h.pre.objs[o.obj][NF('m_data')][1]
    own = cint(to_int(h.pre.objs[o.obj][NF('m_alloced')][1])) == 1; leaf = cint(f['id']) > 2; touched = bool(L or fr)
    g = [('a compatible node keeps its description and children', z3.Implies(comp, z3.And(n == o.n, zi(st.ghost[DCNT]) == 0, *[now[x] == pf[x] for x in DT]))), ('a compatible node keeps its data', z3.Implies(comp, z3.BoolVal(not touched and at(d, pd)))),
         ('otherwise the description is the one asked for', z3.Implies(z3.Not(comp), z3.And(*[now[x] == f[x] for x in DT]))), ('otherwise no children are left, each destroyed once', z3.Implies(z3.Not(comp), z3.And(n == 0, zi(st.ghost[DCNT]) == o.n))),
         ('otherwise owned data is freed exactly once and external data never', z3.Implies(z3.Not(comp), z3.BoolVal(len(fr) == (1 if own else 0) and all(at(x[0], pd) for x in fr)))),
         ('otherwise a leaf gets its own new buffer of the bytes it spans', z3.Implies(z3.Not(comp), z3.BoolVal(len(L) == (1 if leaf else 0))))]
    if L:
        n_, s_, e_, o_ = f['num_ele'], f['stride'], f['ele_bytes'], f['offset']; sz = z3.If(n_ > 0, s_ * (n_ - 1) + e_, 0) + o_
        g += [('the buffer spans the elements described', zi(to_int(L[0][1])) * zi(to_int(L[0][2])) == sz), ('it is owned', z3.And(zi(to_int(c[NF('m_alloced')][1])) == 1, zi(to_int(L[0][3])) == o.alloc)), ('it is the data of the node', isinstance(d, P) and str(d.base).startswith('fresh'))]
    elif not leaf and own: g.append(('no pointer to freed data is kept', z3.Implies(z3.Not(comp), z3.BoolVal(isinstance(d, P) and d.base is None and cint(to_int(c[NF('m_alloced')][1])) == 0))))
    return g
INIT = {N + '~Node()': c_dlog, 'conduit::utils::conduit_free(void*, long)': c_free, 'conduit::utils::conduit_allocate(unsigned long, unsigned long, long)': c_allocb}
for src in ('empty', 'object', 'list', 'owned leaf', 'external leaf'):
    for tgt in (6, 11, 1, 2, 0):
        FUNCS.append(Fn(N + 'init(conduit::DataType const&)', s_init(src, tgt), p_init, templates=[t_rel], contracts=INIT, label=N + 'init of %s as %s' % (src, NAMES[tgt])))
# --- move
def s_move(h): a, b = HNode(h, hint='a', id=1), HNode(h, hint='b', id=2); h.v['a'], h.v['b'] = a, b; h.v['s'] = a; return [a.p, b.p]
def p_move(h, st, v):
    L = st.ghost.get(SEQ, ()); ok = [l[0] for l in L] == ['reset', 'swap']
    return [('this node is emptied, then exchanged with the source', ok and at(L[0][1], h.v['a'].p) and ((at(L[1][1], h.v['a'].p) and at(L[1][2], h.v['b'].p)) or (at(L[1][2], h.v['a'].p) and at(L[1][1], h.v['b'].p))))]
FUNCS.append(Fn(N + 'move(conduit::Node&)', s_move, p_move, contracts={N + 'reset()': lg('reset'), N + 'swap(conduit::Node&)': lg('swap')}, label=N + 'move'))
DRIVER = 'd_C10.cpp'
DRIVER_SCOPE = 'random histories of node operations against a reference tree, under AddressSanitizer'
DRIVER_BOUND = '220 histories of 60 operations over two trees (x8 in the thorough tier)'
ASSUMES = ['Node::~Node and Schema::~Schema delete what they own (release/cleanup of the node itself is under contract)', 'operands of set, swap, move and update are not ancestors or descendants of each other', 'memory-mapped nodes are outside the contracts', 'recursive calls satisfy the contract they are proved against (induction over the depth of the tree)']
