"""Specification vocabulary for Node and Schema objects (field offsets come from the compiler's record layouts)."""
import re
from arr import *
_lay = {}
EXTRA_LAYOUTS = []
def layout(cls):
    """{field: offset} of a class, dumped by the compiler for the current tree"""
    if not _lay:
        for src in [build.HERE + '/vc/probe/probe_core.cpp', 'libs/conduit/conduit_schema.cpp'] + EXTRA_LAYOUTS:
            t = open(build.layouts(src)).read()
            for m in re.finditer(r'\*\*\* Dumping AST Record Layout\n\s+0 \| (?:class|struct) (\S.*?)\n(.*?)\n\n', t, re.S):
                f = {}
                for l in m.group(2).split('\n'):
                    x = re.match(r'\s+(\d+) \|   (\S.*) (\S+)$', l)
                    if x: f.setdefault(x.group(3), int(x.group(1)))
                z = re.search(r'\[sizeof=(\d+)', m.group(2))
                if z: f['@size'] = int(z.group(1))
                _lay.setdefault(m.group(1), f)
    if cls not in _lay: raise Unsupported('no layout for ' + cls)
    return _lay[cls]
def fld(cls, name):
    l = layout(cls)
    if name not in l: raise Unsupported('no field %s in %s' % (name, cls))
    return l[name]

class SchemaObj:
    def __init__(s, h, hint='schema', parent=None, **fixed):
        s.obj = h.obj(hint); s.p = P(s.obj, 0)
        _, s.f = h.dtype(base=s.obj, off=fld('conduit::Schema', 'm_dtype'), hint=hint, **fixed)
        h.st.objs[s.obj][fld('conduit::Schema', 'm_hierarchy_data')] = (8, NULL)
        h.st.objs[s.obj][fld('conduit::Schema', 'm_parent')] = (8, parent or NULL)
class NodeObj:
    """a node; leaf data in its own buffer"""
    def __init__(s, h, hint='self', buf=None, data=True, **fixed):
        N = 'conduit::Node'
        s.h = h; s.schema = SchemaObj(h, hint + '.schema', **fixed); s.f = s.schema.f
        s.obj = h.obj(hint); s.p = P(s.obj, 0); c = h.st.objs[s.obj]
        c[fld(N, 'm_parent')] = (8, NULL); c[fld(N, 'm_schema')] = (8, s.schema.p)
        s.buf = buf or h.buf('M_' + hint)
        c[fld(N, 'm_data')] = (8, P(s.buf, 0) if data else NULL)
        s.pre = h.st.bufs[s.buf]
        s.n, s.stride, s.off = s.f['num_ele'], s.f['stride'], s.f['offset']
        h.assume(s.n >= 0)
    def addr(s, k): return s.off + s.stride * zi(k)
    def pre_elem(s, k, ty): return rd(s.pre, s.addr(k), ty.nb)
    def now(s, st): return st.bufs[s.buf]
    def desc(s, st): return dt_fields(s.h.ex, st, P(s.schema.obj, fld('conduit::Schema', 'm_dtype')))
    def desc_unchanged(s, st, but=()):
        g = s.desc(st); return ('the description is unchanged', z3.And(*[g[n] == s.f[n] for n in DT if n not in but]))

AB = lambda d, r: z3.ArraySort(d, r)
INT, BOOL = z3.IntSort(), z3.BoolSort()
class Kids:
    """a snapshot of the bookkeeping of an object (named) or list schema"""
    def __init__(s, n, ch, order=None, on=None, dom=None, mp=None): s.n, s.ch, s.order, s.on, s.dom, s.mp = n, ch, order, on, dom, mp
def SOH(n): return fld('conduit::Schema::Schema_Object_Hierarchy', n)
class HSchema:
    """a schema object with its children: id 1 (object), 2 (list) or a leaf/empty id"""
    def __init__(s, h, hint='self', id=1, parent=None, inv=True):
        s.h, s.id = h, id; st = h.st
        s.obj = h.obj(hint); s.p = P(s.obj, 0); c = st.objs[s.obj]
        _, s.f = h.dtype(base=s.obj, off=fld('conduit::Schema', 'm_dtype'), hint=hint, id=z3.IntVal(id) if isint(id) else id)
        c[fld('conduit::Schema', 'm_parent')] = (8, parent or NULL)
        if isint(id) and id in (1, 2): h.assume(*[s.f[n] == 0 for n in ('num_ele', 'offset', 'stride', 'ele_bytes')])     # as DataType::object() and list() describe them
        s.hd = None
        if isint(id) and id in (1, 2):
            s.hd = h.obj(hint + '.hier'); c[fld('conduit::Schema', 'm_hierarchy_data')] = (8, P(s.hd, 0))
            co = SOH('children') if id == 1 else fld('conduit::Schema::Schema_List_Hierarchy', 'children')
            n = z3.Int(hint + '.n'); ch = z3.Const(hint + '.ch', AB(INT, INT)); st.ghost[(s.hd, co, 'vec')] = n; st.tarr['V(%s+%d)' % (s.hd, co)] = (8, 'ref', ch); h.assume(n >= 0, n < 2**60)
            if id == 1:
                oo, mo = SOH('object_order'), SOH('object_map')
                od = z3.Const(hint + '.order', AB(INT, INT)); dom = z3.Const(hint + '.dom', AB(INT, BOOL)); mp = z3.Const(hint + '.map', AB(INT, INT))
                on = z3.Int(hint + '.on') if not inv else n
                st.ghost[(s.hd, oo, 'vec')] = on; st.tarr['V(%s+%d)' % (s.hd, oo)] = (32, 'int', od)
                st.ghost[(s.hd, mo, 'mapdom')] = dom; st.tarr['M(%s+%d)' % (s.hd, mo)] = (1, 'int', mp)
                s.pre = Kids(n, ch, od, on, dom, mp)
                if inv: h.assume(inv_q(s.pre))
            else: s.pre = Kids(n, ch)
        else:
            c[fld('conduit::Schema', 'm_hierarchy_data')] = (8, NULL); s.pre = None
    def hier(s, st):
        """(id, hierarchy region or None) now"""
        c = st.objs[s.obj]; i = cint(to_int(c[fld('conduit::Schema', 'm_dtype')][1]))
        hp = c[fld('conduit::Schema', 'm_hierarchy_data')][1]
        return i, (hp.base if isinstance(hp, P) and isinstance(hp.base, str) else None)
    def now(s, st):
        i, hd = s.hier(st)
        return kids_of(st, i, hd)
def kids_of(st, i, hd):
    if i not in (1, 2) or hd is None: return None
    co = SOH('children') if i == 1 else fld('conduit::Schema::Schema_List_Hierarchy', 'children')
    n, ch = st.ghost[(hd, co, 'vec')], st.tarr['V(%s+%d)' % (hd, co)][2]
    if i == 2: return Kids(zi(n), ch)
    oo, mo = SOH('object_order'), SOH('object_map')
    return Kids(zi(n), ch, st.tarr['V(%s+%d)' % (hd, oo)][2], zi(st.ghost[(hd, oo, 'vec')]), st.ghost[(hd, mo, 'mapdom')], st.tarr['M(%s+%d)' % (hd, mo)][2])
def inv_q(k):
    """map, order and children agree: quantified form (hypothesis)"""
    i, x = z3.Ints('i? x?')
    return z3.And(k.on == k.n,
        z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k.n), z3.And(z3.Select(k.dom, z3.Select(k.order, i)), z3.Select(k.mp, z3.Select(k.order, i)) == i)), patterns=[z3.Select(k.order, i)]),
        z3.ForAll([x], z3.Implies(z3.Select(k.dom, x), z3.And(z3.Select(k.mp, x) >= 0, z3.Select(k.mp, x) < k.n, z3.Select(k.order, z3.Select(k.mp, x)) == x)), patterns=[z3.Select(k.dom, x), z3.Select(k.mp, x)]))
def inv_goals(k, tag=''):
    """the same, for arbitrary index i and name x (goal)"""
    i, x = z3.Ints('gi! gx!')
    return [('order and children have the same length' + tag, k.on == k.n),
            ('every position is found under its own name' + tag, z3.Implies(z3.And(i >= 0, i < k.n), z3.And(z3.Select(k.dom, z3.Select(k.order, i)), z3.Select(k.mp, z3.Select(k.order, i)) == i))),
            ('every known name leads to the position that carries it' + tag, z3.Implies(z3.Select(k.dom, x), z3.And(z3.Select(k.mp, x) >= 0, z3.Select(k.mp, x) < k.n, z3.Select(k.order, z3.Select(k.mp, x)) == x)))]
def same_kids(a, b, tag='children, order and names are unchanged'):
    i, x = z3.Ints('gi! gx!'); inr = z3.And(i >= 0, i < a.n)
    g = [b.n == a.n, z3.Implies(inr, z3.Select(b.ch, i) == z3.Select(a.ch, i))]
    if a.order is not None:
        g += [z3.Implies(inr, z3.Select(b.order, i) == z3.Select(a.order, i)), b.on == a.on, z3.Select(a.dom, x) == z3.Select(b.dom, x), z3.Implies(z3.Select(a.dom, x), z3.Select(a.mp, x) == z3.Select(b.mp, x))]
    return (tag, z3.And(*g))

def NF(n): return fld('conduit::Node', n)
class HNode:
    """a node with children: its schema (an HSchema) and the vector of child nodes; `lock` assumes the two trees are in lockstep"""
    def __init__(s, h, hint='self', id=1, parent=None, lock=True, sparent=None, data=None, alloced=0, mmaped=0, bare=False):
        s.h, st = h, h.st; s.id = id
        s.schema = HSchema(h, hint + '.schema', id=id, parent=sparent)
        s.obj = h.obj(hint); s.p = P(s.obj, 0); c = st.objs[s.obj]
        c[NF('m_parent')] = (8, parent or NULL); c[NF('m_schema')] = (8, s.schema.p); c[NF('m_data')] = (8, data or NULL)
        for n, v in (('m_data_size', I(64, z3.Int(hint + '.data_size'))), ('m_mmap', NULL)): c[NF(n)] = (8, v)
        c[NF('m_alloced')] = (1, I(8, alloced)); c[NF('m_mmaped')] = (1, I(8, mmaped)); c[NF('m_owns_schema')] = (1, I(8, z3.Int(hint + '.owns'))); c[NF('m_allocator_id')] = (8, I(64, z3.Int(hint + '.alloc_id')))
        h.assume(z3.Or(z3.Int(hint + '.owns') == 0, z3.Int(hint + '.owns') == 1))
        s.alloc = z3.Int(hint + '.alloc_id')
        co = NF('m_children'); s.co = co
        if isint(id) and id in (1, 2): n = s.schema.pre.n
        else: n = z3.IntVal(0)
        if bare: n, lock = z3.IntVal(0), False      # schema already built, no child nodes yet
        s.ch = z3.Const(hint + '.nch', AB(INT, INT)); st.ghost[(s.obj, co, 'vec')] = n; st.tarr['V(%s+%d)' % (s.obj, co)] = (8, 'ref', s.ch); s.n = n
        s.me = zi(h.ex.region_ref(s.obj))
        if lock and isint(id) and id in (1, 2):
            i = z3.Int('i?'); hs, hp = h.ex.heap_arr(st, (NF('m_schema'), 8)), h.ex.heap_arr(st, (NF('m_parent'), 8)); x = z3.Select(s.ch, i)
            h.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(x != 0, z3.Select(hs, x) == z3.Select(s.schema.pre.ch, i), z3.Select(hp, x) == s.me)), patterns=[x]))
    def kids(s, st): return zi(st.ghost[(s.obj, s.co, 'vec')]), st.tarr['V(%s+%d)' % (s.obj, s.co)][2]
    def lock_goals(s, st, fresh=None, skip_parent=False):
        """the node and its schema are in lockstep; fresh = (index term, region of a child node created here)"""
        ex = s.h.ex; b = s.schema.now(st); n, ch = s.kids(st)
        if b is None: return [('no children', n == 0)]
        i = z3.Int('gi!'); hs, hp = ex.heap_arr(st, (NF('m_schema'), 8)), ex.heap_arr(st, (NF('m_parent'), 8)); x = z3.Select(ch, i)
        old = z3.And(i >= 0, i < n)
        g = []
        if fresh is not None:
            fi, reg = fresh; c = st.objs.get(reg); old = z3.And(old, i != zi(fi))
            ok = c is not None and isinstance(c.get(NF('m_schema'), (8, None))[1], P)
            g.append(('the new child node is linked to its schema', z3.And(z3.Select(ch, zi(fi)) == zi(ex.region_ref(reg)), z3.Select(b.ch, zi(fi)) == zi(ex.ref_of(c[NF('m_schema')][1]))) if ok else False))
            pp = c[NF('m_parent')][1] if ok else None
            g.append(('the new child node points back to its parent', isinstance(pp, P) and pp.base == s.obj))
        return g + [('as many child nodes as child schemas', n == b.n), ('every child node is the one its schema describes, and points back here', z3.Implies(old, z3.And(z3.Select(hs, x) == z3.Select(b.ch, i), True if skip_parent else z3.Select(hp, x) == s.me)))]
    def same_nodes(s, st):
        n, ch = s.kids(st); i = z3.Int('gi!')
        return ('the child nodes are unchanged', z3.And(n == s.n, z3.Implies(z3.And(i >= 0, i < s.n), z3.Select(ch, i) == z3.Select(s.ch, i))))
