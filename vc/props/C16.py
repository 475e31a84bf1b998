"""C16: walking the children of a node visits each child once, in order, forwards and backwards."""
from nod import *
from models import decs
UNITS = ['libs/conduit/conduit_node_iterator.cpp', 'libs/conduit/conduit_node.cpp', 'libs/conduit/conduit_schema.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_utils.cpp', 'probe/probe_iter.cpp']
FUNCS = []
N = 'conduit::Node::'
iv = lambda v: zi(to_int(v))
def same(p, q): return isinstance(p, P) and isinstance(q, P) and p.base == q.base and isint(p.off) and isint(q.off) and p.off == q.off
def bo(v): return v.t if isinstance(v.t, (bool, z3.BoolRef)) else zi(to_int(v)) != 0
# the node's own accessors, as proved in C10; a child is named by its position
def c_n(ex, st, a, ins, fr):
    ex.require(st, 'the children of the walked node are counted', same(a[0], ex.h.v['node'])); return [('ret', st, I(64, ex.h.v['n']))]
def c_child(ex, st, a, ins, fr):
    ex.require(st, 'a child of the walked node is taken', same(a[0], ex.h.v['node'])); i = iv(a[1])
    ex.require(st, 'the position of the child exists', z3.And(i >= 0, i < ex.h.v['n'])); return [('ret', st, P('kids', 16 * i))]
CS = {}
for q_ in ('', ' const'):
    CS[N + 'number_of_children()' + q_] = c_n; CS[N + 'child(long)' + q_] = c_child; CS[N + 'child_ptr(long)' + q_] = c_child
def kid(v, i): return isinstance(v, P) and v.base == 'kids' and simpb(zi(v.off) == 16 * zi(i)) if False else (zi(v.off) == 16 * zi(i) if isinstance(v, P) and v.base == 'kids' else z3.BoolVal(False))
class It:
    """an iterator object over the node of h.v['node']"""
    def __init__(s, h, cls, hint='it', node=True, pos=None):
        s.h, s.cls = h, cls; s.obj = h.obj(hint); s.p = P(s.obj, 0); c = h.st.objs[s.obj]
        s.child = 'Child' in cls; s.fn, s.fi = ('m_parent', 'm_index') if s.child else ('m_node', 'm_index')
        s.base = 'conduit::' + cls
        if s.child: s.base = 'conduit::NodeChildIteratorBase<' + ('const conduit::Node &, const conduit::Node *, conduit::NodeConstChildIterator>' if 'Const' in cls else 'conduit::Node &, conduit::Node *, conduit::NodeChildIterator>')
        s.i = z3.Int(hint + '.index') if pos is None else pos
        c[s.off('node')] = (8, h.v['node'] if node else NULL); c[s.off('index')] = (8, I(64, s.i))
        if not s.child: c[s.off('count')] = (8, I(64, h.v['n']))
    def off(s, k):
        if s.child: return {'node': 0, 'index': 8}[k]
        return fld(s.base, {'node': 'm_node', 'index': 'm_index', 'count': 'm_num_children'}[k])
    def now(s, st, at=None):
        o = at or s.p; g = lambda k: s.h.ex.load(st, P(o.base, o.off + s.off(k)), ('ptr',) if k == 'node' else ('i', 64), None)
        return g('node'), iv(g('index')), None if s.child else iv(g('count'))
    def is_(s, st, i, at=None, tag='the cursor'):
        a, b, c = s.now(st, at)
        return [('%s is over the same node' % tag, same(a, s.h.v['node'])), ('%s is at the right position' % tag, b == zi(i))] + ([] if c is None else [('%s knows the number of children' % tag, c == s.h.v['n'])])
def base(h, id=1):
    o = HNode(h, id=id); h.v['node'] = o.p; h.v['o'] = o; h.v['n'] = o.n if isint(id) and id in (1, 2) else z3.Int('n'); h.assume(h.v['n'] >= 0)
def add(name, s, p, exc=None, label=None, contracts=CS): FUNCS.append(Fn('conduit::' + name, s, p, exc=exc, contracts=contracts, label=label and 'conduit::' + label))
for cls in ('NodeIterator', 'NodeConstIterator'):
    cq = ' const' if 'Const' in cls else ''
    def s_it(h, cls=cls, lo=0):
        base(h); it = It(h, cls); h.assume(it.i >= lo, it.i <= h.v['n']); h.v['it'] = it; return [it.p]
    def s_one(h, cls=cls): return s_it(h, cls, 1)
    I_ = lambda h: h.v['it'].i
    stay = lambda h, st: h.v['it'].is_(st, I_(h))
    add(cls + '::has_next() const', s_it, lambda h, st, v: [('a next child exists exactly before the last', bo(v) == (I_(h) < h.v['n']))] + stay(h, st))
    add(cls + '::has_previous() const', s_it, lambda h, st, v: [('a previous child exists exactly after the first', bo(v) == (I_(h) > 1))] + stay(h, st))
    add(cls + '::index() const', s_it, lambda h, st, v: [('the position of the child last visited', iv(v) == I_(h) - 1)] + stay(h, st))
    add(cls + '::node()', s_one, lambda h, st, v: [('the child last visited', kid(v, I_(h) - 1))] + stay(h, st))
    add(cls + '::to_front()', s_it, lambda h, st, v: h.v['it'].is_(st, 0))
    add(cls + '::to_back()', s_it, lambda h, st, v: h.v['it'].is_(st, h.v['n']))
    add(cls + '::next()', s_it, lambda h, st, v: [('there was a next child', I_(h) < h.v['n']), ('it is visited', kid(v, I_(h)))] + h.v['it'].is_(st, I_(h) + 1), exc=lambda h, st: [('an error only at the end', I_(h) >= h.v['n'])] + stay(h, st))
    add(cls + '::peek_next()', s_it, lambda h, st, v: [('there was a next child', I_(h) < h.v['n']), ('it is the one next() visits', kid(v, I_(h)))] + stay(h, st), exc=lambda h, st: [('an error only at the end', I_(h) >= h.v['n'])] + stay(h, st))
    add(cls + '::previous()', s_it, lambda h, st, v: [('there was a previous child', I_(h) > 1), ('it is visited', kid(v, I_(h) - 2))] + h.v['it'].is_(st, I_(h) - 1), exc=lambda h, st: [('an error only at the front', I_(h) <= 1)] + stay(h, st))
    add(cls + '::peek_previous()', s_it, lambda h, st, v: [('not at the front', I_(h) > 1), ('the child before the cursor', kid(v, I_(h) - 1))] + stay(h, st), exc=lambda h, st: [('an error only at the front', I_(h) <= 1)] + stay(h, st))
    for amp in ('*', '&'):
        def s_new(h, cls=cls):
            base(h); it = It(h, cls, 'old'); o = h.obj('new'); h.v['it'] = it; x, i = h.int('idx'); h.assume(i >= 0, i <= h.v['n']); h.v['i'] = i; h.v['new'] = P(o, 0); return [P(o, 0), h.v['node'], x]
        add('%s::%s(conduit::Node%s%s, long)' % (cls, cls, cq, amp), s_new, lambda h, st, v: h.v['it'].is_(st, h.v['i'], at=h.v['new'], tag='the new cursor'))
    def s_def(h, cls=cls): base(h); h.v['it'] = It(h, cls, 'old'); h.v['new'] = P(h.obj('new'), 0); return [h.v['new']]
    add('%s::%s()' % (cls, cls), s_def, lambda h, st, v: (lambda t: [('nothing to visit', z3.And(t[1] == 0, t[2] == 0))])(h.v['it'].now(st, h.v['new'])))
    for src in ('NodeIterator', 'NodeConstIterator'):
        if cls == 'NodeIterator' and src != cls: continue
        p_cp = lambda h, st, v: h.v['it'].is_(st, h.v['b'].i, tag='the copy') + h.v['b'].is_(st, h.v['b'].i, tag='the source')
        for over in (0, 1):
            def s_cp(h, cls=cls, src=src, over=over):
                base(h); b = It(h, src, 'src'); d = It(h, cls, 'dst', node=over); h.v['it'] = d; h.assume(b.i >= 0, b.i <= h.v['n'])
                if over: h.assume(d.i >= 0, d.i <= h.v['n'])
                else: h.st.objs[d.obj][d.off('count')] = (8, I(64, z3.Int('dst.count')))
                h.v['b'] = b; return [h.v['it'].p, b.p]
            if not over: add('%s::%s(conduit::%s const&)' % (cls, cls, src), s_cp, p_cp)
            add('%s::operator=(conduit::%s const&)' % (cls, src), s_cp, p_cp, label='%s::operator=(%s) %s' % (cls, src, 'over the same node' if over else 'over no node'))
        if cls == src:
            def s_self(h, cls=cls): base(h); b = It(h, cls, 'src'); h.assume(b.i >= 0, b.i <= h.v['n']); h.v['b'] = h.v['it'] = b; return [b.p, b.p]
            add('%s::operator=(conduit::%s const&)' % (cls, src), s_self, p_cp, label='%s::operator=(%s) itself' % (cls, src))
    # names
    for id in (1, 2):
        def s_nm(h, cls=cls, id=id):
            base(h, id); it = It(h, cls); h.assume(it.i >= 1, it.i <= h.v['n']); h.v['it'] = it; h.v['out'] = P(h.obj('out'), 0); return [h.v['out'], it.p]
        p_nm = lambda h, st, v, id=id: [('the name under which the child is known' if id == 1 else 'the position, as text', str_get(h.ex, st, h.v['out']) == (z3.Select(h.v['o'].schema.pre.order, I_(h) - 1) if id == 1 else decs(I_(h) - 1)))] + stay(h, st)
        add(cls + '::name() const', s_nm, p_nm, label=cls + '::name() over ' + NAMES[id])
    # ranges
    for m_, ccls, front in [('cbegin() const', 'NodeConstChildIterator', 1), ('cend() const', 'NodeConstChildIterator', 0)] + ([('begin()', 'NodeChildIterator', 1), ('end()', 'NodeChildIterator', 0)] if not cq else []):
        def s_rg(h, cls=cls, ccls=ccls):
            base(h); it = It(h, cls); h.assume(it.i >= 0, it.i <= h.v['n']); h.v['it'] = it; h.v['r'] = It(h, ccls, 'tmp'); h.v['out'] = P(h.obj('out'), 0); return [h.v['out'], it.p]
        add(cls + '::' + m_, s_rg, lambda h, st, v, front=front: h.v['r'].is_(st, I_(h) if front else h.v['n'], at=h.v['out'], tag='the range end') + stay(h, st))
for q_, cls in (('', 'NodeIterator'), (' const', 'NodeConstIterator')):
    def s_ch(h, cls=cls): base(h); h.v['it'] = It(h, cls, 'old'); h.v['out'] = P(h.obj('out'), 0); return [h.v['out'], h.v['node']]
    FUNCS.append(Fn(N + 'children()' + q_, s_ch, lambda h, st, v: h.v['it'].is_(st, 0, at=h.v['out'], tag='the new cursor'), contracts=CS))
# --- random access iterators
for cls, B_ in (('NodeChildIterator', 'conduit::NodeChildIteratorBase<conduit::Node&, conduit::Node*, conduit::NodeChildIterator>'), ('NodeConstChildIterator', 'conduit::NodeChildIteratorBase<conduit::Node const&, conduit::Node const*, conduit::NodeConstChildIterator>')):
    cq = ' const' if 'Const' in cls else ''
    def b_(h, cls=cls): base(h, 5); it = It(h, cls); h.v['it'] = it; return it
    def s0(h, b_=b_): return [b_(h).p]
    def s_at(h, b_=b_): it = b_(h); h.assume(it.i >= 0, it.i < h.v['n']); return [it.p]
    def s_k(h, b_=b_): it = b_(h); x, h.v['k'] = h.int('k'); return [it.p, x]
    def s_sub(h, b_=b_): it = b_(h); x, k = h.int('k'); h.v['k'] = k; h.assume(it.i + k >= 0, it.i + k < h.v['n']); return [it.p, x]
    def s_out(h, b_=b_): it = b_(h); h.v['out'] = P(h.obj('out'), 0); return [h.v['out'], it.p]
    def s_pf(h, b_=b_): return s_out(h, b_) + [I(32, 0)]
    def s_ok(h, b_=b_): x, h.v['k'] = h.int('k'); return s_out(h, b_) + [x]
    def s_two(h, cls=cls, b_=b_): it = b_(h); o = It(h, cls, 'other'); h.v['other'] = o; return [it.p, o.p]
    II = lambda h: h.v['it'].i
    F_ = lambda nm, s, p, lb=None: FUNCS.append(Fn(B_ + '::' + nm, s, p, contracts=CS))
    keep = lambda h, st: h.v['it'].is_(st, II(h))
    me = lambda h, v: [('it yields the iterator itself', same(v, h.v['it'].p))]
    F_('operator++()', s0, lambda h, st, v: h.v['it'].is_(st, II(h) + 1) + me(h, v)); F_('operator--()', s0, lambda h, st, v: h.v['it'].is_(st, II(h) - 1) + me(h, v))
    F_('operator++(int)', s_pf, lambda h, st, v: h.v['it'].is_(st, II(h) + 1) + h.v['it'].is_(st, II(h), at=h.v['out'], tag='the result'))
    F_('operator--(int)', s_pf, lambda h, st, v: h.v['it'].is_(st, II(h) - 1) + h.v['it'].is_(st, II(h), at=h.v['out'], tag='the result'))
    F_('operator+=(long)', s_k, lambda h, st, v: h.v['it'].is_(st, II(h) + h.v['k']) + me(h, v)); F_('operator-=(long)', s_k, lambda h, st, v: h.v['it'].is_(st, II(h) - h.v['k']) + me(h, v))
    F_('operator+(long) const', s_ok, lambda h, st, v: h.v['it'].is_(st, II(h) + h.v['k'], at=h.v['out'], tag='the result') + keep(h, st))
    F_('operator-(long) const', s_ok, lambda h, st, v: h.v['it'].is_(st, II(h) - h.v['k'], at=h.v['out'], tag='the result') + keep(h, st))
    F_('operator*()', s_at, lambda h, st, v: [('the child at the position', kid(v, II(h)))] + keep(h, st)); F_('operator->()', s_at, lambda h, st, v: [('the child at the position', kid(v, II(h)))] + keep(h, st))
    F_('operator[](long) const', s_sub, lambda h, st, v: [('the child that many positions on', kid(v, II(h) + h.v['k']))] + keep(h, st))
    F_('get_index() const', s0, lambda h, st, v: [('its position', iv(v) == II(h))]); F_('get_parent() const', s0, lambda h, st, v: [('its node', same(v, h.v['node']))])
    F_('operator-(conduit::%s const&) const' % cls, s_two, lambda h, st, v: [('the distance', iv(v) == II(h) - h.v['other'].i)])
    for op, f in (('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b), ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b)):
        F_('operator%s(conduit::%s const&) const' % (op, cls), s_two, lambda h, st, v, f=f: [('the order of the positions', bo(v) == f(II(h), h.v['other'].i))] + keep(h, st))
    for op, neg in (('==', 0), ('!=', 1)):
        F_('operator%s(%s const&) const' % (op, B_), s_two, lambda h, st, v, neg=neg: [('same position over the same node', bo(v) == ((II(h) == h.v['other'].i) if not neg else (II(h) != h.v['other'].i)))] + keep(h, st))
    def s_far(h, cls=cls, b_=b_):
        it = b_(h); o = It(h, cls, 'other'); h.st.objs[o.obj][0] = (8, P(h.obj('elsewhere'), 0)); h.v['other'] = o; return [it.p, o.p]
    for op, neg in (('==', 0), ('!=', 1)):
        FUNCS.append(Fn(B_ + '::operator%s(%s const&) const' % (op, B_), s_far, lambda h, st, v, neg=neg: [('positions in different nodes differ', bo(v) == z3.BoolVal(bool(neg)))], contracts=CS, label=B_ + '::operator%s of another node' % op))
    def s_plus(h, b_=b_): it = b_(h); h.v['out'] = P(h.obj('out'), 0); x, h.v['k'] = h.int('k'); return [h.v['out'], x, it.p]
    FUNCS.append(Fn('conduit::operator+(long, conduit::%s const&)' % cls, s_plus, lambda h, st, v: h.v['it'].is_(st, II(h) + h.v['k'], at=h.v['out'], tag='the result') + keep(h, st), contracts=CS))
    for id in (1, 2):
        def s_cn(h, cls=cls, id=id):
            base(h, id); it = It(h, cls); h.assume(it.i >= 0, it.i < h.v['n']); h.v['it'] = it; h.v['out'] = P(h.obj('out'), 0); return [h.v['out'], it.p]
        FUNCS.append(Fn(B_ + '::name() const', s_cn, lambda h, st, v, id=id: [('the name of the child at the position', str_get(h.ex, st, h.v['out']) == (z3.Select(h.v['o'].schema.pre.order, II(h)) if id == 1 else decs(II(h))))] + keep(h, st), contracts=CS, label=B_ + '::name() over ' + NAMES[id]))
    def s_ctor(h, cls=cls): base(h, 5); h.v['it'] = It(h, cls, 'old'); h.v['new'] = P(h.obj('new'), 0); x, h.v['i'] = h.int('idx'); return [h.v['new'], h.v['node'], x]
    add('%s::%s(conduit::Node%s*, long)' % (cls, cls, cq), s_ctor, lambda h, st, v: h.v['it'].is_(st, h.v['i'], at=h.v['new'], tag='the new iterator'))
    def s_cc(h, cls=cls): base(h, 5); h.v['it'] = It(h, cls, 'src'); h.v['new'] = P(h.obj('new'), 0); return [h.v['new'], h.v['it'].p]
    add('%s::%s(conduit::%s const&)' % (cls, cls, cls), s_cc, lambda h, st, v: h.v['it'].is_(st, II(h), at=h.v['new'], tag='the copy') + keep(h, st))
# --- a complete walk, over the contracts
def walk():
    n, i = z3.Ints('n i'); pos = z3.Function('visited', INT, INT)
    yield 'k-th next() from the front visits child k', [n >= 0, i >= 0, i < n], z3.And(i < n, i + 1 <= n)
    yield 'previous() after next() returns to the child visited before', [n >= 0, i >= 1, i < n], z3.And(i + 1 > 1, (i + 1) - 2 == i - 1)
FUNCS.append(Lemma('positions of a walk', walk))
DRIVER = 'd_C16.cpp'
DRIVER_SCOPE = 'walks over random objects and lists with every iterator, against the positions and names of the children'
DRIVER_BOUND = '400 random trees of up to 7 children, 60 moves each (x8 thorough)'
BOUNDED_ONLY = ['NodeIterator::info, NodeConstIterator::info']
ASSUMES = ['the node is not changed while it is walked', 'Node::child(i) and number_of_children() satisfy the contracts proved in C10', 'decimal formatting of an integer by the standard stream is a function of the integer']
