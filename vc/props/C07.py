"""C07: setting a node stores exactly the given values, in place when compatible and in fresh memory otherwise; external set describes exactly the caller's memory."""
from nod import *
from props.C10 import N, S, STD, nop, c_path, at, log, SEQ
UNITS = ['libs/conduit/conduit_node.cpp', 'libs/conduit/conduit_schema.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_data_array.cpp', 'libs/conduit/conduit_utils.cpp', 'libs/conduit/conduit_endianness.cpp', 'probe/probe_core.cpp']
FUNCS = []
iv = lambda v: zi(to_int(v))
NATIVE = [('char', 'int8'), ('signed char', 'int8'), ('short', 'int16'), ('int', 'int32'), ('long', 'int64'), ('long long', 'int64'), ('unsigned char', 'uint8'), ('unsigned short', 'uint16'),
          ('unsigned int', 'uint32'), ('unsigned long', 'uint64'), ('unsigned long long', 'uint64'), ('float', 'float32'), ('double', 'float64')]
# --- the node that is written
def c_release(ex, st, a, ins, fr):
    """proved in C10: the children are destroyed, owned data is freed and forgotten"""
    o = ex.h.v['s']
    if not (isinstance(a[0], P) and a[0].base == o.obj): return None
    log(st, 'release', a[0]); c = st.objs[o.obj]; st.writes.add(('obj', o.obj))
    st.ghost[(o.obj, o.co, 'vec')] = z3.IntVal(0)
    d = c[NF('m_data')][1]
    if cint(to_int(c[NF('m_alloced')][1])) == 1 and isinstance(d, P) and d.base is not None:
        c[NF('m_data')] = (8, NULL); c[NF('m_data_size')] = (8, I(64, 0)); c[NF('m_alloced')] = (1, I(8, 0))
    return [('ret', st, None)]
def c_alloc(ex, st, a, ins, fr):
    log(st, 'alloc', iv(a[0]) * iv(a[1]), iv(a[2])); return [('ret', st, P('fresh', 0))]
def c_sset(ex, st, a, ins, fr):
    """Schema::set(dtype) on the schema of the node (proved in C09): takes the description, drops the children"""
    o = ex.h.v['s']
    if not (isinstance(a[0], P) and a[0].base == o.schema.obj) or o.schema.hd is None: return None
    f = dt_fields(ex, st, a[1]); dt_store(ex, st, P(o.schema.obj, fld('conduit::Schema', 'm_dtype')), f)
    st.objs[o.schema.obj][fld('conduit::Schema', 'm_hierarchy_data')] = (8, NULL); return [('ret', st, None)]
def c_fetch(ex, st, a, ins, fr):
    """Node::fetch(path) (C10): the node at that path"""
    if not (isinstance(a[0], P) and a[0].base == ex.h.v.get('root')): return None
    log(st, 'fetch', str_get(ex, st, a[1])); return [('ret', st, ex.h.v['s'].p)]
CONTRACTS = {S + 'path() const': c_path, N + 'path() const': c_path, S + '~Schema()': nop, N + '~Node()': nop, N + 'release()': c_release, S + 'set(conduit::DataType const&)': c_sset,
             'conduit::utils::conduit_allocate(unsigned long, unsigned long, long)': c_alloc, N + 'fetch(%s const&)' % STD: c_fetch}
CASES = ('compatible', 'empty', 'owned', 'external', 'object')
def mknode(h, case, t, n):
    """a node of one of the kinds; n = the number of elements about to be stored"""
    h.buf('fresh')
    if case in ('compatible', 'owned', 'external'):
        b = h.buf('M_self'); i = z3.Int('self.id') if case != 'compatible' else t.id
        o = HNode(h, id=i, data=P(b, 0), alloced=0 if case == 'external' else 1)
        if case == 'compatible': h.assume(o.schema.f['ele_bytes'] == t.nb, o.schema.f['num_ele'] >= n, o.schema.f['stride'] >= t.nb, o.schema.f['stride'] < 2**60, o.schema.f['num_ele'] < 2**60)
        else: h.assume(i >= 3, i <= 13, o.schema.f['num_ele'] >= 0, z3.Not(z3.And(i == t.id, o.schema.f['ele_bytes'] == t.nb, o.schema.f['num_ele'] >= n)))
        h.v['M'] = (b, h.st.bufs[b])
    elif case == 'empty':
        o = HNode(h, id=0); h.assume(*[o.schema.f[x] == 0 for x in ('num_ele', 'offset', 'stride', 'ele_bytes')])
    else: o = HNode(h, id=1)
    h.assume(o.alloc >= -2**31, o.alloc < 2**31); h.v['s'] = o; h.v['case'] = case; h.v['t'] = t; h.v['n'] = n
    return o
STR13 = Ty('char8_str', 'char', 's', 8, 13)
def spec(h, case, t, n, want, others):
    o = mknode(h, case, t, n); h.assume(n >= 0, n < 2**60)
    if case == 'compatible': WriteSpec(h, 'M_self', o.schema.f['offset'], o.schema.f['stride'], t.nb, n, want, others=others)
    else: WriteSpec(h, 'fresh', 0, t.nb, t.nb, n, want, others=list(others) + (['M_self'] if case in ('owned', 'external') else []))
    return o
def desc(h, st): return dt_fields(h.ex, st, P(h.v['s'].schema.obj, fld('conduit::Schema', 'm_dtype')))
def p_set(h, st, v):
    o, case, t, n = h.v['s'], h.v['case'], h.v['t'], h.v['n']; L = list(st.ghost.get(SEQ, ())); f = desc(h, st); g = h.ws.post(st); c = st.objs[o.obj]; d = c[NF('m_data')][1]
    al, rl = [l for l in L if l[0] == 'alloc'], [l for l in L if l[0] == 'release']
    if case == 'compatible':
        g += [('compatible memory is reused, nothing is allocated or released', not al and not rl and isinstance(d, P) and d.base == 'M_self' and isint(d.off) and d.off == 0), ('the description is kept', z3.And(*[f[x] == o.schema.f[x] for x in DT]))]
    else:
        g += [('the data is in freshly allocated memory of this node\'s allocator, large enough', z3.And(al[0][1] >= n * t.nb, al[0][2] == o.alloc) if len(al) == 1 and isinstance(d, P) and d.base == 'fresh' and isint(d.off) and d.off == 0 else False),
              ('the node owns it', cint(to_int(c[NF('m_alloced')][1])) == 1),
              ('the previous content is released first', bool(rl) and [l[0] for l in L].index('release') < [l[0] for l in L].index('alloc') if case in ('owned', 'object') else True),
              ('the description is exactly that of the values', z3.And(f['id'] == t.id, f['num_ele'] == n, f['offset'] == 0, f['stride'] == t.nb, f['ele_bytes'] == t.nb, z3.Or(f['endianness'] == 0, f['endianness'] == 2))),
              ('no child is left', zi(st.ghost[(o.obj, o.co, 'vec')]) == 0)]
    if 'root' in h.v:
        fe = [l for l in L if l[0] == 'fetch']
        g.append(('exactly the node at the given path is set', len(fe) == 1 and z3.simplify(zi(fe[0][1]) == zi(h.v['path']))))
    return g
def p_asg(h, st, v): return p_set(h, st, v) + [('it yields the node itself', at(v, h.v['s'].p))]
def onpath(s):
    """the same, through set_path(path, ...)"""
    def f(h):
        a = s(h); r = h.obj('root'); h.v['root'] = r; p, t = h.string('path'); h.v['path'] = t
        return [P(r, 0), p] + a[1:]
    return f
def add(name, setup, label, path=None, contracts=None, cases=CASES, post=p_set, tpl=(ws_tpl,)):
    for c in cases:
        FUNCS.append(Fn(N + name, lambda h, c=c: setup(h, c), post, templates=list(tpl), contracts=contracts, label=N + label + ' [%s node]' % c))
    if path: FUNCS.append(Fn(N + path, onpath(lambda h: setup(h, 'compatible')), post, templates=list(tpl), contracts=contracts, label=N + path.split('(')[0] + label[label.index('('):] if '(' in label else N + path))
def source(h, t): b = h.buf('src'); return h.st.bufs[b]
for T, tn in NATIVE:
    t = BYNAME[tn]; fixed = T == t.cpp
    def s_sc(h, c, t=t):
        x, xb = mkval(h, t, 'value'); o = spec(h, c, t, z3.IntVal(1), lambda k: xb, []); return [o.p, x]
    def s_ar(h, c, t=t):
        a = Arr(h, 'src', t); h.assume(a.stride >= 0, a.stride < 2**60); o = spec(h, c, t, a.n, lambda k: a.pre_elem(k), [a.buf]); return [o.p, a.p]
    def s_ve(h, c, t=t):
        pre = source(h, t); n = z3.Int('n'); o = spec(h, c, t, n, lambda k: rd(pre, t.nb * k, t.nb), ['src']); h.v['vec'] = h.obj('vec'); return [o.p, P(h.v['vec'], 0)]
    def s_il(h, c, t=t):
        pre = source(h, t); n = z3.Int('n'); o = spec(h, c, t, n, lambda k: rd(pre, t.nb * k, t.nb), ['src']); il = h.obj('il'); h.st.objs[il][0] = (8, P('src', 0)); h.st.objs[il][8] = (8, I(64, n)); return [o.p, P(il, 0)]
    def s_pt(h, c, t=t):
        pre = source(h, t); n, of, sr, eb, en = z3.Ints('n offset stride ele_bytes endianness'); h.assume(sr >= 0, sr < 2**60)
        o = spec(h, c, t, n, lambda k: rd(pre, of + sr * k, t.nb), ['src']); return [o.p, P('src', 0)] + [I(64, x) for x in (n, of, sr, eb, en)]
    PTR = '(%s const*, long, long, long, long, long)' % T
    kinds = [('(%s)' % T, '', s_sc, None), ('(conduit::DataArray<%s> const&)' % T, '_array', s_ar, None), ('(std::vector<%s, std::allocator<%s>> const&)' % (T, T), '_vector', s_ve, vec_c(T, t.nb)),
             ('(std::initializer_list<%s> const&)' % T, '_initializer_list', s_il, None), (PTR, '_ptr', s_pt, None)]
    for sig, suf, s, cs in kinds:
        short = {'': T, '_array': 'DataArray<%s>' % T, '_vector': 'vector<%s>' % T, '_initializer_list': 'initializer_list<%s>' % T, '_ptr': T + '*, layout'}[suf]
        pth = lambda n: n + '(%s const&, ' % STD + sig[1:]
        if T == 'char' and suf == '_ptr': add('set_char_ptr' + sig, s, 'set_char_ptr(%s)' % short, path=pth('set_path_char_ptr')); continue
        add('set' + sig, s, 'set(%s)' % short, path=pth('set_path') if suf != '_initializer_list' else None, contracts=cs)
        if suf != '_ptr': add('operator=' + sig, s, 'operator=(%s)' % short, contracts=cs, cases=('compatible', 'owned'), post=p_asg)
        if fixed: add('set_' + tn + suf + sig, s, 'set_%s%s(%s)' % (tn, suf, short), path=pth('set_path_' + tn + suf) if suf != '_initializer_list' else None, contracts=cs)
# --- strings: the characters and the terminator
def s_str(h, c):
    pre = source(h, STR13); L = z3.Int('len'); h.assume(L >= 0, z3.Select(pre, L) == 0); h.v['n0'] = L
    o = spec(h, c, STR13, L + 1, lambda k: rd(pre, k, 1), ['src']); h.v['str'] = h.obj('str'); return [o.p, P(h.v['str'], 0)]
smine = lambda a, ex: isinstance(a[0], P) and a[0].base == ex.h.v.get('str')
c_len = lambda ex, st, a, ins, fr: [('ret', st, I(64, ex.h.v['n0']))] if smine(a, ex) else None
c_cstr = lambda ex, st, a, ins, fr: [('ret', st, P('src', 0))] if smine(a, ex) else None
STRC = {STD + '::length() const': c_len, STD + '::size() const': c_len, STD + '::c_str() const': c_cstr, STD + '::data() const': c_cstr}
def c_strlen(ex, st, a, ins, fr):
    ex.require(st, 'strlen of the given string', isinstance(a[0], P) and a[0].base == 'src' and isint(a[0].off) and a[0].off == 0); return [('ret', st, I(64, ex.h.v['n0']))]
def s_cs(h, c): r = s_str(h, c); return [r[0], P('src', 0)]
for nm in ('set', 'set_string'): add(nm + '(%s const&)' % STD, s_str, nm + '(string)', path=nm.replace('set', 'set_path') + '(%s const&, %s const&)' % (STD, STD), contracts=STRC)
add('operator=(%s const&)' % STD, s_str, 'operator=(string)', contracts=STRC, cases=('compatible', 'owned'), post=p_asg)
def c_mkstr(ex, st, a, ins, fr):
    if not (isinstance(a[1], P) and a[1].base == 'src' and isint(a[1].off) and a[1].off == 0): return None
    ex.h.v['str'] = a[0].base; return [('ret', st, None)]
add('operator=(char const*)', s_cs, 'operator=(text)', contracts=dict(STRC, **{'strlen': c_strlen, STD + '::basic_string<std::allocator<char>>(char const*, std::allocator<char> const&)': c_mkstr, STD + '::basic_string(char const*, std::allocator<char> const&)': c_mkstr}), cases=('compatible', 'owned'), post=p_asg)
for nm in ('set_char8_str',): add(nm + '(char const*)', s_cs, nm + '(text)', path='set_path_char8_str(%s const&, char const*)' % STD, contracts={'strlen': c_strlen})
# --- external: the node describes exactly the caller's memory
def p_ext(h, st, v):
    o = h.v['s']; L = list(st.ghost.get(SEQ, ())); f = desc(h, st); c = st.objs[o.obj]; d = c[NF('m_data')][1]; want = h.v['want']
    x = z3.Int('ob!')
    g = [('the description is exactly the given one', z3.And(*[f[k] == zi(want[k]) for k in DT])), ('the data is the caller\'s memory, not a copy', z3.And(z3.Implies(f['num_ele'] > 0, z3.And(isinstance(d, P) and d.base == 'src', zi(d.off) == 0)) if isinstance(d, P) and d.base == 'src' else f['num_ele'] == 0)),
         ('the node does not own it', cint(to_int(c[NF('m_alloced')][1])) == 0), ('nothing is allocated', not [l for l in L if l[0] == 'alloc']), ('no byte is written', z3.Select(st.bufs['src'], x) == z3.Select(h.v['pre'], x)), ('no child is left', zi(st.ghost[(o.obj, o.co, 'vec')]) == 0)]
    if 'M' in h.v: g.append(('nor to the memory used before', z3.Select(st.bufs['M_self'], x) == z3.Select(h.v['M'][1], x)))
    if h.v['case'] in ('owned', 'object'): g.append(('the previous content is released', bool([l for l in L if l[0] == 'release'])))
    if 'root' in h.v:
        fe = [l for l in L if l[0] == 'fetch']; g.append(('exactly the node at the given path is set', len(fe) == 1 and z3.simplify(zi(fe[0][1]) == zi(h.v['path']))))
    return g
def ext(h, c, t): o = mknode(h, c, t, z3.IntVal(-1)) if c != 'compatible' else mknode(h, c, t, z3.IntVal(0)); h.v['pre'] = source(h, t); return o
EC = ('owned', 'empty', 'external', 'object')
dflt = lambda t, n: dict(id=t.id, num_ele=n, offset=0, stride=t.nb, ele_bytes=t.nb, endianness=0)
for T, tn in NATIVE:
    t = BYNAME[tn]; fixed = T == t.cpp
    def e_pt(h, c, t=t):
        o = ext(h, c, t); n, of, sr, eb, en = z3.Ints('n offset stride ele_bytes endianness'); h.assume(n >= 0); h.v['want'] = dict(id=t.id, num_ele=n, offset=of, stride=sr, ele_bytes=eb, endianness=en); return [o.p, P('src', 0)] + [I(64, x) for x in (n, of, sr, eb, en)]
    def e_ar(h, c, t=t):
        o = ext(h, c, t); a = Arr(h, 'view', t, buf='src'); h.v['want'] = a.f; return [o.p, a.p]
    def e_ve(h, c, t=t):
        o = ext(h, c, t); n = z3.Int('n'); h.assume(n >= 0); h.v['n'] = n; h.v['want'] = dflt(t, n); h.v['vec'] = h.obj('vec'); return [o.p, P(h.v['vec'], 0)]
    for q in ('', ' const'):
        for sig, suf, s, cs in (('(%s%s*, long, long, long, long, long)' % (T, q), '_ptr', e_pt, None), ('(conduit::DataArray<%s> const&)' % T, '_array', e_ar, None), ('(std::vector<%s, std::allocator<%s>>%s&)' % (T, T, q), '_vector', e_ve, vec_c(T, t.nb))):
            if bool(q) != (suf == '_vector' and T in ('char', 'long long', 'unsigned long long')): continue
            short = {'_array': 'DataArray<%s>' % T, '_vector': 'vector<%s>%s&' % (T, q), '_ptr': T + q + '*, layout'}[suf]
            pth = lambda n: n + '(%s const&, ' % STD + sig[1:]
            if T == 'char' and suf == '_ptr': add('set_external_char_ptr' + sig, s, 'set_external_char_ptr(%s)' % short, path=pth('set_path_external_char_ptr'), cases=EC, post=p_ext, tpl=()); continue
            add('set_external' + sig, s, 'set_external(%s)' % short, path=pth('set_path_external'), contracts=cs, cases=EC, post=p_ext, tpl=())
            if fixed: add('set_external_' + tn + suf + sig, s, 'set_external_%s%s(%s)' % (tn, suf, short), path=pth('set_path_external_' + tn + suf), contracts=cs, cases=EC, post=p_ext, tpl=())
def e_st(h, c): o = ext(h, c, STR13); L = z3.Int('len'); h.assume(L >= 0); h.v['n0'] = L; h.v['want'] = dflt(STR13, L + 1); return [o.p, P('src', 0)]
add('set_external_char8_str(char*)', e_st, 'set_external_char8_str(text)', path='set_path_external_char8_str(%s const&, char*)' % STD, contracts={'strlen': c_strlen}, cases=EC, post=p_ext, tpl=())
# --- a description and data: all spanned bytes are copied; externally, the memory is described
def s_dt(h, c):
    p, f = h.dtype(hint='dt'); h.assume(f['id'] >= 3, f['id'] <= 13, f['num_ele'] >= 0, f['num_ele'] < 2**40, f['stride'] >= 0, f['stride'] < 2**20, f['ele_bytes'] >= 0, f['ele_bytes'] < 2**20, f['offset'] >= 0, f['offset'] < 2**60); h.v['f'] = f
    return p, f
def s_dtd(h, c):
    p, f = s_dt(h, c); o = mknode(h, c, STR13, z3.IntVal(-1)) if c != 'compatible' else None; h.v['pre'] = source(h, STR13); h.v['want'] = f; return [o.p, p, P('src', 0)]
def p_dtd(h, st, v):
    o, f = h.v['s'], h.v['f']; now = desc(h, st); c = st.objs[o.obj]; d = c[NF('m_data')][1]; L = list(st.ghost.get(SEQ, ())); al = [l for l in L if l[0] == 'alloc']; x = z3.Int('gx!'); span = z3.If(f['num_ele'] > 0, f['stride'] * (f['num_ele'] - 1) + f['ele_bytes'], 0) + f['offset']
    ok = isinstance(d, P) and d.base == 'fresh' and isint(d.off) and d.off == 0 and len(al) == 1
    return [('the description is the given one', z3.And(*[now[k] == f[k] for k in DT])), ('all bytes it spans are copied', z3.Implies(z3.And(x >= 0, x < span), z3.Select(st.bufs['fresh'], x) == z3.Select(h.v['pre'], x))), ('into memory of this node, large enough', z3.And(al[0][1] >= span, al[0][2] == o.alloc) if ok else False),
            ('the data given is unchanged', z3.Select(st.bufs['src'], x) == z3.Select(h.v['pre'], x)), ('the node owns it', cint(to_int(c[NF('m_alloced')][1])) == 1)]
for c in EC:
    FUNCS.append(Fn(N + 'set_data_using_dtype(conduit::DataType const&, void*)', lambda h, c=c: s_dtd(h, c), p_dtd, label=N + 'set_data_using_dtype [%s node]' % c))
    FUNCS.append(Fn(N + 'set_external_data_using_dtype(conduit::DataType const&, void*)', lambda h, c=c: s_dtd(h, c), p_ext, label=N + 'set_external_data_using_dtype [%s node]' % c))
# --- the remaining forms do exactly what the named operation does, on the right node
FWD = {'N': ('conduit::Node const&', 'set_node', 'set_external_node'), 'S': ('conduit::Schema const&', 'set_schema', None), 'SD': ('conduit::Schema const&, void*', 'set_data_using_schema', 'set_external_data_using_schema'), 'D': ('conduit::DataType const&', 'set_dtype', None), 'DD': ('conduit::DataType const&, void*', 'set_data_using_dtype', 'set_external_data_using_dtype')}
FWC = {}
for k_, (sig_, a_, b_) in FWD.items():
    for n_ in (a_, b_):
        if n_: FWC[N + n_ + '(%s)' % sig_] = lambda ex, st, a, ins, fr, n_=n_: (log(st, 'op', n_, tuple(a)), [('ret', st, None)])[1]
FWC[N + 'init_defaults()'] = lambda ex, st, a, ins, fr: (log(st, 'init', a[0]), [('ret', st, None)])[1]
def fw(name, nargs, want, path=False, ret=False, ctor=None):
    def s(h):
        o = HNode(h, id=0); h.v['s'] = o; x = [P(h.obj('x'), 0)] + ([P(h.buf('src'), 0)] if nargs == 2 else []); h.v['x'] = x
        if path: h.v['root'] = h.obj('root'); p, t = h.string('path'); h.v['path'] = t; return [P(h.v['root'], 0), p] + x
        return [o.p] + x + ([I(1, ctor)] if ctor in (0, 1) else [])
    def p(h, st, v):
        o = h.v['s']; L = list(st.ghost.get(SEQ, ())); ops = [l for l in L if l[0] == 'op']; fe = [l for l in L if l[0] == 'fetch']
        g = [('exactly this operation, once, with exactly these operands', len(ops) == 1 and ops[0][1] == want and len(ops[0][2]) == 1 + len(h.v['x']) and all(at(a, b) for a, b in zip(ops[0][2], [o.p] + h.v['x'])))]
        if path: g.append(('on the node at the given path', len(fe) == 1 and z3.simplify(zi(fe[0][1]) == zi(h.v['path']))))
        if ret: g.append(('it yields the node itself', at(v, o.p)))
        if ctor is not None: g.append(('a new node starts empty', [l[0] for l in L][:1] == ['init']))
        return g
    FUNCS.append(Fn(N + name, s, p, contracts=FWC, label=N + name.replace(STD, 'string').replace('conduit::', '') + (' external=%d' % ctor if ctor in (0, 1) else '')))
for k_, (sig_, a_, b_) in FWD.items():
    na = len(k_)
    fw('set(%s)' % sig_, na, a_); fw('set_path(%s const&, %s)' % (STD, sig_), na, a_, path=True); fw('set_path_%s(%s const&, %s)' % (a_[4:], STD, sig_), na, a_, path=True)
    if b_:
        psig = sig_ if k_ != 'N' else 'conduit::Node&'
        fw('set_external(%s)' % sig_, na, b_); fw('set_path_external(%s const&, %s)' % (STD, psig), na, b_, path=True); fw('set_path_%s(%s const&, %s)' % (b_[4:], STD, psig), na, b_, path=True)
    if na == 1: fw('operator=(%s)' % sig_, 1, a_, ret=True); fw('Node(%s)' % sig_, 1, a_, ctor=-1)
    else: fw('Node(%s, bool)' % sig_, 2, a_, ctor=0); fw('Node(%s, bool)' % sig_, 2, b_, ctor=1)
DRIVER = 'd_C07.cpp'
DRIVER_SCOPE = 'every set form (scalar, array view, vector, initializer list, pointer, string, description and data, external) of every numeric type onto nodes of eight kinds, directly and through paths, under AddressSanitizer with guard bytes'
DRIVER_BOUND = 'about 33 layouts of 0..1031 elements per type and kind, 60 random strings (x8 random layouts in the thorough tier)'
ASSUMES = ['the memory read from does not overlap the memory of the node', 'Node::release, Schema::set(dtype) and Node::fetch(path) satisfy the contracts proved in C10 and C09', 'std::vector and std::string accessors report the sequence they hold; strlen behaves as the C standard says', 'values are given in machine byte order (see the finding on the other order)']
