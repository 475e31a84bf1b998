"""C19: a tree written as JSON is the JSON text of that tree."""
from nod import *
from arr import *
from models import cstr_id, LIT_TEXT, oss_w
import solve, models
import re
UNITS = ['libs/conduit/conduit_node.cpp', 'libs/conduit/conduit_schema.cpp', 'libs/conduit/conduit_data_type.cpp', 'libs/conduit/conduit_data_array.cpp', 'libs/conduit/conduit_utils.cpp', 'libs/conduit/conduit_endianness.cpp']
FUNCS = []
N, S, U = 'conduit::Node::', 'conduit::Schema::', 'conduit::utils::'
STD = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
INT = z3.IntSort(); BOOL = z3.BoolSort(); BV64 = z3.BitVecSort(64)
iv = lambda v: zi(to_int(v))
TX = lambda s: lit(s.encode())
def sel(a, i): return z3.Select(a, zi(i))
# --- the text written, as a reader of JSON sees it: one automaton over the characters and pieces put on the stream
V, O0, K, K1, C_, MV, OA, OK, D, A0, AA, AV, S0, S1 = range(14)      # value / in object / in key / ... / after member / after comma / done / in array / ... / in a string value
ST, NA, KEY, AFT, OPEN = [("out", 0, n) for n in ("state", "entries", "key", "after", "opened")]; LITK, STK, EVS = [('outc', 0, n) for n in ('literal key', 'nesting', 'events')]
ESC = z3.Function('escaped', INT, INT); F2S = z3.Function('text_of_float', BV64, INT); ISN = z3.Function('text_has_n', INT, BOOL); NAMET = z3.Function('type_name', INT, INT); ENDT = z3.Function('endianness_name', INT, INT); HEXT = z3.Function('hex_text', INT, INT)
STEP = {'{': {V: O0, MV: O0}, '}': {O0: D, OA: D}, '[': {V: A0, MV: A0}, ']': {A0: D, AA: D}, ':': {C_: MV}, ',': {OA: OK, AA: AV}, '"': {O0: K, OK: K, K: C_, K1: C_, V: S0, MV: S0, A0: S0, AV: S0, S0: 'after', S1: 'after'}}
AFTER = {V: D, MV: OA, A0: AA, AV: AA}
def cur(st):
    s = z3.simplify(zi(st.ghost[ST])); return s.as_long() if z3.is_int_value(s) else s
def gset(st, k, v): st.ghost[k] = v; st.writes.add(('ghost', k)) if hasattr(st, 'writes') and isinstance(st.writes, set) else None
def setst(st, v): gset(st, ST, zi(v))
def table(s, t, dflt=-1):
    r = zi(dflt)
    for k, x in t.items(): r = z3.If(s == k, zi(x), r)
    return z3.simplify(r)
INSTR = (K, K1, S0, S1)
def may(ex, st):
    """the states the automaton can be in here"""
    s = cur(st)
    if isinstance(s, int): return [s]
    pc = [p for p in st.pc if not solve.quantified([p])]; r = []; so = z3.Solver(); so.set('timeout', 300); so.add(*pc)
    for k in range(14):
        so.push(); so.add(s == k)
        if so.check() != z3.unsat: r.append(k)
        so.pop()
    return r
def need(ex, st, what, states):
    s = zi(st.ghost[ST]); ok = z3.simplify(z3.Or(*[s == k for k in states])); ex.require(st, what, ok); st.assume(ok); return [k for k in may(ex, st) if k in states]
def char(ex, st, c):
    s = cur(st)
    if isinstance(s, int) and s in INSTR and c != '"':
        if s in (K1, S1) and LITK not in st.ghost: raise Unsupported('characters after a written text')
        st.ghost[LITK] = st.ghost.get(LITK, '') + c; setst(st, K1 if s in (K, K1) else S1); return
    if c in ' \n\t':
        if not isinstance(s, int): ex.require(st, 'white space stands between tokens', z3.And(*[zi(s) != k for k in INSTR]))
        return
    if c not in STEP: ex.require(st, 'no character %r stands between tokens' % c, z3.BoolVal(False)); return
    t = STEP[c]; m = need(ex, st, 'the character %s continues a JSON text here' % c, list(t))
    if not m: return                                             # the requirement above has failed
    if c in '{[' and MV in m:
        if m != [MV]:
            if ex.trial: return setst(st, fresh_int('any'))
            raise Unsupported('nesting')
        st.ghost[STK] = st.ghost.get(STK, ()) + ((c, zi(st.ghost[KEY])),); setst(st, t[MV]); return
    if c == '[' : gset(st, OPEN, zi(1))
    if c == '"':
        if m[0] in (K, K1):
            if LITK in st.ghost: gset(st, KEY, TX(st.ghost.pop(LITK)))
            elif m == [K]: gset(st, KEY, TX(''))
            setst(st, C_); return
        if m[0] in (S0, S1):
            if LITK in st.ghost: on(ex, st, 'str', TX(st.ghost.pop(LITK)))
            elif m == [S0]: on(ex, st, 'str', TX(''))
            setst(st, st.ghost[AFT]); return
        if all(k in (O0, OK) for k in m): setst(st, K); return
        if all(k in AFTER for k in m): gset(st, AFT, table(zi(st.ghost[ST]), {k: AFTER[k] for k in m})); setst(st, S0); return
        if ex.trial:
            for g in (ST, NA, KEY, AFT): gset(st, g, fresh_int('any'))
            return
        raise Unsupported('a quote in mixed states')
    n = {t[k] for k in m}
    if n == {D} and c in '}]' and st.ghost.get(STK):
        k, key = st.ghost[STK][-1]; ex.require(st, 'brackets match', z3.BoolVal((k == '{') == (c == '}'))); st.ghost[STK] = st.ghost[STK][:-1]; setst(st, OA); return
    setst(st, n.pop() if len(n) == 1 else table(zi(st.ghost[ST]), {k: t[k] for k in m}))
def on(ex, st, kind, val):
    """a complete value stands at this place: the function's own rule says which it must be"""
    ex.h.v['on'](ex, st, kind, val)
def value(ex, st, kind, val):
    m = need(ex, st, 'a value may stand here', list(AFTER))
    if not m: return
    on(ex, st, kind, val); n = {AFTER[k] for k in m}; setst(st, n.pop() if len(n) == 1 else table(zi(st.ghost[ST]), {k: AFTER[k] for k in m}))
def layout(ex, st, what='layout'): ex.require(st, what + ' stands between tokens', z3.simplify(z3.And(*[zi(st.ghost[ST]) != k for k in INSTR])))
def white(t):
    t = z3.simplify(zi(t))
    if z3.is_int_value(t): return t.as_long() in LIT_TEXT and not LIT_TEXT[t.as_long()].strip()
    return str(t) in ('str:pad', 'str:eoe')
def piece(ex, st, t):
    t = z3.simplify(zi(t))
    if white(t): return layout(ex, st)
    if z3.is_int_value(t) and t.as_long() in LIT_TEXT:
        b = LIT_TEXT[t.as_long()].decode('latin1'); i = 0
        while i < len(b):
            w = re.match(r'null|true|false|-?[0-9]+', b[i:])
            if w and not (isinstance(cur(st), int) and cur(st) in INSTR): value(ex, st, 'word', w.group(0)); i += len(w.group(0)); continue
            char(ex, st, b[i]); i += 1
        return
    sp = ex.h.v.get('special', {}).get(str(t))
    if sp: return sp(ex, st)
    if not any(t.decl().eq(f) for f in (ESC, F2S, NAMET, ENDT, HEXT)) and not z3.eq(t, z3.Int('text_of_leaf')) and not (z3.is_select(t) and str(t.arg(0)).endswith('.order')): raise Unsupported('a text of unknown content is written')
    m = need(ex, st, 'a text may stand here', [K, S0] + list(AFTER))
    if not m: return
    if m == [K]: gset(st, KEY, t); return setst(st, K1)
    if m == [S0]: on(ex, st, 'str', t); return setst(st, S1)
    value(ex, st, 'text', t)
def is_os(ex, p): return isinstance(p, P) and isinstance(p.base, str) and p.base == ex.h.v.get('os')
def c_puts(ex, st, a, ins, fr):
    if not is_os(ex, a[0]): return None
    t = cstr_id(ex, st, a[1], fr)
    if t is None: raise Unsupported('text at %r' % (a[1],))
    piece(ex, st, t); return [('ret', st, a[0])]
def c_putstr(ex, st, a, ins, fr):
    if not is_os(ex, a[0]): return None
    piece(ex, st, str_get(ex, st, a[1])); return [('ret', st, a[0])]
def c_putc(ex, st, a, ins, fr):
    if not is_os(ex, a[0]): return None
    v = z3.simplify(zi(to_int(a[1])))
    if not z3.is_int_value(v): raise Unsupported('a character that is not constant')
    char(ex, st, chr(v.as_long() & 255)); return [('ret', st, a[0])]
def c_puti(signed):
    def c(ex, st, a, ins, fr):
        if not is_os(ex, a[0]): return None
        value(ex, st, 'int', (signed, a[1])); return [('ret', st, a[0])]
    return c
def c_indent(ex, st, a, ins, fr):
    if not is_os(ex, a[0]): return None
    t = str_get(ex, st, a[3]); ex.require(st, 'what is repeated is layout', z3.BoolVal(white(t))); layout(ex, st); return [('ret', st, None)]
def c_esc(ex, st, a, ins, fr): str_set(ex, st, a[0], ESC(zi(str_get(ex, st, a[1])))); return [('ret', st, None)]
def c_f2s(ex, st, a, ins, fr):
    b = z3.simplify(a[1].t); t = F2S(b); st.assume(ISN(t) == (z3.Extract(62, 52, b) == 0x7ff)); str_set(ex, st, a[0], t); return [('ret', st, None)]
def c_find(ex, st, a, ins, fr):
    t = zi(str_get(ex, st, a[0])); c = z3.simplify(zi(to_int(a[1])))
    if not (z3.is_int_value(c) and c.as_long() == ord('n') and t.decl().eq(F2S)): return None
    s2 = st.copy(); st.assume(ISN(t)); r = fresh_int('at'); st.assume(z3.And(r >= 0, r < 100)); s2.assume(z3.Not(ISN(t))); return [('ret', st, I(64, r)), ('ret', s2, I(64, -1))]
def tx1(f):
    def c(ex, st, a, ins, fr): str_set(ex, st, a[0], f(iv(a[1]))); return [('ret', st, None)]
    return c
def c_hex(ex, st, a, ins, fr): str_set(ex, st, a[0], HEXT(zi(ex.ref_of(a[1])) if isinstance(a[1], P) and a[1] is not NULL else zi(0))); return [('ret', st, None)]
MACH = z3.Int('machine')
def c_mach(ex, st, a, ins, fr): st.assume(z3.Or(MACH == 1, MACH == 2)); return [('ret', st, I(64, MACH))]
nop = lambda ex, st, a, ins, fr: [('ret', st, None)]
def c_flags(ex, st, a, ins, fr): return [('ret', st, ex.fresh_of(st, ins.ty, 'flags'))]
def star(dn):
    if re.match(r'std::basic_ostream<char.*std::operator<<.*, char const\*\)$', dn): return c_puts
    if re.match(r'std::basic_ostream<char.*std::operator<<.*basic_string<char.*const&\)$', dn): return c_putstr
    if re.match(r'std::basic_ostream<char.*std::operator<<.*, char\)$', dn): return c_putc
    m = re.match(r'std::ostream::operator<<\((unsigned )?(long|int|short|long long)\)$', dn)
    if m: return c_puti(not m.group(1))
    if dn.startswith(('std::ios_base::flags', 'std::ios_base::precision', 'std::ios_base::setf')): return c_flags
    return ARRC(dn)
BS = STD
CONTRACTS = {'*': star, U + 'indent(std::ostream&, long, long, %s const&)' % STD: c_indent, U + 'escape_special_chars(%s const&)' % STD: c_esc, U + 'float64_to_string(double)': c_f2s, STD + '::find(char, unsigned long) const': c_find,
    'conduit::DataType::id_to_name(long)': tx1(NAMET), 'conduit::Endianness::id_to_name(long)': tx1(ENDT), 'conduit::Endianness::machine_default()': c_mach}
def begin(h, on, start=V):
    o = h.obj('os'); h.v['os'] = o; h.v['on'] = on
    for k, v in ((ST, start), (NA, 0), (KEY, 0), (AFT, 0), (OPEN, 0)): h.st.ghost[k] = zi(v)
    h.st.ghost[EVS] = (); return P(o, 0)
def lay(h): return [h.string(n)[0] for n in ('pad', 'eoe')]
# --- the description of a leaf
DTI = ['dtype', 'number_of_elements', 'offset', 'stride', 'element_bytes', 'endianness']
def on_log(ex, st, kind, val): st.ghost[EVS] = st.ghost[EVS] + ((tuple(k for _, k in st.ghost.get(STK, ())), zi(st.ghost[KEY]), kind, val),)
def s_dt(h):
    p, f = h.dtype(hint='self'); h.v['f'] = f; o = begin(h, on_log); return [p, o, h.int('indent')[0], h.int('depth')[0]] + lay(h)
def dt_want(f, n):
    if n == 'dtype': return 'str', NAMET(f['id'])
    if n == 'endianness': return 'str', ENDT(z3.If(f['endianness'] == 0, MACH, f['endianness']))
    return 'int', f[dict(zip(DTI[1:5], DT[1:5]))[n]]
def ev_eq(kind, val, want):
    if kind != want[0]: return z3.BoolVal(False)
    return (iv(val[1]) if kind == 'int' else zi(val)) == want[1]
def p_dt(h, st, v):
    f = h.v['f']; ev = st.ghost[EVS]; out = [('the text is one complete JSON value', zi(st.ghost[ST]) == D)]
    for n in DTI:
        e = [x for x in ev if z3.is_true(z3.simplify(x[1] == TX(n)))]
        full = z3.Or(z3.And(f['id'] >= 3, f['id'] <= 13)) if n != 'dtype' else z3.BoolVal(True)
        out.append(('%s is stated once, and is the one of this description' % n, z3.And(z3.Implies(full, z3.BoolVal(len(e) == 1)), z3.BoolVal(len(e) <= 1), *[ev_eq(x[2], x[3], dt_want(f, n)) for x in e])))
    out.append(('nothing else is stated', z3.BoolVal(all(any(z3.is_true(z3.simplify(x[1] == TX(n))) for n in DTI) for x in ev))))
    return out
FUNCS.append(Fn('conduit::DataType::to_json_stream(std::ostream&, long, long, %s const&, %s const&) const' % (STD, STD), s_dt, p_dt))

# --- an array of numbers
def on_arr(ex, st, kind, val):
    a = ex.h.v['a']; k = zi(st.ghost[NA]); x = a.pre_elem(k); t = a.ty
    if kind == 'int':
        sg, v = val; b = to_bv(v, 64); e = z3.SignExt(64 - t.bits, x) if t.kind == 's' else z3.ZeroExt(64 - t.bits, x) if t.kind == 'u' else None
        ok = z3.BoolVal(False) if e is None else b == e if sg == (t.kind == 's') else z3.And(b == e, z3.Extract(63, 63, e) == 0)
    elif kind in ('text', 'str') and t.kind == 'f' and not isinstance(val, str) and val.decl().eq(F2S):
        w = z3.simplify(conv(ex, t, BYNAME['float64'], x)) if t.bits == 32 else x
        ok = z3.And(val.arg(0) == w, ISN(val) == z3.BoolVal(kind == 'str'))
    else: ok = z3.BoolVal(False)
    ex.require(st, 'the next entry is the next element, in full', z3.And(k < a.n, ok)); gset(st, NA, z3.simplify(k + 1))
def arr_tpl(ex, loop, hv):
    h = ex.h; a = h.v['a']
    out = [('entries so far', lambda v: zi(v.st.ghost[NA]) == v.it), ('in range', lambda v: v.it <= a.n), ('entries in range', lambda v: z3.And(zi(v.st.ghost[NA]) >= 0, zi(v.st.ghost[NA]) <= a.n)),
           ('place', lambda v: zi(v.st.ghost[ST]) == z3.If(v.it == 0, z3.If(a.n == 1, zi(V), zi(A0)), z3.If(a.n == 1, zi(D), zi(AA)))),
           ('place with the comma written', lambda v: zi(v.st.ghost[ST]) == z3.If(v.it == 0, z3.If(a.n == 1, zi(V), zi(A0)), z3.If(a.n == 1, zi(D), z3.If(v.it == a.n, zi(AA), zi(AV)))))]
    for nm in hv.phis:
        def flag(pol, nm=nm):
            def g(v):
                y = v.phis.get(nm)
                if isinstance(y, Bo): return zb(y.t) == ((v.it == 0) == z3.BoolVal(pol))
                return iv(y) == z3.If((v.it == 0) == z3.BoolVal(pol), zi(1), zi(0)) if isinstance(y, (I, B)) and y.w <= 32 else z3.BoolVal(True)
            return g
        if isinstance(hv.phis[nm], (I, B, Bo)) and hv.phis[nm].w <= 32: out += [('flag ' + nm, flag(True)), ('flag not ' + nm, flag(False))]
    return out
def s_arr(t):
    def s(h):
        a = Arr(h, 'self', t); h.v['a'] = a; o = begin(h, on_arr); h.assume(a.n < 2**40); return [a.p, o]
    return s
def p_arr(h, st, v):
    a = h.v['a']; return [('every element is written', zi(st.ghost[NA]) == a.n), ('the text is one complete JSON value', zi(st.ghost[ST]) == D), ('one element is written plain, otherwise a list', zi(st.ghost[OPEN]) == z3.If(a.n == 1, zi(0), zi(1)))]
CT = {'int8': 'signed char', 'int16': 'short', 'int32': 'int', 'int64': 'long', 'uint8': 'unsigned char', 'uint16': 'unsigned short', 'uint32': 'unsigned int', 'uint64': 'unsigned long', 'float32': 'float', 'float64': 'double'}
for t in TYS:
    FUNCS.append(Fn('conduit::DataArray<%s>::to_json_stream(std::ostream&) const' % CT[t.name], s_arr(t), p_arr, templates=[arr_tpl]))
# --- views of a node's leaf
AREF = {}
zb = lambda t: t if not isinstance(t, bool) else z3.BoolVal(t)
def ARRC(dn):
    m = re.match(r'conduit::Node::as_(\w+)_array\(\) const$', dn)
    if m: return c_asarr(m.group(1))
    m = re.match(r'conduit::DataArray<(.*)>::to_json_stream\(std::ostream&\) const$', dn)
    if m: return c_arrjson
def c_asarr(n):
    def c(ex, st, a, ins, fr):
        s = ex.h.v.get('s')
        if not s: return None
        ex.require(st, 'the view is of this node', z3.BoolVal(isinstance(a[1], P) and isinstance(a[1].base, str) and a[1].base == s.obj)); st.ghost[('view', a[0].base, 0)] = n; return [('ret', st, None)]
    return c
def c_arrjson(ex, st, a, ins, fr):
    if not is_os(ex, a[1]) or not isinstance(a[0].base, str) or ('view', a[0].base, 0) not in st.ghost: return None
    value(ex, st, 'arr', st.ghost[('view', a[0].base, 0)]); return [('ret', st, None)]

# --- trees: an object is its children under their names, in order; a list its children in order
def on_tree(ex, st, kind, val):
    if kind == 'child':
        s = ex.h.v['s']; k = zi(st.ghost[NA]); ks = s.pre if isinstance(s, HSchema) else s.schema.pre; ch = ks.ch if isinstance(s, HSchema) else s.ch
        g = [k < ks.n, val == sel(ch, k)]
        if ex.h.v['id'] == 1: g.append(zi(st.ghost[KEY]) == (sel(ks.order, k) if ex.h.v.get('raw') else ESC(sel(ks.order, k))))
        ex.require(st, 'the next entry is the next child' + (', under its name' if ex.h.v['id'] == 1 else ''), z3.And(*g)); gset(st, NA, z3.simplify(k + 1)); return
    on_log(ex, st, kind, val)
def tree_tpl(ex, loop, hv):
    s = ex.h.v['s']; n = (s.pre if isinstance(s, HSchema) else s.schema.pre).n; a, b, c = (O0, OK, OA) if ex.h.v['id'] == 1 else (A0, AV, AA)
    return [('entries so far', lambda v: zi(v.st.ghost[NA]) == v.it), ('in range', lambda v: v.it <= n), ('place', lambda v: zi(v.st.ghost[ST]) == z3.If(v.it == 0, zi(a), z3.If(v.it < n, zi(b), zi(c)))), ('place before the comma', lambda v: zi(v.st.ghost[ST]) == z3.If(v.it == 0, zi(a), zi(c)))]
def lay_args(ex, st, a, i): ex.require(st, 'layout is passed on', z3.BoolVal(all(white(str_get(ex, st, x)) for x in a[i:i + 2])))
def c_sjson(ex, st, a, ins, fr):
    if not is_os(ex, a[1]): return None
    lay_args(ex, st, a, 4); s = ex.h.v['s']; value(ex, st, 'child' if not isinstance(a[0].base, str) else 'schema', zi(ex.ref_of(a[0])) if not isinstance(a[0].base, str) else a[0]); return [('ret', st, None)]
def c_dtjson(ex, st, a, ins, fr):
    if not is_os(ex, a[1]): return None
    lay_args(ex, st, a, 4); value(ex, st, 'dtype', dt_fields(ex, st, a[0])); return [('ret', st, None)]
SJ = S + 'to_json_stream(std::ostream&, long, long, %s const&, %s const&) const' % (STD, STD); DJ = 'conduit::DataType::to_json_stream(std::ostream&, long, long, %s const&, %s const&) const' % (STD, STD)
def s_sch(id):
    def s(h):
        s = HSchema(h, id=id); h.v['s'], h.v['id'] = s, id; o = begin(h, on_tree); return [s.p, o, h.int('indent')[0], h.int('depth')[0]] + lay(h)
    return s
def p_sch(h, st, v):
    s = h.v['s']; out = [('the text is one complete JSON value', zi(st.ghost[ST]) == D)]; ev = st.ghost[EVS]
    if h.v['id'] in (1, 2): return out + [('every child is written', zi(st.ghost[NA]) == s.pre.n), ('nothing else is written', z3.BoolVal(ev == ()))] + ([('a list is written as a list', zi(st.ghost[OPEN]) == (1 if h.v['id'] == 2 else 0))])
    return out + [('a leaf is its description', z3.And(z3.BoolVal(len(ev) == 1 and ev[0][2] == 'dtype'), *[ev[0][3][n] == s.f[n] for n in DT]) if len(ev) == 1 and ev[0][2] == 'dtype' else z3.BoolVal(False))]
for i in (0, 1, 2, 6, 12, 13): FUNCS.append(Fn(SJ, s_sch(i), p_sch, templates=[tree_tpl] if i in (1, 2) else [], contracts={SJ: c_sjson, DJ: c_dtjson}, opts={'recursive': 1}, label='Schema::to_json_stream [%d]' % i))
# --- node values
STRV = z3.Int('text_of_leaf'); DTJ, DTJ1, DTJ2 = z3.Ints('dtype_json dtype_json_up_to_the_brace dtype_json_up_to_the_last_quote')
GEN = N + 'to_json_generic(std::ostream&, bool, bool, long, long, %s const&, %s const&) const' % (STD, STD)
def bv(x): return z3.simplify(iv(x) != 0) if not isinstance(x, Bo) else z3.simplify(zb(x.t))
def c_gen(ex, st, a, ins, fr):
    if not is_os(ex, a[1]): return None
    lay_args(ex, st, a, 6); ex.require(st, 'children are written in the same form', z3.And(bv(a[2]) == z3.BoolVal(ex.h.v['det']), bv(a[3]) == z3.BoolVal(ex.h.v['adr']))); value(ex, st, 'child', zi(ex.ref_of(a[0]))); return [('ret', st, None)]
def c_dtj(ex, st, a, ins, fr):
    s = ex.h.v['s']; lay_args(ex, st, a, 4); f = dt_fields(ex, st, a[1]); ex.require(st, 'the description is that of this leaf', z3.And(*[f[n] == s.schema.f[n] for n in DT])); str_set(ex, st, a[0], DTJ); return [('ret', st, None)]
def c_split(src, sep, left, keep):
    def c(ex, st, a, ins, fr):
        t, p = z3.simplify(zi(str_get(ex, st, a[0]))), z3.simplify(zi(str_get(ex, st, a[1])))
        if not (z3.eq(t, src) and z3.is_true(z3.simplify(p == TX(sep)))): return None
        str_set(ex, st, a[2 + keep], left); str_set(ex, st, a[3 - keep], fresh_int('str')); return [('ret', st, None)]
    return c
def sp_dt(ex, st):
    m = need(ex, st, 'a description may stand here', [V, MV])
    if m == [MV]: st.ghost[STK] = st.ghost.get(STK, ()) + (('{', zi(st.ghost[KEY])),)
    on_log(ex, st, 'dtype', None); gset(st, AFT, zi(OA)); setst(st, S1)
def c_asstr(ex, st, a, ins, fr):
    s = ex.h.v['s']; ex.require(st, 'the text is that of this node', z3.BoolVal(isinstance(a[1].base, str) and a[1].base == s.obj)); str_set(ex, st, a[0], STRV); return [('ret', st, None)]
SP = '(%s const&, %s const&, %s&, %s&)' % (STD, STD, STD, STD)
GENC = {GEN: c_gen, 'conduit::DataType::to_json(long, long, %s const&, %s const&) const' % (STD, STD): c_dtj, U + 'split_string' + SP: c_split(DTJ, '}', DTJ1, 0), U + 'rsplit_string' + SP: c_split(DTJ1, '"', DTJ2, 1), N + 'as_string() const': c_asstr,
    '%s conduit::utils::to_hex_string<void*>(void*)' % STD: c_hex, '%s conduit::utils::to_hex_string<void const*>(void const*)' % STD: c_hex}
def s_node(id, det, adr):
    def s(h):
        d = h.buf('data') if id > 2 else None; s = HNode(h, id=id, data=P(d, 0) if d else None); h.v['s'], h.v['id'], h.v['det'], h.v['adr'] = s, id, det, adr; o = begin(h, on_tree)
        h.v['special'] = {str(DTJ2): sp_dt}; h.v['m'] = zi(h.ex.region_ref(d)) if d else zi(0)
        return [s.p, o, Bo(z3.BoolVal(det)), Bo(z3.BoolVal(adr)), h.int('indent')[0], h.int('depth')[0]] + lay(h)
    return s
def p_node(h, st, v):
    s = h.v['s']; id = h.v['id']; out = [('the text is one complete JSON value', zi(st.ghost[ST]) == D)]; ev = st.ghost[EVS]
    if id in (1, 2): return out + [('every child is written', zi(st.ghost[NA]) == s.schema.pre.n), ('nothing else is written', z3.BoolVal(ev == ())), ('a list is written as a list', zi(st.ghost[OPEN]) == (1 if id == 2 else 0))]
    if h.v['det']:
        out.append(('the description comes once', z3.BoolVal(len([e for e in ev if e[2] == 'dtype']) == 1))); ev = tuple(e for e in ev if e[2] != 'dtype')
    if len(ev) != 1: return out + [('one value is written', z3.BoolVal(False))]
    key, kind, val = ev[0][1:]
    if h.v['det']: out.append(('the member is named', key == TX('address' if h.v['adr'] else 'value')))
    if h.v['adr']: g = z3.BoolVal(kind == 'str') if kind != 'str' else val == HEXT(h.v['m'])
    elif id == 0: g = z3.BoolVal(kind == 'word' and val == 'null')
    elif id == 13: g = z3.BoolVal(False) if kind != 'str' else val == ESC(STRV)
    else: g = z3.BoolVal(kind == 'arr' and val == BYID[id].name)
    return out + [('the value is the one of this leaf', g)]
for i in range(14):
    for det, adr in ((False, False), (True, False), (True, True)):
        FUNCS.append(Fn(GEN, s_node(i, det, adr), p_node, templates=[tree_tpl] if i in (1, 2) else [], contracts=GENC, opts={'recursive': 1}, label='Node::to_json_generic [%d%s]' % (i, ' address' if adr else ' detailed' if det else '')))
# --- base64: the packed bytes of the tree, with the schema of the packed copy
SPN, BSZ = z3.Int('packed_bytes'), z3.Int('text_bytes')
def blog(st, *e): st.ghost[BLOG] = st.ghost.get(BLOG, ()) + (e,)
BLOG = ('outc', 0, 'calls')
def c_nctor(ex, st, a, ins, fr): st.ghost[('outc', 0, 'locals')] = st.ghost.get(('outc', 0, 'locals'), ()) + (a[0].base,); return [('ret', st, None)]
def c_compact(ex, st, a, ins, fr): blog(st, 'compact', a[0].base, a[1].base); return [('ret', st, None)]
def c_schema(ex, st, a, ins, fr):
    if not isinstance(a[0].base, str) or a[0].base == ex.h.v['s'].obj: return None
    return [('ret', st, P('schema of ' + a[0].base, 0))]
def c_span(ex, st, a, ins, fr): blog(st, 'span', a[0].base); st.assume(z3.And(SPN >= 0, SPN < 2**40)); return [('ret', st, I(64, SPN))]
def c_bsz(ex, st, a, ins, fr): ex.require(st, 'the text has room for all the bytes', iv(a[0]) == SPN); st.assume(z3.And(BSZ > 0, BSZ < 2**41)); return [('ret', st, I(64, BSZ))]
def c_setdt(ex, st, a, ins, fr): f = dt_fields(ex, st, a[1]); ex.require(st, 'the text node holds the whole text', z3.And(f['id'] == 13, f['num_ele'] == BSZ)); blog(st, 'set', a[0].base); return [('ret', st, None)]
def c_dp(ex, st, a, ins, fr): return [('ret', st, P('data of ' + a[0].base, 0))]
def c_mset(ex, st, a, ins, fr): ex.require(st, 'the text is cleared', z3.And(iv(a[1]) == 0, iv(a[2]) == BSZ)); blog(st, 'clear', a[0].base); return [('ret', st, None)]
def c_b64(ex, st, a, ins, fr): ex.require(st, 'all the bytes are encoded', iv(a[1]) == SPN); blog(st, 'encode', a[0].base, a[2].base); return [('ret', st, None)]
def c_pure(ex, st, a, ins, fr):
    if not is_os(ex, a[1]): return None
    lay_args(ex, st, a, 4); blog(st, 'text', a[0].base); value(ex, st, 'pure', a[0].base); return [('ret', st, None)]
BC = {N + 'Node()': c_nctor, N + '~Node()': nop, N + 'compact_to(conduit::Node&) const': c_compact, N + 'schema() const': c_schema, S + 'spanned_bytes() const': c_span, S + 'total_bytes_compact() const': c_span, U + 'base64_encode_buffer_size(long)': c_bsz, N + 'set(conduit::DataType const&)': c_setdt,
      N + 'data_ptr()': c_dp, N + 'data_ptr() const': c_dp, U + 'conduit_memset(void*, int, unsigned long)': c_mset, U + 'base64_encode(void const*, long, void*)': c_b64, N + 'to_pure_json(std::ostream&, long, long, %s const&, %s const&) const' % (STD, STD): c_pure, SJ: c_sjson}
B64 = N + 'to_base64_json(std::ostream&, long, long, %s const&, %s const&) const' % (STD, STD)
def s_b64(h): s = HNode(h, id=1); h.v['s'] = s; h.v['id'] = 1; o = begin(h, on_log); return [s.p, o, h.int('indent')[0], h.int('depth')[0]] + lay(h)
def p_b64(h, st, v):
    ev, lg = st.ghost[EVS], st.ghost.get(BLOG, ()); out = [('the text is one complete JSON value', zi(st.ghost[ST]) == D)]
    names = [e[0] for e in lg]; ok = names.count('compact') == 1 and names.count('encode') == 1 and names.count('text') == 1
    if not ok: return out + [('the packed bytes are encoded once', z3.BoolVal(False))]
    g = {e[0]: e for e in lg}; n, b = g['compact'][2], g['text'][1]; at = {e: names.index(e) for e in g}
    def under(e, *ks): return z3.And(z3.BoolVal(len(e[0]) + 1 == len(ks)), *[x == TX(k) for x, k in zip(e[0] + (e[1],), ks)])
    sc = [e for e in ev if e[2] == 'schema']; pu = [e for e in ev if e[2] == 'pure']
    return out + [('the bytes encoded are those of the packed copy of this tree', z3.BoolVal(g['compact'][1] == h.v['s'].obj and g['encode'][1] == 'data of ' + n and g.get('span', (0, 0))[1] == 'schema of ' + n and n != b)),
        ('the text written is the encoded text', z3.BoolVal(g['encode'][2] == 'data of ' + b and g.get('set', (0, 0))[1] == b and at.get('compact') < at['encode'] < at['text'] and ('clear' not in at or at['clear'] < at['encode']) and at['set'] < at['encode'])),
        ('the schema written is that of the packed copy', z3.And(z3.BoolVal(len(sc) == 1 and sc[0][3].base == 'schema of ' + n), under(sc[0], 'schema')) if len(sc) == 1 else z3.BoolVal(False)),
        ('the text stands under data/base64', z3.And(z3.BoolVal(len(ev) == 2), under(pu[0], 'data', 'base64')) if len(pu) == 1 else z3.BoolVal(False))]
FUNCS.append(Fn(B64, s_b64, p_b64, contracts=BC, label='Node::to_base64_json'))
# --- the ways to ask for the text: every one hands over this tree, the protocol asked for and the layout asked for
TXT = z3.Function('written', INT, INT, INT, INT, INT, INT, INT, INT); TXTO = z3.Function('written_with_options', INT, INT, INT, INT)
FAM = {('Node', 'json'): 0, ('Node', 'yaml'): 1, ('Schema', 'json'): 2, ('Schema', 'yaml'): 3, ('DataType', 'json'): 4, ('DataType', 'yaml'): 5}; STRF = {'Node': 6, 'Schema': 7, 'DataType': 8}
JP = ('json', 'conduit_json', 'conduit_json_external', 'conduit_base64_json')
FIXED = {'pure_json': 'json', 'detailed_json': 'conduit_json', 'detailed_json_external': 'conduit_json_external', 'base64_json': 'conduit_base64_json', 'pure_yaml': 'yaml'}
RX = re.compile(r'conduit::(Node|Schema|DataType)::to_(json_generic|pure_json|detailed_json_external|detailed_json|base64_json|pure_yaml|yaml_generic|json|yaml|string)(_stream|_default)?\((.*)\) const$')
def canon(ex, st, cls, fam, sref, prot, det, adr, lay5):
    """the text asked for, and when it can be written"""
    if fam in FIXED: prot, fam = TX(FIXED[fam]), 'yaml' if 'yaml' in fam else 'json'
    if fam == 'json_generic':
        prot = z3.simplify(z3.If(adr, TX('conduit_json_external'), z3.If(det, TX('conduit_json'), TX('json')))); fam = 'json'; ok = z3.Implies(adr, det)
    elif fam == 'yaml_generic': prot, fam, ok = TX('yaml'), 'yaml', z3.BoolVal(True)
    elif prot is None: prot, ok = zi(0), z3.BoolVal(True)
    elif fam == 'json': ok = z3.Or(*[prot == TX(p) for p in JP])
    elif fam == 'yaml': ok = prot == TX('yaml')
    elif cls == 'Node': ok = z3.Or(prot == TX('yaml'), *[prot == TX(p) for p in JP])
    else: ok = z3.Or(prot == TX('json'), prot == TX('yaml'))
    t = lambda fam, p: TXT(zi(FAM[(cls, fam)]), sref, zi(p), *lay5)
    if fam == 'string': return z3.If(prot == TX('yaml'), t('yaml', prot if cls == 'Node' else 0), t('json', prot if cls == 'Node' else 0)), ok
    return t(fam, prot), ok
def wref(ex, p): return zi(ex.ref_of(p))
def wargs(ex, st, dn, a, sret):
    m = RX.match(dn); cls, fam, suf, pl = m.groups(); ps = [x for x in split_args(pl)] if pl else []; a = list(a); dest = None
    if sret: dest = ('ret', a.pop(0))
    s = a.pop(0)
    if not sret:
        d = a.pop(0); dest = ('os', d) if ps.pop(0) == 'std::ostream&' else ('path', d)
    if len(a) == 1 and ps[0].startswith('conduit::Node'): return cls, fam, dest, s, a[0]
    det = adr = None; prot = None
    if fam in ('json_generic', 'yaml_generic'): det = bv(a.pop(0)); ps.pop(0)
    if fam == 'json_generic': adr = bv(a.pop(0)); ps.pop(0)
    if fam == 'string' or (cls == 'Node' and fam in ('json', 'yaml')): prot = zi(str_get(ex, st, a.pop(0))) if a else TX('yaml' if fam == 'yaml' or (fam == 'string' and cls == 'Node') else 'json')
    l5 = [iv(a[0]), iv(a[1]), zi(str_get(ex, st, a[2])), zi(str_get(ex, st, a[3]))] if a else [zi(2), zi(0), TX(' '), TX('\n')]
    return cls, fam, dest, s, (prot, det, adr, l5)
def split_args(s):
    out, d, c = [], 0, ''
    for ch in s:
        d += ch == '<'; d -= ch == '>'
        if ch == ',' and d == 0: out.append(c.strip()); c = ''
        else: c += ch
    return out + [c.strip()]
WL = ('outc', 0, 'written')
def deliver(ex, st, dest, t):
    k, d = dest
    if k == 'ret': str_set(ex, st, d, t)
    elif k == 'os' and (d.base, 0, 'oss') in st.ghost:
        if not z3.eq(st.ghost[(d.base, 0, 'oss')], lit(b'')): raise Unsupported('several texts in one stream')
        oss_w(st, (d.base, 0, 'oss'), t)
    else: st.ghost[WL] = st.ghost.get(WL, ()) + ((k, d.base if k == 'os' else zi(str_get(ex, st, d)), t),)
def c_w(dn):
    def c(ex, st, a, ins, fr):
        cls, fam, dest, s, x = wargs(ex, st, dn, a, 'sret' in ins.a[0][2])
        if isinstance(x, P): t, ok = TXTO(zi(STRF[cls] if fam == 'string' else FAM[(cls, fam)]), wref(ex, s), wref(ex, x)), None
        else: t, ok = canon(ex, st, cls, fam, wref(ex, s), x[0], x[1], x[2], x[3]); ok = z3.simplify(ok)
        r = []
        if ok is None or not z3.is_true(ok) or dest[0] == 'path':
            s2 = st.copy()
            if ok is not None and dest[0] != 'path': s2.assume(z3.Not(ok)); st.assume(ok)
            s2.ghost[WL] = s2.ghost.get(WL, ()) + (('error', dest[0], t),); r = [('exc', s2, 'error')]
        deliver(ex, st, dest, t); return [('ret', st, None)] + r
    return c
def c_open(ex, st, a, ins, fr): st.ghost[('file', a[0].base, 0)] = cstr_id(ex, st, a[1], fr); return [('ret', st, None)]
def c_isopen(ex, st, a, ins, fr):
    s2 = st.copy(); s2.ghost[WL] = s2.ghost.get(WL, ()) + (('not open', a[0].base, 0),); st.ghost[WL] = st.ghost.get(WL, ()) + (('open', a[0].base, 0),)
    return [('ret', st, Bo(z3.BoolVal(True))), ('ret', s2, Bo(z3.BoolVal(False)))]
def wstar(dn):
    if RX.match(dn): return c_w(dn)
    if re.match(r'std::basic_ofstream<.*>::(~?basic_ofstream|close)\(\)$', dn): return nop
    if re.match(r'std::basic_ofstream<.*>::open\(char const\*, ', dn): return c_open
    if re.match(r'std::basic_ofstream<.*>::is_open\(\)', dn): return c_isopen
    if dn == STD + '::c_str() const': return c_cstr
_c = [0]
def c_cstr(ex, st, a, ins, fr): r = 'cstr:w%d' % _c[0]; _c[0] += 1; st.ghost[(r, 0, 'cid')] = str_get(ex, st, a[0]); return [('ret', st, P(r, 0))]
HASO = z3.Function('has_option', INT, BOOL); OPT = z3.Function('option', INT, INT); OSTR = z3.Function('option_text', INT, INT); OINT = z3.Function('option_number', INT, INT); OIS = z3.Function('option_is_text', INT, BOOL); OIN = z3.Function('option_is_number', INT, BOOL); ODT = z3.Function('option_description', INT, INT)
def isopts(ex, p): return isinstance(p, P) and isinstance(p.base, str) and p.base == ex.h.v.get('opts')
def o_has(ex, st, a, ins, fr): return [('ret', st, Bo(HASO(zi(str_get(ex, st, a[1])))))] if isopts(ex, a[0]) else None
def o_get(ex, st, a, ins, fr):
    if not isopts(ex, a[0]): return None
    n = zi(str_get(ex, st, a[1])); ex.require(st, 'only an option that is there is read', HASO(n)); st.assume(OPT(n) != 0); return [('ret', st, P(OPT(n), 0))]
def o_dt(ex, st, a, ins, fr): return [('ret', st, P(ODT(wref(ex, a[0])), 0))] if not isinstance(a[0].base, str) else None
def o_q(f):
    def c(ex, st, a, ins, fr): return [('ret', st, Bo(f(z3.simplify(wref(ex, a[0])).arg(0))))] if not isinstance(a[0].base, str) and z3.simplify(wref(ex, a[0])).decl().eq(ODT) else None
    return c
def o_str(ex, st, a, ins, fr): str_set(ex, st, a[0], OSTR(wref(ex, a[1]))); return [('ret', st, None)]
def o_int(ex, st, a, ins, fr): st.assume(z3.And(OINT(wref(ex, a[0])) >= -2**63, OINT(wref(ex, a[0])) < 2**63)); return [('ret', st, I(64, OINT(wref(ex, a[0]))))]
OC = {N + 'has_child(%s const&) const' % STD: o_has, N + 'has_path(%s const&) const' % STD: o_has, N + 'operator[](%s const&) const' % STD: o_get, N + 'fetch_existing(%s const&) const' % STD: o_get, N + 'child(%s const&) const' % STD: o_get, N + 'dtype() const': o_dt, 'conduit::DataType::is_string() const': o_q(OIS), 'conduit::DataType::is_number() const': o_q(OIN), N + 'as_string() const': o_str, N + 'to_index_t() const': o_int, N + 'to_int64() const': o_int}
def opt(n, d, txt):
    o = OPT(TX(n)); return z3.If(z3.And(HASO(TX(n)), OIS(o) if txt else OIN(o)), OSTR(o) if txt else OINT(o), d)
def wrap(dn, sret):
    m = RX.match(dn); cls, fam, suf, pl = m.groups(); ps = split_args(pl) if pl else []
    def s(h):
        r = []; so = h.obj('self'); h.v['me'] = so
        if sret: h.v['r'] = P(h.obj('ret'), 0); r.append(h.v['r'])
        r.append(P(so, 0))
        for k, p in enumerate(ps):
            if p == 'std::ostream&': h.v['wos'] = h.obj('os'); r.append(P(h.v['wos'], 0))
            elif p == 'bool': b = z3.Bool('flag%d' % k); r.append(Bo(b)); h.v['flag%d' % k] = b
            elif p.startswith('conduit::Node'): h.v['opts'] = h.obj('opts'); r.append(P(h.v['opts'], 0))
            elif p == 'long': r.append(h.int('i%d' % k)[0])
            else: r.append(h.string('s%d' % k)[0])
        if fam == 'json_generic': f = [h.v[k] for k in sorted(h.v) if k.startswith('flag')]; h.assume(z3.Implies(f[1], f[0]))
        h.v['in'] = list(r); return r
    def goal(h, st):
        ex = h.ex; cls, fam, dest, sp, x = wargs(ex, h.st, dn, h.v['in'], sret)
        if isinstance(x, P):
            f = 'string' if fam == 'string' else fam
            if dest[0] == 'os': t, ok = canon(ex, st, cls, f, wref(ex, sp), opt('protocol', TX('yaml' if fam in ('yaml', 'string') else 'json'), True), None, None, [opt('indent', zi(2), False), opt('depth', zi(0), False), opt('pad', TX(' '), True), opt('eoe', TX('\n'), True)])
            else: t, ok = TXTO(zi(STRF[cls] if fam == 'string' else FAM[(cls, fam)]), wref(ex, sp), wref(ex, x)), None
        else: t, ok = canon(ex, st, cls, fam, wref(ex, sp), x[0], x[1], x[2], x[3])
        return dest, t, ok
    def post(h, st, v):
        dest, t, ok = goal(h, st); lg = [e for e in st.ghost.get(WL, ()) if e[0] not in ('open', 'not open')]; g = []
        if dest[0] == 'ret': got = zi(str_get(h.ex, st, h.v['r'])); one = z3.BoolVal(lg == [])
        elif dest[0] == 'os': got = lg[0][2] if len(lg) == 1 else None; one = z3.BoolVal(len(lg) == 1 and lg[0][0] == 'os' and lg[0][1] == h.v['wos'])
        else:
            got = lg[0][2] if len(lg) == 1 else None; one = z3.BoolVal(False)
            if len(lg) == 1: one = lg[0][1] == zi(str_get(h.ex, h.st, dest[1])) if lg[0][0] == 'path' else z3.And(z3.BoolVal(any(e[0] == 'open' and e[1] == lg[0][1] for e in st.ghost[WL])), zi(st.ghost.get(('file', lg[0][1], 0), -1)) == zi(str_get(h.ex, h.st, dest[1])))
        return [('it is written once, where it was asked for', one), ('the text is that of this object, in the protocol and layout asked for', got == t if got is not None else z3.BoolVal(False))] + ([('only a known protocol is written', ok)] if ok is not None else [])
    def exc(h, st):
        dest, t, ok = goal(h, st); w = st.ghost.get(WL, ())
        why = any(e[0] == 'not open' for e in w) or any(e[0] == 'error' and e[1] == 'path' for e in w) or (ok is None and any(e[0] == 'error' for e in w))
        return [('an error means the file could not be opened or the protocol is unknown', z3.BoolVal(True) if why else z3.Not(ok) if ok is not None else z3.BoolVal(False))]
    c = {'*': wstar}
    if any(p.startswith('conduit::Node') for p in ps) and 'std::ostream&' in ps: c.update(OC)
    FUNCS.append(Fn(dn, s, post, exc=exc, contracts=c))
L4 = 'long, long, %s const&, %s const&' % (STD, STD); SC = STD + ' const&'; NC = 'conduit::Node const&'
for cls in ('Schema', 'DataType'):
    C_n = 'conduit::%s::' % cls
    for f in ('json', 'yaml'): wrap(C_n + 'to_%s(%s) const' % (f, L4), True); wrap(C_n + 'to_%s_default() const' % f, True)
    wrap(C_n + 'to_string(%s, %s) const' % (SC, L4), True); wrap(C_n + 'to_string_default() const', True); wrap(C_n + 'to_string_stream(std::ostream&, %s, %s) const' % (SC, L4), False)
    if cls == 'Schema':
        for f in ('json', 'yaml'): wrap(C_n + 'to_%s_stream(%s, %s) const' % (f, SC, L4), False)
        wrap(C_n + 'to_string_stream(%s, %s, %s) const' % (SC, SC, L4), False)
for f in ('json', 'yaml', 'string'):
    wrap(N + 'to_%s(%s, %s) const' % (f, SC, L4), True); wrap(N + 'to_%s_default() const' % f, True); wrap(N + 'to_%s(%s) const' % (f, NC), True)
    for d in ('std::ostream&', SC): wrap(N + 'to_%s_stream(%s, %s, %s) const' % (f, d, SC, L4), False); wrap(N + 'to_%s_stream(%s, %s) const' % (f, d, NC), False)
for f in FIXED:
    wrap(N + 'to_%s(%s) const' % (f, L4), True); wrap(N + 'to_%s(%s, %s) const' % (f, SC, L4), False)
    if f != 'base64_json': wrap(N + 'to_%s(std::ostream&, %s) const' % (f, L4), False)
wrap(N + 'to_json_generic(bool, bool, %s) const' % L4, True); wrap(N + 'to_json_generic(%s, bool, bool, %s) const' % (SC, L4), False)
wrap(N + 'to_yaml_generic(bool, %s) const' % L4, True); wrap(N + 'to_yaml_generic(%s, bool, %s) const' % (SC, L4), False)
# --- the text of a floating point number; layout
FMT = z3.Function('printed_with_15_digits', BV64, z3.StringSort())
def c_snp(ex, st, a, ins, fr):
    f = cstr_id(ex, st, a[2], fr); b = LIT_TEXT.get(z3.simplify(zi(f)).as_long(), b'') if f is not None and z3.is_int_value(z3.simplify(zi(f))) else b''
    if not re.match(rb'%\.1[5-7]l?g$', b): ex.require(st, 'the number is printed with at least 15 digits', z3.BoolVal(False))
    ex.require(st, 'the printed number fits', iv(a[1]) >= 25); st.ghost[('printed', a[0].base, 0)] = a[3].t; return [('ret', st, I(32, fresh_int('len')))]
def c_sctor(ex, st, a, ins, fr):
    k = ('printed', a[1].base, 0) if isinstance(a[1], P) else None
    if k not in st.ghost: return None
    i = fresh_int('str'); st.assume(models.sv(i) == FMT(st.ghost[k])); str_set(ex, st, a[0], i); return [('ret', st, None)]
def s_f2s(h): h.v['r'] = P(h.obj('ret'), 0); h.v['b'] = z3.BitVec('value', 64); return [h.v['r'], F(64, h.v['b'])]
def p_f2s(h, st, v):
    t = FMT(h.v['b']); r = models.text(h.ex, st, str_get(h.ex, st, h.v['r'])); plain = z3.Not(z3.Or(*[z3.Contains(t, z3.StringVal(c)) for c in 'n.e']))
    return [('the digits, marked as floating point where they would read as an integer', r == z3.If(plain, z3.Concat(t, z3.StringVal('.0')), t))]
FUNCS.append(Fn(U + 'float64_to_string(double)', s_f2s, p_f2s, contracts={'snprintf': c_snp, STD + '::basic_string(char const*, std::allocator<char> const&)': c_sctor, STD + '::find(char, unsigned long) const': lambda *a: None, '*': lambda dn: c_sctor if re.match(re.escape(STD) + r'::basic_string<.*>\(char const\*, std::allocator<char> const&\)', dn) else None}, opts={'strings': 1, 'chars': 'n.e'}))
def s_ind(h): o = begin(h, on_log); return [o, h.int('indent')[0], h.int('depth')[0], h.string('pad')[0]]
FUNCS.append(Fn(U + 'indent(std::ostream&, long, long, %s const&)' % STD, s_ind, lambda h, st, v: [('only layout is written', zi(st.ghost[ST]) == V)]))
# --- yaml: one line per child, "name: value" or "- value", nested children one level deeper
LS, IN, NM_, VP, AL, CO, DA = range(20, 27)         # line start / after the indentation / after the name / place of a value / after a leaf / after ':' / after '-'
NCH = z3.Function('number_of_children_of', INT, INT)
def ymay(ex, st, what, t):
    s = zi(st.ghost[ST]); ok = z3.simplify(z3.Or(*[s == k for k in t])); ex.require(st, what, ok); st.assume(ok); n = set(t.values()); setst(st, n.pop() if len(n) == 1 else table(s, t))
def ypiece(ex, st, t):
    t = z3.simplify(zi(t)); h = ex.h
    if str(t) == 'str:eoe': return ymay(ex, st, 'a line ends after its value', {VP: LS, AL: LS, LS: LS})
    if z3.is_int_value(t) and t.as_long() in LIT_TEXT:
        for c in LIT_TEXT[t.as_long()].decode('latin1'):
            s = cur(st)
            if c == '"': ymay(ex, st, 'a quoted text is a value', {VP: S0, S1: AL, S0: AL})
            elif c == ':': ymay(ex, st, 'a colon follows a name', {NM_: CO})
            elif c == '-': ymay(ex, st, 'a dash starts an entry', {IN: DA})
            elif c == ' ' and isinstance(s, int) and s in (CO, DA): setst(st, VP)
            elif c == ' ' and isinstance(s, int) and s in (VP,): pass
            elif ex.trial: setst(st, fresh_int('any'))
            else: raise Unsupported('character %r in yaml' % c)
        return
    if t.decl().eq(ESC): ymay(ex, st, 'an escaped text stands in quotes', {S0: S1}); on_log(ex, st, 'str', t); return
    if z3.is_select(t) and str(t.arg(0)).endswith('.order'): ymay(ex, st, 'a name follows the indentation', {IN: NM_}); gset(st, KEY, t); return
    raise Unsupported('a text of unknown content is written')
def yputs(ex, st, a, ins, fr):
    if not is_os(ex, a[0]): return None
    t = cstr_id(ex, st, a[1], fr)
    if t is None: raise Unsupported('text at %r' % (a[1],))
    ypiece(ex, st, t); return [('ret', st, a[0])]
def yputstr(ex, st, a, ins, fr):
    if not is_os(ex, a[0]): return None
    ypiece(ex, st, str_get(ex, st, a[1])); return [('ret', st, a[0])]
def yindent(ex, st, a, ins, fr):
    h = ex.h; ex.require(st, 'a line is indented to the depth of this level', z3.And(iv(a[1]) == h.v['ind'], iv(a[2]) == h.v['dep'], zi(str_get(ex, st, a[3])) == z3.Int('str:pad'))); ymay(ex, st, 'indentation starts a line', {LS: IN}); return [('ret', st, None)]
def ystar(dn):
    if re.match(r'std::basic_ostream<char.*std::operator<<.*, char const\*\)$', dn): return yputs
    if re.match(r'std::basic_ostream<char.*std::operator<<.*basic_string<char.*const&\)$', dn): return yputstr
    if dn.startswith(('std::ios_base::flags', 'std::ios_base::precision', 'std::ios_base::setf')): return c_flags
    m = re.match(r'conduit::Node::as_(\w+)_array\(\) const$', dn)
    if m: return c_asarr(m.group(1))
    if re.match(r'conduit::DataArray<(.*)>::to_(json|yaml)_stream\(std::ostream&\) const$', dn): return yarr
def yarr(ex, st, a, ins, fr):
    if not is_os(ex, a[1]) or not isinstance(a[0].base, str) or ('view', a[0].base, 0) not in st.ghost: return None
    ymay(ex, st, 'an array is a value', {VP: AL}); on_log(ex, st, 'arr', st.ghost[('view', a[0].base, 0)]); return [('ret', st, None)]
YG = N + 'to_yaml_generic(std::ostream&, bool, long, long, %s const&, %s const&) const' % (STD, STD)
def ychild(ex, st, a, ins, fr):
    if not is_os(ex, a[1]): return None
    h = ex.h; c = zi(ex.ref_of(a[0])); wrapok = z3.And(iv(a[3]) == h.v['ind'], iv(a[4]) == h.v['dep'] + 1, zi(str_get(ex, st, a[5])) == z3.Int('str:pad'), zi(str_get(ex, st, a[6])) == z3.Int('str:eoe'))
    ex.require(st, 'children are written one level deeper, in the same layout', wrapok); ymay(ex, st, 'a child is a value', {VP: VP}); on_tree(ex, st, 'child', c); st.assume(NCH(c) >= 0); setst(st, z3.If(NCH(c) == 0, zi(AL), zi(LS))); return [('ret', st, None)]
def ynch(ex, st, a, ins, fr): return [('ret', st, I(64, NCH(zi(ex.ref_of(a[0])))))] if not isinstance(a[0].base, str) else None
def s_y(id):
    def s(h):
        d = h.buf('data') if id > 2 else None; s = HNode(h, id=id, data=P(d, 0) if d else None); h.v['s'], h.v['id'], h.v['raw'] = s, id, 1; o = begin(h, on_tree, start=VP); i, h.v['ind'] = h.int('indent'); e, h.v['dep'] = h.int('depth'); h.assume(h.v['dep'] >= 0, h.v['dep'] < 2**40)
        return [s.p, o, Bo(z3.Bool('detailed')), i, e] + lay(h)
    return s
def y_tpl(ex, loop, hv): n = ex.h.v['s'].schema.pre.n; return [('entries so far', lambda v: zi(v.st.ghost[NA]) == v.it), ('in range', lambda v: v.it <= n), ('place', lambda v: zi(v.st.ghost[ST]) == LS)]
def p_y(h, st, v):
    s, id, ev = h.v['s'], h.v['id'], st.ghost[EVS]
    if id in (1, 2): return [('every child is written', zi(st.ghost[NA]) == s.schema.pre.n), ('nothing else is written', z3.BoolVal(ev == ())), ('the last line is ended', zi(st.ghost[ST]) == LS)]
    if id == 0: return [('an empty leaf has no text', z3.And(z3.BoolVal(ev == ()), zi(st.ghost[ST]) == VP))]
    if len(ev) != 1: return [('one value is written', z3.BoolVal(False))]
    kind, val = ev[0][2:]; return [('one value is written', zi(st.ghost[ST]) == AL), ('the value is the one of this leaf', (z3.BoolVal(kind == 'str') if kind != 'str' else val == ESC(STRV)) if id == 13 else z3.BoolVal(kind == 'arr' and val == BYID[id].name))]
for i in range(14): FUNCS.append(Fn(YG, s_y(i), p_y, templates=[y_tpl] if i in (1, 2) else [], contracts={'*': ystar, YG: ychild, U + 'indent(std::ostream&, long, long, %s const&)' % STD: yindent, N + 'number_of_children() const': ynch, N + 'as_string() const': c_asstr}, opts={'recursive': 1}, label='Node::to_yaml_generic [%d]' % i))

DRIVER = 'd_C19.cpp'
DRIVER_SCOPE = 'random trees (all leaf types, strided and offset leaves, nan and inf, extreme values, awkward names and texts, empty objects, lists and leaves) written in every json protocol and layout and read back, schemas written and read back, and yaml for plain names, int64, float64 and text leaves; under AddressSanitizer'
DRIVER_BOUND = 'about 1000 trees of depth up to 4 (x8 in the thorough tier)'
ASSUMES = ['std::ostream writes what it is given, snprintf with %.15g prints a number that reads back to 15 digits, with an n exactly for nan and inf', 'pad and eoe are white space', 'reading the text back is C18; escaping and unescaping are C13; views of leaves are C01, packing is C08; the base64 coder is bounded', 'the text of a leaf description ends in its last quoted value and one closing brace (DataType::to_json, proved to state exactly its members)',
           'a child named "dtype" of a plain object is read as a description; control characters without a short escape are written as they are; in pure json types widen and lists of numbers read back as arrays; yaml names and empty containers are written plainly']
