"""Assumed contracts of the C++ standard library, keyed by demangled name.  These are the
trusted part: every one used by a proof is listed in that property's evidence."""
import re, z3
import sym
from sym import *

STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
_lits = {}
LIT_TEXT = {}
def lit(b):
    """content id of a literal string: equal ids <=> equal contents"""
    if isinstance(b, str): b = b.encode()
    if b not in _lits:
        _lits[b] = z3.IntVal(-1000 - len(_lits)); LIT_TEXT[-1000 - (len(_lits) - 1)] = b
    return _lits[b]
pcurr, pnext = z3.Function('pcurr', z3.IntSort(), z3.IntSort()), z3.Function('pnext', z3.IntSort(), z3.IntSort())
chat = z3.Function('chat', z3.IntSort(), z3.IntSort(), z3.BitVecSort(8))
slen = z3.Function('slen', z3.IntSort(), z3.IntSort())

def str_get(ex, st, p):
    if not isinstance(p, P): raise Unsupported('string at %r' % (p,))
    if isinstance(p.base, str) and p.base in st.tarr:
        e, k, a = st.tarr[p.base]
        i = div_exact(p.off, e)
        if i is None: raise Unsupported('string element access')
        return z3.Select(a, zi(i))
    if not isinstance(p.base, str):
        key = ('str', p.off)
        return z3.Select(ex.heap_arr(st, key), p.base)
    k = (p.base, p.off, 'str')
    if k not in st.ghost:
        g = re.match(r'@G:(.*):(\d+)$', p.base); t = None
        if g:
            for mod in ex.prog.mods:
                if id(mod) % 1000003 == int(g.group(2)): t = mod.string_global(g.group(1))
        st.ghost[k] = fresh_int('str') if t is None else lit(t)
    return st.ghost[k]
def str_set(ex, st, p, v):
    if isinstance(p.base, str) and p.base in st.tarr:
        e, k, a = st.tarr[p.base]; i = div_exact(p.off, e)
        if i is None: raise Unsupported('string element access')
        st.tarr[p.base] = (e, k, z3.Store(a, zi(i), zi(v))); st.writes.add(('tarr', p.base)); return
    if not isinstance(p.base, str):
        key = ('str', p.off); st.heap[key] = z3.Store(ex.heap_arr(st, key), p.base, zi(v)); st.writes.add(('heap', key)); return
    k = (p.base, p.off, 'str'); st.ghost[k] = zi(v); st.writes.add(('ghost', k))

def cstr_id(ex, st, p, fr):
    b = ex.cstring(p, fr.mod)
    if b is not None: return lit(b)
    if isinstance(p, P) and isinstance(p.base, str) and p.base.startswith('cstr:'):
        return st.ghost[(p.base, 0, 'cid')]
    return None

NOOP = lambda ex, st, a, ins, fr, m: True
def ret0(ex, st, a, ins, fr, m): return a[0]
def fresh_str(ex, st, a, ins, fr, m): str_set(ex, st, a[0], fresh_int('str')); return True

def m_str_ctor_c(ex, st, a, ins, fr, m):
    i = cstr_id(ex, st, a[1], fr)
    str_set(ex, st, a[0], i if i is not None else fresh_int('str')); return True
def m_str_ctor_n(ex, st, a, ins, fr, m):
    p = a[1]; ok = isinstance(p, P) and isinstance(p.base, str) and (p.base, 0, 'cid') in st.ghost and ex.opts.get('cbuf')
    if ok:
        i = st.ghost[(p.base, 0, 'cid')]; n = zi(to_int(a[2])); ex.require(st, 'the piece lies within the text', z3.And(zi(p.off) >= 0, n >= 0, zi(p.off) + n <= slen(i)))
        str_set(ex, st, a[0], piece(i, zi(p.off), n)); return True
    str_set(ex, st, a[0], fresh_int('str')); return True
def m_str_default(ex, st, a, ins, fr, m): str_set(ex, st, a[0], lit(b'')); return True
def m_str_copy(ex, st, a, ins, fr, m): str_set(ex, st, a[0], str_get(ex, st, a[1])); return True
def m_str_assign(ex, st, a, ins, fr, m): str_set(ex, st, a[0], str_get(ex, st, a[1])); return a[0]
def m_str_assign_c(ex, st, a, ins, fr, m):
    i = cstr_id(ex, st, a[1], fr); str_set(ex, st, a[0], i if i is not None else fresh_int('str')); return a[0]
def eqtext(ex, st, i, j): return simpb(text(ex, st, i) == text(ex, st, j)) if strings(ex) else simpb(i == j)
def m_eq_ss(ex, st, a, ins, fr, m): return Bo(eqtext(ex, st, str_get(ex, st, a[0]), str_get(ex, st, a[1])))
def m_ne_ss(ex, st, a, ins, fr, m): return Bo(bnot(eqtext(ex, st, str_get(ex, st, a[0]), str_get(ex, st, a[1]))))
def m_eq_sc(ex, st, a, ins, fr, m):
    i = cstr_id(ex, st, a[1], fr)
    if i is None: return None
    return Bo(eqtext(ex, st, str_get(ex, st, a[0]), i))
def m_ne_sc(ex, st, a, ins, fr, m):
    r = m_eq_sc(ex, st, a, ins, fr, m); return None if r is None else Bo(bnot(r.t))
def m_str_empty(ex, st, a, ins, fr, m): return Bo(eqtext(ex, st, str_get(ex, st, a[0]), lit(b'')))
def m_str_size(ex, st, a, ins, fr, m):
    s = str_get(ex, st, a[0])
    if strings(ex): return I(64, z3.Length(text(ex, st, s)))
    n = slen(s)
    st.assume(n >= 0); st.assume((n == 0) == (s == lit(b'')))
    return I(64, n)
cbuf = z3.Function('characters', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.BitVecSort(8)))       # characters of a text, 0 at its length
piece = z3.Function('piece', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())                # the text of n characters from a position of a text
def m_cstr(ex, st, a, ins, fr, m):
    if ex.opts.get('cbuf'):
        i = str_get(ex, st, a[0]); n = 'cstr:' + z3.simplify(i).sexpr(); st.ghost[(n, 0, 'cid')] = i; st.bufs[n] = cbuf(i); st.assume(z3.Select(cbuf(i), slen(i)) == 0); return P(n, 0)
    n = 'cstr:%d' % next(ex.rname); st.ghost[(n, 0, 'cid')] = str_get(ex, st, a[0]); return P(n, 0)

ALLOC = ('alloc', 0, 'next')
# ---- string contents (used where a property is about text): sv(id) is the text
SS = z3.StringSort()
sv = z3.Function('sv', z3.IntSort(), SS)
def text(ex, st, i):
    """the text of a string id; literals are tied to their text"""
    i = z3.simplify(zi(i))
    if z3.is_int_value(i) and i.as_long() in LIT_TEXT: return z3.StringVal(LIT_TEXT[i.as_long()].decode('latin1'))
    return sv(i)
def mkstr(st, t):
    """a string id with that text"""
    t = z3.simplify(t)
    if z3.is_string_value(t): return lit(t.as_string().encode('latin1'))
    i = fresh_int('str'); st.assume(sv(i) == t); return i
NPOS = -1
def strings(ex): return ex.opts.get('strings')
def m_find(ex, st, a, ins, fr, m):
    if not strings(ex): return None
    s = text(ex, st, str_get(ex, st, a[0])); t = needle(ex, st, a[1], fr, m)
    if t is None: return None
    pos = zi(to_int(a[2])) if len(a) > 2 else z3.IntVal(0)
    r = z3.IndexOf(s, t, pos)
    if cint(pos) == 0: st.assume((r == -1) == z3.Not(z3.Contains(s, t)))
    return I(64, r)
lastidx = z3.Function('last_index', SS, SS, z3.IntSort())
def m_rfind(ex, st, a, ins, fr, m):
    if not strings(ex): return None
    s = text(ex, st, str_get(ex, st, a[0])); t = needle(ex, st, a[1], fr, m)
    if t is None or (len(a) > 2 and cint(zi(to_int(a[2]))) != -1): return None
    # last_index(s, t) names the position of the last occurrence; only its range is needed
    r = lastidx(s, t); st.assume(z3.Or(z3.And(r == -1, z3.Not(z3.Contains(s, t))), z3.And(r >= 0, r + z3.Length(t) <= z3.Length(s), z3.Contains(s, t))))
    return I(64, r)
def needle(ex, st, x, fr, m):
    if isinstance(x, P):
        if 'char const*' in m.string.split('(')[1]:
            i = cstr_id(ex, st, x, fr); return None if i is None else text(ex, st, i)
        return text(ex, st, str_get(ex, st, x))
    c = to_bv(x); c = z3.simplify(c)
    return z3.StringVal(chr(c.as_long())) if z3.is_bv_value(c) else None
def m_substr(ex, st, a, ins, fr, m):
    # sret result, this, pos, n
    if not strings(ex):
        f = z3.Function('substr', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
        str_set(ex, st, a[0], f(str_get(ex, st, a[1]), zi(to_int(a[2])), zi(to_int(a[3])))); return True
    s = text(ex, st, str_get(ex, st, a[1])); p, n = zi(to_int(a[2])), (z3.Length(s) - zi(to_int(a[2])) if cint(zi(to_int(a[3]))) == -1 else zi(ex.unsigned(st, I(64, to_int(a[3])))))
    ex.require(st, 'substr position within the string', z3.And(p >= 0, p <= z3.Length(s)))
    str_set(ex, st, a[0], mkstr(st, z3.SubString(s, p, n))); return True
def m_append_s(ex, st, a, ins, fr, m):
    if not strings(ex): str_set(ex, st, a[0], fresh_int('str')); return a[0]
    str_set(ex, st, a[0], mkstr(st, z3.Concat(text(ex, st, str_get(ex, st, a[0])), text(ex, st, str_get(ex, st, a[1]))))); return a[0]
def m_append_c(ex, st, a, ins, fr, m):
    i = cstr_id(ex, st, a[1], fr)
    if not strings(ex) or i is None: str_set(ex, st, a[0], fresh_int('str')); return a[0]
    str_set(ex, st, a[0], mkstr(st, z3.Concat(text(ex, st, str_get(ex, st, a[0])), text(ex, st, i)))); return a[0]
def chr_text(ex, st, c):
    c = z3.simplify(to_bv(c, 8))
    if z3.is_bv_value(c): return z3.StringVal(chr(c.as_long()))
    if z3.is_app(c) and c.decl().eq(chat): return z3.SubString(text(ex, st, c.arg(0)), c.arg(1), 1)       # a character of a text within its length
    return z3.Unit(z3.CharFromBv(z3.ZeroExt(10, c)))
def m_append_ch(ex, st, a, ins, fr, m):
    if not strings(ex): str_set(ex, st, a[0], fresh_int('str')); return a[0]
    str_set(ex, st, a[0], mkstr(st, z3.Concat(text(ex, st, str_get(ex, st, a[0])), chr_text(ex, st, a[1])))); return a[0]
def m_plus(ex, st, a, ins, fr, m):
    def tx(p, t):
        if t.strip().startswith('char const*'):
            i = cstr_id(ex, st, p, fr); return None if i is None else text(ex, st, i)
        if t.strip() == 'char': return chr_text(ex, st, p)
        return text(ex, st, str_get(ex, st, p))
    if not strings(ex): str_set(ex, st, a[0], fresh_int('str')); return True
    ps = split_args(m.string[m.string.rindex('operator+<'):].split('(', 1)[1].rsplit(')', 1)[0]); x, y = tx(a[1], ps[0]), tx(a[2], ps[1])
    str_set(ex, st, a[0], fresh_int('str') if x is None or y is None else mkstr(st, z3.Concat(x, y))); return True
def split_args(s):
    d, out, cur = 0, [], ''
    for c in s:
        if c in '<(': d += 1
        if c in '>)': d -= 1
        if c == ',' and d == 0: out.append(cur); cur = ''
        else: cur += c
    return out + [cur]
inset = z3.Function('in_set', z3.BitVecSort(8), z3.IntSort(), z3.BoolSort())      # character c occurs in the text with that id
def m_str_clear(ex, st, a, ins, fr, m): str_set(ex, st, a[0], lit(b'')); return True
def m_str_at(ex, st, a, ins, fr, m):
    i, k = str_get(ex, st, a[0]), zi(to_int(a[1]))
    if strings(ex):
        s = text(ex, st, i); st.assume(z3.Implies(z3.And(k >= 0, k < z3.Length(s)), z3.And(*[(chat(i, k) == ord(c)) == (z3.SubString(s, k, 1) == z3.StringVal(c)) for c in ex.opts.get('chars', '/')])))
    n = 'chr:%d' % next(ex.rname)
    st.bufs[n] = z3.K(z3.IntSort(), chat(i, k))
    return P(n, 0)
def m_new(ex, st, a, ins, fr, m):
    if isint(to_int(a[0])) and to_int(a[0]) in ex.opts.get('alloc', ()):      # fresh references, numbered in allocation order
        k = zi(st.ghost[ALLOC]); st.ghost[ALLOC] = z3.simplify(k + 1); st.writes.add(('ghost', ALLOC)); return P(k, 0)
    n = ex.new_region(st, 'obj', 'new'); return P(n, 0)
def m_minmax(ex, st, a, ins, fr, m): return None

# ---- vectors
ESZ = {'int': 8, 'ref': 8, 'str': 32}
def vkind(targ):
    t = targ.strip()
    if t.endswith('*'): return 'ref', 8
    if t in ('long', 'unsigned long'): return 'int', 8
    if t in ('int', 'unsigned int'): return 'int', 4
    if t.startswith('std::__cxx11::basic_string<char'): return 'str', 32
    raise Unsupported('vector of ' + t)
def targ1(s):
    """first template argument of the text after 'std::vector<'"""
    d, i = 0, 0
    while i < len(s):
        c = s[i]
        if c in '<(': d += 1
        elif c in '>)':
            if d == 0: return s[:i]
            d -= 1
        elif c == ',' and d == 0: return s[:i]
        i += 1
    return s
def vec(ex, st, p, targ, create=True):
    """(size term, data region) of the vector at p"""
    if not isinstance(p, P) or not isinstance(p.base, str) or not isint(p.off): raise Unsupported('vector at %r' % (p,))
    k = (p.base, p.off, 'vec'); reg = 'V(%s+%d)' % (p.base, p.off)
    if k not in st.ghost:
        n = fresh_int('vn'); st.assume(n >= 0); st.ghost[k] = n
    if reg not in st.tarr:
        kind, esz = vkind(targ); st.tarr[reg] = (esz, 'int' if kind == 'str' else kind, fresh_arr('V', rng=z3.IntSort()))
    return st.ghost[k], reg
def vset_n(st, p, n):
    k = (p.base, p.off, 'vec'); st.ghost[k] = zi(n); st.writes.add(('ghost', k))
def VM(name):
    def deco(f):
        V.append((re.compile(name), f)); return f
    return deco
V = []
def vt(m): return targ1(m.string[m.string.index('std::vector<') + len('std::vector<'):])

def v_ctor(ex, st, a, ins, fr, m):
    n, r = vec(ex, st, a[0], vt(m)); vset_n(st, a[0], 0); return True
def v_size(ex, st, a, ins, fr, m): return I(64, cint(z3.simplify(zi(vec(ex, st, a[0], vt(m))[0]))))
def v_empty(ex, st, a, ins, fr, m): return Bo(simpb(zi(vec(ex, st, a[0], vt(m))[0]) == 0))
def v_at(ex, st, a, ins, fr, m):
    n, r = vec(ex, st, a[0], vt(m)); i = to_int(a[1])
    ex.require(st, 'vector index in bounds', z3.And(zi(i) >= 0, zi(i) < zi(n)))
    return P(r, lmul(i, st.tarr[r][0]))
def v_begin(ex, st, a, ins, fr, m): n, r = vec(ex, st, a[0], vt(m)); return P(r, 0)
def v_end(ex, st, a, ins, fr, m): n, r = vec(ex, st, a[0], vt(m)); return P(r, lmul(n, st.tarr[r][0]))
def v_back(ex, st, a, ins, fr, m):
    n, r = vec(ex, st, a[0], vt(m)); ex.require(st, 'back() of a non-empty vector', zi(n) > 0)
    return P(r, lmul(lsub(n, 1), st.tarr[r][0]))
def velem(ex, st, p, r):
    e, k, a = st.tarr[r]
    if e == 32: return str_get(ex, st, p)
    if k == 'ref': return zi(ex.ref_of(ex.load(st, p, ('ptr',), None)))
    return zi(to_int(ex.load(st, p, ('i', e*8), None)))
def v_push(ex, st, a, ins, fr, m):
    n, r = vec(ex, st, a[0], vt(m)); e, k, arr = st.tarr[r]
    x = velem(ex, st, a[1], r)
    st.tarr[r] = (e, k, z3.Store(arr, zi(n), x)); st.writes.add(('tarr', r)); vset_n(st, a[0], ladd(n, 1)); return True
def v_pop(ex, st, a, ins, fr, m):
    n, r = vec(ex, st, a[0], vt(m)); ex.require(st, 'pop_back of a non-empty vector', zi(n) > 0); vset_n(st, a[0], lsub(n, 1)); return True
def v_clear(ex, st, a, ins, fr, m):
    n, r = vec(ex, st, a[0], vt(m)); vset_n(st, a[0], 0); return True
def v_erase(ex, st, a, ins, fr, m):
    n, r = vec(ex, st, a[0], vt(m)); e, k, arr = st.tarr[r]
    it = a[1]
    if not isinstance(it, P) or it.base != r: raise Unsupported('erase iterator')
    i = div_exact(it.off, e)
    if i is None: raise Unsupported('erase position')
    ex.require(st, 'erase position in bounds', z3.And(zi(i) >= 0, zi(i) < zi(n)))
    j = z3.Int('j!%d' % next(sym._cnt))
    st.tarr[r] = (e, k, z3.Lambda([j], z3.If(j < zi(i), z3.Select(arr, j), z3.Select(arr, j + 1)))); st.writes.add(('tarr', r))
    vset_n(st, a[0], lsub(n, 1)); return it
def v_copy(ex, st, a, ins, fr, m):
    n, r = vec(ex, st, a[1], vt(m)); n2, r2 = vec(ex, st, a[0], vt(m))
    st.tarr[r2] = st.tarr[r]; st.writes.add(('tarr', r2)); vset_n(st, a[0], n)
    return a[0] if ins.ty != ('void',) else True

def v_swap(ex, st, a, ins, fr, m):
    (n, r), (n2, r2) = vec(ex, st, a[0], vt(m)), vec(ex, st, a[1], vt(m))
    st.tarr[r], st.tarr[r2] = st.tarr[r2], st.tarr[r]; st.writes |= {('tarr', r), ('tarr', r2)}; vset_n(st, a[0], n2); vset_n(st, a[1], n)
    return True
# ---- std::map<std::string, long>
def mp(ex, st, p):
    if not isinstance(p, P) or not isinstance(p.base, str) or not isint(p.off): raise Unsupported('map at %r' % (p,))
    k = (p.base, p.off, 'mapdom'); reg = 'M(%s+%d)' % (p.base, p.off)
    if k not in st.ghost: st.ghost[k] = z3.Const('dom!%d' % next(sym._cnt), z3.ArraySort(z3.IntSort(), z3.BoolSort()))
    if reg not in st.tarr: st.tarr[reg] = (1, 'int', fresh_arr('M', rng=z3.IntSort()))
    return k, reg
def m_map_ctor(ex, st, a, ins, fr, m):
    k, r = mp(ex, st, a[0]); st.ghost[k] = z3.K(z3.IntSort(), z3.BoolVal(False)); st.writes.add(('ghost', k)); return True
def m_map_at(ex, st, a, ins, fr, m):
    k, r = mp(ex, st, a[0]); key = str_get(ex, st, a[1]); d = st.ghost[k]; e, kk, arr = st.tarr[r]
    st.tarr[r] = (e, kk, z3.If(z3.Select(d, key), arr, z3.Store(arr, key, z3.IntVal(0))))
    st.ghost[k] = z3.Store(d, key, z3.BoolVal(True)); st.writes |= {('ghost', k), ('tarr', r)}
    return P(r, key)
ENDKEY = z3.Int('map.end')
def m_map_find(ex, st, a, ins, fr, m):
    """iterator = (map value region, key) ; end() = absent"""
    k, r = mp(ex, st, a[0]); key = str_get(ex, st, a[1]); d = st.ghost[k]
    out = []
    for s2, b in ex.fork(st, z3.Select(d, key)):
        out.append(('ret', s2, P('MI' + r, key) if b else P('MI' + r + ':end', 0)))
    return out
def m_map_end(ex, st, a, ins, fr, m):
    k, r = mp(ex, st, a[0]); return P('MI' + r + ':end', 0)
def menum(ex, st, p):
    """the order a traversal of this map visits: some bijection between 0..n-1 and its keys"""
    k, r = mp(ex, st, p); d = st.ghost[k]; q = k[:2] + ('enum',)
    if q in st.ghost and st.ghost[q][0].eq(d): return st.ghost[q], r
    c = next(sym._cnt); E = z3.Const('mapkey!%d' % c, z3.ArraySort(z3.IntSort(), z3.IntSort())); EI = z3.Const('mapat!%d' % c, z3.ArraySort(z3.IntSort(), z3.IntSort())); n = z3.Int('mapn!%d' % c)
    i, x = z3.Ints('i? x?')
    st.assume(z3.And(n >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(d, z3.Select(E, i)), z3.Select(EI, z3.Select(E, i)) == i)), patterns=[z3.Select(E, i)]),
        z3.ForAll([x], z3.Implies(z3.Select(d, x), z3.And(z3.Select(EI, x) >= 0, z3.Select(EI, x) < n, z3.Select(E, z3.Select(EI, x)) == x)), patterns=[z3.Select(EI, x), z3.Select(d, x)])))
    st.ghost[q] = (d, E, n, EI); return st.ghost[q], r
def m_map_begin(ex, st, a, ins, fr, m):
    e, r = menum(ex, st, a[0]); return P('MJ' + r, 0)
def mapit(ex, st, x):
    """(enumeration, position) of a positional iterator, or None"""
    if isinstance(x, P) and isinstance(x.base, str) and x.base.startswith('MJ'):
        r = x.base[2:]
        for k, v in st.ghost.items():
            if isinstance(k[0], str) and k[-1] == 'enum' and 'M(%s+%d)' % (k[0], k[1]) == r: return v, zi(x.off), r
        raise Unsupported('map iterator without a traversal')
def m_mapit_inc(ex, st, a, ins, fr, m):
    x = ex.load(st, a[0], ('ptr',), None); t = mapit(ex, st, x)
    if t is None: raise Unsupported('map iterator increment')
    ex.require(st, 'map iterator not past the end', t[1] < t[0][2]); ex.store(st, a[0], P(x.base, ladd(x.off, 1)), ('ptr',), None)
    return a[0] if len(a) == 1 else x
def m_map_count(ex, st, a, ins, fr, m):
    k, r = mp(ex, st, a[0]); return I(64, z3.If(z3.Select(st.ghost[k], str_get(ex, st, a[1])), z3.IntVal(1), z3.IntVal(0)))
def m_map_erase_key(ex, st, a, ins, fr, m):
    k, r = mp(ex, st, a[0]); key = str_get(ex, st, a[1]); d = st.ghost[k]
    st.ghost[k] = z3.Store(d, key, z3.BoolVal(False)); st.writes.add(('ghost', k))
    return I(64, z3.If(z3.Select(d, key), z3.IntVal(1), z3.IntVal(0)))
def m_map_erase_it(ex, st, a, ins, fr, m):
    k, r = mp(ex, st, a[0]); it = a[1]
    if not (isinstance(it, P) and it.base == 'MI' + r): raise Unsupported('map erase iterator')
    st.ghost[k] = z3.Store(st.ghost[k], it.off, z3.BoolVal(False)); st.writes.add(('ghost', k)); return P('MI?', 0)
def m_mapit_deref(ex, st, a, ins, fr, m):
    it = ex.load(st, a[0], ('ptr',), None); t = mapit(ex, st, it)
    if t is not None:
        ex.require(st, 'map iterator not at the end', z3.And(t[1] >= 0, t[1] < t[0][2])); it = P('MI' + t[2], z3.Select(t[0][1], t[1]))
    if not (isinstance(it, P) and isinstance(it.base, str) and it.base.startswith('MI') and not it.base.endswith(':end')): raise Unsupported('map iterator dereference')
    # pair<const string,long>: first at +0, second at +32
    n = 'MP:%d' % next(ex.rname); st.objs[n] = {}
    st.ghost[(n, 0, 'str')] = it.off
    e, k, arr = st.tarr[it.base[2:]]
    st.objs[n][32] = (8, I(64, z3.Select(arr, it.off)))
    st.ghost[(n, 0, 'alias')] = (it.base[2:], it.off)
    return P(n, 0)
def m_mapit_eq(ex, st, a, ins, fr, m):
    x, y = ex.load(st, a[0], ('ptr',), None), ex.load(st, a[1], ('ptr',), None)
    for u, v in ((x, y), (y, x)):
        t = mapit(ex, st, u)
        if t is not None:
            if v.base == 'MI' + t[2] + ':end': e = t[1] == t[0][2]
            elif v.base == u.base: e = t[1] == zi(v.off)
            else: raise Unsupported('comparison of different map iterators')
            return Bo(simpb(e if m.group('op') == '==' else z3.Not(e)))
    e = x.base == y.base and (x.base.endswith(':end') or simpb(zi(x.off) == zi(y.off)) is True)
    return Bo(e if m.group('op') == '==' else not e)

def m_map_copy(ex, st, a, ins, fr, m):
    k, r = mp(ex, st, a[1]); k2, r2 = mp(ex, st, a[0])
    st.ghost[k2] = st.ghost[k]; st.tarr[r2] = st.tarr[r]; st.writes |= {('ghost', k2), ('tarr', r2)}
    return a[0] if ins.ty != ('void',) else True
def m_map_clear(ex, st, a, ins, fr, m):
    k, r = mp(ex, st, a[0]); st.ghost[k] = z3.K(z3.IntSort(), z3.BoolVal(False)); st.writes.add(('ghost', k)); return True
# ---- string streams: the content is known while it is empty or one string; anything else is some text
def oss_key(p): return (p.base, 0, 'oss') if isinstance(p, P) and isinstance(p.base, str) else None
def oss_w(st, k, v): st.ghost[k] = v; st.writes.add(('ghost', k))
def oss_new(ex, st, a, ins, fr, m):
    k = oss_key(a[0])
    if k: oss_w(st, k, lit(b''))
    return True
def oss_reset(ex, st, a, ins, fr, m):
    k = oss_key(a[0])
    if k: oss_w(st, k, str_get(ex, st, a[1]))
    return True
def oss_put(ex, st, a, ins, fr, m):
    k = oss_key(a[0])
    if k and k in st.ghost: oss_w(st, k, str_get(ex, st, a[1]) if z3.is_int_value(st.ghost[k]) and z3.eq(st.ghost[k], lit(b'')) else fresh_int('str'))
    return a[0]
decs = z3.Function('decimal_text', z3.IntSort(), z3.IntSort())
def oss_any(ex, st, a, ins, fr, m):
    k = oss_key(a[0])
    if k and k in st.ghost and len(a) == 2 and isinstance(a[1], (I, B)) and re.search(r'(operator<<|_M_insert.*)\((unsigned )?(long|int|short)( long)?\)', m.string) and z3.eq(st.ghost[k], lit(b'')):
        oss_w(st, k, decs(zi(to_int(a[1])))); return a[0]
    if k and k in st.ghost: oss_w(st, k, fresh_int('str'))
    return a[0]
def oss_str(ex, st, a, ins, fr, m):
    k = oss_key(a[1]); str_set(ex, st, a[0], st.ghost[k] if k and k in st.ghost else fresh_int('str')); return True
def M(rx, f): MODELS.append((re.compile(rx), f))
MODELS = []
OSS = r'std::(__cxx11::)?basic_o(string)?stream<char, std::char_traits<char>(, std::allocator<char> ?)?>'
M(r'(std::allocator<.*>::~?allocator|std::__new_allocator<.*>::~?__new_allocator)\(', NOOP)
M(r'std::__cxx11::basic_o?stringstream<.*>::basic_o?stringstream\(\)', oss_new)
M(r'std::__cxx11::basic_(o|i)?stringstream<.*>::~?basic_(o|i)?stringstream\(', NOOP)
M(r'std::__cxx11::basic_(o|i)?stringstream<.*>::str\(\) const', oss_str)
M(r'std::__cxx11::basic_(o|i)?stringstream<.*>::str\(' + STR, oss_reset)
M(r'std::basic_ostream<char, std::char_traits<char> ?>& std::operator<<.*' + STR + r' const&\)$', oss_put)
M(r'std::basic_ostream<char, std::char_traits<char> ?>& std::operator<<', oss_any)
M(r'std::ostream::operator<<\(|std::basic_ostream<.*>::operator<<\(|std::ostream& std::ostream::_M_insert', oss_any)
M(STR + r'::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)', m_str_ctor_c)
M(STR + r'::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)', m_str_ctor_n)
M(STR + r'::basic_string\(\)', m_str_default)
M(STR + r'::basic_string\(' + STR + r'( const&|&&)\)', m_str_copy)
M(STR + r'::~basic_string\(', NOOP)
M(STR + r'::operator=\(' + STR + r'( const&|&&)\)', m_str_assign)
M(STR + r'::operator=\(char const\*\)', m_str_assign_c)
M(STR + r'::empty\(\) const', m_str_empty)
M(STR + r'::(size|length)\(\) const', m_str_size)
M(STR + r'::c_str\(\) const', m_cstr)
M(r'bool std::operator==<char, std::char_traits<char>, std::allocator<char> ?>\(' + STR + r' const&, char const\*\)', m_eq_sc)
M(r'bool std::operator!=<char, std::char_traits<char>, std::allocator<char> ?>\(' + STR + r' const&, char const\*\)', m_ne_sc)
M(r'(std::__enable_if<.*>::__type|bool) std::operator==<char(, std::char_traits<char>, std::allocator<char> ?)?>\(' + STR + r' const&, ' + STR, m_eq_ss)
M(r'bool std::operator!=<char, std::char_traits<char>, std::allocator<char> ?>\(' + STR + r' const&, ' + STR, m_ne_ss)
M(STR + r'::find\(', m_find)
M(STR + r'::rfind\(', m_rfind)
M(STR + r'::substr\(unsigned long, unsigned long\) const', m_substr)
M(STR + r'::(operator\+=|append)\(' + STR + r' const&\)', m_append_s)
M(STR + r'::(operator\+=|append)\(char const\*\)', m_append_c)
M(STR + r'::(operator\+=|push_back)\(char\)', m_append_ch)
M(r'std::__cxx11::basic_string<.*> std::operator\+<char', m_plus)
M(STR + r'::clear\(\)', m_str_clear)
M(STR + r'::operator\[\]\(unsigned long\)( const)?', m_str_at)
M(r'operator new(\[\])?\(unsigned long\)$', m_new)
M(r'operator delete(\[\])?\(', NOOP)
M(r'std::vector<.*>::vector\(\)$', v_ctor)
M(r'std::vector<.*>::vector\(std::vector<.* const&\)$', v_copy)
M(r'std::vector<.*>::operator=\(std::vector<.* const&\)$', v_copy)
M(r'std::vector<.*>::~vector\(\)$', NOOP)
M(r'std::vector<.*>::size\(\) const$', v_size)
M(r'std::vector<.*>::empty\(\) const$', v_empty)
M(r'std::vector<.*>::operator\[\]\(unsigned long\)( const)?$', v_at)
M(r'std::vector<.*>::(c?begin)\(\)( const)?$', v_begin)
M(r'std::vector<.*>::(c?end)\(\)( const)?$', v_end)
M(r'std::vector<.*>::back\(\)( const)?$', v_back)
M(r'std::vector<.*>::push_back\(', v_push)
M(r'std::vector<.*>::pop_back\(\)$', v_pop)
M(r'std::vector<.*>::clear\(\)$', v_clear)
M(r'std::vector<.*>::erase\(__gnu_cxx::__normal_iterator<.*\)$', v_erase)
M(r'std::map<' + STR + r', long, .*>::map\(\)$', m_map_ctor)
M(r'std::map<' + STR + r', long, .*>::~map\(\)$', NOOP)
M(r'std::map<' + STR + r', long, .*>::operator\[\]\(', m_map_at)
M(r'std::map<' + STR + r', long, .*>::find\(.*\)( const)?$', m_map_find)
M(r'std::map<' + STR + r', long, .*>::end\(\)( const)?$', m_map_end)
M(r'std::map<' + STR + r', long, .*>::begin\(\)( const)?$', m_map_begin)
M(r'std::_Rb_tree_(const_)?iterator<.*>::operator\+\+\(', m_mapit_inc)
M(r'std::map<' + STR + r', long, .*>::count\(', m_map_count)
M(r'std::map<' + STR + r', long, .*>::erase\(' + STR + ' const&', m_map_erase_key)
M(r'std::map<' + STR + r', long, .*>::erase.*\(std::_Rb_tree_iterator', m_map_erase_it)
M(r'std::_Rb_tree_(const_)?iterator<.*>::operator->\(\) const', m_mapit_deref)
M(r'std::_Rb_tree_(const_)?iterator<.*>::operator\*\(\) const', m_mapit_deref)
M(r'(bool )?std::operator(?P<op>[=!]=)\(std::_Rb_tree_(const_)?iterator<', m_mapit_eq)
M(r'std::_Rb_tree_(const_)?iterator<.*>::operator(?P<op>[=!]=)\(', m_mapit_eq)
M(r'std::map<' + STR + r', long, .*>::(map|operator=)\(std::map<.* const&\)$', m_map_copy)
M(r'std::map<' + STR + r', long, .*>::clear\(\)$', m_map_clear)
M(r'(void )?std::swap<.*>\(std::vector<', v_swap)
M(r'std::vector<.*>::swap\(', v_swap)
