"""C13: paths and separated text are split and joined exactly."""
from nod import *
import models
from models import slen, cbuf, piece, text, sv, chr_text, lastidx, mkstr, SS as SS_
from props.C10 import STD, log, SEQ
UNITS = ['libs/conduit/conduit_utils.cpp', 'probe/probe_core.cpp']
FUNCS = []
U = 'conduit::utils::'
SV = lambda x: z3.StringVal(x)
TX = {'strings': 1}
def txt(h, st, p): return text(h.ex, st, str_get(h.ex, st, p))
def strs(h, *ns):
    """string parameters; returns pointers, remembers their texts"""
    r = []
    for n in ns: p, i = h.string(n); h.v[n] = sv(i); r.append(p)
    return r
def s_split(sep):
    def s(h):
        a = strs(h, 'str') + (strs(h, 'sep') if sep is None else [])
        if sep is None: h.assume(z3.Length(h.v['sep']) >= 1)
        else: h.v['sep'] = SV(sep)
        cu, nx = strs(h, 'curr0', 'next0'); h.v['c'], h.v['n'] = cu, nx; return a + [cu, nx]
    return s
def same_src(h, st): return []
def p_split(h, st, v):
    s, sep, c, n = h.v['str'], h.v['sep'], txt(h, st, h.v['c']), txt(h, st, h.v['n']); L = z3.Length
    inn = z3.Contains(s, sep)
    return [('without a separator everything is the first part', z3.Implies(z3.Not(inn), z3.And(c == s, n == SV('')))), ('the first part ends at the first separator', z3.Implies(inn, c == z3.SubString(s, 0, z3.IndexOf(s, sep, 0)))),
            ('the rest is everything after the first separator', z3.Implies(inn, n == z3.SubString(s, z3.IndexOf(s, sep, 0) + L(sep), L(s) - (z3.IndexOf(s, sep, 0) + L(sep)))))]
def p_rsplit(h, st, v):
    s, sep, c, n = h.v['str'], h.v['sep'], txt(h, st, h.v['c']), txt(h, st, h.v['n']); L = z3.Length; inn = z3.Contains(s, sep); k = lastidx(s, sep)
    return [('without a separator everything is the last part', z3.Implies(z3.Not(inn), z3.And(c == s, n == SV('')))), ('the rest is everything before the last separator', z3.Implies(inn, n == z3.SubString(s, 0, k))),
            ('the last part is everything after the last separator', z3.Implies(inn, c == z3.SubString(s, k + L(sep), L(s) - (k + L(sep)))))]
S4 = 'split_string(%s const&, %s const&, %s&, %s&)' % ((STD,) * 4)
S3 = '_path(%s const&, %s&, %s&)' % ((STD,) * 3)
FUNCS.append(Fn(U + S4, s_split(None), p_split, opts=TX)); FUNCS.append(Fn(U + 'r' + S4, s_split(None), p_rsplit, opts=TX))
def s_join(h): r = h.obj('ret'); h.v['r'] = P(r, 0); return [h.v['r']] + strs(h, 'left', 'right')
def p_join(h, st, v):
    a, b, r = h.v['left'], h.v['right'], txt(h, st, h.v['r']); e = SV('')
    return [('one separator between two parts, none added otherwise', r == z3.If(z3.Or(a == e, b == e, z3.SuffixOf(SV('/'), a)), z3.Concat(a, b), z3.Concat(a, SV('/'), b)))]
FUNCS.append(Fn(U + 'join_path(%s const&, %s const&)' % (STD, STD), s_join, p_join, opts=TX))

# ---- file paths
S3f = '_file_path(%s const&, %s&, %s&)' % ((STD,) * 3)
S4f = '_file_path(%s const&, %s const&, %s&, %s&)' % ((STD,) * 4)
def drive(h):
    """the path starts with a drive and the separator is its colon"""
    s, sep = h.v['str'], h.v['sep']; return z3.And(sep == SV(':'), z3.SubString(s, 1, 1) == SV(':'), z3.SubString(s, 2, 1) == SV('\\'))
head, tail, rhead, rtail = [z3.Function(n, SS_, SS_, SS_) for n in ('first_part', 'after_first', 'last_part', 'before_last')]
def c_sp(r):
    """the contract of (r)split_string, as the functions it is proved to compute"""
    def c(ex, st, a, ins, fr):
        s, sep = text(ex, st, str_get(ex, st, a[0])), text(ex, st, str_get(ex, st, a[1])); inn = z3.Contains(s, sep); f, g = (rhead, rtail) if r else (head, tail)
        ex.require(st, 'a separator is not empty', z3.Length(sep) >= 1)
        out = []
        for s2, b in ex.fork(st, inn):
            if b: str_set(ex, s2, a[2], mkstr(s2, f(s, sep))); str_set(ex, s2, a[3], mkstr(s2, g(s, sep)))
            else: str_set(ex, s2, a[2], str_get(ex, s2, a[0])); str_set(ex, s2, a[3], lit(b''))
            out.append(('ret', s2, None))
        return out
    return c
CSP = {U + S4: c_sp(0), U + 'r' + S4: c_sp(1)}
def p_by(r):
    def p(h, st, v):
        s, sep, c, n = h.v['str'], h.v['sep'], txt(h, st, h.v['c']), txt(h, st, h.v['n']); f, t = (rhead, rtail) if r else (head, tail); inn = z3.Contains(s, sep)
        return [('split at the slash', z3.And(z3.Implies(inn, z3.And(c == f(s, sep), n == t(s, sep))), z3.Implies(z3.Not(inn), z3.And(c == s, n == SV('')))))]
    return p
for S in (S3, S3f): FUNCS.append(Fn(U + 'split' + S, s_split('/'), p_by(0), opts=TX, contracts=CSP)); FUNCS.append(Fn(U + 'rsplit' + S, s_split('/'), p_by(1), opts=TX, contracts=CSP))
def p_fsplit(r):
    def p(h, st, v):
        s, sep, c, n = h.v['str'], h.v['sep'], txt(h, st, h.v['c']), txt(h, st, h.v['n']); L = z3.Length; d = drive(h); g = []
        f, t = (rhead, rtail) if r else (head, tail)
        for nm, cond, D, b in (('with a drive', d, z3.SubString(s, 0, 3), z3.SubString(s, 3, L(s) - 3)), ('without a drive', z3.Not(d), None, s)):
            inn = z3.Contains(b, sep); dr = lambda x: x if D is None else z3.Concat(D, x)
            lo, hi = (t(b, sep), f(b, sep)) if r else (f(b, sep), t(b, sep))
            g += [(nm + ': without a separator everything is one part', z3.Implies(z3.And(cond, z3.Not(inn)), z3.And(c == s, n == SV('')))), (nm + ': the part before the separator', z3.Implies(z3.And(cond, inn), (n if r else c) == dr(lo))),
                  (nm + ': the part after the separator', z3.Implies(z3.And(cond, inn), (c if r else n) == hi))]
        return g
    return p
FX = {'strings': 1, 'chars': '/:\\'}
FUNCS.append(Fn(U + 'split' + S4f, s_split(None), p_fsplit(False), opts=FX, contracts=CSP)); FUNCS.append(Fn(U + 'rsplit' + S4f, s_split(None), p_fsplit(True), opts=FX, contracts=CSP))
def p_fjoin(h, st, v):
    a, b, r = h.v['left'], h.v['right'], txt(h, st, h.v['r']); e = SV('')
    return [('one separator after the left part', r == z3.If(z3.Or(a == e, z3.SubString(a, z3.Length(a) - 1, 1) == SV('/')), z3.Concat(a, b), z3.Concat(a, SV('/'), b)))]
FUNCS.append(Fn(U + 'join_file_path(%s const&, %s const&)' % (STD, STD), s_join, p_fjoin, opts=TX))
def s_sep(h): h.v['r'] = P(h.obj('ret'), 0); return [h.v['r']]
FUNCS.append(Fn(U + 'file_path_separator()', s_sep, lambda h, st, v: [('it is the slash', txt(h, st, h.v['r']) == SV('/'))], opts=TX))

# ---- escaping: definitional recursions over the text, used as loop invariants
SPECIAL = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\b': '\\b', '\f': '\\f', '\r': '\\r'}
UNESC = {'"': '"', '\\': '\\', '/': '/', 'n': '\n', 't': '\t', 'b': '\b', 'f': '\f', 'r': '\r'}
EX = {'strings': 1, 'chars': '"\\\n\t\b\f\r/ntbfr'}
escaped = z3.Function('escaped_prefix', SS_, z3.IntSort(), SS_); unesc = z3.Function('unescaped_rest', SS_, z3.IntSort(), SS_)
at1 = lambda s, k: z3.SubString(s, k, 1)
def esc1(s, k):
    r = at1(s, k)
    for a, b in SPECIAL.items(): r = z3.If(at1(s, k) == SV(a), SV(b), r)
    return r
def esc_def(s, k): return z3.Implies(z3.And(k >= 0, k < z3.Length(s)), escaped(s, k + 1) == z3.Concat(escaped(s, k), esc1(s, k)))
def un_def(s, k):
    """what the rest of the text from k unescapes to"""
    n = z3.Length(s); r = z3.Concat(SV('\\'), unesc(s, k + 1))
    for a, b in UNESC.items(): r = z3.If(at1(s, k + 1) == SV(a), z3.Concat(SV(b), unesc(s, k + 2)), r)
    return z3.And(z3.Implies(k >= n, unesc(s, k) == SV('')), z3.Implies(z3.And(k >= 0, k < n), unesc(s, k) == z3.If(z3.And(at1(s, k) == SV('\\'), k < n - 1), r, z3.Concat(at1(s, k), unesc(s, k + 1)))))
def ints(v): return [(r, zi(p.t)) for r, p in v.phis.items() if isinstance(p, I)]
def h_def(d): return lambda ex, v: [d(ex.h.v['str'], k) for _, k in ints(v)]
def s_esc(h): h.v['r'] = P(h.obj('ret'), 0); a = strs(h, 'str'); h.assume(escaped(h.v['str'], z3.IntVal(0)) == SV(''), un_def(h.v['str'], z3.IntVal(0))); return [h.v['r']] + a
def t_esc(un):
    def t(ex, loop, hv):
        h = ex.h; s = h.v['str']; out = []
        for r, _ in ints(hv):
            k = lambda v, r=r: zi(v.phis[r].t)
            out.append(('the position stays within the text', lambda v, k=k: z3.And(k(v) >= 0, k(v) <= z3.Length(s))))
            if un: out.append(('what is written and what is left make up the whole', lambda v, k=k: z3.Concat(txt(h, v.st, h.v['r']), unesc(s, k(v))) == unesc(s, z3.IntVal(0))))
            else: out.append(('what is written is the escaped text so far', lambda v, k=k: txt(h, v.st, h.v['r']) == escaped(s, k(v))))
        return out
    return t
FUNCS.append(Fn(U + 'escape_special_chars(%s const&)' % STD, s_esc, lambda h, st, v: [('each special character is replaced by its escape, others are kept', txt(h, st, h.v['r']) == escaped(h.v['str'], z3.Length(h.v['str'])))], templates=[t_esc(0)], hooks=[h_def(esc_def)], opts=EX))
def p_un(h, st, v): return [('each known escape is replaced by its character, everything else is kept', txt(h, st, h.v['r']) == unesc(h.v['str'], z3.IntVal(0)))]
FUNCS.append(Fn(U + 'unescape_special_chars(%s const&)' % STD, s_esc, p_un, templates=[t_esc(1)], hooks=[h_def(un_def)], opts=EX))

def l_round():
    s, pre, post, c = z3.String('s'), z3.String('pre'), z3.String('post'), z3.String('c'); out = []
    for a, b in list(SPECIAL.items()) + [(None, None)]:
        x = SV(b) if b else c; e = z3.Concat(pre, x, post); p = z3.Length(pre); y = SV(a) if a else c
        hyp = [un_def(e, p), z3.Length(c) == 1] + ([] if a else [c != SV(q) for q in SPECIAL])
        out.append(('unescaping the escape of %r gives it back and goes on after it' % (a or 'another character'), hyp, unesc(e, p) == z3.Concat(y, unesc(e, p + z3.Length(x)))))
    return out
FUNCS.append(Lemma('unescaping an escaped text gives the text back (step of the induction over its characters)', l_round))

# ---- all the pieces of a separated text
CH = 'split_string(%s const&, char, std::vector<%s, std::allocator<%s>>&)' % ((STD,) * 3)
pstart, pcount = z3.Function('piece_start', INT, INT), z3.Function('pieces_before', INT, INT)
def s_ch(h):
    p, i = h.string('str'); sep, t = h.bv('sep', 8); o = h.obj('out'); vp = P(o, 0); L = slen(i); h.v.update(id=i, sep=t, vec=vp, L=L, p=z3.Int('p'), j=z3.Int('j'))
    n, r = models.vec(h.ex, h.st, vp, STD); h.v['n0'], h.v['a0'] = zi(n), h.st.tarr[r][2]
    q = z3.Int('q?'); b = cbuf(i); h.assume(L >= 0, t != 0, pstart(0) == 0, pcount(0) == 0, (L == 0) == (i == lit(b'')), z3.Select(b, L) == 0)
    h.v['b'] = b; h.assume(*ch_def(h, h.v['p'])); h.assume(*ch_def(h, L)); return [p, sep, vp]
def ch_def(h, k):
    b, L, t = h.v['b'], h.v['L'], h.v['sep']; c = z3.Select(b, k) == t
    return [z3.Implies(z3.And(k >= 0, k < L), z3.And(z3.Select(b, k) != 0, pstart(k + 1) == z3.If(c, k + 1, pstart(k)), pcount(k + 1) == pcount(k) + z3.If(z3.And(c, pstart(k) < k), 1, 0)))]
def ptrs(v): return [(r, zi(p.off)) for r, p in v.phis.items() if isinstance(p, P)] + [(r, zi(p.t)) for r, p in v.phis.items() if isinstance(p, I)]
def vnow(h, st): n, r = models.vec(h.ex, st, h.v['vec'], STD); return zi(n), st.tarr[r][2]
def isp(h): p = h.v['p']; return z3.And(p >= 0, p < h.v['L'], z3.Select(h.v['b'], p) == h.v['sep'], pstart(p) < p)
def want(h, a, k): return z3.Select(a, h.v['n0'] + pcount(k)) == piece(h.v['id'], pstart(k), k - pstart(k))
def t_ch(ex, loop, hv):
    h = ex.h; L, p, j = h.v['L'], h.v['p'], h.v['j']; out = []; off = lambda v, r: zi(v.phis[r].off if isinstance(v.phis[r], P) else v.phis[r].t)
    rs = [r for r, _ in ptrs(hv)]
    for r in rs:
        k = lambda v, r=r: off(v, r)
        out += [('within the text', lambda v, k=k: z3.And(k(v) >= 0, k(v) <= L)), ('as many pieces as were ended', lambda v, k=k: vnow(h, v.st)[0] == h.v['n0'] + pcount(k(v))), ('the piece starts before', lambda v, k=k: z3.And(pstart(k(v)) >= 0, pstart(k(v)) <= k(v), pcount(k(v)) >= 0)),
            ('pieces ended before are in place', lambda v, k=k: z3.Implies(z3.And(isp(h), p < k(v)), z3.And(want(h, vnow(h, v.st)[1], p), pcount(p) < pcount(k(v)), pcount(p) >= 0)))]
        for r2 in rs:
            if r2 != r: out.append(('the current piece starts after the last separator', lambda v, k=k, r2=r2: off(v, r2) == pstart(k(v))))
    out.append(('what the list held before stays', lambda v: z3.Implies(z3.And(j >= 0, j < h.v['n0']), z3.Select(vnow(h, v.st)[1], j) == z3.Select(h.v['a0'], j))))
    return out
def p_ch(h, st, v):
    n, a = vnow(h, st); L, p, j, n0 = h.v['L'], h.v['p'], h.v['j'], h.v['n0']
    return [('one piece per non-empty run between separators', n == n0 + pcount(L) + z3.If(pstart(L) < L, 1, 0)), ('each run before a separator is one piece, in order', z3.Implies(isp(h), want(h, a, p))),
            ('the run at the end is the last piece', z3.Implies(pstart(L) < L, want(h, a, L))), ('what the list held before stays', z3.Implies(z3.And(j >= 0, j < n0), z3.Select(a, j) == z3.Select(h.v['a0'], j)))]
FUNCS.append(Fn(U + CH, s_ch, p_ch, templates=[t_ch], hooks=[lambda ex, v: [f for _, k in ptrs(v) for f in ch_def(ex.h, k)]], opts={'cbuf': 1}, label=U + 'split_string(text, char, list)'))
DRIVER = 'd_C13.cpp'
DRIVER_SCOPE = 'split, rsplit, join of paths and file paths, splitting into a list, escaping and unescaping, trimming, against character-level definitions; trim_string has no contract'
DRIVER_BOUND = 'all texts up to length 7 over two letters and up to 6 over three, plus 4000 random texts up to 40 characters (x8 in the thorough tier)'
BOUNDED_ONLY = ['conduit::utils::trim_string']
ASSUMES = ['std::string find, rfind, substr, append and concatenation compute what the z3 theory of strings (or the named function) says', 'output strings are different objects from the input strings', 'a text split into a list holds no null character']
