"""C17: every function of the C interface does exactly what the C++ operation it stands for does, on the same operands."""
from nod import *
from models import cstr_id
from props.C10 import STD, log, SEQ
import re
UNITS = ['libs/conduit/c/conduit_node_c.cpp', 'libs/conduit/c/conduit_datatype_c.cpp', 'libs/conduit/c/conduit_c.cpp', 'libs/conduit/c/conduit_cpp_to_c.cpp', 'libs/blueprint/c/conduit_blueprint_c.cpp', 'libs/blueprint/c/conduit_blueprint_mcarray_c.cpp', 'libs/blueprint/c/conduit_blueprint_mesh_c.cpp', 'libs/blueprint/c/conduit_blueprint_table_c.cpp', 'libs/relay/c/conduit_relay_c.cpp', 'libs/relay/c/conduit_relay_io_c.cpp']
FUNCS = []
BITS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64']
NATIVE = {'char': 'int8', 'signed char': 'int8', 'short': 'int16', 'int': 'int32', 'long': 'int64', 'long long': 'int64', 'unsigned char': 'uint8', 'unsigned short': 'uint16', 'unsigned int': 'uint32', 'unsigned long': 'uint64', 'unsigned long long': 'uint64', 'float': 'float32', 'double': 'float64'}
WORD = {b: b for b in BITS}; WORD.update({k.replace(' ', '_'): v for k, v in NATIVE.items()}); WORD.update({'signed_short': 'int16', 'signed_int': 'int32', 'signed_long': 'int64', 'signed_long_long': 'int64'})
width = lambda tn: int(re.sub(r'\D', '', tn)) // 8
# --- C++ operations on nodes, by what they do: spellings of the same operation (proved equal in C05, C07 and C10) share a name
def params(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<(': d += 1
        if c in '>)': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    return out + [cur.strip()] if cur.strip() else out
def canon(cls, m, pt):
    """-> (on a path?, operation)"""
    if cls != 'Node': return False, m
    path = False
    if m.startswith('set_path'): path, m, pt = True, 'set' + m[8:], pt[1:]
    g = re.match(r'set_external_(\w+)_ptr$', m)
    if g and g.group(1) in WORD: return path, 'set_external %s*' % WORD[g.group(1)]
    g = re.match(r'set_(\w+)_ptr$', m)
    if g and g.group(1) in WORD: return path, 'set %s*' % WORD[g.group(1)]
    g = re.match(r'set_(\w+)$', m)
    if g and g.group(1) in WORD and len(pt) == 1 and pt[0] in NATIVE: return path, 'set ' + WORD[g.group(1)]
    if m in ('set', 'set_external') and pt:
        if len(pt) == 1 and pt[0] in NATIVE: return path, 'set ' + NATIVE[pt[0]]
        t = pt[0].replace(' const*', '*')
        if len(pt) == 6 and t.endswith('*') and t[:-1] in NATIVE: return path, '%s %s*' % (m, NATIVE[t[:-1]])
        if pt == ['conduit::Node const&'] or pt == ['conduit::Node&']: return path, m + '_node'
        if pt == ['char const*'] and m == 'set': return path, 'set_char8_str'
    if m == 'set_string' and pt == ['char const*']: return path, 'set_char8_str'
    g = re.match(r'as_(\w+?)(_ptr)?$', m)
    if g and g.group(1) in WORD: return path, 'as ' + WORD[g.group(1)] + ('*' if g.group(2) else '')
    if m in ('fetch_ptr', 'operator[]', 'fetch') and pt[:1] == ['STR const&']: return path, 'fetch'
    if m in ('child_ptr', 'operator[]', 'child') and pt[:1] == ['long']: return path, 'child'
    if m in ('child', 'child_ptr') and pt[:1] == ['STR const&']: return path, 'child_by_name'
    if m == 'remove' and pt[:1] == ['long']: return path, 'remove_child_at'
    return path, m
PURE = re.compile(r'(as |is_|has_|number_of|total_|name$|path$|to_|dtype$|child$|child_by_name$|parent$|compatible$|contiguous_with|data_ptr$|element_ptr$|fetch_existing$|as_char8_str$|id$|offset$|stride$|element_|endianness|query_|sizeof)')
def okey(x):
    if isinstance(x, P): return 'P%s+%s' % (x.base, x.off)
    if isinstance(x, tuple): return 'S%s' % z3.simplify(zi(x[1]))
    if isinstance(x, (F, B, I, Bo)): return '%s%d' % (type(x).__name__[0] if not isinstance(x, (B, I)) else 'I', 0) + str(z3.simplify(x.t) if z3.is_expr(x.t) else x.t)
    return repr(x)
def perform(st, op, args, ty, sret=None, ex=None):
    """the abstract effect: operations that change something are recorded in order, and every result is a function of the operation, its operands and what was done before"""
    L = st.ghost.get(SEQ, ())
    e = (op,) + tuple(args)
    if not PURE.match(op) and not (op == 'fetch' and any(len(x) == len(e) and [x[0]] + [okey(y) for y in x[1:]] == [op] + [okey(y) for y in e[1:]] for x in L)): log(st, *e)
    k = op + '(' + ','.join(okey(x) for x in args) + ')'
    if not (op == 'fetch'): k += '@' + ';'.join(x[0] + ','.join(okey(y) for y in x[1:]) for x in L if x[0] != 'fetch')
    if sret is not None: str_set(ex, st, sret, z3.Int('text:' + k)); return None
    if ty is None or ty[0] == 'void': return None
    if ty[0] == 'ptr': return P('res:' + k, 0)
    if ty[0] == 'f': return F(ty[1], z3.BitVec('val:' + k, ty[1]))
    if ty == ('i', 1): return Bo(z3.Bool('is:' + k))
    return I(ty[1], z3.Int('val:' + k))
def star(dn):
    d = dn.replace(STD, 'STR').replace(STD.replace('> >', '>>').replace('allocator<char>>', 'allocator<char> >'), 'STR')
    g = re.match(r'conduit::(Node|DataType|Schema)::(~?\w+|operator\[\])\((.*)\)( const)?$', d)
    if g: cls, m, ps = g.group(1), g.group(2), params(g.group(3))
    else:
        g = re.match(r'conduit::((?:blueprint|relay)::(?:\w+::)*\w+|about)\((.*)\)$', d)
        if not g: return None
        cls, m, ps = 'free', g.group(1), params(g.group(2))
    static = cls == 'free' or (cls, m) == ('DataType', 'sizeof_index_t')
    def c(ex, st, a, ins, fr):
        a = list(a); sret = None
        if ins.a and 'sret' in ins.a[0][2]: sret = a.pop(0)
        this = [] if static else [a.pop(0)]
        if len(a) != len(ps): raise Unsupported('operands of ' + d)
        x = [('str', str_get(ex, st, v)) if t == 'STR const&' else v for t, v in zip(ps, a)]
        path, op = canon(cls, m, ps)
        if path: this = [perform(st, 'fetch', this + [x.pop(0)], ('ptr',))]
        return [('ret', st, perform(st, op, this + x, ins.ty, sret, ex))]
    return c
def c_strdup(ex, st, a, ins, fr):
    i = cstr_id(ex, st, a[0], fr)
    if i is None: raise Unsupported('strdup of unknown text')
    return [('ret', st, P('dup:' + str(z3.simplify(zi(i))), 0))]
CONTRACTS = {'*': star, 'strdup': c_strdup, 'free': lambda ex, st, a, ins, fr: (log(st, 'free', a[0]), [('ret', st, None)])[1]}
# --- the C functions
def eqv(a, b):
    if isinstance(a, P) and isinstance(b, P):
        if a.base != b.base if isinstance(a.base, str) or isinstance(b.base, str) or a.base is None or b.base is None else not a.base.eq(b.base): return False
        return zi(a.off) == zi(b.off)
    if isinstance(a, tuple) and isinstance(b, tuple): return zi(a[1]) == zi(b[1])
    if isinstance(a, F) and isinstance(b, F): return a.w == b.w and a.t == b.t if a.w == b.w else False
    if isinstance(a, (I, B, Bo)) and isinstance(b, (I, B, Bo)): return zi(to_int(a)) == zi(to_int(b))
    return False
class W:
    """what should happen, in terms of the operands"""
    def __init__(s, h): s.h, s.st = h, State()
    def __call__(s, op, *args, ty=None): return perform(s.st, op, list(args), ty)
    def text(s, op, *args):
        perform(s.st, op, list(args), ('i', 64)); L = s.st.ghost.get(SEQ, ())
        return P('dup:' + str(z3.Int('text:' + op + '(' + ','.join(okey(x) for x in args) + ')@' + ';'.join(x[0] + ','.join(okey(y) for y in x[1:]) for x in L if x[0] != 'fetch'))), 0)
PTR, L64 = ('ptr',), ('i', 64)
def mk(h, k, n):
    """an operand of kind k"""
    if k == 'n': return P(h.obj(n), 0)
    if k == '0': return NULL
    if k == 's':
        b = 'cstr:' + n; h.st.ghost[(b, 0, 'cid')] = z3.Int('str:' + n); return P(b, 0)
    if k == 'p': return P(h.buf(n), 0)
    if k == 'i': return h.int(n)[0]
    if k == 'j': return h.int(n, 32)[0]
    if k in WORD:
        tn = WORD[k]; w = width(tn) * 8
        return h.fl(n, w)[0] if tn[0] == 'f' else (h.int(n, w)[0] if w < 64 or tn[0] != 'u' else h.int(n, w)[0])
    raise KeyError(k)
def S(p): return ('str', z3.Int('str:' + p.base[5:])) if isinstance(p, P) and p.base is not None else ('str', lit(''))
def add(name, kinds, want, boolean=False, label=None):
    def s(h):
        a = [mk(h, k, 'abcdefghijk'[i]) for i, k in enumerate(kinds)]; h.v['a'] = a; return a
    def p(h, st, v):
        w = W(h); r = want(w, *h.v['a']); L = st.ghost.get(SEQ, ()); E_ = w.st.ghost.get(SEQ, ())
        if callable(r): return r(h, st, v, L)
        g = [('exactly the operation it stands for is performed', len(L) == len(E_) and all(x[0] == y[0] and len(x) == len(y) for x, y in zip(L, E_)))]
        for k, (x, y) in enumerate(zip(L, E_)):
            for i, (u, t) in enumerate(zip(x[1:], y[1:])): g.append(('operand %d of %s' % (i, y[0]), eqv(u, t)))
        if r is not None:
            if boolean: g.append(('the result', (zi(to_int(v)) != 0) == r.t))
            else: g.append(('the result', eqv(v, r)))
        return g
    FUNCS.append(Fn(name, s, p, label=label or name))
C = 'conduit_node_'
B1 = ('i', 1)
dflt = lambda tn: [I(64, 0), I(64, width(tn)), I(64, width(tn)), I(64, 0)]
CWORD = {k: v for k, v in WORD.items() if 'long_long' not in k}
for w_, tn in sorted(CWORD.items()):
    f_ = ('f', width(tn) * 8) if tn[0] == 'f' else ('i', width(tn) * 8)
    add(C + 'set_' + w_, ['n', w_], lambda w, n, v, tn=tn: w('set ' + tn, n, v))
    add(C + 'set_path_' + w_, ['n', 's', w_], lambda w, n, p, v, tn=tn: w('set ' + tn, w('fetch', n, S(p), ty=PTR), v))
    for ext in ('', 'external_'):
        op = 'set_external ' if ext else 'set '
        add(C + 'set_%s%s_ptr' % (ext, w_), ['n', 'p', 'i'], lambda w, n, p, c, tn=tn, op=op: w(op + tn + '*', n, p, c, *dflt(tn)))
        add(C + 'set_%s%s_ptr_detailed' % (ext, w_), ['n', 'p'] + ['i'] * 5, lambda w, n, p, *x, tn=tn, op=op: w(op + tn + '*', n, p, *x))
        add(C + 'set_path_%s%s_ptr' % (ext, w_), ['n', 's', 'p', 'i'], lambda w, n, q, p, c, tn=tn, op=op: w(op + tn + '*', w('fetch', n, S(q), ty=PTR), p, c, *dflt(tn)))
        add(C + 'set_path_%s%s_ptr_detailed' % (ext, w_), ['n', 's', 'p'] + ['i'] * 5, lambda w, n, q, p, *x, tn=tn, op=op: w(op + tn + '*', w('fetch', n, S(q), ty=PTR), p, *x))
    add(C + 'as_' + w_, ['n'], lambda w, n, tn=tn, f_=f_: w('as ' + tn, n, ty=f_)); add(C + 'as_%s_ptr' % w_, ['n'], lambda w, n, tn=tn: w('as %s*' % tn, n, ty=PTR))
    add(C + 'fetch_path_as_' + w_, ['n', 's'], lambda w, n, p, tn=tn, f_=f_: w('as ' + tn, w('fetch', n, S(p), ty=PTR), ty=f_)); add(C + 'fetch_path_as_%s_ptr' % w_, ['n', 's'], lambda w, n, p, tn=tn: w('as %s*' % tn, w('fetch', n, S(p), ty=PTR), ty=PTR))
for nm, ks, f_ in [('fetch', 'ns', lambda w, n, p: w('fetch', n, S(p), ty=PTR)), ('fetch_existing', 'ns', lambda w, n, p: w('fetch_existing', n, S(p), ty=PTR)), ('append', 'n', lambda w, n: w('append', n, ty=PTR)), ('add_child', 'ns', lambda w, n, p: w('add_child', n, S(p), ty=PTR)),
                   ('child', 'ni', lambda w, n, i: w('child', n, i, ty=PTR)), ('child_by_name', 'ns', lambda w, n, p: w('child_by_name', n, S(p), ty=PTR)), ('number_of_children', 'n', lambda w, n: w('number_of_children', n, ty=L64)), ('reset', 'n', lambda w, n: w('reset', n)),
                   ('move', 'nn', lambda w, n, m: w('move', n, m)), ('swap', 'nn', lambda w, n, m: w('swap', n, m)), ('number_of_elements', 'n', lambda w, n: w('number_of_elements', w('dtype', n, ty=PTR), ty=L64)), ('name', 'n', lambda w, n: w.text('name', n)), ('path', 'n', lambda w, n: w.text('path', n)),
                   ('remove_path', 'ns', lambda w, n, p: w('remove', n, S(p))), ('remove_child', 'ni', lambda w, n, i: w('remove_child_at', n, i)), ('remove_child_by_name', 'ns', lambda w, n, p: w('remove_child', n, S(p))), ('rename_child', 'nss', lambda w, n, p, q: w('rename_child', n, S(p), S(q))),
                   ('parent', 'n', lambda w, n: w('parent', n, ty=PTR)), ('total_strided_bytes', 'n', lambda w, n: w('total_strided_bytes', n, ty=L64)), ('total_bytes_compact', 'n', lambda w, n: w('total_bytes_compact', n, ty=L64)), ('total_bytes_allocated', 'n', lambda w, n: w('total_bytes_allocated', n, ty=L64)),
                   ('info', 'nn', lambda w, n, m: w('info', n, m)), ('print', 'n', lambda w, n: w('print', n)), ('print_detailed', 'n', lambda w, n: w('print_detailed', n)), ('compact_to', 'nn', lambda w, n, m: w('compact_to', n, m)), ('update', 'nn', lambda w, n, m: w('update', n, m)), ('update_compatible', 'nn', lambda w, n, m: w('update_compatible', n, m)), ('update_external', 'nn', lambda w, n, m: w('update_external', n, m)),
                   ('set_node', 'nn', lambda w, n, m: w('set_node', n, m)), ('set_path_node', 'nsn', lambda w, n, p, m: w('set_node', w('fetch', n, S(p), ty=PTR), m)), ('set_external_node', 'nn', lambda w, n, m: w('set_external_node', n, m)), ('set_path_external_node', 'nsn', lambda w, n, p, m: w('set_external_node', w('fetch', n, S(p), ty=PTR), m)),
                   ('set_char8_str', 'ns', lambda w, n, p: w('set_char8_str', n, p)), ('set_path_char8_str', 'nss', lambda w, n, p, q: w('set_char8_str', w('fetch', n, S(p), ty=PTR), q)), ('set_external_char8_str', 'ns', lambda w, n, p: w('set_external_char8_str', n, p)), ('set_path_external_char8_str', 'nss', lambda w, n, p, q: w('set_external_char8_str', w('fetch', n, S(p), ty=PTR), q)),
                   ('as_char8_str', 'n', lambda w, n: w('as_char8_str', n, ty=PTR)), ('fetch_path_as_char8_str', 'ns', lambda w, n, p: w('as_char8_str', w('fetch', n, S(p), ty=PTR), ty=PTR)), ('data_ptr', 'n', lambda w, n: w('data_ptr', n, ty=PTR)), ('element_ptr', 'ni', lambda w, n, i: w('element_ptr', n, i, ty=PTR)),
                   ('fetch_path_data_ptr', 'ns', lambda w, n, p: w('data_ptr', w('fetch', n, S(p), ty=PTR), ty=PTR)), ('fetch_path_element_ptr', 'nsi', lambda w, n, p, i: w('element_ptr', w('fetch', n, S(p), ty=PTR), i, ty=PTR)), ('dtype', 'n', lambda w, n: w('dtype', n, ty=PTR)),
                   ('to_summary_string', 'n', lambda w, n: w.text('to_summary_string', n))]: add(C + nm, ks, f_)
for nm in ('json', 'yaml', 'string', 'summary_string'): add(C + 'to_%s_with_options' % nm, 'nn', lambda w, n, m, nm=nm: w.text('to_' + nm, n, m))
TO = {'json': ('json', 2, 0, ' ', '\n'), 'yaml': ('yaml', 2, 0, ' ', '\n'), 'string': ('yaml', 2, 0, ' ', '\n')}
for nm, d_ in TO.items(): add(C + 'to_' + nm, 'n', lambda w, n, nm=nm, d_=d_: w.text('to_' + nm, n, ('str', lit(d_[0])), I(64, d_[1]), I(64, d_[2]), ('str', lit(d_[3])), ('str', lit(d_[4]))))
for nm, ks, f_ in [('has_child', 'ns', lambda w, n, p: w('has_child', n, S(p), ty=B1)), ('has_path', 'ns', lambda w, n, p: w('has_path', n, S(p), ty=B1)), ('is_root', 'n', lambda w, n: w('is_root', n, ty=B1)), ('is_data_external', 'n', lambda w, n: w('is_data_external', n, ty=B1)), ('is_compact', 'n', lambda w, n: w('is_compact', n, ty=B1)), ('is_contiguous', 'n', lambda w, n: w('is_contiguous', n, ty=B1)),
                   ('compatible', 'nn', lambda w, n, m: w('compatible', n, m, ty=B1)), ('contiguous_with_node', 'nn', lambda w, n, m: w('contiguous_with', n, m, ty=B1)), ('contiguous_with_address', 'np', lambda w, n, m: w('contiguous_with', n, m, ty=B1)),
                   ('diff', ['n', 'n', 'n', 'float64'], lambda w, n, m, i, e: w('diff', n, m, i, e, Bo(z3.BoolVal(False)), ty=B1)), ('diff_compatible', ['n', 'n', 'n', 'float64'], lambda w, n, m, i, e: w('diff_compatible', n, m, i, e, Bo(z3.BoolVal(False)), ty=B1))]: add(C + nm, ks, f_, boolean=True)
for pr in 's0':
    lb = lambda x: C + x + (' without a protocol' if pr == '0' else '')
    add(C + 'parse', 'ns' + pr, lambda w, n, s, p: w('parse', n, S(s), S(p)), label=lb('parse')); add(C + 'generate', 'ns' + pr + 'p', lambda w, n, s, p, d: w('generate', n, S(s), S(p), d), label=lb('generate')); add(C + 'generate_external', 'ns' + pr + 'p', lambda w, n, s, p, d: w('generate_external', n, S(s), S(p), d), label=lb('generate_external'))
    add(C + 'save', 'ns' + pr, lambda w, n, s, p: w('save', n, S(s), S(p)), label=lb('save')); add(C + 'load', 'ns' + pr, lambda w, n, s, p: w('load', n, S(s), S(p)), label=lb('load'))
def r_create(h, st, v, L): return [('a new empty node is handed out', len(L) == 1 and L[0][0] == 'Node' and len(L[0]) == 2 and bool(simpb(zbool(eqv(L[0][1], v)) if isinstance(eqv(L[0][1], v), bool) else eqv(L[0][1], v))))]
add(C + 'create', '', lambda w: r_create)
def r_destroy(h, st, v, L):
    root = z3.Bool('is:is_root(%s)@' % okey(h.v['a'][0])); ok = len(L) == 1 and L[0][0] == '~Node' and len(L[0]) == 2
    return [('only a root is destroyed, and a root always', root == z3.BoolVal(ok)), ('nothing else is destroyed', len(L) == 0 or (ok and eqv(L[0][1], h.v['a'][0])))]
add(C + 'destroy', 'n', lambda w, n: r_destroy)
add('conduit_about', 'n', lambda w, n: w('about', n))
D = 'conduit_datatype_'
for nm in ('id', 'number_of_elements', 'offset', 'stride', 'element_bytes', 'endianness'): add(D + nm, 'n', lambda w, n, nm=nm: w(nm, n, ty=L64))
add(D + 'element_index', 'ni', lambda w, n, i: w('element_index', n, i, ty=L64)); add(D + 'name', 'n', lambda w, n: w.text('name', n)); add(D + 'sizeof_index_t', '', lambda w: w('sizeof_index_t', ty=('i', 32)))
add(D + 'name_destroy', 'p', lambda w, p: w('free', p))
for nm in ['is_' + x for x in ['empty', 'object', 'list', 'number', 'floating_point', 'integer', 'signed_integer', 'unsigned_integer', 'string', 'char8_str', 'little_endian', 'big_endian'] + sorted(w for w in CWORD if not w.startswith('signed_'))] + ['endianness_matches_machine']: add(D + nm, 'n', lambda w, n, nm=nm: w(nm, n, ty=B1), boolean=True)
BPC = 'conduit_blueprint_'
bp = lambda op: 'blueprint::' + op
for nm, ks, f_, b_ in [('about', 'n', lambda w, n: w(bp('about'), n), 0), ('verify', 'snn', lambda w, p, n, i: w(bp('verify'), S(p), n, i, ty=B1), 1),
    ('mcarray_is_interleaved', 'n', lambda w, n: w(bp('mcarray::is_interleaved'), n, ty=B1), 1), ('mcarray_to_contiguous', 'nn', lambda w, n, d: w(bp('mcarray::to_contiguous'), n, d, ty=B1), 1), ('mcarray_to_interleaved', 'nn', lambda w, n, d: w(bp('mcarray::to_interleaved'), n, d, ty=B1), 1), ('mcarray_examples_xyz', 'sin', lambda w, s, i, n: w(bp('mcarray::examples::xyz'), S(s), i, n), 0),
    ('mesh_generate_index', 'nsin', lambda w, m, s, i, o: w(bp('mesh::generate_index'), m, S(s), i, o), 0), ('mesh_partition', 'nnn', lambda w, *a: w(bp('mesh::partition'), *a), 0), ('mesh_flatten', 'nnn', lambda w, *a: w(bp('mesh::flatten'), *a), 0),
    ('mesh_examples_basic', 'siiin', lambda w, s, *a: w(bp('mesh::examples::basic'), S(s), *a), 0), ('mesh_examples_braid', 'siiin', lambda w, s, *a: w(bp('mesh::examples::braid'), S(s), *a), 0), ('mesh_examples_misc', 'siiin', lambda w, s, *a: w(bp('mesh::examples::misc'), S(s), *a), 0),
    ('mesh_examples_julia', ['i', 'i'] + ['float64'] * 6 + ['n'], lambda w, *a: w(bp('mesh::examples::julia'), *a), 0), ('mesh_examples_spiral', 'in', lambda w, *a: w(bp('mesh::examples::spiral'), *a), 0), ('mesh_examples_polytess', 'iin', lambda w, *a: w(bp('mesh::examples::polytess'), *a), 0), ('table_examples_basic', 'iiin', lambda w, *a: w(bp('table::examples::basic'), *a), 0)]: add(BPC + nm, ks, f_, boolean=b_)
for k_ in ('mcarray', 'mesh', 'table'):
    add(BPC + k_ + '_verify', 'nn', lambda w, n, i, k_=k_: w(bp(k_ + '::verify'), n, i, ty=B1), boolean=True); add(BPC + k_ + '_verify_sub_protocol', 'snn', lambda w, p, n, i, k_=k_: w(bp(k_ + '::verify'), S(p), n, i, ty=B1), boolean=True)
R = 'conduit_relay_'
add(R + 'about', 'n', lambda w, n: w('relay::about', n)); add(R + 'io_about', 'n', lambda w, n: w('relay::io::about', n)); add(R + 'io_initialize', '', lambda w: w('relay::io::initialize')); add(R + 'io_finalize', '', lambda w: w('relay::io::finalize'))
add(R + 'io_query_number_of_steps', 's', lambda w, s: w('relay::io::query_number_of_steps', S(s), ty=('i', 32))); add(R + 'io_query_number_of_domains', 's', lambda w, s: w('relay::io::query_number_of_domains', S(s), ty=('i', 32)))
for pa in 's0':
    for pr in 's0':
        for o in 'n0':
            tail = ''.join(x for x, y in ((' without path', pa), (' without protocol', pr), (' without options', o)) if y == '0'); op_ = lambda o: [] if o.base is None else [o]
            for nm in ('save', 'save_merged', 'add_step'): add(R + 'io_' + nm, 'n' + pa + pr + o, lambda w, n, s, p, o, nm=nm: w('relay::io::' + nm, n, S(s), S(p), *op_(o)), label=R + 'io_' + nm + tail)
            add(R + 'io_load', pa + pr + o + 'n', lambda w, s, p, o, n: w('relay::io::load', S(s), S(p), *op_(o), n), label=R + 'io_load' + tail)
            add(R + 'io_load_step_and_domain', pa + pr + 'jj' + o + 'n', lambda w, s, p, i, j, o, n: w('relay::io::load', S(s), S(p), i, j, *op_(o), n), label=R + 'io_load_step_and_domain' + tail)
ASSUMES = ['the C++ operations named are under contract in C01-C16 where claimed; here only their identity, operands and results matter', 'strdup returns a copy of the text', 'a node handle is the address of the C++ node']
DRIVER = 'd_C17.cpp'
BPS = 'libs/blueprint/'
DRIVER_SRCS = ['libs/conduit/c/conduit_node_c.cpp', 'libs/conduit/c/conduit_datatype_c.cpp', 'libs/conduit/c/conduit_c.cpp', 'libs/conduit/c/conduit_cpp_to_c.cpp', 'libs/conduit/c/conduit_utils_c.cpp', BPS + 'conduit_blueprint_mcarray.cpp', BPS + 'conduit_blueprint_mcarray_examples.cpp', BPS + 'c/conduit_blueprint_mcarray_c.cpp']
DRIVER_SCOPE = 'the C functions of the core library and of multi-component arrays against the C++ operations on equal trees, every typed function with random values, layouts and paths, and the C message handlers, under AddressSanitizer'
DRIVER_BOUND = '60 random layouts per typed function, 400 random pairs of trees up to depth 3 (x8 in the thorough tier)'
BOUNDED_ONLY = ['conduit_utils_set_info_handler, conduit_utils_set_warning_handler, conduit_utils_set_error_handler']
