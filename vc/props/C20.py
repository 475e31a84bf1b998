"""C20: what one process sends is what the other receives: every message function hands MPI the packed content of the node with its size, and puts what arrives into the receiving node under the right description."""
from nod import *
from models import cstr_id, slen, LIT_TEXT
from props.C10 import STD, log, SEQ
import re
UNITS = ['libs/relay/conduit_relay_mpi.cpp']
FUNCS = []
R = 'conduit::relay::mpi::'; COMM = 'ompi_communicator_t*'; REQ = 'conduit::relay::mpi::Request*'; STAT = 'ompi_status_public_t*'; CN, NN = 'conduit::Node const&', 'conduit::Node&'
STR = STD
# --- abstract nodes, schemas and memory -------------------------------------------------------------------------------------
# node:   ('arg', name) the caller's node | ('empty',) | ('pack', T) a fresh compact copy of T | ('alloc', S) fresh memory described by S
#         ('tree',) a node whose children are set one by one | ('part', owner key, name) | ('ext', S, pointer) | ('extstr', pointer) | ('text', id) | ('val', v)
# schema: ('of', T) as the node has it | ('compact', S) | ('leaf', type, count) | ('obj', ((name, S)...)) | ('parsed', text id) | ('empty',)
def key(p):
    if not isinstance(p, P) or not isinstance(p.base, str): raise Unsupported('node at %r' % (p,))
    o = z3.simplify(zi(p.off)) if not isinstance(p.off, int) else p.off
    return '%s+%s' % (p.base, o) if str(o) != '0' else p.base
G = lambda st, tag, k: st.ghost.get((tag, 0, k))
def setg(st, tag, k, v): st.ghost[(tag, 0, k)] = v
def norm(S):
    if S[0] == 'of':
        T = S[1]
        if T[0] == 'pack': return norm(('compact', ('of', T[1])))
        if T[0] == 'alloc': return norm(T[1])
        if T[0] == 'ext': return norm(T[1])
    if S[0] == 'compact':
        A = norm(S[1])
        if A[0] in ('compact',): return A
        if A[0] == 'leaf': return A
        if A[0] == 'obj': return ('compact', ('obj', tuple((n, norm(('compact', x))) for n, x in A[1])))
        return ('compact', A)
    return S
def rp(x):
    if isinstance(x, tuple): return '(' + ','.join(rp(y) for y in x) + ')'
    return str(z3.simplify(x)) if z3.is_expr(x) else str(x)
BYTES = {'int64': 8, 'uint8': 1, 'char8_str': 1, 'int32': 4, 'int8': 1}
def size(st, S):
    """bytes of the compact form"""
    S = norm(('compact', S))
    if S[0] == 'leaf': return BYTES[S[1]] * zi(S[2])
    if S[0] == 'empty' or S == ('compact', ('empty',)): return z3.IntVal(0)
    if S[0] == 'compact' and S[1][0] == 'obj': return sum((size(st, x) for n, x in S[1][1]), z3.IntVal(0))
    v = z3.Int('bytes:' + rp(S)); st.assume(v >= 0); st.assume(v < 2 ** 31 - 1); return v
def node(st, p):
    k = key(p); t = G(st, 'nd', k)
    if t is not None: return t
    return None
def need(st, p):
    t = node(st, p)
    if t is None: raise Unsupported('node %s of unknown content' % (p,))
    return t
def setn(st, p, t):
    setg(st, 'nd', key(p), t); n = st.ghost.get(('gen', 0, key(p)), 0) + 1; st.ghost[('gen', 0, key(p))] = n
def mem(st, p): return 'mem:%s#%d' % (key(p), st.ghost.get(('gen', 0, key(p)), 0))
def schema_of(st, p): return norm(('of', need(st, p)))
def sch(st, p):
    k = key(p)
    if k.startswith('schemaof:'):
        q = P(k[9:], 0); return schema_of(st, q)
    s = G(st, 'sc', k)
    if s is None: raise Unsupported('schema of unknown content')
    return s
def sets(st, p, s):
    k = key(p); setg(st, 'sc', k, s)
    m = re.match(r'(.*)/([^/]*)$', k)
    if m and G(st, 'sc', m.group(1)) is not None:
        o = G(st, 'sc', m.group(1)); kids = list(o[1]) if o[0] == 'obj' else []
        if any(n == m.group(2) for n, _ in kids): kids = [(n, s if n == m.group(2) else x) for n, x in kids]
        else: kids.append((m.group(2), s))
        setg(st, 'sc', m.group(1), ('obj', tuple(kids)))
def name_of(ex, st, p):
    i = z3.simplify(zi(str_get(ex, st, p)))
    t = LIT_TEXT.get(i.as_long()) if z3.is_int_value(i) else None
    if t is None: raise Unsupported('computed child name')
    return t.decode() if isinstance(t, bytes) else t
RET = lambda st, v=None: [('ret', st, v)]
MC = {}
def con(*names):
    def d(f):
        for n in names: MC[n.replace('STR', STR)] = f
        return f
    return d
# Schema
@con('conduit::Schema::Schema()')
def _(ex, st, a, ins, fr): sets(st, a[0], ('empty',)); return RET(st)
@con('conduit::Schema::Schema(conduit::Schema const&)', 'conduit::Schema::set(conduit::Schema const&)', 'conduit::Schema::operator=(conduit::Schema const&)')
def _(ex, st, a, ins, fr): sets(st, a[0], sch(st, a[1])); return RET(st, a[0] if ins.ty and ins.ty[0] == 'ptr' else None)
@con('conduit::Schema::~Schema()', 'conduit::Node::~Node()', 'conduit::DataType::~DataType()', 'conduit::Generator::~Generator()')
def _(ex, st, a, ins, fr): return RET(st)
@con('conduit::Schema::compact_to(conduit::Schema&) const')
def _(ex, st, a, ins, fr): sets(st, a[1], norm(('compact', sch(st, a[0])))); return RET(st)
@con('conduit::Schema::total_bytes_compact() const')
def _(ex, st, a, ins, fr): return RET(st, I(64, size(st, sch(st, a[0]))))
@con('conduit::Schema::operator[](STR const&)')
def _(ex, st, a, ins, fr):
    k = key(a[0]) + '/' + name_of(ex, st, a[1])
    if G(st, 'sc', k) is None: sets(st, P(k, 0), ('empty',))
    return RET(st, P(k, 0))
@con('conduit::Schema::set(conduit::DataType const&)')
def _(ex, st, a, ins, fr):
    d = G(st, 'dt', key(a[1]))
    if d is None: raise Unsupported('described type')
    sets(st, a[0], ('leaf',) + d); return RET(st)
@con('conduit::Schema::to_json(long, long, STR const&, STR const&) const')
def _(ex, st, a, ins, fr): str_set(ex, st, a[0], json(sch(st, a[1]))); return RET(st)
def json(S): return z3.Int('json:' + rp(norm(S)))
for t_, n_ in [('int64',) * 2, ('uint8',) * 2, ('char8_str',) * 2, ('c_int', 'int32'), ('c_char', 'int8')]:
    def f_(ex, st, a, ins, fr, n_=n_):
        if all(z3.is_int_value(z3.simplify(zi(to_int(x)))) for x in a[2:]): setg(st, 'dt', key(a[0]), (n_, zi(to_int(a[1]))))
        return RET(st)
    MC['conduit::DataType::%s(long, long, long, long, long)' % t_] = f_
# Node
@con('conduit::Node::Node()')
def _(ex, st, a, ins, fr): setn(st, a[0], ('empty',)); return RET(st)
@con('conduit::Node::reset()')
def _(ex, st, a, ins, fr): log(st, 'reset', a[0]); setn(st, a[0], ('empty',)); return RET(st)
@con('conduit::Node::Node(conduit::Schema const&)', 'conduit::Node::set_schema(conduit::Schema const&)', 'conduit::Node::set(conduit::Schema const&)')
def _(ex, st, a, ins, fr):
    S = sch(st, a[1]); setn(st, a[0], ('alloc', norm(S))); log(st, 'described', a[0], S); return RET(st)
@con('conduit::Node::Node(conduit::DataType const&)', 'conduit::Node::set(conduit::DataType const&)')
def _(ex, st, a, ins, fr):
    d = G(st, 'dt', key(a[1]))
    if d is None: raise Unsupported('described type')
    setn(st, a[0], ('alloc', ('leaf',) + d)); up(st, a[0]); return RET(st)
def up(st, p):
    """a child set below an empty node makes it a tree"""
    m = re.match(r'(.*)/([^/]*)$', key(p))
    if m and G(st, 'nd', m.group(1)) == ('empty',): setg(st, 'nd', m.group(1), ('tree',))
@con('conduit::Node::operator[](STR const&)', 'conduit::Node::fetch(STR const&)', 'conduit::Node::fetch_existing(STR const&)')
def _(ex, st, a, ins, fr):
    n = name_of(ex, st, a[1]); k = key(a[0]) + '/' + n; t = need(st, a[0])
    if G(st, 'nd', k) is None:
        if t[0] == 'alloc': setg(st, 'nd', k, ('part', key(a[0]), n))
        elif t[0] in ('empty', 'tree'): setg(st, 'nd', k, ('empty',)); setg(st, 'nd', key(a[0]), ('tree',))
        else: raise Unsupported('child of %r' % (t,))
    return RET(st, P(k, 0))
def fill(st, p, v):
    t = need(st, p)
    if t[0] == 'part':
        o = t[1]; f = G(st, 'fill', o) or (); setg(st, 'fill', o, tuple(x for x in f if x[0] != t[2]) + ((t[2], v),)); return
    setn(st, p, v); up(st, p)
@con('conduit::Node::set(long)', 'conduit::Node::set_int64(long)', 'conduit::Node::operator=(long)')
def _(ex, st, a, ins, fr): fill(st, a[0], ('val', zi(to_int(a[1])))); return RET(st, a[0] if ins.ty and ins.ty[0] == 'ptr' else None)
@con('conduit::Node::set(STR const&)', 'conduit::Node::set_string(STR const&)', 'conduit::Node::operator=(STR const&)')
def _(ex, st, a, ins, fr): fill(st, a[0], ('text', zi(str_get(ex, st, a[1])))); return RET(st, a[0] if ins.ty and ins.ty[0] == 'ptr' else None)
@con('conduit::Node::update(conduit::Node const&)')
def _(ex, st, a, ins, fr):
    log(st, 'update', a[0], need(st, a[1]), mem(st, a[1])); t = need(st, a[0])
    if t[0] == 'part': fill(st, a[0], ('node', need(st, a[1])))
    return RET(st)
@con('conduit::Node::set_external(long*, long, long, long, long, long)')
def _(ex, st, a, ins, fr): setn(st, a[0], ('ext', ('leaf', 'int64', zi(to_int(a[2]))), a[1])); return RET(st)
@con('conduit::Node::set_external_char8_str(char*)')
def _(ex, st, a, ins, fr): setn(st, a[0], ('extstr', a[1])); return RET(st)
@con('conduit::Node::set_external(conduit::Schema const&, void*)')
def _(ex, st, a, ins, fr): setn(st, a[0], ('ext', sch(st, a[1]), a[2])); return RET(st)
def text_at(st, p):
    """the text stored at an address of received memory"""
    b = 'cstr:%s@%s' % (p.base, z3.simplify(zi(p.off))); st.ghost[(b, 0, 'cid')] = i = z3.Int('text@%s+%s' % (p.base, z3.simplify(zi(p.off)))); st.assume(slen(i) >= 0); return b, i
@con('conduit::Node::as_char8_str()', 'conduit::Node::as_char8_str() const')
def _(ex, st, a, ins, fr):
    t = need(st, a[0])
    if t[0] == 'extstr': return RET(st, P(text_at(st, t[1])[0], 0))
    if t[0] == 'alloc' and t[1][0] == 'leaf' and t[1][1] == 'char8_str': return RET(st, P(text_at(st, P(mem(st, a[0]), 0))[0], 0))
    raise Unsupported('text of %r' % (t,))
@con('conduit::Node::total_bytes_compact() const')
def _(ex, st, a, ins, fr):
    t = need(st, a[0])
    if t[0] == 'extstr': return RET(st, I(64, slen(text_at(st, t[1])[1]) + 1))
    if t[0] == 'text': return RET(st, I(64, slen(t[1]) + 1))
    return RET(st, I(64, size(st, norm(('of', t)))))
@con('conduit::Node::schema() const')
def _(ex, st, a, ins, fr): return RET(st, P('schemaof:' + key(a[0]), 0))
@con('conduit::Node::is_compact() const')
def _(ex, st, a, ins, fr):
    t = need(st, a[0])
    if t[0] == 'arg': return RET(st, Bo(z3.Bool('compact:' + t[1])))
    if t[0] in ('pack', 'alloc') : return RET(st, Bo(z3.BoolVal(True)))
    raise Unsupported('layout of %r' % (t,))
@con('conduit::Node::is_contiguous() const')
def _(ex, st, a, ins, fr):
    t = need(st, a[0])
    if t[0] == 'arg': return RET(st, Bo(z3.Or(z3.Bool('contig:' + t[1]), z3.Bool('odd:' + t[1]))))
    raise Unsupported('layout of %r' % (t,))
@con('conduit::Node::contiguous_data_ptr()', 'conduit::Node::contiguous_data_ptr() const')
def _(ex, st, a, ins, fr):
    t = need(st, a[0])
    if t[0] == 'arg':
        s2 = st.copy(); c = z3.Bool('contig:' + t[1]); st.assume(c); s2.assume(z3.Not(c))
        return [('ret', st, P('cp:' + t[1], 0)), ('ret', s2, NULL)]
    if t[0] in ('pack', 'alloc'): return RET(st, P(mem(st, a[0]), 0))
    raise Unsupported('memory of %r' % (t,))
@con('conduit::Node::data_ptr()', 'conduit::Node::data_ptr() const')
def _(ex, st, a, ins, fr):
    t = need(st, a[0])
    if t[0] == 'arg': return RET(st, P('base:' + t[1], 0))
    if t[0] in ('pack', 'alloc', 'list', 'text'): return RET(st, P(mem(st, a[0]), 0))
    if t[0] == 'empty': return RET(st, NULL)
    raise Unsupported('memory of %r' % (t,))
@con('conduit::Node::element_ptr(long)', 'conduit::Node::element_ptr(long) const')
def _(ex, st, a, ins, fr):
    t = need(st, a[0])
    if t[0] == 'arg': ex.require(st, 'the first element is meant', zi(to_int(a[1])) == 0); return RET(st, P('el0:' + t[1], 0))
    return RET(st, P(mem(st, a[0]), 0))
@con('conduit::Node::compact_to(conduit::Node&) const')
def _(ex, st, a, ins, fr): setn(st, a[1], ('pack', need(st, a[0]))); up(st, a[1]); return RET(st)
@con('conduit::Node::list_of(conduit::Schema const&, long)')
def _(ex, st, a, ins, fr): setn(st, a[0], ('list', norm(sch(st, a[1])), zi(to_int(a[2])))); return RET(st)
@con('conduit::Node::compatible(conduit::Node const&) const')
def _(ex, st, a, ins, fr): return RET(st, Bo(z3.Bool('compatible:%s,%s' % (rp(need(st, a[0])), rp(need(st, a[1]))))))
@con('conduit::Schema::compatible(conduit::Schema const&) const')
def _(ex, st, a, ins, fr): return RET(st, Bo(z3.Bool('compatible:%s,%s' % (rp(sch(st, a[0])), rp(sch(st, a[1]))))))
@con('conduit::Node::dtype() const', 'conduit::Schema::dtype() const', 'conduit::Schema::dtype()')
def _(ex, st, a, ins, fr):
    k = key(a[0]); return RET(st, P('dtof:' + (k if node(st, a[0]) is not None else 'S' + rp(sch(st, a[0]))), 0))
@con('conduit::DataType::number_of_elements() const')
def _(ex, st, a, ins, fr):
    k = key(a[0])
    t = G(st, 'nd', k[5:]) if k.startswith('dtof:') else None
    if t is None: raise Unsupported('count of ' + k)
    if t[0] == 'text': return RET(st, I(64, slen(t[1]) + 1))
    if t[0] == 'arg': v = z3.Int('elements:' + t[1]); st.assume(z3.And(v >= 0, v < 2 ** 31 - 1)); return RET(st, I(64, v))
    raise Unsupported('count of %r' % (t,))
for q_ in ('is_empty', 'is_object', 'is_list'):
    def f_(ex, st, a, ins, fr, q_=q_):
        k = key(a[0]); t = G(st, 'nd', k[5:]) if k.startswith('dtof:') else None
        return RET(st, Bo(z3.Bool('%s:%s' % (q_, rp(t) if t is not None else k))))
    MC['conduit::DataType::%s() const' % q_] = f_
@con('conduit::DataType::name() const')
def _(ex, st, a, ins, fr): str_set(ex, st, a[0], fresh_int('name')); return RET(st)
# Generator
@con('conduit::Generator::Generator(STR const&, STR const&, void*)')
def _(ex, st, a, ins, fr):
    i = zi(str_get(ex, st, a[1])); pr = z3.simplify(zi(str_get(ex, st, a[2])))
    setg(st, 'gen20', key(a[0]), i if z3.is_int_value(pr) and LIT_TEXT.get(pr.as_long()) == b'conduit_json' else z3.Int('otherwise:' + str(pr))); return RET(st)
@con('conduit::Generator::walk(conduit::Schema&) const')
def _(ex, st, a, ins, fr): sets(st, a[1], ('parsed', G(st, 'gen20', key(a[0])))); return RET(st)
# text taken straight from received memory
@con('STR::basic_string(char const*, std::allocator<char> const&)')
def _(ex, st, a, ins, fr):
    if isinstance(a[1], P) and isinstance(a[1].base, str) and a[1].base.startswith('mem:'): str_set(ex, st, a[0], text_at(st, a[1])[1]); return RET(st)
    return None
# MPI itself: every call is recorded; its result is any code
GL = {'BYTE': 'ompi_mpi_byte', 'CHAR': 'ompi_mpi_char', 'INT': 'ompi_mpi_int'}
def code(ex, st, what):
    n = len(st.ghost.get(SEQ, ())); v = z3.Int('code:%s:%d' % (what, n)); setg(st, 'codes', 'all', (G(st, 'codes', 'all') or ()) + (v,)); return I(32, v)
def mpi(name):
    def c(ex, st, a, ins, fr):
        v = code(ex, st, name); log(st, name, *a)
        if name == 'MPI_Get_count':
            n = z3.Int('incoming'); st.assume(z3.And(n >= 0, n < 2 ** 31)); ex.store(st, a[2], I(32, n), ('i', 32), None)
        if name in ('MPI_Probe',):
            ex.store(st, a[3], I(32, z3.Int('from')), ('i', 32), None); ex.store(st, P(a[3].base, a[3].off + 4), I(32, z3.Int('fromtag')), ('i', 32), None)
        if name in ('MPI_Comm_rank', 'MPI_Comm_size'): ex.store(st, a[1], I(32, z3.Int(name[9:])), ('i', 32), None)
        if name == 'MPI_Allreduce' and isinstance(a[1].base, str) and not a[1].base.startswith(('mem:', 'cp:', 'base:', 'el0:')): ex.store(st, a[1], I(32, z3.Int('reduced')), ('i', 32), None)
        if name in ('MPI_Isend', 'MPI_Irecv'): ex.store(st, a[6], P('mpireq:%s' % name, 0), ('ptr',), None)
        return RET(st, v)
    return c
for n_ in ('Send', 'Recv', 'Isend', 'Irecv', 'Probe', 'Get_count', 'Reduce', 'Allreduce', 'Gather', 'Allgather', 'Gatherv', 'Allgatherv', 'Bcast', 'Wait', 'Waitall', 'Comm_rank', 'Comm_size'): MC['MPI_' + n_] = mpi('MPI_' + n_)
@con('MPI_Error_string')
def _(ex, st, a, ins, fr): return RET(st, I(32, 0))
@con('MPI_Wtime')
def _(ex, st, a, ins, fr): return RET(st, F(64, z3.BitVecVal(0, 64)))
CONTRACTS = MC
OPT = {}
# --- helpers of the goals
def calls(st, *names): return [x for x in st.ghost.get(SEQ, ()) if x[0] in names]
def isg(p, *names):
    m = re.match(r'@G:@([\w.]+):', p.base) if isinstance(p, P) and isinstance(p.base, str) else None
    return m is not None and m.group(1) in names
EQ = lambda a, b: zi(to_int(a)) == zi(to_int(b))
def samep(a, b): return isinstance(a, P) and isinstance(b, P) and isinstance(a.base, str) and a.base == b.base and zi(a.off) == zi(b.off)
def gp(x): return x if not isinstance(x, bool) else z3.BoolVal(x)
BYTE = ('ompi_mpi_byte', 'ompi_mpi_char', 'ompi_mpi_signed_char', 'ompi_mpi_unsigned_char', 'ompi_mpi_uint8_t', 'ompi_mpi_int8_t')
def packed(st, p, nm):
    """p is the packed content of the caller's node nm"""
    if not isinstance(p, P) or not isinstance(p.base, str): return z3.BoolVal(False)
    if str(z3.simplify(zi(p.off))) != '0': return z3.BoolVal(False)
    if p.base == 'cp:' + nm: return z3.Bool('compact:' + nm)
    if p.base == 'el0:' + nm: return z3.And(z3.Bool('compact:' + nm), z3.Bool('leaf:' + nm))
    for k, t in [(k[2], v) for k, v in st.ghost.items() if k[0] == 'nd' and isinstance(v, tuple)]:
        if t == ('pack', ('arg', nm)) and p.base == mem(st, P(k, 0)): return z3.BoolVal(True)
    return z3.BoolVal(False)
def owner(st, p):
    if not isinstance(p, P) or not isinstance(p.base, str): return None
    for k, t in [(k[2], v) for k, v in st.ghost.items() if k[0] == 'nd' and isinstance(v, tuple)]:
        if t[0] in ('pack', 'alloc', 'list', 'text') and p.base == mem(st, P(k, 0)): return k, t
    return None
def arg(h, n):
    p = P(h.obj(n), 0); setg(h.st, 'nd', key(p), ('arg', n)); h.v[n] = p; return p
def comm(h): p = P(h.obj('comm'), 0); h.v['comm'] = p; return p
def j32(h, n): v = h.int(n, 32)[0]; h.v[n] = v; return v
NB = lambda st, n: size(st, ('compact', ('of', ('arg', n))))
def into(st, ptr, n, whole):
    """what arrives at ptr ends up in the caller's node n: it is written there directly, or into memory of the node's compact description which the node is then updated from"""
    o = owner(st, ptr)
    ups = [(i, x) for i, x in enumerate(st.ghost.get(SEQ, ())) if x[0] == 'update']
    if isinstance(ptr, P) and isinstance(ptr.base, str) and ptr.base == 'cp:' + n: return z3.And(z3.Bool('compact:' + n), zi(ptr.off) == 0, gp(len(ups) == 0 or all(x[2][0] == 'arg' for _, x in ups)))
    if o is None: return z3.BoolVal(False)
    S = norm(('of', o[1]))
    good = norm(('compact', S)) == norm(('compact', whole)) and S == norm(('compact', S)) or o[1] == ('pack', ('arg', n))
    L = st.ghost.get(SEQ, ()); at = max([i for i, x in enumerate(L) if x[0] in ('MPI_Recv', 'MPI_Bcast', 'MPI_Reduce', 'MPI_Allreduce')] or [-1])
    return z3.And(gp(good), zi(ptr.off) == 0, gp(len(ups) == 1 and ups[0][0] > at and ups[0][1][3] == ptr.base and ups[0][1][1].base == st_arg(st, n)))
def st_arg(st, n): return next(k[2] for k, v in st.ghost.items() if k[0] == 'nd' and v == ('arg', n))
def only(st, k, *names):
    L = [x for x in st.ghost.get(SEQ, ()) if x[0].startswith('MPI_') and x[0] not in ('MPI_Comm_rank', 'MPI_Comm_size')]
    return ('exactly the messages it stands for', len(L) == k and all(x[0] in names for x in L))
CODE = lambda v: ('success is reported', zi(to_int(v)) == 0)
def err(h, st): return [('an error is raised only when MPI reports one', z3.Or([c != 0 for c in G(st, 'codes', 'all') or ()] + [z3.BoolVal(False)]))]
# --- send and receive
def send_s(h): return [arg(h, 'node'), j32(h, 'dest'), j32(h, 'tag'), comm(h)]
def wire(h, st, x, ptr, cnt, ty): return [('the packed content of the node is sent', packed(st, ptr, 'node')), ('all of it and no more', EQ(cnt, I(32, NB(st, 'node')))), ('as bytes', isg(ty, *BYTE))]
def send_p(h, st, v):
    x = calls(st, 'MPI_Send')
    if len(x) != 1: return [only(st, 1, 'MPI_Send')]
    _, p, c, t, d, g, m = x[0]
    return [only(st, 1, 'MPI_Send')] + wire(h, st, x, p, c, t) + [('to the destination asked for', EQ(d, h.v['dest'])), ('with the tag asked for', EQ(g, h.v['tag'])), ('over the communicator given', samep(m, h.v['comm'])), CODE(v)]
FUNCS.append(Fn(R + 'send(%s, int, int, %s)' % (CN, COMM), send_s, send_p, exc=err, opts=OPT))
def recv_p(anysrc):
    def f(h, st, v):
        x = calls(st, 'MPI_Recv')
        if len(x) != 1: return [only(st, 1, 'MPI_Recv')]
        _, p, c, t, d, g, m, s = x[0]
        return [only(st, 1, 'MPI_Recv'), ('what arrives ends up in the node', into(st, p, 'node', ('of', ('arg', 'node')))), ('room for all of it and no more', EQ(c, I(32, NB(st, 'node')))), ('as bytes', isg(t, *BYTE)),
                ('from the source asked for', EQ(d, I(32, -1) if anysrc else h.v['src'])), ('with the tag asked for', EQ(g, I(32, -1) if anysrc else h.v['tag'])), ('over the communicator given', samep(m, h.v['comm'])), CODE(v)]
    return f
FUNCS.append(Fn(R + 'recv(%s, int, int, %s)' % (NN, COMM), lambda h: [arg(h, 'node'), j32(h, 'src'), j32(h, 'tag'), comm(h)], recv_p(0), exc=err, opts=OPT))
FUNCS.append(Fn(R + 'recv(%s, %s)' % (NN, COMM), lambda h: [arg(h, 'node'), comm(h)], recv_p(1), exc=err, opts=OPT))

# --- non-blocking send and receive; request = {MPI_Request, Node m_buffer, Node *m_rcv_ptr}
EXTRA_LAYOUTS.append('libs/relay/conduit_relay_mpi.cpp')
def roff(f):
    from nod import layout
    return layout('conduit::relay::mpi::Request')[f]
def req(h):
    p = P(h.obj('request'), 0); h.v['req'] = p; setg(h.st, 'nd', key(P(p.base, roff('m_buffer'))), ('empty',))
    return p
def tagok(h, st, g): return ('with the tag asked for, within the allowed range', EQ(g, I(32, z3.Int('safe'))))
@con(R + 'safe_tag(int, %s)' % COMM)
def c_safe(ex, st, a, ins, fr):
    h = st.ghost.get(('want', 0, 'tag'))
    if h is not None: ex.require(st, 'the tag asked for is adjusted', zi(to_int(a[0])) == h)
    return RET(st, I(32, z3.Int('safe')))
def isend_s(h):
    a = [arg(h, 'node'), j32(h, 'dest'), j32(h, 'tag'), comm(h), req(h)]; setg(h.st, 'want', 'tag', zi(to_int(h.v['tag']))); return a
def rcvp(h, st): return h.ex.load(st, P(h.v['req'].base, roff('m_rcv_ptr')), ('ptr',), None)
isnull = lambda p: isinstance(p, P) and p.base is None
def kept(h, st, ptr):
    """memory given to a non-blocking call outlives the call"""
    return ('the memory stays valid until the wait', isinstance(ptr, P) and isinstance(ptr.base, str) and (ptr.base.startswith('cp:') or ptr.base.startswith('mem:' + key(P(h.v['req'].base, roff('m_buffer'))) + '#')))
def isend_p(h, st, v):
    x = calls(st, 'MPI_Isend')
    if len(x) != 1: return [only(st, 1, 'MPI_Isend')]
    _, p, c, t, d, g, m, q = x[0]
    return [only(st, 1, 'MPI_Isend')] + wire(h, st, x, p, c, t) + [('to the destination asked for', EQ(d, h.v['dest'])), tagok(h, st, g), ('over the communicator given', samep(m, h.v['comm'])), kept(h, st, p),
            ('the request given is used', samep(q, P(h.v['req'].base, roff('m_request')))), ('nothing is copied out when it completes', isnull(rcvp(h, st))), CODE(v), ('the tag is not negative', zi(to_int(h.v['tag'])) >= 0)]
def errtag(h, st): return [('an error is raised only when MPI reports one or the tag is negative', z3.Or([c != 0 for c in G(st, 'codes', 'all') or ()] + [zi(to_int(h.v['tag'])) < 0]))]
FUNCS.append(Fn(R + 'isend(%s, int, int, %s, %s)' % (CN, COMM, REQ), isend_s, isend_p, exc=errtag, opts=OPT))
def irecv_p(anysrc):
    def f(h, st, v):
        x = calls(st, 'MPI_Irecv')
        if len(x) != 1: return [only(st, 1, 'MPI_Irecv')]
        _, p, c, t, d, g, m, q = x[0]; r = rcvp(h, st)
        buf = key(P(h.v['req'].base, roff('m_buffer'))); direct = isinstance(p.base, str) and p.base == 'cp:node'
        o = owner(st, p); later = o is not None and o[0] == buf and norm(('of', o[1])) == norm(('compact', ('of', ('arg', 'node'))))
        return [only(st, 1, 'MPI_Irecv'), ('what arrives ends up in the node', z3.And(z3.Bool('compact:node'), zi(p.off) == 0, gp(isnull(r))) if direct else z3.And(gp(bool(later)), zi(p.off) == 0, gp(samep(r, h.v['node'])))),
                ('room for all of it and no more', EQ(c, I(32, NB(st, 'node')))), ('as bytes', isg(t, *BYTE)), ('from the source asked for', EQ(d, I(32, -1) if anysrc else h.v['src'])),
                ('with the tag asked for', EQ(g, I(32, -1))) if anysrc else tagok(h, st, g), ('over the communicator given', samep(m, h.v['comm'])), ('the request given is used', samep(q, P(h.v['req'].base, roff('m_request')))), CODE(v)]
    return f
def irecv_s(h):
    a = [arg(h, 'node'), j32(h, 'src'), j32(h, 'tag'), comm(h), req(h)]; setg(h.st, 'want', 'tag', zi(to_int(h.v['tag']))); return a
FUNCS.append(Fn(R + 'irecv(%s, int, int, %s, %s)' % (NN, COMM, REQ), irecv_s, irecv_p(0), exc=errtag, opts=OPT))
FUNCS.append(Fn(R + 'irecv(%s, %s, %s)' % (NN, COMM, REQ), lambda h: [arg(h, 'node'), comm(h), req(h)], irecv_p(1), exc=err, opts=OPT))
# --- wait: after the request completes, what was received aside is put into the node it was meant for
def wait_f(nm, pending):
    def s(h):
        q = req(h); n = arg(h, 'node'); setn(h.st, P(q.base, roff('m_buffer')), ('pack', ('arg', 'node')) if pending else ('empty',)); h.v['mem'] = mem(h.st, P(q.base, roff('m_buffer')))
        h.ex.store(h.st, P(q.base, roff('m_rcv_ptr')), n if pending else NULL, ('ptr',), None)
        st = P(h.obj('status'), 0); h.v['stat'] = st; return [q, st]
    def p(h, st, v):
        x = calls(st, 'MPI_Wait'); L = [y for y in st.ghost.get(SEQ, ()) if y[0] in ('MPI_Wait', 'update', 'reset')]
        if len(x) != 1: return [only(st, 1, 'MPI_Wait')]
        ups = [y for y in L if y[0] == 'update']
        g = [only(st, 1, 'MPI_Wait'), ('the request given is waited for', samep(x[0][1], P(h.v['req'].base, roff('m_request')))), ('the status is delivered', samep(x[0][2], h.v['stat'])), CODE(v)]
        if pending: g.append(('what was received is put into the node once it has arrived', len(ups) == 1 and L.index(ups[0]) > L.index(x[0]) and ups[0][3] == h.v['mem'] and ups[0][1].base == h.v['node'].base and all(L.index(y) > L.index(ups[0]) for y in L if y[0] == 'reset')))
        else: g.append(('no node changes', len(ups) == 0))
        g.append(('the request can be used again', isnull(rcvp(h, st)) and G(st, 'nd', key(P(h.v['req'].base, roff('m_buffer')))) == ('empty',)))
        return g
    FUNCS.append(Fn(R + '%s(%s, %s)' % (nm, REQ, STAT), s, p, exc=err, opts=OPT, label=R + nm + (', copy pending' if pending else ', nothing pending')))
for nm_ in ('wait', 'wait_send', 'wait_recv'):
    for pe_ in (0, 1): wait_f(nm_, pe_)
# --- wait_all: an arbitrary request k of the array
def rsize():
    from nod import layout
    return layout('conduit::relay::mpi::Request')['@size']
K = z3.Int('k'); UPD, RST, DONE = ('w', 0, 'updated'), ('w', 0, 'released'), ('w', 0, 'completed')
def gset(st, k, v): st.ghost[k] = v; st.writes.add(('ghost', k))
def wa_s(h):
    c = j32(h, 'count'); n = h.v['n'] = zi(to_int(c)); h.assume(n >= 0, n < 2**31, K >= 0, K < n); st = h.st
    st.ghost[('sarr', 0, 'reqs')] = (rsize(), {roff('m_request'): 'reqs.q', roff('m_rcv_ptr'): 'reqs.r'})
    for f, r in (('q', 'Q0'), ('r', 'R0')): h.v[r] = z3.Const(r, z3.ArraySort(z3.IntSort(), z3.IntSort())); st.tarr['reqs.' + f] = (8, 'ref', h.v[r])
    for g in (UPD, RST, DONE): st.ghost[g] = z3.IntVal(0)
    h.v['QN'] = z3.Const('QN', z3.ArraySort(z3.IntSort(), z3.IntSort())); h.v['stat'] = P(h.obj('status'), 0)
    return [c, P('reqs', 0), h.v['stat']]
def entry(ex, p, f):
    if not isinstance(p, P) or p.base != 'reqs': raise Unsupported('not part of a request')
    k = div_exact(lsub(p.off, roff(f)), rsize())
    if k is None: raise Unsupported('not the %s of a request' % f)
    return zi(k)
def wa_new(ex, st, a, ins, fr):
    ex.require(st, 'room for every request', zi(to_int(a[0])) >= 8 * ex.h.v['n']); st.tarr['just'] = (8, 'ref', z3.Const('J0', z3.ArraySort(z3.IntSort(), z3.IntSort()))); return RET(st, P('just', 0))
def wa_wait(ex, st, a, ins, fr):
    h = ex.h; j = st.tarr.get(a[1].base if isinstance(a[1], P) else None)
    if j is None: raise Unsupported('requests at %r' % (a[1],))
    ex.require(st, 'every request is waited for once', z3.And(zi(to_int(a[0])) == h.v['n'], zi(st.ghost[DONE]) == 0, zi(a[1].off) == 0, z3.Select(j[2], K) == z3.Select(h.v['Q0'], K))); ex.require(st, 'the statuses are delivered', z3.BoolVal(bool(samep(a[2], h.v['stat']))))
    st.tarr[a[1].base] = (8, 'ref', h.v['QN']); st.writes.add(('tarr', a[1].base)); gset(st, DONE, z3.IntVal(1))
    c = z3.Int('code'); setg(st, 'codes', 'all', (c,)); return RET(st, I(32, c))
def wa_upd(ex, st, a, ins, fr):
    h = ex.h; i = entry(ex, a[1], 'm_buffer'); d = zi(ex.ref_of(a[0]))
    ex.require(st, 'what was received goes into the node it was meant for, once it has arrived', z3.And(zi(st.ghost[DONE]) == 1, z3.Implies(i == K, z3.And(d == z3.Select(h.v['R0'], K), zi(st.ghost[RST]) == 0))))
    gset(st, UPD, z3.If(i == K, zi(st.ghost[UPD]) + 1, zi(st.ghost[UPD]))); return RET(st)
def wa_rst(ex, st, a, ins, fr):
    h = ex.h; i = entry(ex, a[0], 'm_buffer'); ex.require(st, 'the buffer is kept until its content has been taken over', z3.Implies(i == K, z3.And(zi(st.ghost[DONE]) == 1, z3.Or(z3.Select(h.v['R0'], K) == 0, zi(st.ghost[UPD]) == 1)))); gset(st, RST, z3.If(i == K, z3.IntVal(1), zi(st.ghost[RST]))); return RET(st)
def wa_done(h, st): return [('what was received is put into its node, once, and nothing else', zi(st.ghost[UPD]) == z3.If(z3.Select(h.v['R0'], K) == 0, 0, 1)), ('the buffer is released', zi(st.ghost[RST]) == 1), ('the request is the completed one', z3.Select(st.tarr['reqs.q'][2], K) == z3.Select(h.v['QN'], K)), ('no copy is pending', z3.Select(st.tarr['reqs.r'][2], K) == 0)]
def wa_todo(h, st): return z3.And(zi(st.ghost[UPD]) == 0, zi(st.ghost[RST]) == 0, z3.Select(st.tarr['reqs.r'][2], K) == z3.Select(h.v['R0'], K))
def wa_t(ex, loop, hv):
    h = ex.h; n = h.v['n']
    def copied(v): return z3.Implies(K < v.it, z3.Select(v.st.tarr['just'][2], K) == z3.Select(h.v['Q0'], K))
    def result(v): return z3.Implies(zi(v.st.ghost[DONE]) == 1, z3.Select(v.st.tarr['just'][2], K) == z3.Select(h.v['QN'], K))
    def handled(v): return z3.Implies(K < v.it, z3.And([g for _, g in wa_done(h, v.st)]))
    return [('copied', copied), ('result', result), ('handled', handled), ('to do', lambda v: z3.Implies(K >= v.it, wa_todo(h, v.st))), ('before', lambda v: wa_todo(h, v.st)), ('in range', lambda v: v.it <= n), ('completed', lambda v: zi(v.st.ghost[DONE]) == 1), ('not yet', lambda v: zi(v.st.ghost[DONE]) == 0)]
WA = R + 'wait_all(int, %s, %s)' % (REQ, STAT)
FUNCS.append(Fn(WA, wa_s, lambda h, st, v: wa_done(h, st) + [('every request was waited for', zi(st.ghost[DONE]) == 1), ('the result code is the one of MPI', EQ(v, I(32, z3.Int('code'))))], exc=lambda h, st: [('an error is raised only when MPI reports one', z3.Int('code') != 0)], templates=[wa_t],
    contracts={'operator new[](unsigned long)': wa_new, 'MPI_Waitall': wa_wait, 'conduit::Node::update(conduit::Node const&)': wa_upd, 'conduit::Node::reset()': wa_rst, 'operator delete[](void*)': lambda ex, st, a, ins, fr: RET(st)}, opts=OPT))
def fw_s(h): h.v['a'] = [j32(h, 'count'), P(h.obj('requests'), 0), P(h.obj('statuses'), 0)]; return h.v['a']
def fw_c(ex, st, a, ins, fr): log(st, 'wait_all', *a); return RET(st, I(32, z3.Int('code')))
def fw_p(h, st, v):
    L = [y for y in st.ghost.get(SEQ, ()) if y[0] == 'wait_all']
    return [('all of them are waited for', len(L) == 1 and EQ(L[0][1], h.v['a'][0])), ('the requests and statuses given', len(L) == 1 and samep(L[0][2], h.v['a'][1]) and samep(L[0][3], h.v['a'][2])), ('the result code is handed on', EQ(v, I(32, z3.Int('code'))))]
for nm_ in ('wait_all_send', 'wait_all_recv'): FUNCS.append(Fn(R + nm_ + '(int, %s, %s)' % (REQ, STAT), fw_s, fw_p, contracts={WA: fw_c}, opts=OPT))
# --- broadcast
def rank_c(ex, st, a, ins, fr): return RET(st, I(32, z3.Int('rank')))
MC[R + 'rank(%s)' % COMM] = rank_c
MC[R + 'size(%s)' % COMM] = lambda ex, st, a, ins, fr: (st.assume(z3.Int('ranks') >= 1), RET(st, I(32, z3.Int('ranks'))))[1]
def rr(h): return z3.Int('rank') == zi(to_int(h.v['root']))
def bcast_p(h, st, v):
    x = calls(st, 'MPI_Bcast')
    if len(x) != 1: return [only(st, 1, 'MPI_Bcast')]
    _, p, c, t, r, m = x[0]
    return [only(st, 1, 'MPI_Bcast'), ('the root sends the packed content of its node', z3.Implies(rr(h), packed(st, p, 'node'))), ('the others put what arrives into theirs', z3.Implies(z3.Not(rr(h)), into(st, p, 'node', ('of', ('arg', 'node'))))),
            ("the root's node is left alone", z3.Implies(rr(h), gp(not calls(st, 'update')))), ('all of it and no more', EQ(c, I(32, NB(st, 'node')))), ('as bytes', isg(t, *BYTE)), ('from the root asked for', EQ(r, h.v['root'])), ('over the communicator given', samep(m, h.v['comm'])), CODE(v)]
FUNCS.append(Fn(R + 'broadcast(%s, int, %s)' % (NN, COMM), lambda h: [arg(h, 'node'), j32(h, 'root'), comm(h)], bcast_p, exc=err, opts=OPT))
# --- reductions
def gptr(fr, n): return P('@G:@%s:%d' % (n, id(fr.mod) % 1000003), 0)
def c_dt2mpi(ex, st, a, ins, fr):
    k = key(a[0]); s2 = st.copy(); u = z3.Bool('reducible:' + k); st.assume(u); s2.assume(z3.Not(u))
    return [('ret', st, P('mpitype:' + k, 0)), ('ret', s2, gptr(fr, 'ompi_mpi_datatype_null'))]
def red_s(root, helper):
    def f(h):
        a = [arg(h, 'snd'), arg(h, 'rcv')]; h.st.assume(z3.Bool('leaf:snd'))
        if not helper: op = P(h.obj('op'), 0); h.v['op'] = op; a.append(op)
        if root: a.append(j32(h, 'root'))
        return a + [comm(h)]
    return f
def red_p(root, fn, op=None):
    def f(h, st, v):
        x = calls(st, fn)
        if len(x) != 1: return [only(st, 1, fn)]
        if root: _, sp, rp_, c, t, o, r, m = x[0]
        else: _, sp, rp_, c, t, o, m = x[0]
        ups = [y for y in calls(st, 'update')]
        me = rr(h) if root else z3.BoolVal(True)
        direct = isinstance(rp_, P) and isinstance(rp_.base, str) and rp_.base == 'cp:rcv'
        good = z3.And(into(st, rp_, 'rcv', ('of', ('arg', 'snd'))), z3.Bool('compatible:(arg,rcv),(arg,snd)') if direct else z3.BoolVal(True))
        g = [only(st, 1, fn), ('the packed elements are contributed', packed(st, sp, 'snd')), ('all elements', EQ(c, I(32, z3.Int('elements:snd')))), ("with the element type of the node", isinstance(t, P) and isinstance(t.base, str) and t.base == 'mpitype:dtof:' + h.v['snd'].base),
             ('with the operation asked for', isg(o, op) if op else samep(o, h.v['op'])), ('over the communicator given', samep(m, h.v['comm'])), ('the result ends up in the receiving node', z3.Implies(me, good)), CODE(v), ('the type can be reduced', z3.Bool('reducible:dtof:' + h.v['snd'].base))]
        if root: g += [('at the root asked for', EQ(r, h.v['root'])), ('the other nodes are left alone', z3.Implies(z3.Not(me), gp(not ups)))]
        return g
    return f
def rederr(h, st): return [('an error is raised only when MPI reports one or the type cannot be reduced', z3.Or([c != 0 for c in G(st, 'codes', 'all') or ()] + [z3.Not(z3.Bool('reducible:dtof:' + h.v['snd'].base))]))]
RC = {R + 'conduit_dtype_to_mpi_dtype(conduit::DataType const&)': c_dt2mpi}
FUNCS.append(Fn(R + 'reduce(%s, %s, ompi_op_t*, int, %s)' % (CN, NN, COMM), red_s(1, 0), red_p(1, 'MPI_Reduce'), exc=rederr, contracts=RC, opts=OPT))
FUNCS.append(Fn(R + 'all_reduce(%s, %s, ompi_op_t*, %s)' % (CN, NN, COMM), red_s(0, 0), red_p(0, 'MPI_Allreduce'), exc=rederr, contracts=RC, opts=OPT))
for o_ in ('sum', 'min', 'max', 'prod'):
    FUNCS.append(Fn(R + '%s_reduce(%s, %s, int, %s)' % (o_, CN, NN, COMM), red_s(1, 1), red_p(1, 'MPI_Reduce', 'ompi_mpi_op_' + o_), exc=rederr, contracts=RC, opts=OPT))
    FUNCS.append(Fn(R + '%s_all_reduce(%s, %s, %s)' % (o_, CN, NN, COMM), red_s(0, 1), red_p(0, 'MPI_Allreduce', 'ompi_mpi_op_' + o_), exc=rederr, contracts=RC, opts=OPT))
# --- gathers of equally described nodes
def gat_p(root, fn):
    def f(h, st, v):
        x = calls(st, fn)
        if len(x) != 1: return [only(st, 1, fn)]
        if root: _, sp, sc, sty, rp_, rc, rt, r, m = x[0]
        else: _, sp, sc, sty, rp_, rc, rt, m = x[0]
        me = rr(h) if root else z3.BoolVal(True); t = G(st, 'nd', key(h.v['rcv']))
        room = isinstance(t, tuple) and t[0] == 'list' and norm(t[1]) == norm(('compact', ('of', ('arg', 'snd')))) and isinstance(rp_, P) and rp_.base == mem(st, h.v['rcv'])
        g = [only(st, 1, fn), ('the packed content of the node is sent', packed(st, sp, 'snd')), ('all of it and no more', EQ(sc, I(32, NB(st, 'snd')))), ('as bytes', isg(sty, *BYTE)), ('the same amount from every process', z3.Implies(me, EQ(rc, sc))), ('received as bytes', z3.Implies(me, gp(isg(rt, *BYTE)))),
             ('the receiving node becomes a list with one such entry per process, and what arrives is its memory', z3.Implies(me, z3.And(gp(bool(room)), t[2] == z3.Int('ranks')) if room else z3.BoolVal(False))), ('over the communicator given', samep(m, h.v['comm'])), CODE(v)]
        if root: g += [('at the root asked for', EQ(r, h.v['root'])), ('the other nodes are left alone', z3.Implies(z3.Not(me), gp(t == ('arg', 'rcv'))))]
        return g
    return f
FUNCS.append(Fn(R + 'gather(%s, %s, int, %s)' % (NN, NN, COMM), lambda h: [arg(h, 'snd'), arg(h, 'rcv'), j32(h, 'root'), comm(h)], gat_p(1, 'MPI_Gather'), exc=err, opts=OPT))
FUNCS.append(Fn(R + 'all_gather(%s, %s, %s)' % (NN, NN, COMM), lambda h: [arg(h, 'snd'), arg(h, 'rcv'), comm(h)], gat_p(0, 'MPI_Allgather'), exc=err, opts=OPT))
# --- messages that carry their description: 8 bytes, the description as json text with a final zero, the packed content
WIRE = ('schema_len', 'schema', 'data')
def message(st, p, nm):
    """p is the memory of a message for the caller's node nm"""
    o = owner(st, p)
    if o is None or o[1][0] != 'alloc': return z3.BoolVal(False)
    S, C = o[1][1], norm(('compact', ('of', ('arg', nm)))); tid = json(C)
    if S[0] != 'compact' or S[1][0] != 'obj' or tuple(n for n, _ in S[1][1]) != WIRE: return z3.BoolVal(False)
    m = dict(S[1][1]); f = dict(G(st, 'fill', o[0]) or ())
    if m['schema_len'][0] != 'leaf' or m['schema_len'][1] != 'int64' or m['schema'][0] != 'leaf' or m['schema'][1] != 'char8_str' or norm(m['data']) != C: return z3.BoolVal(False)
    if f.get('data') != ('node', ('arg', nm)) or 'schema' not in f or f['schema'][0] != 'text': return z3.BoolVal(False)
    return z3.And(zi(p.off) == 0, zi(m['schema_len'][2]) == 1, zi(m['schema'][2]) == slen(tid) + 1, f['schema'][1] == tid)
def msgsize(st, nm): C = norm(('compact', ('of', ('arg', nm)))); return 8 + slen(json(C)) + 1 + size(st, C)
def sus_s(h):
    a = send_s(h); C = norm(('compact', ('of', ('arg', 'node')))); h.st.assume(z3.And(slen(json(C)) >= 0, slen(json(C)) < 2 ** 29, size(h.st, C) < 2 ** 30)); return a
def sus_p(h, st, v):
    x = calls(st, 'MPI_Send')
    if len(x) != 1: return [only(st, 1, 'MPI_Send')]
    _, p, c, t, d, g, m = x[0]
    return [only(st, 1, 'MPI_Send'), ('the message holds the compact description and the packed content', message(st, p, 'node')), ('all of it and no more', EQ(c, I(32, msgsize(st, 'node')))), ('as bytes', isg(t, *BYTE)),
            ('to the destination asked for', EQ(d, h.v['dest'])), ('with the tag asked for', EQ(g, h.v['tag'])), ('over the communicator given', samep(m, h.v['comm'])), CODE(v)]
FUNCS.append(Fn(R + 'send_using_schema(%s, int, int, %s)' % (CN, COMM), sus_s, sus_p, exc=err, opts=OPT))
def unpack(st, base, nm):
    """the caller's node is updated from the content of the message at base, under the description the message carries"""
    ups = calls(st, 'update')
    if len(ups) != 1 or ups[0][2][0] != 'ext': return z3.BoolVal(False)
    _, dst, (_, S, p), _m = ups[0]
    if S[0] != 'parsed' or not isinstance(p, P) or p.base != base or dst.base != st_arg(st, nm): return z3.BoolVal(False)
    tid = z3.Int('text@%s+8' % base)
    return z3.And(zi(S[1]) == tid, zi(p.off) == 8 + slen(tid) + 1)
def rus_p(anysrc):
    def f(h, st, v):
        L = [x for x in st.ghost.get(SEQ, ()) if x[0] in ('MPI_Probe', 'MPI_Get_count', 'MPI_Recv')]
        if [x[0] for x in L] != ['MPI_Probe', 'MPI_Get_count', 'MPI_Recv']: return [('the message is measured, then received', False)]
        pr, gc, (_, p, c, t, s, g, m, _s) = L; o = owner(st, p)
        return [only(st, 3, 'MPI_Probe', 'MPI_Get_count', 'MPI_Recv'), ('a message of the source asked for is looked for', EQ(pr[1], I(32, -1) if anysrc else h.v['src'])), ('with the tag asked for', EQ(pr[2], I(32, -1) if anysrc else h.v['tag'])), ('over the communicator given', samep(pr[3], h.v['comm']) is not False and samep(m, h.v['comm'])),
                ('the size is asked for in bytes', isg(gc[2], *BYTE) and samep(gc[1], pr[4])), ('the memory holds all of the message', gp(o is not None and o[1][0] == 'alloc') if o is None or o[1][0] != 'alloc' else z3.And(size(st, o[1][1]) >= z3.Int('incoming'), zi(p.off) == 0)), ('all of it is received', EQ(c, I(32, z3.Int('incoming')))), ('as bytes', isg(t, *BYTE)),
                ('the message that was measured is the one received', z3.And(z3.Or(EQ(s, I(32, z3.Int('from'))), EQ(s, pr[1]) if not anysrc else z3.BoolVal(False)), z3.Or(EQ(g, I(32, z3.Int('fromtag'))), EQ(g, pr[2]) if not anysrc else z3.BoolVal(False)))),
                ('the node is updated from the content under the description received', unpack(st, p.base, 'node')), ('the outcome of the receive is reported', zi(to_int(v)) == next(c_ for c_ in G(st, 'codes', 'all') if 'MPI_Recv' in str(c_)))]
    return f
def rus_s(a): 
    def f(h):
        x = [arg(h, 'node')] + ([] if a else [j32(h, 'src'), j32(h, 'tag')]) + [comm(h)]
        return x
    return f
FUNCS.append(Fn(R + 'recv_using_schema(%s, int, int, %s)' % (NN, COMM), rus_s(0), rus_p(0), exc=err, opts=OPT))
FUNCS.append(Fn(R + 'recv_using_schema(%s, %s)' % (NN, COMM), rus_s(1), rus_p(1), exc=err, opts=OPT))
MC['conduit::utils::handle_info(%s const&, %s const&, int)' % (STR, STR)] = lambda ex, st, a, ins, fr: RET(st)
# --- broadcast with description: length of the text (agreed by a maximum every other process contributes 0 to), the text, the content
def bus_red(ex, st, a, ins, fr):
    v = zi(to_int(ex.load(st, a[0], ('i', 32), None))); rank, root = z3.Int('rank'), z3.Int('root'); c = code(ex, st, 'MPI_Allreduce'); log(st, 'MPI_Allreduce', *a)
    ex.require(st, 'only the root contributes to the agreed length', z3.Implies(rank != root, v == 0))
    ex.require(st, 'the agreed length is the largest one', z3.And(gp(isg(a[4], 'ompi_mpi_op_max')), gp(isg(a[3], 'ompi_mpi_int', 'ompi_mpi_int32_t')), zi(to_int(a[2])) == 1))
    r = z3.Int('reduced'); st.assume(z3.And(r >= v, r >= 0, r < 2 ** 31, z3.Implies(rank == root, z3.Or(r == v, r == 0)))); ex.store(st, a[1], I(32, r), ('i', 32), None)
    return RET(st, c)
def bus_s(h):
    a = [arg(h, 'node'), j32(h, 'root'), comm(h)]; C = norm(('compact', ('of', ('arg', 'node')))); h.st.assume(z3.And(slen(json(C)) >= 0, slen(json(C)) < 2 ** 29)); return a
def bus_p(h, st, v):
    L = [x for x in st.ghost.get(SEQ, ()) if x[0] in ('MPI_Allreduce', 'MPI_Bcast', 'update')]; B_ = [x for x in L if x[0] == 'MPI_Bcast']; ups = [x for x in L if x[0] == 'update']
    if [x[0] for x in L if x[0] != 'update'] != ['MPI_Allreduce', 'MPI_Bcast', 'MPI_Bcast']: return [('length, text and content are broadcast, in this order', False)]
    (_, p1, c1, t1, r1, m1), (_, p2, c2, t2, r2, m2) = B_; me = rr(h); tid = json(norm(('compact', ('of', ('arg', 'node')))))
    o1 = owner(st, p1); g = [('from the root asked for', z3.And(EQ(r1, h.v['root']), EQ(r2, h.v['root']))), ('over the communicator given', z3.And(samep(m1, h.v['comm']), samep(m2, h.v['comm']), samep(L[0][6], h.v['comm']))), ('as bytes', isg(t1, *BYTE) and isg(t2, *BYTE)), CODE(v)]
    g.append(('the root sends the compact description as text', z3.Implies(me, z3.And(o1[1][1] == tid, EQ(c1, I(32, slen(tid) + 1))) if o1 and o1[1][0] == 'text' else z3.BoolVal(False))))
    g.append(('the others receive the text into memory of the agreed length', z3.Implies(z3.Not(me), z3.And(zi(o1[1][1][2]) >= z3.Int('reduced'), EQ(c1, I(32, z3.Int('reduced')))) if o1 and o1[1][0] == 'alloc' and o1[1][1][0] == 'leaf' and o1[1][1][1] in ('char8_str', 'int8', 'uint8') else z3.BoolVal(False))))
    g.append(('the root sends the packed content of its node', z3.Implies(me, packed(st, p2, 'node')))); g.append(('all of it and no more', z3.Implies(me, EQ(c2, I(32, NB(st, 'node'))))))
    g.append(("the root's node is left alone", z3.Implies(me, gp(not ups and G(st, 'nd', key(h.v['node'])) == ('arg', 'node')))))
    S = ('parsed', z3.Int('text@%s+0' % p1.base)); o2 = owner(st, p2); nd = key(h.v['node'])
    same = lambda T: T[0] == 'alloc' and norm(T[1]) == norm(S) or T[0] == 'alloc' and rp(norm(T[1])) == rp(norm(S))
    if isinstance(p2.base, str) and p2.base == 'cp:node':
        lf = lambda w: z3.Not(z3.Or([z3.Bool('%s:%s' % (q, w)) for q in ('is_empty', 'is_object', 'is_list')]))
        okk = z3.And(z3.Bool('compact:node'), z3.Bool('compatible:%s,%s' % (rp(('of', ('arg', 'node'))), rp(S))), lf('(arg,node)'), lf('dtof:S' + rp(S)), zi(p2.off) == 0, gp(not ups))
    elif o2 and same(o2[1]) and o2[0] == nd: okk = gp(not ups and str(z3.simplify(zi(p2.off))) == '0')
    elif o2 and same(o2[1]): okk = gp(len(ups) == 1 and L[-1][0] == 'update' and ups[0][3] == p2.base and key(ups[0][1]) == nd and str(z3.simplify(zi(p2.off))) == '0')
    else: okk = z3.BoolVal(False)
    g.append(('the others put what arrives into their node under the description received', z3.Implies(z3.Not(me), okk)))
    g.append(('the others expect exactly what the description describes', z3.Implies(z3.Not(me), EQ(c2, I(32, size(st, S))))))
    return g
FUNCS.append(Fn(R + 'broadcast_using_schema(%s, int, %s)' % (NN, COMM), bus_s, bus_p, exc=err, contracts={'MPI_Allreduce': bus_red}, opts=OPT))
# --- small pieces
def plain(nm, sig, s, p, exc=None, contracts=None): FUNCS.append(Fn(R + nm + sig, s, p, exc=exc, contracts=contracts, opts=OPT))
plain('rank', '(%s)' % COMM, lambda h: [comm(h)], lambda h, st, v: [('the rank within the communicator given', len(calls(st, 'MPI_Comm_rank')) == 1 and samep(calls(st, 'MPI_Comm_rank')[0][1], h.v['comm'])), ('is returned', zi(to_int(v)) == z3.Int('rank'))], exc=err, contracts={R + 'rank(%s)' % COMM: None} if 0 else None)
plain('size', '(%s)' % COMM, lambda h: [comm(h)], lambda h, st, v: [('the size of the communicator given', len(calls(st, 'MPI_Comm_size')) == 1 and samep(calls(st, 'MPI_Comm_size')[0][1], h.v['comm'])), ('is returned', zi(to_int(v)) == z3.Int('size'))], exc=err)
plain('invalid_tag', '(int)', lambda h: [j32(h, 'tag')], lambda h, st, v: [('negative tags are invalid', (zi(to_int(v)) != 0) == (zi(to_int(h.v['tag'])) < 0))])
def c_ub(ex, st, a, ins, fr): u = z3.Int('upper'); st.assume(z3.And(u >= 0, u < 2 ** 31)); return RET(st, I(32, u))
def safe_p(h, st, v):
    t, u, r = zi(to_int(h.v['tag'])), None, zi(to_int(v)); return [('a tag within the range is kept, others are clamped', z3.And(r >= 0, z3.Implies(z3.And(t >= 0, t <= z3.Int('ub')), r == t), z3.Implies(t < 0, r == 0), r <= z3.Int('ub')))]
# --- element types
PAIRS = {3: ('ompi_mpi_int8_t', 'ompi_mpi_signed_char', 'ompi_mpi_char', 'ompi_mpi_byte'), 4: ('ompi_mpi_int16_t', 'ompi_mpi_short'), 5: ('ompi_mpi_int32_t', 'ompi_mpi_int'), 6: ('ompi_mpi_int64_t', 'ompi_mpi_long', 'ompi_mpi_long_long_int'), 7: ('ompi_mpi_uint8_t', 'ompi_mpi_unsigned_char'), 8: ('ompi_mpi_uint16_t', 'ompi_mpi_unsigned_short'), 9: ('ompi_mpi_uint32_t', 'ompi_mpi_unsigned'), 10: ('ompi_mpi_uint64_t', 'ompi_mpi_unsigned_long', 'ompi_mpi_unsigned_long_long'), 11: ('ompi_mpi_float',), 12: ('ompi_mpi_double',), 13: ('ompi_mpi_char',)}
def dt_s(h): p, f = h.dtype(hint='dt'); h.v['id'] = f['id']; return [p]
def dt_p(h, st, v):
    m = re.match(r'@G:@([\w.]+):', v.base) if isinstance(v, P) and isinstance(v.base, str) else None; i = h.v['id']
    if m is None: return [('an MPI type', False)]
    if m.group(1) == 'ompi_mpi_datatype_null': return [('only types without elements have no MPI type', z3.Or(i < 3, i > 13))]
    return [('the MPI type of the same kind and width', z3.Or([i == k for k, n in PAIRS.items() if m.group(1) in n] + [z3.BoolVal(False)]))]
plain('conduit_dtype_to_mpi_dtype', '(conduit::DataType const&)', dt_s, dt_p, contracts={'conduit::DataType::id() const': lambda ex, st, a, ins, fr: RET(st, ex.load(st, P(a[0].base, 0), ('i', 64), None))})
for k_, ns_ in PAIRS.items():
    for n_ in ns_:
        if n_ == 'ompi_mpi_char' and k_ != 13: continue
        if n_ in ('ompi_mpi_byte', 'ompi_mpi_signed_char'): continue
        FUNCS.append(Fn(R + 'mpi_dtype_to_conduit_dtype_id(ompi_datatype_t*)', lambda h, n_=n_: [gptr(type('f', (), {'mod': h.ex.prog.f[next(k for k in h.ex.prog.f if 'mpi_dtype_to_conduit_dtype_id' in k)].mod}), n_)], lambda h, st, v, k_=k_: [('the type of the same kind and width', zi(to_int(v)) == k_)], opts=OPT, label=R + 'mpi_dtype_to_conduit_dtype_id, ' + n_))
def safe_s(h):
    # the bound is looked up once and kept: in any call it is either not set yet or already the bound
    mod = h.ex.prog.f[next(k for k in h.ex.prog.f if 'mpi_dtype_to_conduit_dtype_id' in k)].mod; h.v['keep'] = []
    for n, i in re.findall(r'^(@_ZZ\w*safe_tag\w*) = internal global i32 (-?\d+)', open(build.ir(UNITS[0])).read(), re.M):
        b = '@G:%s:%d' % (n, id(mod) % 1000003); g = z3.Int('kept'); h.st.objs[b] = {0: (4, I(32, g))}; h.st.assume(z3.Or(g == int(i), g == z3.Int('ub'))); h.v['keep'].append((b, int(i)))
    h.st.assume(z3.And(z3.Int('ub') >= 0, z3.Int('ub') < 2 ** 31)); return [j32(h, 'tag'), comm(h)]
def safe_post(h, st, v): return safe_p(h, st, v) + [('what is kept is the bound', z3.Or(zi(to_int(h.ex.load(st, P(b, 0), ('i', 32), None))) == i, zi(to_int(h.ex.load(st, P(b, 0), ('i', 32), None))) == z3.Int('ub'))) for b, i in h.v['keep']]
plain('safe_tag', '(int, %s)' % COMM, safe_s, safe_post, contracts={R + 'TagLimits::upper_bound(%s)' % COMM: lambda ex, st, a, ins, fr: (st.assume(z3.And(z3.Int('ub') >= 0, z3.Int('ub') < 2 ** 31)), RET(st, I(32, z3.Int('ub'))))[1]})
# --- the largest tag: found by bisection, tags up to UB work
def c_isend_tag(ex, st, a, ins, fr):
    g = zi(to_int(a[4])); v = z3.Int('code:probe:%d' % len(st.ghost.get(SEQ, ()))); log(st, 'MPI_Isend', *a); st.assume((v == 0) == z3.And(g >= 0, g <= z3.Int('UB'))); return RET(st, I(32, v))
def c_irecv_tag(ex, st, a, ins, fr):
    L = [x for x in st.ghost.get(SEQ, ()) if x[0] == 'MPI_Isend']; ex.require(st, 'what was sent is received', z3.And(EQ(a[4], L[-1][5]), EQ(a[3], L[-1][4])) if L else z3.BoolVal(False)); log(st, 'MPI_Irecv', *a); return RET(st, I(32, 0))
PT = R + 'TagLimits::probeTagUpperBound(int, int, %s)' % COMM
def ptpre(lo, hi): return z3.And(lo >= 0, lo < hi, hi <= 2 ** 31 - 1, lo <= z3.Int('UB'), z3.Or(hi > z3.Int('UB'), hi == 2 ** 31 - 1))
def ptpost(lo, hi, r): return z3.Or(r == z3.Int('UB'), z3.And(r == 2 ** 31 - 2, z3.Int('UB') == 2 ** 31 - 1))
def c_pt(ex, st, a, ins, fr):
    lo, hi = zi(to_int(a[0])), zi(to_int(a[1])); ex.require(st, 'the largest tag lies in the range searched', ptpre(lo, hi)); r = fresh_int('tag'); st.assume(ptpost(lo, hi, r)); return RET(st, I(32, r))
def pt_s(h): a = [j32(h, 'low'), j32(h, 'high'), comm(h)]; h.st.assume(z3.And(z3.Int('UB') >= 1, z3.Int('UB') < 2 ** 31, ptpre(zi(to_int(a[0])), zi(to_int(a[1]))))); return a
def pt_dec(ex, st, a, ins, fr):
    lo, hi = zi(to_int(a[0])), zi(to_int(a[1])); ex.require(st, 'the range searched shrinks', hi - lo < z3.Int('high') - z3.Int('low')); return c_pt(ex, st, a, ins, fr)
FUNCS.append(Fn(PT, pt_s, lambda h, st, v: [('the largest tag that works is found', ptpost(0, 0, zi(to_int(v))))], contracts={PT: pt_dec, 'MPI_Isend': c_isend_tag, 'MPI_Irecv': c_irecv_tag}, opts={'recursive': 1, 'overflow': 1}))
HM = R + 'HandleMPICommError::'
EHC = {HM + 'HandleMPICommError(%s)' % COMM: lambda ex, st, a, ins, fr: RET(st), HM + '~HandleMPICommError()': lambda ex, st, a, ins, fr: RET(st), PT: c_pt}
for n_ in ('upper_bound', 'probe'):
    FUNCS.append(Fn(R + 'TagLimits::%s(%s)' % (n_, COMM), lambda h: (h.st.assume(z3.And(z3.Int('UB') >= 1, z3.Int('UB') < 2 ** 31)), [comm(h)])[1], lambda h, st, v: [('the largest tag that works is found', ptpost(0, 0, zi(to_int(v))))], contracts=EHC, opts=OPT))

DRIVER, DRIVER_MPI = 'd_C20.cpp', True
DRIVER_SRCS = ['libs/relay/conduit_relay_mpi.cpp']
DRIVER_SCOPE = 'every message operation between 1 to 4 processes, run as threads over a stand-in for the MPI library that insists that the processes agree on operation, root, type and amount; random trees sent and received in every layout (separate, compact, part of a larger compact tree, spread with gaps; fresh, equal or different receiving trees); under AddressSanitizer'
DRIVER_BOUND = 'about 5000 exchanges of trees of depth up to 2 (x8 in the thorough tier)'
ASSUMES = ['MPI delivers the bytes it is given to the matching receive and reduces element by element; all processes run this code and call matching operations', 'Node, Schema and Generator operations by their contracts: packing (C08), updating (C10), reset and set (C15), text of a schema and back (C18, C19)', 'Node::list_of lays its entries out one after another', 'messages are shorter than 2^31 bytes']
BOUNDED_ONLY = ['gather_using_schema, all_gather_using_schema', 'communicate_using_schema', 'Node::list_of']
