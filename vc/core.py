"""Contracts: how a property's functions are verified, and shared vocabulary for specifications."""
import z3, time, traceback, os
import sym, ctl, models, solve, llir, build
from sym import *
from models import lit, str_get, str_set

IDS = dict(EMPTY=0, OBJECT=1, LIST=2, INT8=3, INT16=4, INT32=5, INT64=6, UINT8=7, UINT16=8, UINT32=9, UINT64=10, FLOAT32=11, FLOAT64=12, CHAR8_STR=13)
NAMES = {0: 'empty', 1: 'object', 2: 'list', 3: 'int8', 4: 'int16', 5: 'int32', 6: 'int64', 7: 'uint8', 8: 'uint16', 9: 'uint32', 10: 'uint64', 11: 'float32', 12: 'float64', 13: 'char8_str'}
BYTES = {3: 1, 4: 2, 5: 4, 6: 8, 7: 1, 8: 2, 9: 4, 10: 8, 11: 4, 12: 8, 13: 1}
def default_bytes_of(i):
    r = z3.IntVal(0)
    for k, v in BYTES.items(): r = z3.If(zi(i) == k, z3.IntVal(v), r)
    return r
DT = ['id', 'num_ele', 'offset', 'stride', 'ele_bytes', 'endianness']

ASSUMES = ['64-bit integers are mathematical: no index or byte-count arithmetic overflows',
  'an object, buffer or array reached through one parameter does not overlap one reached through another, unless the contract says so',
  'errors go through the default throwing handler; warnings return', 'partial correctness: termination is not proved', 'allocation succeeds',
  'the platform is the x86-64 little-endian one the code is compiled for']

class Lemma:
    """a consequence of contracts, proved with no code"""
    weight = 0
    def __init__(self, label, fn): self.label, self.fn = 'lemma: ' + label, fn

class Fn:
    weight = 0
    """one function under contract"""
    def __init__(self, name, setup, post, exc=None, templates=(), hooks=(), contracts=None, opts=None, label=None, mods=None, optional=False):
        self.name, self.setup, self.post, self.exc = name, setup, post, exc
        self.templates, self.hooks, self.contracts, self.opts = list(templates), list(hooks), contracts, opts or {}
        self.label = label or name
        self.optional = optional

class H:
    """what setup/post see"""
    def __init__(self, ex, st): self.ex, self.st, self.v, self.pre = ex, st, {}, None
    def dtype(self, base=None, off=0, hint='dt', **fixed):
        """a DataType object with symbolic fields; returns (pointer, field dict)"""
        if base is None: base = self.ex.new_region(self.st, 'obj', hint)
        f = {}
        for k, n in enumerate(DT):
            t = fixed.get(n)
            if t is None: t = z3.Int('%s.%s' % (hint, n))
            self.st.objs[base][off + 8*k] = (8, I(64, t)); f[n] = zi(t)
        return P(base, off), f
    def obj(self, hint='o'): return self.ex.new_region(self.st, 'obj', hint)
    def int(self, n, w=64):
        t = z3.Int(n)
        return I(w, t), t
    def bv(self, n, w):
        t = z3.BitVec(n, w); return B(w, t), t
    def fl(self, n, w):
        t = z3.BitVec(n, w); return F(w, t), t
    def buf(self, n):
        b = '%s' % n; self.st.bufs[b] = z3.Const(n, z3.ArraySort(z3.IntSort(), z3.BitVecSort(8))); return b
    def string(self, n):
        b = self.ex.new_region(self.st, 'obj', n); t = z3.Int('str:' + n); str_set(self.ex, self.st, P(b, 0), t); return P(b, 0), t
    def assume(self, *cs):
        for c in cs: self.st.assume(c)

def dt_fields(ex, st, p):
    return {n: zi(to_int(ex.load(st, P(p.base, ladd(p.off, 8*k)), ('i', 64), None))) for k, n in enumerate(DT)}
def dt_store(ex, st, p, f):
    for k, n in enumerate(DT): ex.store(st, P(p.base, ladd(p.off, 8*k)), I(64, f[n] if isint(f[n]) else cint(f[n])), ('i', 64), None)

def c_memcpy(ex, st, a, ins, fr): ex.memcpy(st, a[0], a[1], to_int(a[2])); return [('ret', st, None)]
def c_memset(ex, st, a, ins, fr): ex.memset(st, a[0], a[1], to_int(a[2])); return [('ret', st, None)]
# the installable memory handlers are assumed to behave as the default memcpy / memset do
BASE_CONTRACTS = {'conduit::utils::conduit_memcpy(void*, void const*, unsigned long)': c_memcpy, 'conduit::utils::conduit_memset(void*, int, unsigned long)': c_memset}

class Result:
    def __init__(s, fn): s.fn, s.obls, s.status, s.note, s.paths, s.time = fn, [], 'ok', '', 0, 0.0; s.inlined = s.contracts = s.models = (); s.loops = 0

def verify(prog, fn, contracts=None, budget=240):
    """discharge every obligation of one function; never raises"""
    r = Result(fn.label); t0 = time.time()
    if isinstance(fn, Lemma):
        for nm, hyp, goal in fn.fn():
            v = solve.valid(hyp, goal)
            r.obls.append({'name': nm, 'fn': fn.label, 'status': v[0], 'backend': v[2], 'time': time.time() - t0, 'model': str(v[1])[:2000] if v[1] is not None else None, 'goal': str(goal)[:400]})
        r.status = 'ok' if all(o['status'] == 'valid' for o in r.obls) else ('failed' if any(o['status'] == 'invalid' for o in r.obls) else 'unknown')
        r.time = time.time() - t0
        return r
    f = prog.find(fn.name)
    if f is None:
        r.status, r.note = 'missing', 'function not found in the current tree: ' + fn.name; return r
    cs = dict(BASE_CONTRACTS); cs.update(contracts or {})
    if fn.contracts: cs.update(fn.contracts)
    if not fn.opts.get('recursive'): cs.pop(fn.name, None)
    o = dict(fn.opts); o.setdefault('budget', budget)
    ex = ctl.Ctl(prog, cs, models.MODELS, o)
    ex.fnname = fn.label
    ex.templates, ex.lemma_hooks = list(fn.templates), list(fn.hooks)
    st = State(); h = H(ex, st)
    ex.h = h
    try:
        args = fn.setup(h)
        h.pre = st.copy()
        if solve.check(st.pc, 5000)[0] == 'unsat':
            r.status, r.note = 'vacuous', 'contradictory precondition'; return r
        n0 = len(st.pc)
        outs = ex.run_fn(f, args, st)
        live = 0
        for kind, s, val in outs:
            r.paths += 1
            if not ex.feasible(s): continue
            if live == 0 and solve.check(s.pc, 2000)[0] != 'unsat': live = 1
            goals = fn.post(h, s, val) if kind == 'ret' else (fn.exc(h, s) if fn.exc else [('no error is raised under the precondition', False)])
            for nm, g in goals or ():
                ex.require(s.copy(), nm, g)
        if not outs or not live:
            r.status, r.note = ('failed' if any(o['status'] == 'invalid' for o in ex.obls) else 'vacuous'), 'no feasible path to a return'
    except Unsupported as e:
        r.status, r.note = 'unsupported', str(e)[:300]
    except (Budget, llir.ParseError, z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError) as e:
        r.status, r.note = 'unsupported', '%s: %s' % (type(e).__name__, str(e)[:300])
        if os.environ.get('VC_DEBUG'): traceback.print_exc()
    r.obls = ex.obls
    r.inlined, r.contracts, r.models, r.loops = sorted(ex.inlined), sorted(ex.used_contracts), sorted(ex.used_models), ex.cutloops
    r.time = time.time() - t0
    if r.status == 'ok':
        if any(o['status'] == 'invalid' for o in r.obls): r.status = 'failed'
        elif any(o['status'] == 'unknown' for o in r.obls): r.status = 'unknown'
        elif not r.obls: r.status, r.note = 'vacuous', 'no obligations'
    for o in r.obls: o.pop('z3model', None)
    return r
