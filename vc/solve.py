"""Obligation discharge: z3 first (in process), cvc5 second (SMT-LIB)."""
import z3, time, subprocess, os, itertools
STATS = {'z3': 0, 'cvc5': 0, 'time': 0.0, 'queries': 0}
TIMEOUT_MS = int(os.environ.get('VC_TIMEOUT_MS', '20000'))
DEADLINE = [None]       # absolute wall-clock limit for the whole run

def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

def mono_pairs(fs):
    """non-linear monomials (two non-constant factors) occurring in the formulas"""
    seen, mons, stack = set(), {}, list(fs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(e):
            continue        # bound variables: skip
        if z3.is_mul(e) and z3.is_int(e):
            fac = [c for c in e.children() if not z3.is_int_value(c)]
            flat = []
            for c in fac:
                if z3.is_app_of(c, z3.Z3_OP_POWER) and z3.is_int_value(c.arg(1)):
                    flat += [c.arg(0)] * c.arg(1).as_long()
                else: flat.append(c)
            if len(flat) == 2: mons[(flat[0].get_id(), flat[1].get_id())] = (flat[0], flat[1])
            elif len(flat) == 3:
                for k in range(3):
                    rest = [flat[j] for j in range(3) if j != k]
                    mons[(flat[k].get_id(), rest[0].get_id(), rest[1].get_id())] = (flat[k], rest[0] * rest[1])
                mons[(rest[0].get_id(), rest[1].get_id())] = (rest[0], rest[1])
        stack.extend(e.children())
    return list(mons.values())

def nl_lemmas(fs):
    pairs = mono_pairs(fs)
    by = {}
    for a, b in pairs:
        for s, c in ((a, b), (b, a)):
            by.setdefault(s.get_id(), (s, {}))[1][c.get_id()] = c
    out = []
    for s, cs in by.values():
        cl = list(cs.values())[:8]
        for c in cl:
            p = s * c
            out += [z3.Implies(z3.And(s >= 0, c >= 1), p >= s), z3.Implies(z3.And(s >= 0, c <= -1), p <= -s),
                    z3.Implies(z3.And(s <= 0, c >= 1), p <= s), z3.Implies(c == 0, p == 0), z3.Implies(c == 1, p == s)]
        for c1, c2 in itertools.permutations(cl, 2):
            out += [z3.Implies(z3.And(s >= 0, c1 - c2 >= 1), s*c1 - s*c2 >= s),
                    z3.Implies(z3.And(s <= 0, c1 - c2 >= 1), s*c1 - s*c2 <= s),
                    z3.Implies(z3.And(s >= 0, c1 - c2 >= 2), s*c1 - s*c2 >= 2*s),
                    z3.Implies(c1 == c2, s*c1 == s*c2)]
    return out

def norm(f):
    return z3.simplify(zb(f), som=True, mul_to_power=False)

def has_sort(fs, test):
    seen, stack = set(), list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if test(e): return True
        stack.extend(e.children() if not z3.is_quantifier(e) else [e.body()])
    return False

def check(assumptions, timeout_ms=None, need_model=False):
    """satisfiability of the conjunction: ('unsat'|'sat'|'unknown', model, backend)"""
    t0 = time.time()
    STATS['queries'] += 1
    timeout_ms = timeout_ms or TIMEOUT_MS
    if DEADLINE[0] is not None:
        timeout_ms = max(200, min(timeout_ms, int((DEADLINE[0] - t0) * 1000)))
    try:
        fs = []
        for a in assumptions:
            n = norm(a)
            if z3.is_false(n): return ('unsat', None, 'z3')
            if not z3.is_true(n): fs.append(n)
        lem = [norm(l) for l in nl_lemmas(fs)] if fs else []
        r = z3.unknown; model = None
        nl = bool(lem)
        if nl:
            s = z3.SimpleSolver(); s.set('timeout', min(timeout_ms, 4000)); s.set('arith.nl', False)
            s.add(*fs); s.add(*lem)
            r = s.check()
            if r == z3.unsat: return ('unsat', None, 'z3')
            if r == z3.sat: model = s.model()
            s = z3.Solver(); s.set('timeout', timeout_ms); s.add(*fs); s.add(*lem)
            r = s.check()
            if r == z3.unsat: return ('unsat', None, 'z3')
            if r == z3.sat: return ('sat', s.model(), 'z3')
            return ('unknown', model, 'z3')
        s = z3.Solver(); s.set('timeout', timeout_ms); s.add(*fs)
        r = s.check()
        if r == z3.unsat: return ('unsat', None, 'z3')
        if r == z3.sat: return ('sat', s.model(), 'z3')
        return ('unknown', None, 'z3')
    except z3.Z3Exception as e:
        return ('unknown', None, 'z3: ' + str(e)[:80])
    finally:
        STATS['time'] += time.time() - t0

def cvc5_check(assumptions, timeout_ms=10000):
    """second back end; only ever used to confirm unsatisfiability"""
    t0 = time.time()
    try:
        s = z3.Solver()
        fs = [norm(a) for a in assumptions]
        s.add(*fs); s.add(*[norm(l) for l in nl_lemmas(fs)])
        txt = s.to_smt2()
        if 'lambda' in txt: return 'unknown'
        txt = '(set-logic ALL)\n' + txt
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout_ms, '-q', '-'], input=txt.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout_ms/1000 + 10)
        o = p.stdout.decode().split('\n')[0].strip()
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        STATS['time'] += time.time() - t0

def quantified(fs):
    return any(z3.is_quantifier(f) or has_sort([f], z3.is_quantifier) for f in fs)
def fast_valid(pc, goal, timeout_ms=3000):
    """used while searching for loop invariants: quantified hypotheses are only instantiated by their patterns"""
    if isinstance(goal, bool): return goal
    g = norm(goal)
    if z3.is_true(g): return True
    fs = list(pc) + [z3.Not(g)]
    if not quantified(fs): return valid(pc, goal, timeout_ms)[0] == 'valid'
    t0 = time.time(); STATS['queries'] += 1
    try:
        fs = [norm(f) for f in fs]
        s = z3.SimpleSolver(); s.set('timeout', timeout_ms); s.set('mbqi', False); s.add(*fs); s.add(*[norm(l) for l in nl_lemmas(fs)])
        return s.check() == z3.unsat
    except z3.Z3Exception: return False
    finally: STATS['time'] += time.time() - t0

def valid(pc, goal, timeout_ms=None):
    """is pc => goal valid?  ('valid'|'invalid'|'unknown', model, backend)"""
    if isinstance(goal, bool):
        if goal: return ('valid', None, 'syntactic')
        goal = z3.BoolVal(False)
    g = norm(goal)
    if z3.is_true(g): return ('valid', None, 'z3-simplifier')
    r, m, b = check(list(pc) + [z3.Not(g)], timeout_ms)
    if r == 'unsat': return ('valid', None, b)
    if r == 'sat': return ('invalid', m, b)
    if cvc5_check(list(pc) + [z3.Not(g)]) == 'unsat': return ('valid', None, 'cvc5')
    return ('unknown', m, b)
