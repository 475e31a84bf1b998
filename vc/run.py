#!/usr/bin/env python3-vt
"""check <property> [quick|thorough]: decide one property on /repo's current tree."""
import sys, os, json, time, glob, importlib, multiprocessing as mp, subprocess, re, traceback, threading, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.setrecursionlimit(20000)
import build

ASAN = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer']
def build_driver(mod):
    """compile the property's driver against the current tree"""
    from concurrent.futures import ThreadPoolExecutor
    d = getattr(mod, 'DRIVER', None)
    if not d: return None
    srcs = build.core_sources() + [s if os.path.isabs(s) else build.SRC + '/' + s for s in getattr(mod, 'DRIVER_SRCS', [])]
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda s: build.obj(s, ASAN), srcs))
    ds = os.path.join(ROOT, 'drivers', d)
    hdrs = sorted(glob.glob(ROOT + '/drivers/*.hpp')); fl = build.mpi_flags() if getattr(mod, 'DRIVER_MPI', False) else []
    key = build._h(build._read(ds), *([build._read(x) for x in hdrs] + objs))
    out = os.path.join(build.CACHE, 'drv_' + key)
    with build.Lock('drv_' + key):
        if not os.path.exists(out):
            build.sh([build.CLANG, '-std=c++14', '-w', '-I' + ROOT + '/drivers'] + fl + ASAN + build.incs() + ['-o', out + '.tmp', ds] + objs + ['-ldl', '-lpthread'])
            os.rename(out + '.tmp', out)
    return out

def run_driver(exe, seed, effort, timeout):
    import tempfile, shutil
    cwd = tempfile.mkdtemp(prefix='vcdrv')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0:exitcode=77:detect_stack_use_after_return=0', UBSAN_OPTIONS='halt_on_error=1')
    r = {'fails': [], 'evals': 0, 'distinct': 0, 'samples': [], 'done': False, 'out': ''}
    try:
        p = subprocess.run([exe, str(seed), str(effort)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        out, err, r['rc'] = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace'), p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, r['rc'] = (e.stdout or b'').decode(errors='replace'), '', 'timeout'
    finally: shutil.rmtree(cwd, ignore_errors=True)
    for l in out.split('\n'):
        m = re.match(r'FAIL key=(\S+) (.*)', l)
        if m: r['fails'].append((m.group(1), m.group(2)))
        m = re.match(r'DRVDONE evaluations=(\d+) distinct=(\d+)', l)
        if m: r['evals'], r['distinct'], r['done'] = int(m.group(1)), int(m.group(2)), True
        if l.startswith('SAMPLE '): r['samples'].append(l[7:])
    if not r['done'] and r['rc'] != 'timeout' and not r['fails']: r['fails'].append(('crash', 'driver ended abnormally (status %s): %s' % (r['rc'], err[-600:])))
    if r['rc'] == 'timeout' and not r['fails']: r['fails'].append(('hang', 'the real code did not return within %d s' % timeout))
    r['out'] = out[-6000:] + '\n' + err[-3000:]
    return r

def _worker(i):
    import core
    try: return i, core.verify(G['prog'], G['funcs'][i], G['contracts'], G['budget'])
    except BaseException as e:
        r = core.Result(G['funcs'][i].label); r.status, r.note = 'unsupported', 'internal: %r' % (e,); return i, r
G = {}

def known(pid):
    out = {}
    p = ROOT + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = 780 if tier == 'quick' else 5400
    mod = importlib.import_module('props.' + pid)
    import llir, core, solve
    from concurrent.futures import ThreadPoolExecutor
    drv = {}
    def bd():
        try: drv['exe'] = build_driver(mod)
        except build.BuildError as e: drv['err'] = str(e)
        if drv.get('exe'):
            drv['res'] = run_driver(drv['exe'], seed, 1 if tier == 'quick' else 8, 240 if tier == 'quick' else 1800)
    try: build.headers()
    except build.BuildError as e:
        print('the current tree cannot be configured:', e); sys.exit(2)
    th = threading.Thread(target=bd)
    # IR of the real sources
    try:
        with ThreadPoolExecutor(8) as ex: irs = list(ex.map(lambda u: build.ir(u if not u.startswith('probe/') else HERE + '/' + u), mod.UNITS))
    except build.BuildError as e:
        print('the current tree does not compile:', str(e)[-1500:]); sys.exit(2)
    prog = llir.Program(irs)
    if tier == 'quick': mod.FUNCS = [f for f in mod.FUNCS if not getattr(f, 'opts', {}).get('thorough')]
    G.update(prog=prog, funcs=mod.FUNCS, contracts=getattr(mod, 'CONTRACTS', None), budget=getattr(mod, 'BUDGET', 200) * (1 if tier == 'quick' else 4))
    if tier == 'thorough': solve.TIMEOUT_MS *= 4
    ctx = mp.get_context('fork')
    results = [None] * len(mod.FUNCS)
    pool = ctx.Pool(min(8, max(1, len(mod.FUNCS))))
    order = sorted(range(len(mod.FUNCS)), key=lambda i: -getattr(mod.FUNCS[i], 'weight', 0))
    pend = {i: pool.apply_async(_worker, (i,)) for i in order}
    th.start()
    for i in order:
        left = limit - (time.time() - t0)
        try: _, results[i] = pend[i].get(timeout=max(1, left))
        except mp.TimeoutError:
            r = core.Result(mod.FUNCS[i].label); r.status, r.note = 'unsupported', 'global time limit'; results[i] = r
    pool.terminate()
    th.join()
    if drv.get('err'):
        print('driver does not build against the current tree:', drv['err'][-1500:])
    proved = [r for r in results if r.status == 'ok']; failed = [r for r in results if r.status == 'failed']
    rest = [r for r in results if r.status not in ('ok', 'failed')]
    nob = sum(len(r.obls) for r in results); nd = sum(1 for r in results for o in r.obls if o['status'] == 'valid')
    # functions whose contract is a bounded stand-in by design
    expected_rest = set(getattr(mod, 'BOUNDED', ()))
    dr = drv.get('res')
    kn = known(pid)
    viol, lines = [], []
    os.makedirs(ROOT + '/evidence/replay', exist_ok=True)
    rp = '%s/evidence/replay/%s.txt' % (ROOT, pid)
    report = []
    if dr:
        for k, msg in dr['fails']:
            if k in kn: lines.append('KNOWN-FINDING: property=%s %s' % (pid, kn[k])); continue
            viol.append(('input', k, msg))
    for r in failed:
        bad = [o for o in r.obls if o['status'] == 'invalid']
        viol.append(('proof', r.fn, '; '.join(o['name'] for o in bad[:4])))
    for v in viol: report.append('%s: %s\n    %s' % ({'input': 'FAILING INPUT (real code)', 'proof': 'FAILED OBLIGATION in'}[v[0]], v[1], v[2]))
    for r in failed:
        for o in r.obls:
            if o['status'] == 'invalid': report.append('--- %s: %s\n goal: %s\n counterexample: %s' % (r.fn, o['name'], o['goal'], o['model']))
    for r in rest: report.append('not decided deductively on this tree: %s (%s: %s)' % (r.fn, r.status, r.note))
    if drv.get('exe') : report.append('replay driver: %s\n  rebuild and rerun: ./check %s %s   (driver source drivers/%s, arguments seed=%d)' % (drv['exe'], pid, tier, mod.DRIVER, seed))
    if dr: report.append('driver output:\n' + dr['out'])
    with open(rp, 'w') as f: f.write('\n'.join(report) + '\n')
    backends = {}
    for r in results:
        for o in r.obls:
            if o['status'] == 'valid': backends[o['backend']] = backends.get(o['backend'], 0) + 1
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'), 'wall_s': round(time.time() - t0, 1), 'violations': len(viol),
          'coverage': {
            'obligations': nob, 'discharged': nd, 'checker_cmd': './check %s %s (vc/run.py: LLVM IR of the real sources -> obligations -> z3 %s, cvc5 as second back end)' % (pid, tier, __import__('z3').get_version_string()),
            'trusted_base': ['clang 18 front end and sroa/simplifycfg/loop-simplify', 'the obligation generator in vc/', 'z3', 'cvc5'] + sorted(set('assumed library contract: ' + m for r in results for m in r.models)),
            'functions_under_contract': [r.fn for r in proved + failed], 'functions_proved': len(proved),
            'obligations_by_backend': backends, 'solver_time_s': round(sum(o['time'] for r in results for o in r.obls), 2), 'generation_time_s': round(sum(r.time for r in results), 2),
            'loops_cut_by_invariant': sum(r.loops for r in results),
            'verified_by_inlining_into_callers': sorted(set(m for r in results for m in r.inlined))[:400],
            'callee_contracts_used': sorted(set(m for r in results for m in r.contracts)),
            'not_proved_this_run': ['%s: %s %s' % (r.fn, r.status, r.note) for r in rest],
            'bounded_stand_in': None if not dr else {'what': getattr(mod, 'DRIVER_SCOPE', 'executable specification on the real code'), 'bound': getattr(mod, 'DRIVER_BOUND', 'random and enumerated inputs'),
                 'evaluations': dr['evals'], 'distinct': dr['distinct'], 'samples': dr['samples'], 'counted_as_proved': False},
            'bounded_only': sorted(getattr(mod, 'BOUNDED_ONLY', ())),
            'samples': [{'function': r.fn, 'obligations': [o['name'] for o in r.obls][:6]} for r in proved[:3]]},
          'assumptions': list(getattr(mod, 'ASSUMES', [])) + core.ASSUMES}
    if dr: ev['coverage'].update(evaluations=dr['evals'], distinct_nontrivial=dr['distinct'], rule=getattr(mod, 'DRIVER_BOUND', 'random and enumerated inputs; distinct by full case description'))
    with open('%s/evidence/%s.json' % (ROOT, pid), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d functions under contract, %d proved, %d failed, %d not decided deductively; %d/%d obligations discharged; driver %s cases; %.1fs' %
          (pid, tier, len(results), len(proved), len(failed), len(rest), nd, nob, dr['evals'] if dr else 'none: 0', time.time() - t0))
    for r in rest: print('  undecided:', r.fn, r.status, r.note[:150])
    for l in lines: print(l)
    for v in viol[:12]: print('  ', v[0], v[1], v[2][:400])
    if viol:
        inp = any(v[0] == 'input' for v in viol)
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if inp else ' no-failing-input-found'))
        sys.exit(1)
    if drv.get('err') or (rest and not dr):
        sys.exit(2 if drv.get('err') else 0)
    sys.exit(0)
if __name__ == '__main__': main()
