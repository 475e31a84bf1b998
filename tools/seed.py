"""Author / confirm planted bugs in a scratch copy of /repo (a mount namespace puts the copy at /repo).
usage: seed.py try ID...   (confirm: applies, builds, stable tests pass, demo 0 -> nonzero; then runs the property's check)
       seed.py check ID... (only run the check on the patched copy)"""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get('SC', '/tmp/sc/repo')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def ns(c, timeout=3000):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (SC, c), timeout=timeout)
def sync():
    if not os.path.isdir(SC): os.makedirs(os.path.dirname(SC), exist_ok=True); sh('cp -a /repo ' + SC)
    r = sh('cd %s && git checkout -q -- . && git clean -qfd src && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % SC)
    if r.returncode: print(r.stdout)
def main():
    mode = sys.argv[1]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in sys.argv[2:]:
        d = V + '/seeded/' + i; meta = json.load(open(d + '/meta.json')); sync()
        tmp = tempfile.mkdtemp(prefix='seeddemo'); sh('cp -a %s/. %s' % (d, tmp)); sh('rm -f %s/*.diff %s/meta.json' % (tmp, tmp))
        out = []
        if mode == 'try':
            r = ns('bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % tmp); out.append('demo clean rc=%d' % r.returncode)
            if r.returncode: print(r.stdout[-1500:])
        a = sh('cd %s && git apply %s/patch.diff' % (SC, d)); 
        if a.returncode: print(i, 'DOES NOT APPLY', a.stdout); continue
        if mode == 'try':
            r = ns('bash /opt/vp/test.sh /tmp/seed_out_%s.json' % i)
            p = set(json.load(open('/tmp/seed_out_%s.json' % i))['passed']); miss = sorted(base - p); os.remove('/tmp/seed_out_%s.json' % i)
            out.append('stable tests missing: %d %s' % (len(miss), miss[:4]))
            if len(miss) > 100: print(r.stdout[-2000:])
            r = ns('bash %s/demo.sh' % tmp); out.append('demo patched rc=%d' % r.returncode); print(r.stdout[-400:])
        r = ns('cd %s && VERIF_SEED=1 ./check %s quick' % (V, meta['property']))
        out.append('check rc=%d' % r.returncode); print(r.stdout[-1500:])
        print('==', i, meta['property'], ' | '.join(out), flush=True)
        shutil.rmtree(tmp); sync()
main()
