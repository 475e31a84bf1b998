"""Builds everything a check needs from /repo's current working tree, into a scratch
cache keyed by content: generated headers, LLVM IR of the real sources, record layouts,
and object files for the replay drivers.  Nothing is written inside /repo."""
import hashlib, os, subprocess, sys, tempfile, shutil, fcntl, glob
REPO = os.environ.get('VP_REPO', '/repo')
SRC = REPO + '/src'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('VC_CACHE', os.path.join(tempfile.gettempdir(), 'vc_cache_%d' % os.getuid()))
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
OPT = shutil.which('opt') or '/usr/lib/llvm-18/bin/opt'
TP = SRC + '/thirdparty_builtin'

class BuildError(Exception):
    pass

def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b'\0')
    return m.hexdigest()[:24]

def _read(p):
    with open(p, 'rb') as f:
        return f.read()

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), (r.stderr or b'').decode(errors='replace')[-4000:]))
    return r.stdout

class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.p = os.path.join(CACHE, name + '.lock')
    def __enter__(self):
        self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

_hdr = None
def headers():
    """directory holding the generated headers"""
    global _hdr
    if _hdr: return _hdr
    tmpl = sorted(glob.glob(SRC + '/libs/*/*.h.in')) + [SRC + '/cmake/BasicTypeChecks.cmake',
            SRC + '/libs/conduit/cmake/BitwidthMapping.cmake', HERE + '/tools/hdr/CMakeLists.txt']
    key = _h(*[_read(t) for t in tmpl])
    d = os.path.join(CACHE, 'hdr_' + key)
    with Lock('hdr_' + key):
        if not os.path.exists(d + '/done'):
            shutil.rmtree(d, ignore_errors=True)
            env = dict(os.environ, CC=CLANG.replace('clang++','clang'), CXX=CLANG)
            sh(['cmake', '-S', HERE + '/tools/hdr', '-B', d, '-DS=' + SRC], env=env)
            open(d + '/done', 'w').close()
    _hdr = d
    return d

def incs():
    h = headers()
    return ['-I' + SRC + '/libs/conduit', '-I' + SRC + '/libs/conduit/c', '-I' + h + '/libs/conduit',
            '-I' + SRC + '/libs/relay', '-I' + SRC + '/libs/relay/c', '-I' + h + '/libs/relay',
            '-I' + SRC + '/libs/blueprint', '-I' + SRC + '/libs/blueprint/c', '-I' + h + '/libs/blueprint',
            '-I' + TP + '/rapidjson/include', '-I' + TP + '/libb64-1.2.1/include',
            '-I' + TP + '/libyaml-690a781/include', '-I' + TP + '/fmt-7.1.0']

_tk = None
def tree_key():
    """hash of every source/header a translation unit could include"""
    global _tk
    if _tk: return _tk
    m = hashlib.sha256()
    for root in ('libs/conduit', 'libs/blueprint', 'libs/relay', 'thirdparty_builtin/libb64-1.2.1'):
        for dp, dn, fn in sorted(os.walk(os.path.join(SRC, root))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.h', '.hpp', '.in', '.cmake')):
                    m.update(f.encode()); m.update(_read(os.path.join(dp, f)))
    _tk = m.hexdigest()
    return _tk

def mpi_flags():
    """compile flags of the installed MPI, for the translation units that include mpi.h"""
    d = '/usr/lib/x86_64-linux-gnu/openmpi/include'
    if not os.path.exists(d):
        try: return [x for x in sh(['mpicc', '--showme:compile']).decode().split() if x.startswith('-')] + ['-DOMPI_SKIP_MPICXX=1']
        except Exception: return []
    return ['-I' + d, '-I' + d + '/openmpi', '-DOMPI_SKIP_MPICXX=1']
def unit_flags(src): return mpi_flags() if '_mpi' in os.path.basename(src) else []

PASSES = 'sroa,simplifycfg,loop-simplify'
def ir(src, extra=()):
    """LLVM IR (text) of one translation unit, after SSA construction only"""
    src = src if os.path.isabs(src) else os.path.join(SRC, src)
    extra = list(extra) + unit_flags(src)
    key = _h(_read(src), src, tree_key(), PASSES, ' '.join(extra), 'v3')
    out = os.path.join(CACHE, 'ir_' + key + '.ll')
    with Lock('ir_' + key):
        if not os.path.exists(out):
            bc = out + '.bc'
            sh([CLANG, '-std=c++14', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-threadsafe-statics',
                '-w', '-emit-llvm', '-c', '-o', bc] + list(extra) + incs() + [src])
            sh([OPT, '-passes=' + PASSES, '-S', '-o', out + '.tmp', bc])
            os.unlink(bc)
            os.rename(out + '.tmp', out)
    return out

def layouts(src):
    src = src if os.path.isabs(src) else os.path.join(SRC, src)
    key = _h(_read(src), src, tree_key(), 'lay2')
    out = os.path.join(CACHE, 'lay_' + key + '.txt')
    with Lock('lay_' + key):
        if not os.path.exists(out):
            t = sh([CLANG, '-std=c++14', '-w', '-fsyntax-only', '-Xclang', '-fdump-record-layouts'] + unit_flags(src) + incs() + [src])
            with open(out + '.tmp', 'wb') as f: f.write(t)
            os.rename(out + '.tmp', out)
    return out

def obj(src, flags=()):
    """object file of one source of the current tree, for the replay drivers"""
    src = src if os.path.isabs(src) else os.path.join(SRC, src)
    flags = list(flags) + unit_flags(src)
    key = _h(_read(src), src, tree_key(), ' '.join(flags), 'obj2')
    out = os.path.join(CACHE, 'obj_' + key + '.o')
    with Lock('obj_' + key):
        if not os.path.exists(out):
            cc = CLANG.replace('clang++','clang') if src.endswith('.c') else CLANG
            std = [] if src.endswith('.c') else ['-std=c++14']
            sh([cc] + std + ['-O0', '-w', '-c', '-o', out + '.tmp'] + list(flags) + incs() + [src])
            os.rename(out + '.tmp', out)
    return out

CORE = sorted(glob.glob(SRC + '/libs/conduit/*.cpp'))
def core_sources():
    s = sorted(glob.glob(SRC + '/libs/conduit/*.cpp'))
    s += [TP + '/libb64-1.2.1/src/cdecode.cpp', TP + '/libb64-1.2.1/src/cencode.cpp']
    s += sorted(glob.glob(TP + '/libyaml-690a781/src/*.c'))
    return s
