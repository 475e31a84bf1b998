"""mkseed(id, property, [(file, old, new)], demo_cpp, needs, breaks): write seeded/<id> from edits to HEAD's text."""
import os, subprocess, json, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
inc=""; for d in src/libs/conduit src/libs/blueprint src/libs/relay src/libs/conduit/c src/libs/blueprint/c src/thirdparty_builtin/libb64-1.2.1/include; do inc="$inc -I$PWD/$d"; done
for d in $(find "$PWD/_build" -name 'conduit*config.h' -o -name 'conduit*exports.h' -o -name 'conduit_bitwidth_style_types.h' | xargs -n1 dirname | sort -u); do inc="$inc -I$d"; done
g++ -std=c++14 -O0 -g -w $inc "$here/demo.cpp" -o "$t/demo" -L"$PWD/_build/lib" LIBS -Wl,-rpath,"$PWD/_build/lib"
cd "$t" && timeout 120 ./demo
'''
def mkseed(id, prop, edits, demo, needs, breaks, libs='-lconduit'):
    d = V + '/seeded/' + id; os.makedirs(d, exist_ok=True)
    out = ''
    by = {}
    for f, o, n in edits: by.setdefault(f, []).append((o, n))
    for f, l in by.items():
        s = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], stdout=subprocess.PIPE, check=True).stdout.decode()
        t = s
        for o, n in l:
            assert t.count(o) == 1, (id, f, t.count(o), o)
            t = t.replace(o, n)
        a, b = s.split('\n'), t.split('\n')
        assert a[-1] == b[-1] == ''
        out += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(x + '\n' for x in difflib.unified_diff(a[:-1], b[:-1], 'a/' + f, 'b/' + f, lineterm='', n=8))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.cpp', 'w').write(demo); open(d + '/demo.sh', 'w').write(DEMO.replace('LIBS', libs)); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
