#!/usr/bin/env python3
"""mkseed.py: (re)creates seeded/<id>/ from tools/seeds/*.py entries and verifies each in a scratch copy.
entry: (id, property, [(file, old, new)...], demo_cpp, needs, breaks)"""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -I include %s "$D/demo.cpp" %s -o "$T/demo" -lntl -lgmp -lpthread || exit %d
timeout 120 "$T/demo"
'''


def entries():
    r = []
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
        ns = {}
        ns["V"] = V
        exec(open(f).read(), ns)
        r += ns['S']
    return r


def make(e):
    id, prop, edits, demo, needs, breaks = e[:6]
    opt = e[6] if len(e) > 6 else {}
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    for n in os.listdir(d):
        os.remove(d + '/' + n)
    t = tempfile.mkdtemp(prefix='seed.')
    try:
        subprocess.run(['cp', '-a', '/repo', t + '/repo'], check=True)
        r = t + '/repo'
        for f, a, b in edits:
            s = open(r + '/' + f).read()
            assert s.count(a) >= 1, (id, f, a)
            open(r + '/' + f, 'w').write(s.replace(a, b, 1))
        p = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True, check=True).stdout
        open(d + '/patch.diff', 'w').write(p)
        open(d + '/demo.cpp', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO % (opt.get('inc', ''), (('"$D/second.cpp" ' if opt.get('second') else '') + opt.get('src', 'lib/period.cpp lib/AlgorithmPrimitivity.cpp')), opt.get('nocompile', 2)))
        if opt.get('second'):
            open(d + '/second.cpp', 'w').write(opt['second'])
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
        env = dict(os.environ, MTV_REPO=r, MTV_EVIDENCE=t + '/ev')
        c = subprocess.run([sys.executable, V + '/check.py', prop], capture_output=True, text=True, env=env)
        ok = a.returncode == 0 and b.returncode not in (0, 2, 124)
        print(id, prop, 'demo clean rc=%d patched rc=%d' % (a.returncode, b.returncode), 'OK' if ok else 'BAD ' + (a.stdout + a.stderr)[-300:] + (b.stdout + b.stderr)[-300:],
              'check rc=%d' % c.returncode, 'CAUGHT' if c.returncode == 1 else 'MISSED')
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == '__main__':
    for e in entries():
        if len(sys.argv) == 1 or e[0] in sys.argv[1:] or e[1] in sys.argv[1:]:
            make(e)
