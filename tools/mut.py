#!/usr/bin/env python3
"""Development aid: runs checks on scratch copies of /repo with one edit applied.
mut.py [PROP ...]: every entry of tools/mutants/*.py; kind 'bug' must alarm, 'same' must stay quiet."""
import importlib.util, os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)


def load():
    r = []
    for f in sorted(glob.glob(HERE + '/mutants/*.py')):
        ns = {}
        exec(open(f).read(), ns)
        r += [(os.path.basename(f)[:-3], k) + tuple(m) for k, m in enumerate(ns['M'])]
    return r


def run(m):
    grp, k, props, kind, edits = m[0], m[1], m[2], m[3], m[4:]
    d = tempfile.mkdtemp(prefix='mut.')
    try:
        subprocess.run(['rsync', '-a', '--exclude', '.git', '--exclude', '*.o', '/repo/', d + '/repo/'], check=True) if shutil.which('rsync') else shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git', '*.o', '*.a'), dirs_exist_ok=True)
        for f, a, b in edits:
            p = d + '/repo/' + f
            s = open(p).read()
            if a not in s:
                return m, 'NOMATCH ' + f + ': ' + a[:60], False
            open(p, 'w').write(s.replace(a, b, 1))
        out, good = [], True
        for prop in props.split():
            env = dict(os.environ, MTV_REPO=d + '/repo', MTV_EVIDENCE=d + '/ev')
            p = subprocess.run([sys.executable, V + '/check.py', prop], capture_output=True, text=True, env=env)
            g = p.returncode == (1 if kind == 'bug' else 0)
            good &= g
            lines = sorted([l for l in p.stdout.split('\n') if l.startswith(('violated', 'undecided', 'analysis'))], reverse=True)
            out.append('%s rc=%d %s' % (prop, p.returncode, ' || '.join(l[:260] for l in lines[:2]) + (p.stderr[-300:] if p.returncode not in (0, 1) else '')))
        return m, '; '.join(out), good
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    want = [a for a in sys.argv[1:] if a != '-v']
    ms = [m for m in load() if not want or m[0] in want or set(m[2].split()) & set(want) or '%s#%d' % (m[0], m[1]) in want]
    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for m, o, g in ex.map(run, ms):
            bad += not g
            if not g or '-v' in sys.argv: print('%s %s#%d %s %s' % ('ok  ' if g else 'FAIL', m[0], m[1], m[3], o))
    print('%d of %d as expected' % (len(ms) - bad, len(ms)))
