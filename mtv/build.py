"""Turns /repo's current source into facts: bitcode -> irfacts JSON, AST -> astfacts JSON.

Nothing from /repo is executed.  Everything lands in a private temporary
directory that is removed when the check ends.
"""
import atexit, fcntl, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MTV_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'
CLANGXX = LLVM + '/bin/clang++'
CLANG = LLVM + '/bin/clang'
DEFS = ['-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS']


class AnalysisBroken(Exception):
    """The analysis could not see what it must see: an error exit, never a verdict."""


def build_tools():
    bd = os.path.join(VERIF, 'build')
    os.makedirs(bd, exist_ok=True)
    with open(os.path.join(bd, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        flags = subprocess.run([LLVM + '/bin/llvm-config', '--cxxflags'], capture_output=True, text=True, check=True).stdout.split()
        flags = [f for f in flags if not f.startswith('-std')]
        jobs = []
        for name, extra, libs in (('irfacts', ['-O1'], ['-lLLVM-18']),
                                  ('astfacts', ['-O0', '-fno-rtti'], ['-l:libclang-cpp.so.18.1', '-lLLVM-18'])):
            src, out = f'{VERIF}/src/{name}.cpp', f'{bd}/{name}'
            if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
                continue
            jobs.append((out, subprocess.Popen(['g++', '-std=c++17'] + flags + extra + ['-w', '-fexceptions', src, '-o', out + '.tmp', '-L' + LLVM + '/lib'] + libs,
                                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for out, p in jobs:
            o, _ = p.communicate()
            if p.returncode:
                raise AnalysisBroken('cannot build analyser %s:\n%s' % (out, o[-3000:]))
            os.rename(out + '.tmp', out)


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='mtv.')
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


class TU:
    """One translation unit to analyse."""
    def __init__(self, src, defs=(), incs=(), lang='c++', std=None):
        self.src, self.defs, self.incs, self.lang = src, list(defs), list(incs), lang
        self.std = std or ('c++17' if lang == 'c++' else 'c11')

    def flags(self):
        return ['-std=' + self.std] + DEFS + ['-D' + d for d in self.defs] + ['-I' + i for i in self.incs] + ['-I' + REPO + '/include', '-w']


def _bc(args):
    tu, out = args
    cc = CLANGXX if tu.lang == 'c++' else CLANG
    p = subprocess.run([cc] + tu.flags() + ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names', '-emit-llvm', '-c', tu.src, '-o', out],
                       capture_output=True, text=True)
    return tu, p.returncode, p.stderr


def bitcode(tus):
    outs = []
    for k, tu in enumerate(tus):
        outs.append(os.path.join(tmpdir(), 'tu%d_%s.bc' % (len(os.listdir(tmpdir())) + k, os.path.basename(tu.src))))
    with ThreadPoolExecutor(8) as ex:
        for tu, rc, err in ex.map(_bc, zip(tus, outs)):
            if rc:
                raise AnalysisBroken('clang cannot compile %s:\n%s' % (tu.src, err[-3000:]))
    return outs


def irfacts(bcs, keep=None, std=None, passes=None, inline=True, roots=None):
    cmd = [VERIF + '/build/irfacts']
    for r in (roots or [REPO + '/', VERIF + '/drivers/']):
        cmd += ['--root', r]
    def lst(flag, items):
        if items:
            fn = os.path.join(tmpdir(), '%s%d.txt' % (flag, len(os.listdir(tmpdir()))))
            open(fn, 'w').write('\n'.join(items) + '\n')
            cmd.extend(['--' + flag, fn])
    lst('keep', keep)
    lst('std', std)
    if passes:
        cmd += ['--passes', passes]
    if not inline:
        cmd.append('--no-inline')
    p = subprocess.run(cmd + bcs, capture_output=True)
    if p.returncode:
        raise AnalysisBroken('irfacts failed (%d): %s' % (p.returncode, p.stderr.decode(errors='replace')[-2000:]))
    return json.loads(p.stdout)


def _ast(tu):
    cmd = [VERIF + '/build/astfacts']
    for r in [REPO + '/', VERIF + '/drivers/']:
        cmd += ['--root', r]
    p = subprocess.run(cmd + [tu.src, '--', '-x', tu.lang] + tu.flags() + ['-resource-dir', LLVM + '/lib/clang/18'], capture_output=True)
    if p.returncode:
        raise AnalysisBroken('astfacts failed on %s: %s' % (tu.src, p.stderr.decode(errors='replace')[-2000:]))
    return json.loads(p.stdout)


def astfacts(tus):
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(_ast, tus))
    m = {'calls': [], 'throws': [], 'records': [], 'functions': [], 'decls': [], 'tmpl': []}
    seen = {k: set() for k in m}
    for r in rs:
        for k in m:
            for x in r[k]:
                key = json.dumps(x, sort_keys=True)
                if key not in seen[k]:
                    seen[k].add(key)
                    m[k].append(x)
    return m


if __name__ == '__main__':
    build_tools()
    print('analysers built')
