#!/usr/bin/env python3
"""dump.py REGEX: normalised IR of the matching functions (development aid)"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from mtv import build, core
build.build_tools()
K2 = "--k2" in sys.argv
if K2:
    sys.argv.remove("--k2")
    from mtv.props import equi
P = core.prog(keep=equi.KEEP2) if K2 else core.prog()
def o(x):
    if isinstance(x, list) and x:
        if x[0] == 'v': return '%%%s' % x[1]
        if x[0] == 'c': return str(x[1])
        if x[0] == 'a': return 'arg%s' % x[1]
        return ':'.join(map(str, x))
    return str(x)
def dump(f):
    print('==', f.dem, [a['ty'] for a in f.j['args']])
    for L in f.loops():
        print('  loop', L['header'], sorted(L['blocks']), L['exits'])
    for b in sorted(f.reach):
        print(' b%d: -> %s' % (b, f.succ[b]))
        for x in f.insts(b):
            ex = ''
            if x['op'] in ('call', 'invoke'): ex = (x.get('cdem') or x.get('callee') or '') + (' sret%s' % x['sret'] if x.get('sret') else '') 
            if x['op'] == 'getelementptr': ex = 'off=%s vars=%s' % (x.get('off'), [(o(v), s) for v, s in x.get('vars') or []])
            if x['op'] == 'icmp': ex = x['pred']
            ops = [(o(a), p) if x['op'] == 'phi' else o(a) for a, *p in ([(y[0], y[1]) for y in x['ops']] if x['op'] == 'phi' else [(y,) for y in x['ops']])]
            print('   %%%s = %s %s %s %s' % (x['i'], x['op'], x.get('ty', ''), ex[:110], ops), ('scev=%s' % (x['scev'],) if x.get('scev') and x['op']=='phi' else ''), (x.get('loc') or ['',0])[1])
for f in P.fns.values():
    if re.search(sys.argv[1], f.dem):
        dump(f)
