"""P28: the equidistribution analysis of the SIMD samples (sfmtdc, dSFMTdc)."""
import re
from .. import bits, build, smp
from ..bits import Ptr
from ..build import AnalysisBroken, REPO, TU, VERIF
from ..core import KEEP, sig, Explore, LoopClient, evalt, sample_ok, snap
from ..facts import Fn, Prog, TooComplex, addoff
from ..models import MODELS, _Prefix
from ..report import Report, finish
from ..sym import Client, Sym, strip_ext
from . import equi
from .equi import _sub, field

KEEP3 = [r'linear_generator_vector<.*>::(add|next_state|get_next|debug_print|\w*linear_generator_vector|~\w*linear_generator_vector)\(',
         r'Algorithm\w*Equidistribution<.*>::(\w*Equidistribution|~\w*Equidistribution|get_equidist|get_equidist_main)\(',
         r'MTToolBox::calc_1pos\(unsigned']
KINDS = {
    'sfmt': ('samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp', 'simd_linear_generator_vector', 'AlgorithmSIMDEquidistribution',
             'calc_SIMD_equidistribution', 'calc_SIMD_equidistribution<Word,SimdGen>(const SimdGen&,int*,int,SIMDInfo&,int,bool)'),
    'dsfmt': ('samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp', 'dsfmt_linear_generator_vector', 'AlgorithmDSFMTEquidistribution',
              'calc_dSFMT_equidistribution', 'calc_dSFMT_equidistribution<Word,SimdGen>(const SimdGen&,int*,int,DSFMTInfo&,int)'),
}


class Kind:
    def __init__(self, name):
        h, v, a, fn, c = KINDS[name]
        self.name, self.fn = name, fn
        self.sfmt = name == 'sfmt'
        tu = TU(VERIF + '/drivers/simd.cpp', incs=[REPO], defs=['SIMD_HEADER="%s"' % h, 'SIMD_VECTOR=' + v, 'SIMD_ALGO=' + a, 'SIMD_CALC=' + c])
        self.P = Prog(build.irfacts(build.bitcode([tu]), keep=KEEP3), build.astfacts([tu]))
        self.info = next((r['fields'] for r in self.P.ast['records'] if r.get('name', '').endswith('Info') and r['name'].startswith('MTToolBox::')), [])
        self.info = [x if isinstance(x, str) else x.get('name', x) for x in self.info]
        self.V, self.A = v, a
        self.LV, self.AE = 'MTToolBox::%s::' % v, 'MTToolBox::%s::' % a

    def one(self, rx):
        fs = [f for f in self.P.fns.values() if re.search(rx, f.dem)]
        return fs[0] if len(fs) == 1 else None

    def models(self, F):
        """calls the analysis of one function treats as known"""
        M = _Prefix(MODELS)
        LV, AE = self.LV, self.AE

        def nothing(c):
            pass

        def copy(c):
            if len(c.args) == 2:
                c.put(('st', c.args[0]), c.state(c.args[1]))
                c.put(('mode', c.args[0]), ('copy', c.args[1]))

        def add(c):
            x, y = c.args
            nx, ny = c.load(addoff(x, F['next'])), c.load(addoff(y, F['next']))
            a, b = sorted((nx, ny), key=repr)
            c.put(addoff(x, F['next']), ('xor', a, b))

        def nxt(c):
            x = c.args[0]
            t = ('id', c.x['i'])
            c.put(addoff(x, F['next']), ('nsnext', x, t))
            c.put(addoff(x, F['count']), ('nscount', x, t))
            c.put(addoff(x, F['zero']), ('nszero', x, t))

        def get(c):
            c.put(addoff(c.args[0], F['next']), ('out', ('id', c.x['i'])))

        def main(c):
            c.val = ('p:k', c.args[0], c.args[1], ('id', c.x['i']))

        def mode(i):
            def m(c):
                o = c.mem.get(('mode', c.args[0]), ('?',))
                c.put(('mode', c.args[0]), (i, c.args[1], o))
            return m

        def gen(c):
            o = c.mem.get(('mode', c.args[0]))
            if o is not None:
                c.put(('mode', c.args[0]), ('gen', o))

        def onepos(c):
            c.val = ('p:1pos', c.args[0])
        for n in ('seed', 'bitSize', 'add', 'setZero', 'isZero', 'setUpParam', 'clone', 'getParamString'):
            M['SimdGen::' + n] = MODELS['MTToolBox::EquidistributionCalculatable::' + n]

        def memcpy(c):
            c.put(c.args[0], ('copied', c.args[1]))
        if not F:
            M['llvm.memcpy.p0.p0.i64'] = memcpy
        M['SimdGen::SimdGen'] = copy
        M['SimdGen::~SimdGen'] = nothing
        M['SimdGen::setStartMode'] = mode('start')
        M['SimdGen::setWeightMode'] = mode('weight')
        M['SimdGen::generate'] = gen
        M['std::__shared_ptr::~__shared_ptr'] = nothing
        M['std::shared_ptr::~shared_ptr'] = nothing
        for o in (LV + self.V, LV + '~' + self.V, LV + 'debug_print', AE + '~' + self.A, AE + self.A):
            M[o] = nothing
        if F:
            M[LV + 'add'] = add
            M[LV + 'next_state'] = nxt
            M[LV + 'get_next'] = get
        M[AE + 'get_equidist_main'] = main
        M[AE + 'get_equidist'] = main
        M['MTToolBox::calc_1pos'] = onepos
        return M


def roles(rep, K):
    P = K.P
    unit = K.one(re.escape(K.V) + r'<Word, SimdGen>::' + K.V + r'\(SimdGen const&, int,')
    ns = K.one(re.escape(K.V) + r'<Word, SimdGen>::next_state\(int\)')
    if unit is None or ns is None:
        return None
    F = {}
    out = []

    class R(Client):
        def ret(self, c, val):
            out.append(snap(c))
    s = Sym(unit, P, R(), models=K.models(None)).run()
    rep.fn(unit, s)
    for c in out:
        for k, v in c.mem.items():
            o = field(k)
            if o is None:
                continue
            if isinstance(v, tuple) and v[0] == 'call':
                F['rand'] = o
            elif isinstance(v, tuple) and ('arg', 2) in tuple(_sub(v)):
                F['next'] = o
    for x in ns.insts():
        if x['op'] == 'store':
            o = field(ns.addr(x['ops'][1]))
            if o is None or o == F.get('next'):
                continue
            v = ns.val(x['ops'][0])
            if v == 1:
                F['zero'] = o
            elif isinstance(v, tuple) and v[0] == 'add' and 1 in v[1:]:
                F['count'] = o
    if set(F) != {'rand', 'next', 'zero', 'count'}:
        return None
    for c in out:
        for k, v in c.mem.items():
            if field(k) is not None and field(k) != F['rand'] and v in (('copied', ('arg', 3)), ('ld', ('arg', 3))):
                F['info'] = field(k)
    F['unit'], F['ns'], F['unitout'] = unit, ns, out
    return F


def vectors(rep, K, F):
    P = K.P
    g = K.one(re.escape(K.V) + r'<Word, SimdGen>::' + K.V + r'\(SimdGen const&, MTToolBox')
    outs = []
    if g is not None:
        class R(Client):
            def ret(self, c, val):
                outs.append(snap(c))
        rep.fn(g, Sym(g, P, R(), models=K.models(None)).run())
    else:
        rep.unk('vector', K.V, '', 'constructor not found')
    for f, o, unit in ((g, outs, False), (F['unit'], F['unitout'], True)):
        if f is None:
            continue
        i = sig(f)
        for c in o:
            w = c.where()
            r = c.mem.get(addoff(('arg', 0), F['rand']))
            st = c.state(r) if r is not None else None
            if not (isinstance(r, tuple) and r[0] == 'call'):
                rep.verdict(False if r == ('arg', 1) else None, 'vector', i + ' state', w, 'the vector does not own a copy of the generator')
            elif unit:
                rep.verdict(st == ('zstate',), 'vector', i + ' state', w, 'a unit vector does not start with the zero state')
            else:
                rep.verdict(st == ('st0', ('arg', 1)), 'vector', i + ' state', w, 'the vector does not start with the state of the generator')
            for n in ('count', 'zero'):
                v = c.mem.get(addoff(('arg', 0), F[n]))
                rep.verdict(v == 0 if isinstance(v, int) else False if v is None else None, 'vector', i + ' ' + n, w, '%s starts as %r' % (n, v))
            v = c.mem.get(addoff(('arg', 0), F['next']))
            if not unit:
                rep.verdict(v == 0 if isinstance(v, int) else False if v is None else None, 'vector', i + ' next', w, 'next starts as %r' % (v,))
                continue
            bad = None
            for p in (0, 1, 5, 31, 63):
                x = evalt(v, {('arg', 2): p})
                if x is None:
                    bad = (None, 'next = %r' % (v,))
                    break
                if x & (1 << 64) - 1 != 1 << (63 - p):
                    bad = (False, 'unit vector %d starts with next = 0x%x in a 64-bit word' % (p, x & (1 << 64) - 1))
                    break
            rep.verdict(True if bad is None else bad[0], 'vector', i + ' next', w, '' if bad is None else bad[1])
    # addition
    f = K.one(re.escape(K.V) + r'<Word, SimdGen>::add\(')
    if f is None:
        return rep.unk('vector-add', K.V, '', 'add() not found')
    i = sig(f)
    x, y = ('arg', 0), ('arg', 1)
    gx, gy = ('ld', addoff(x, F['rand'])), ('ld', addoff(y, F['rand']))

    class C(Client):
        def ret(self, c, val):
            a, b = sorted((('st0', gx), ('st0', gy)), key=repr)
            rep.verdict(c.state(gx) == ('xadd', a, b), 'vector-add', i + ' state', c.where(), 'the state after adding is %r' % (c.state(gx),))
            rep.verdict(c.state(gy) == ('st0', gy), 'vector-add', i + ' source', c.where(), 'the vector added changes')
            v = c.mem.get(addoff(x, F['next']))
            nx, ny = ('ld', addoff(x, F['next'])), ('ld', addoff(y, F['next']))
            ok = True
            for p, q in ((0b1100, 0b1010), (5, 5), (0, 7), (9, 0)):
                r = evalt(v, {nx: p, ny: q}) if v is not None else p
                if r is None:
                    ok = None
                    break
                if r != p ^ q:
                    ok = False
                    break
            rep.verdict(ok, 'vector-add', i + ' next', c.where(), 'next becomes %r' % (v,))
            for n in ('count', 'zero'):
                v = c.mem.get(addoff(x, F[n]))
                rep.verdict(v is None or v == ('ld', addoff(x, F[n])), 'vector-add', i + ' ' + n, c.where(), '%s is changed to %r' % (n, v))
    Explore(rep, ['vector-add'])(f, P, C(), models=K.models(None))


# ---------------------------------------------------------------- construction of the basis
def ctor(rep, K, F):
    f = K.one(re.escape(K.A) + r'<Word, SimdGen>::' + K.A + r'\(')
    if f is None:
        rep.unk('setup', K.A, '', 'constructor not found')
        return None
    i = sig(f)
    ty = [a['ty'] for a in f.j['args']]
    ints = [k for k, t in enumerate(ty) if t == 'i32']
    i64 = [k for k, t in enumerate(ty) if t == 'i64']
    if len(i64) != 1 or len(ints) < 2:
        rep.unk('setup', i, f.where({}), 'parameters')
        return None
    bl, mx = ints[0], ints[-1]

    class C(LoopClient):
        def call(self, c):
            if c.q == K.LV + K.V:
                self.ev(c, ('vec', c.args))
            elif c.q == K.LV + 'next_state':
                self.ev(c, ('ns', c.args))

        def store(self, c, a, v):
            if isinstance(a, tuple) and a[0] in ('ix', 'at') and isinstance(Fn.tbase(a), tuple) and Fn.tbase(a)[0] in ('call', 'ld'):
                self.ev(c, ('put', a, v))
    cl = C(f)
    if Explore(rep, ['setup'])(f, K.P, cl, us0=cl.us0, models=K.models(F), generic=True, cache=True, keepfact=lambda k: True) is None or not cl.rets:
        return None

    def leaves(w, el, n):
        if K.sfmt:
            return {('arg', bl): w, ('arg', i64[0]): 32 << 32 | 128, ('arg', 4): el, ('arg', mx): n}
        # the structure is passed as one 64-bit value; its second half is read back from memory
        return {('arg', bl): w, ('arg', i64[0]): el << 32 | 104, ('arg', mx): n, ('ld', ('at', ('new', 0), 4)): el, ('ld', ('at', ('new', 0), 0)): 104}
    A = {}
    vals = {}
    for w, el, n in ((32, 4, 607), (5, 2, 1279), (1, 3, 64)):
        e = leaves(w, el, n)
        for evs, _, c in cl.rets:
            if not sample_ok(c, e):
                continue
            for k, v in c.mem.items():
                o = field(k)
                if o is not None:
                    vals.setdefault(o, []).append((evalt(v, e), w, el, n, v))
    for o, l in sorted(vals.items()):
        if any(isinstance(x[4], tuple) and x[4][0] == 'call' for x in l):
            A['basis'] = o
        elif all(x[0] == x[3] for x in l):
            A['state'] = o
        elif all(x[0] == x[2] for x in l):
            A['el'] = o
        elif K.sfmt is False and all(x[0] == x[2] << 32 | 104 for x in l):
            A['info'] = o
    if 'info' in A:
        A['el'] = A['info'] + 4
    if 'state' not in A:
        rep.bad('setup', i + ' state size', f.where({}), 'no member holds the state size given')
        return None
    rep.ok('setup', i + ' state size', f.where({}))
    if 'basis' not in A or 'el' not in A:
        rep.unk('setup', i + ' basis', f.where({}), 'members not recognised: %s' % A)
        return A if 'basis' in A else None
    hs = {h for h, _, evs, c in cl.iters if any(x[0] == 'vec' for x in evs)}
    if len(hs) != 1:
        rep.unk('setup', i + ' unit vectors', f.where({}), 'no construction loop')
        return A
    h = hs.pop()
    for w, el in ((7, 4), (3, 2), (1, 2), (5, 1)):
        e = leaves(w, el, 1000)
        n = w * el
        r = cl.rounds(h, e)
        if r is None:
            rep.unk('setup', i + ' unit vectors', f.where({}), 'loop bound')
            return A
        at, why = {}, None
        for k in range(r[0]):
            ek = cl.at(h, k, e)
            for evs, c in cl.round_records(h, k, ek):
                for _, a in [x for x in evs if x[0] == 'vec']:
                    put = [y for y in evs if y[0] == 'put' and y[2] == a[0]]
                    if len(put) != 1 or put[0][1][0] != 'ix' or a[1] != ('arg', 1) or len(a) < 4:
                        why = 'construction not recognised'
                        continue
                    j, pos = evalt(put[0][1][3][0][0], ek), evalt(a[2], ek)
                    if j is None or pos is None:
                        why = 'index not interpretable'
                    else:
                        at[j + put[0][1][2] // 8] = pos
        rep.verdict(None if why else at == {k: k for k in range(n)}, 'setup', i + ' unit vectors', f.where({}), why or 'for %d bits of %d elements the unit vectors are placed as %s' % (w, el, str(at)[:100]))
        for evs, _, c in cl.rets:
            if not sample_ok(c, leaves(w, el, 1000)):
                continue
            gv = [x for x in evs if x[0] == 'vec']
            ns = [x for x in evs if x[0] == 'ns']
            if len(gv) != 1 or gv[0][1][1] != ('arg', 1):
                rep.verdict(False if not gv else None, 'setup', i + ' generator vector', c.where(), 'the generator itself is not added to the basis')
                continue
            p = [x for x in evs if x[0] == 'put' and x[2] == gv[0][1][0]]
            v = evalt(p[0][1][3][0][0], e) if len(p) == 1 and p[0][1][0] == 'ix' else None
            v = None if v is None else v + p[0][1][2] // 8
            rep.verdict(None if v is None else v == n, 'setup', i + ' generator vector', c.where(), 'for %d bits of %d elements the generator vector is put into slot %s' % (w, el, v))
            if len(ns) != 1:
                rep.verdict(False if not ns else None, 'setup', i + ' first output', c.where(), 'next_state() is called %d times on the generator vector' % len(ns))
            else:
                v = evalt(ns[0][1][1], e)
                rep.verdict(None if v is None else v == w, 'setup', i + ' first output', c.where(), 'the first output is taken with %s bits per element instead of %d' % (v, w))
    return A


# ---------------------------------------------------------------- next_state
def next_state(rep, K, F):
    f = F['ns']
    i = sig(f)
    this = ('arg', 0)
    g = ('ld', addoff(this, F['rand']))
    cnt, zero, nxt = (addoff(this, F[n]) for n in ('count', 'zero', 'next'))
    seen = set()
    M = K.models(F)

    class C(Client):
        def after(self, c):
            if c.q == K.LV + 'get_next':
                rep.calls()
                ok = c.args[0] == this and strip_ext(c.args[1]) == ('arg', 1)
                rep.verdict(ok, 'next-state', i + ' output', c.where(), 'outputs are not taken with the requested number of bits')
                c.us = (c.us[0] + 1, c.us[1])

        def store(self, c, a, v):
            if a == cnt:
                old = c.load(cnt)
                d = [evalt(v, {old: k}) if isinstance(old, tuple) else None for k in (10, 500)]
                if isinstance(old, tuple) and old[0] == 'add' and None in d:
                    b = old[2] if isinstance(old[1], int) else old[1]
                    d = [evalt(v, {b: k}) for k in (10, 500)]
                    d = [None if x is None else x - old[1] for x in d] if isinstance(old[1], int) else [None, None]
                if None in d or d[0] - 10 != d[1] - 500:
                    c.us = (c.us[0], None)
                elif c.us[1] is not None:
                    c.us = (c.us[0], c.us[1] + d[0] - 10)

        def backedge(self, c, h):
            n, m = c.us
            if m is None:
                rep.unk('next-state', i + ' steps', c.where(), 'counter')
            c.us = (0, None if m is None else m - n)

        def ret(self, c, val):
            n, m = c.us
            w = c.where()
            z0 = c.known('eq', ('ld', zero), 0)
            z = c.mem.get(zero)
            v = c.mem.get(nxt)
            if z0 is False:
                if n or m or v is not None:
                    rep.bad('next-state', i + ' finished', w, 'a vector already found to be zero is advanced; path ' + c.lines())
                else:
                    rep.ok('next-state', i + ' finished', w)
                return
            if m is None:
                rep.unk('next-state', i + ' steps', w, 'counter')
            else:
                rep.verdict(m == n, 'next-state', i + ' steps', w, 'the counter differs from the number of outputs taken by %s; path %s' % (m - n, c.lines()))
            if v is None:
                rep.bad('next-state', i + ' next', w, 'returns without taking an output; path ' + c.lines())
                return
            nz = c.known('ne', v, 0)
            if isinstance(z, int) and z & 1:
                if nz is True:
                    rep.bad('next-state', i + ' zero', w, 'declared zero although the output is nonzero; path ' + c.lines())
                seen.add('zero')
                return
            if z is not None and not isinstance(z, int):
                rep.unk('next-state', i + ' zero', w, 'flag %r' % (z,))
            if nz is not True:
                rep.bad('next-state', i + ' next', w, 'returns with a zero output and without declaring the vector zero; path ' + c.lines())
            else:
                rep.ok('next-state', i + ' next', w)
    if Explore(rep, ['next-state'])(f, K.P, C(), us0=(0, 0), models=M, keepfact=lambda k: True) is None:
        return

    class D(LoopClient):
        def after(self, c):
            if c.q == K.LV + 'get_next':
                self.ev(c, ('gen',))
    d = D(f)
    Explore(rep, ['next-state'])(f, K.P, d, us0=d.us0, models=M, generic=True, keepfact=lambda k: True)
    hs = {h for h, _, evs, c in d.iters if ('gen',) in evs}
    if len(hs) != 1 or 'zero' not in seen:
        return rep.unk('next-state', i + ' patience', f.where({}), 'loop shape')
    h = hs.pop()
    pre = sum(1 for e in d.entries[0][1] if e == ('gen',)) if d.entries else 0
    given = {}
    if 'info' in F:
        for k, x in enumerate(K.info):
            given[('ld', addoff(this, F['info'] + 4 * k))] = {'bitSize': 128, 'bitMode': 64, 'elementNo': 2}.get(x)
    for n in (1, 3, 19, 40, 150):
        def e(t):
            if given.get(t) is not None:
                return given[t]
            if isinstance(t, tuple) and t[0] == 'p:bitSize':
                return n
            if isinstance(t, tuple) and (t[0] == 'out' or t[0] == 'lh' and t[1] == nxt):
                return 0
            return 0 if t == ('ld', zero) else 3 if t == ('arg', 1) else None
        r = d.rounds(h, e)
        if r is None:
            return rep.unk('next-state', i + ' patience', f.where({}), 'exit condition')
        taken = pre + r[0] + sum(1 for x in r[1][2] if x == ('gen',))
        if taken < n:
            return rep.bad('next-state', i + ' patience', f.where({}), 'a vector is declared zero after %d zero outputs although the state has %d bits' % (taken, n))
    rep.ok('next-state', i + ' patience', f.where({}))


# ---------------------------------------------------------------- reduction
def reduction(rep, K, F, A):
    f = K.one(re.escape(K.A) + r'<Word, SimdGen>::get_equidist_main\(')
    if f is None:
        return rep.unk('pivot', K.A, '', 'get_equidist_main() not found')
    el = ('ld', addoff(('arg', 0), A['el']))
    v = ('arg', 1)

    def work(t):
        return t != v and isinstance(t, tuple) and v in tuple(_sub(t)) and all(evalt(t, {v: a, el: b}) == a * b for a, b in ((1, 1), (3, 4), (5, 2)))
    cfg = {'f': f, 'LV': K.LV, 'work': work, 'leaves': lambda n: {el: n}}
    M = K.models(F)
    for prop in ('P07', 'P06'):
        equi.main_fn(rep, K.P, 'SIMD', F, A, M, prop, cfg)


def forward(rep, K):
    f = K.one(re.escape(K.A) + r'<Word, SimdGen>::get_equidist\(int\)')
    if f is None:
        return
    i = sig(f)

    class C(Client):
        def ret(self, c, val):
            v = strip_ext(val)
            if isinstance(v, tuple) and v[0] == 'p:k':
                rep.verdict(v[1] == ('arg', 0) and strip_ext(v[2]) == ('arg', 1), 'report', i + ' forwards', c.where(), 'the dimension is computed for %r bits' % (v[2],))
            else:
                rep.unk('report', i + ' forwards', c.where(), 'result %r' % (v,))
    Explore(rep, ['report'])(f, K.P, C(), models=K.models(None))


# ---------------------------------------------------------------- packing of an output
class PackMachine(smp.Machine):
    """knows that a shared pointer holds the object it is given"""

    def hook(self, m, i, a, g, mem):
        d = (i.get('cdem') or '').replace('(__gnu_cxx::_Lock_policy)', '')
        n = d.split('(')[0].replace('operator->', 'operator.').replace('std::shared_ptr<', 'std::shared_ptr <')
        if n.startswith(('std::shared_ptr', 'std::__shared_ptr')):
            k, t, q = 0, '', n
            for ch in n:
                k += ch == '<'
                t += ch if k == 0 else ''
                k -= ch == '>'
            q = t.split('::')[-1].strip()
            ps = [x for x in a if isinstance(x, Ptr)]
            if not ps or g != 1:
                raise bits.Need('shared pointer')
            o = self.B.cval(ps[0].off)
            cell = (ps[0].base, o, 64)
            if q.startswith('~'):
                return None
            if q in ('operator.', 'get', 'operator*'):
                v = mem.get(cell)
                if not isinstance(v, Ptr):
                    raise bits.Need('shared pointer')
                return v
            if q == 'operator=' or q == 'shared_ptr' and len(ps) == 2 and 'shared_ptr<' in d.split('(', 1)[1]:
                mem[cell] = mem.get((ps[1].base, self.B.cval(ps[1].off), 64), Ptr('null', self.B.const(0, 64)))
                return ps[0]
            if q in ('shared_ptr', 'reset'):
                mem[cell] = ps[1] if len(ps) > 1 else Ptr('null', self.B.const(0, 64))
                return None
            raise bits.Need('shared pointer ' + q)
        return smp.Machine.hook(self, m, i, a, g, mem)


def pack(rep, K):
    name = K.name + 'pack'
    item = K.V + '::get_next'
    cases = [(32, 4, 32, b) for b in (1, 5, 32)] + [(64, 2, 64, b) for b in (1, 7, 64)] if K.sfmt else [(64, 2, 52, b) for b in (1, 7, 52)]
    try:
        for mode, el, top, b in cases:
            for lsb in ((0, 1) if K.sfmt else (0,)):
                m = PackMachine(rep, name)
                B = m.B
                X = [B.var(('out', i)) for i in range(128)]
                p, mem = m.cell(X)
                o = m.out(128)
                _, mm = m.run('smp_pack', [m.c(mode), m.c(el), m.c(b), m.c(lsb, 1), p, o], mem)
                got = m.get(mm, o, 128)
                want = [0] * 128
                for e in range(el):
                    for j in range(b):
                        want[127 - (e * b + j)] = X[e * mode + (j if lsb else top - 1 - j)]
                bad = next((i for i in range(127, -1, -1) if got[i] != want[i]), None)
                what = 'in mode %d with %d bits per element%s the bit at place %d from the top' % (mode, b, ' from the low end' if lsb else '', 127 - bad) if bad is not None else ''
                if bad is not None:
                    src = X.index(want[bad]) if want[bad] in X else None
                    what += ' is not bit %d of the output' % src if src is not None else ' is not zero'
                rep.verdict(bad is None, 'pack', item, m.where('smp_pack'), what)
    except (bits.Need, build.AnalysisBroken, TooComplex) as e:
        rep.unk('pack', item, '', str(e)[:120])


# ---------------------------------------------------------------- the analysis over all modes
def calc(rep, K):
    f = K.one(r'calc_\w+_equidistribution<')
    if f is None:
        return rep.unk('report', K.fn, '', 'not found')
    i = sig(f)
    info, outp, bl, mexp = ('arg', 3), ('arg', 1), ('arg', 2), ('arg', 4)

    class C(LoopClient):
        def __init__(self, fn):
            LoopClient.__init__(self, fn)
            self.thr = []

        def call(self, c):
            if c.q == K.AE + K.A:
                rep.calls()
                self.ev(c, ('algo', c.args, c.mem.get(('mode', c.args[1]))))

        def throw(self, c):
            self.thr.append((c.us, snap(c)))

        def after(self, c):
            if c.q == K.AE + 'get_equidist':
                rep.calls()
                self.ev(c, ('k', c.args, c.val))

        def store(self, c, a, v):
            b = Fn.tbase(a)
            if b == outp or isinstance(a, tuple) and a[0] == 'ix' and len(a[3]) == 1 and a[3][0][1] == 4:
                self.ev(c, ('put', a, v))
            elif isinstance(b, tuple) and b[0] != 'new':
                self.ev(c, ('put?',))
    cl = C(f)
    if Explore(rep, ['report'])(f, K.P, cl, us0=cl.us0, models=K.models({}), generic=True, cache=True, keepfact=lambda k: True) is None:
        return
    cl.exits = [x for x in cl.exits if not equi.is_throw(f, x[3].dst)]
    recs = [(h, evs, c) for h, rnd, evs, c in cl.iters if any(x[0] == 'algo' for x in evs)]
    if not recs:
        return rep.unk('report', i + ' modes', f.where({}), 'the analysis is not run in a loop')
    hv = recs[0][0]
    if any(h != hv for h, _, _ in recs):
        return rep.unk('report', i + ' modes', f.where({}), 'the analysis is run in several loops')

    def mode(t):
        """typestate of the measured copy: (problem or None, start term, weight term)"""
        g, s, w = 0, None, None
        first = True
        while isinstance(t, tuple) and t[0] in ('gen', 'start', 'weight'):
            if t[0] == 'gen':
                g += 1
                if first:
                    first = False
                t = t[1]
                continue
            if first:
                return 'is not advanced after its modes are set', s, w
            if t[0] == 'start':
                s = t[1] if s is None else s
            else:
                w = t[1] if w is None else w
            t = t[2]
        if t != ('copy', ('arg', 0)):
            return None if t is None or t[0] != 'copy' else 'is not a copy of the generator given', s, w
        if s is None or w is None:
            return 'has no %s mode set' % ('start' if s is None else 'weight'), s, w
        if not g:
            return 'is not advanced after its modes are set', s, w
        return '', s, w
    terms = set()
    for h, evs, c in recs:
        w = c.where()
        al = [x for x in evs if x[0] == 'algo']
        ks = [x for x in evs if x[0] == 'k']
        if len(al) != 1 or len(ks) != 1:
            rep.unk('report', i + ' modes', w, 'number of analyses per round')
            continue
        a, k = al[0], ks[0]
        why, s, wt = mode(a[2])
        if why is None:
            rep.unk('report', i + ' copy', w, 'state of the measured copy')
            continue
        rep.verdict(not why, 'report', i + ' copy', w, 'the measured copy ' + why)
        if why:
            continue
        rep.verdict(a[1][0] == k[1][0], 'report', i + ' analysis', w, 'the dimension is taken from another analysis')
        v1, v2 = strip_ext(a[1][2]), strip_ext(k[1][1])
        rep.verdict(v1 == v2 or None, 'report', i + ' bits', w, 'the analysis is set up for %r bits but asked for %r' % (v1, v2))
        sz = [x for x in a[1] if isinstance(x, tuple) and x[0] == 'p:bitSize']
        rep.verdict(True if sz else False if any(x == mexp for x in a[1][3:]) else None, 'report', i + ' state size', w, 'the state size given to the analysis is not that of the generator')
        terms.add((strip_ext(s), strip_ext(wt), v1, k[2]))
    if len(terms) != 1:
        return rep.unk('report', i + ' modes', f.where({}), '%d ways to set the modes' % len(terms)) if len(terms) else None
    sm, wm, vt, kt = terms.pop()

    def hdr(t):
        hs = {f.bof[x[1]] for x in _sub(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'phi'}
        return hs.pop() if len(hs) == 1 else None
    hs, hw, hv2 = hdr(sm), hdr(wm), hdr(vt)
    stuck = False
    for n, t in (('start', sm), ('weight', wm)):
        if not any(isinstance(x, tuple) and x and x[0] in ('phi', 'lh', 'hv', 'id') for x in _sub(t)):
            rep.bad('report', i + ' %s modes' % n, f.where({}), 'the %s mode is the same for all measurements' % n)
            stuck = True
    if hs is not None and hs == hw:
        rep.bad('report', i + ' start modes', f.where({}), 'start mode and weight mode are not varied independently')
        stuck = True
    if stuck:
        return
    if None in (hs, hw) or hv2 != hv or len({hs, hw, hv}) != 3:
        return rep.unk('report', i + ' modes', f.where({}), 'loops over the modes')
    L = cl.loopsby

    def base(m):
        """leaves of the description m = (bit mode, bits, elements)"""
        e = {bl: 5, mexp: 9973}
        for n, v in (('bitMode', m[0]), ('bitSize', m[1]), ('elementNo', m[2])):
            if n in K.info:
                e[('ld', addoff(info, 4 * K.info.index(n)))] = v
        return e
    und = []
    for m in (((32, 128, 4), (64, 128, 2)) if K.sfmt else ((52, 104, 2), (52, 208, 4))):
        inc = 2 if m[0] == 64 else 1
        mx = m[1] // 32 if K.sfmt else m[2]
        e0 = base(m)
        e0[kt] = 1

        def rng(h, t, e):
            r = cl.rounds(h, e)
            if r is None:
                return None
            return [evalt(t, cl.at(h, k, e)) for k in range(r[0])]

        # values of the modes, outermost first; the inner loops do not end early
        vs = rng(hs, sm, dict(e0))
        lab = '%d bits, %d elements' % m[1:]
        want = list(range(0, mx, inc))
        if vs is None or None in vs:
            rep.unk('report', i + ' start modes', f.where({}), 'range')
        else:
            rep.verdict(sorted(set(vs)) == want, 'report', i + ' start modes', f.where({}), 'for %s the start modes measured are %s instead of %s' % (lab, sorted(set(vs))[:9], want))
        phi_s = [x for x in _sub(sm) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'phi']
        phi_w = [x for x in _sub(wm) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'phi']
        eS = dict(e0)
        for p in phi_s:
            eS[p] = 0
        vs = rng(hw, wm, eS)
        want = list(range(inc, mx + 1, inc))
        if vs is None or None in vs:
            rep.unk('report', i + ' weight modes', f.where({}), 'range')
        else:
            rep.verdict(sorted(set(vs)) == want, 'report', i + ' weight modes', f.where({}), 'for %s the weight modes measured are %s instead of %s' % (lab, sorted(set(vs))[:9], want))
        rw = cl.rounds(hw, eS)
        if rw is None:
            und.append('weight modes')
            continue
        for kw in range(min(rw[0], 4)):
            aw = cl.at(hw, kw, eS)
            W = evalt(wm, aw)
            eW = dict(eS)
            for x in f.insts(hw):
                if x['op'] == 'phi':
                    v = aw(('phi', x['i']))
                    if v is not None:
                        eW[('phi', x['i'])] = v
            vs = rng(hv, vt, eW)
            if vs is None or None in vs or W is None:
                und.append('bit lengths')
                continue
            rep.verdict(sorted(set(vs)) == [1, 2, 3, 4, 5], 'report', i + ' bit lengths', f.where({}), 'for 5 bits the dimensions are computed for %s bits' % (vs,))
            for kv in range(min(len(vs), 5)):
                for X in (1, 2, 300):
                    e = m[2] * X - (m[2] - W // inc)
                    eX = dict(eW)
                    eX[kt] = X
                    V = vs[kv]
                    # what has to be stored for the old entries
                    for old in (-1, e - 1, e, e + 1, 5000):
                        def env(t, eX=eX, old=old):
                            if t in eX:
                                return eX[t]
                            if isinstance(t, tuple) and t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] == 'ix' and t[1][1] != outp and len(t[1][3]) == 1 and t[1][3][0][1] == 4:
                                return ('index', t[1][3][0][0], lambda j, o=t[1][2] // 4: old if j + o == V - 1 else -77)
                            return None
                        a = cl.at(hv, kv, env)
                        rr = cl.round_records(hv, kv, a)
                        got = set()
                        for evs, c in rr:
                            n = old
                            for x in evs:
                                if x[0] == 'put?':
                                    n = None
                                    break
                                if x[0] == 'put':
                                    o = equi.off_of(x[1], a)
                                    n = None if o is None else evalt(x[2], a) if o == 4 * (V - 1) else ('at', o // 4)
                            got.add(n)
                        if not rr:
                            got = {'refused'}
                        if None in got:
                            und.append('value stored')
                        else:
                            rep.verdict(True if got == {max(old, e)} else False if len(got) == 1 else None, 'report', i + ' value', f.where({}), 'for %s in mode %d a dimension of %d vectors (%d bits) over the entry %d stores %s instead of %d' % (lab, W, X, V, old, sorted(got, key=str), max(old, e)))
                    # errors
                    for d in (0, 1):
                        eT = dict(eX)
                        eT[mexp] = (e - d) * V + V - 1
                        a = cl.at(hv, kv, lambda t, eT=eT: eT.get(t))
                        thr = [c for us, c in cl.thr if sample_ok(c, a)]
                        cont = [c for evs, c in cl.round_records(hv, kv, a)]
                        if d == 0:
                            rep.verdict(True if cont and not thr else False if thr and not cont else None, 'report', i + ' bound', f.where({}), 'a dimension equal to the bound is refused')
                        else:
                            rep.verdict(True if thr and not cont else False if cont and not thr else None, 'report', i + ' bound', f.where({}), 'a dimension above the bound is accepted')
    for u in sorted(set(und)):
        rep.unk('report', i + ' ' + u, f.where({}), u)
    # the tables
    m = (32, 128, 4) if K.sfmt else (52, 104, 2)
    e0 = base(m)
    e0[kt] = 1
    kinds = {}
    for h, rnd, evs, c in cl.iters:
        for x in evs:
            if x[0] == 'put' and h not in (hs, hw, hv):
                kinds.setdefault(h, set()).add('out' if Fn.tbase(x[1]) == outp else 'tmp')
    blocks = {h: set(L[h]['blocks']) for h in L}

    def table(h, env, name, want):
        """the entries after loop h"""
        r = cl.rounds(h, env(0))
        if r is None:
            return rep.unk('report', i + ' ' + name, f.where({}), 'loop bound')
        if r[0] != 5:
            return rep.bad('report', i + ' ' + name, f.where({}), 'for 5 bits the loop runs %d times' % r[0])
        for k in range(5):
            a = cl.at(h, k, env(k))
            got = set()
            for evs, c in cl.round_records(h, k, a):
                n = 'kept'
                for x in evs:
                    if x[0] == 'put?':
                        n = None
                        break
                    if x[0] == 'put':
                        o = equi.off_of(x[1], a)
                        n = None if o is None else (o // 4, evalt(x[2], a))
                got.add(n)
            if len(got) != 1 or any(x is None or x != 'kept' and None in x for x in got):
                rep.unk('report', i + ' ' + name, f.where({}), 'entry %d' % k)
            else:
                g = got.pop()
                ok = want(k, g)
                rep.verdict(ok, 'report', i + ' ' + name, f.where({}), 'entry %d: %s' % (k, g if g == 'kept' else 'entry %d becomes %d' % g))
    init = [h for h, s in kinds.items() if s == {'out'} and not blocks[h] <= blocks[hs]]
    reset = [h for h, s in kinds.items() if s == {'tmp'}]
    merge = [h for h, s in kinds.items() if s == {'out'} and blocks[h] <= blocks[hs]]
    if len(init) == 1:
        table(init[0], lambda k: e0, 'first entries', lambda k, g: g != 'kept' and g[0] == k and g[1] >= 9973)
    else:
        rep.unk('report', i + ' first entries', f.where({}), 'no single loop')
    if len(reset) == 1:
        h = reset[0]
        table(h, lambda k: e0, 'reset', lambda k, g: g != 'kept' and g[0] == k and g[1] <= 0)
        rep.verdict(blocks[h] <= blocks[hs] and not blocks[h] <= blocks[hw], 'report', i + ' reset per start mode', f.where({}), 'the entries being maximised are not reset once for every start mode')
        for hh, rnd, evs, c in cl.iters:
            if hh == hs:
                o = [x[1] for x in evs if x[0] == 'loop']
                if h in o and hw in o:
                    rep.verdict(o.index(h) < o.index(hw), 'report', i + ' reset first', c.where(), 'the entries are reset after they were computed')
    else:
        rep.unk('report', i + ' reset', f.where({}), 'no single loop')
    if len(merge) == 1:
        h = merge[0]
        for o, w in ((2147483647, 7), (5, 7), (7, 5), (6, 6)):
            def env(k, o=o, w=w):
                def g(t):
                    if t in e0:
                        return e0[t]
                    if isinstance(t, tuple) and t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] == 'ix' and len(t[1][3]) == 1 and t[1][3][0][1] == 4:
                        q = o if t[1][1] == outp else w
                        return ('index', t[1][3][0][0], lambda j, d=t[1][2] // 4: q if j + d == k else -88)
                    return None
                return g
            table(h, env, 'smallest', lambda k, g, o=o, w=w: (o if g == 'kept' else g[1] if g[0] == k else None) == min(o, w))
        if blocks[h] <= blocks[hw]:
            rep.bad('report', i + ' smallest after the weights', f.where({}), 'the smallest over the start modes is taken before all weight modes are measured')
        for hh, rnd, evs, c in cl.iters:
            if hh == hs:
                o = [x[1] for x in evs if x[0] == 'loop']
                if h in o and hw in o:
                    rep.verdict(o.index(h) > o.index(hw), 'report', i + ' smallest after the weights', c.where(), 'the smallest over the start modes is taken before the weight modes are measured')
    else:
        rep.unk('report', i + ' smallest', f.where({}), 'no single loop')
    # the total
    T = [40, 33, 20, 11, 5]
    stray = set()

    def env(t):
        if t in e0:
            return e0[t]
        if isinstance(t, tuple) and t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] == 'ix' and t[1][1] == outp and len(t[1][3]) == 1 and t[1][3][0][1] == 4:
            def g(j, o=t[1][2] // 4):
                if 0 <= j + o < 5:
                    return T[j + o]
                stray.add(j + o)
                return 100003
            return ('index', t[1][3][0][0], g)
        return None
    want = sum(9973 // (j + 1) - T[j] for j in range(5))
    last = {}
    for evs, val, c in cl.rets:
        lp = [x[1] for x in evs if x[0] == 'loop']
        if lp and val is not None:
            last.setdefault(lp[-1], []).append((evs, val, c))
    got = set()
    for h, l in last.items():
        if h in (hs, hw, hv):
            continue
        r = cl.rounds(h, env)
        if r is None:
            got.add(None)
            continue
        a = cl.at(h, r[0], env)
        for evs, val, c in l:
            if evs[-1][2] == (0 if r[0] == 0 else 1) and sample_ok(c, a):
                got.add(evalt(val, a))
    if not got or None in got:
        rep.unk('report', i + ' total', f.where({}), 'result')
    else:
        rep.verdict(True if got == {want} else False if len(got) == 1 else None, 'report', i + ' total', f.where({}), 'the result is %s instead of the sum %d of the defects' % (sorted(got), want))


def p28(prop, tier):
    rep = Report(prop, tier)
    rep.rule('vector', 'a vector owns a copy of the generator; unit vector p has zero state and next = bit p from the top; counters start at zero')
    rep.rule('vector-add', 'adding vectors adds states and next words together and touches nothing else')
    rep.rule('setup', 'the analysis starts from the unit vectors 0..v*elements-1 and the generator itself, whose first output is taken with v bits per element; the state size is the one given')
    rep.rule('pack', 'the bits compared are the leading bits of element 0, then of element 1, ..., from the top of the word; nothing else')
    rep.rule('next-state', 'each output taken is counted; outputs are skipped only while zero; the zero flag is set only after at least as many zero outputs as the state has bits')
    rep.rule('pivot', 'each reduction step adds the pivot vector to the working vector, modifying the one with the smaller count; refill iff next became zero; ends iff the working vector is zero')
    rep.rule('minimum', 'the dimension is the least step count of the unit slots; a value above the bound is an error')
    rep.rule('report', 'for every start mode the largest over the weight modes of the scaled dimension, measured on a copy set to the two modes and advanced once; the smallest over the start modes is stored; the result is the sum of the defects')
    for name in KINDS:
        K = Kind(name)
        F = roles(rep, K)
        if F is None:
            rep.unk('vector', K.V, '', 'members not recognised')
            continue
        vectors(rep, K, F)
        next_state(rep, K, F)
        A = ctor(rep, K, F)
        if A and 'el' in A:
            reduction(rep, K, F, A)
        forward(rep, K)
        pack(rep, K)
        calc(rep, K)
    return finish(rep, 'other', 'Path-sensitive dataflow with loop summaries over the sample templates instantiated with an opaque generator; recurrences and extracted expressions evaluated at sample sizes.', floor=10)
