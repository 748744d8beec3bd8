"""P20-P23: the generators of samples/"""
import random
from ..bdd import BDD, Opaque
from ..bits import Ptr, Need
from ..facts import TooComplex
from ..build import AnalysisBroken
from ..report import Report, finish, parallel
from ..smp import Gen, Shape, xorw, andw, shl, shr, iff

NAMES = {'mt': 'MT32Search', 'rmt': 'RMT64Search', 'tinymt': 'tinymt32', 'mtgp': 'mtgp32', 'sfmt': 'sfmt', 'dsfmt': 'dSFMT',
         'xs2': 'xorshift-2', 'xs3': 'xorshift-3', 'xs4': 'xorshift-4', 'xs5': 'xorshift-5'}
WS = {'rmt': 64, 'sfmt': 128, 'dsfmt': 128}


def gen(rep, name):
    return Gen(rep, name, WS.get(name, 32), Opaque())


def words(B, n, w, tag):
    return [[B.var((tag, k, i)) for i in range(w)] for k in range(n)]


def sym(B, w, tag):
    return [B.var((tag, i)) for i in range(w)]


def temper(B, x, steps):
    for d, n, m in steps:
        s = shr(x, n) if d == 'r' else shl(x, n)
        if m is not None:
            s = andw(B, s, m)
        x = xorw(B, x, s)
    return x


def diff(B, a, b):
    """an assignment under which the words differ"""
    for i, (x, y) in enumerate(zip(a, b)):
        d = B.xor(x, y)
        if d:
            s = B.sat(d)
            return 'bit %d, for %s' % (i, ' '.join('%s=%d' % ('.'.join(str(q) for q in k) if isinstance(k, tuple) else k, v) for k, v in sorted((s or {}).items(), key=str)[:6]))
    return None


# ---------------------------------------------------------------- published recurrences
# a specification: (B, logical ring words oldest first, inline words) -> (new word, new inline words, output)
def spec_mt(B, N, mexp, pos, a, b, c):
    r = N * 32 - mexp

    def f(x, il):
        y = x[1][:r] + x[0][r:]
        n = xorw(B, x[pos % N], shr(y, 1), iff(B, y[0], a))
        return n, il, temper(B, n, [('r', 12, None), ('l', 7, b), ('l', 15, c), ('r', 18, None)])
    return f


def spec_rmt(B, N, pos, a, b, c):
    def f(x, il):
        y = x[pos % N]
        y = xorw(B, y, shl(y, 17))
        n = xorw(B, y, shr(x[0], 1), iff(B, x[0][0], a))
        return n, il, temper(B, n, [('r', 29, B.const(0x5555555555555555, 64)), ('l', 17, b), ('l', 37, c), ('r', 43, None)])
    return f


def spec_mtgp(B, N, mexp, pos, sh1, sh2, tbl, tmp):
    r = N * 32 - mexp

    def f(x, il):
        t = xorw(B, [0] * r + x[0][r:], x[1])
        t = xorw(B, t, shl(t, sh1))
        t = xorw(B, t, shr(x[pos], sh2))
        n = xorw(B, t, *[iff(B, t[k], tbl[k]) for k in range(4)])
        t = x[pos - 1]
        t = xorw(B, t, shr(t, 16))
        t = xorw(B, t, shr(t, 8))
        return n, il, xorw(B, n, *[iff(B, t[k], tmp[k]) for k in range(4)])
    return f


def spec_tinymt(B, m1, m2, tm):
    def f(x, s):
        x = xorw(B, s[0][:31] + [0], s[1], s[2])
        x = xorw(B, x, shl(x, 1))
        y = xorw(B, s[3], shr(s[3], 1), x)
        n = [s[1], xorw(B, s[2], iff(B, y[0], m1)), xorw(B, x, shl(y, 10), iff(B, y[0], m2)), y]
        t = xorw(B, n[0], shr(n[2], 8))
        return None, n, xorw(B, n[3], t, iff(B, t[0], tm))
    return f


def cat(*ws):
    return [b for w in ws for b in w]


def parts(w, n):
    return [w[i:i + n] for i in range(0, len(w), n)]


def modes(x, n, r, start, weight, lanes, prev):
    """output with start lane and weight: x newest word before, n new word, prev the previous answer"""
    q = parts(x, r) + parts(n, r)
    o = q[start and lanes - (lanes - start):][:lanes] if start else q[lanes:]
    out = o[:weight] + parts(prev, r)[weight:]
    return cat(*out), cat(*o)


def spec_sfmt(B, N, pos, sl1, sl2, sr1, sr2, msk, start=0, weight=4):
    def f(x, il):
        a, b, c, d = x[0], x[pos % N], x[N - 2], x[N - 1]
        n = xorw(B, a, shl(a, 8 * sl2), andw(B, cat(*[shr(w, sr1) for w in parts(b, 32)]), msk),
                 shr(c, 8 * sr2), cat(*[shl(w, sl1) for w in parts(d, 32)]))
        out, prev = modes(x[N - 1], n, 32, start, weight, 4, il['prev'])
        return n, {'prev': prev}, out
    return f


def spec_dsfmt(B, N, pos, sl1, msk, start=0, weight=2):
    def f(x, il):
        t, L, b = parts(x[0], 64), parts(il['lung'], 64), parts(x[pos % N], 64)
        nl = [xorw(B, shl(t[k], sl1), L[1 - k][32:] + L[1 - k][:32], b[k]) for k in range(2)]
        n = cat(*[xorw(B, shr(nl[k], 12), andw(B, nl[k], msk[k]), t[k]) for k in range(2)])
        out, prev = modes(x[N - 1], n, 64, start, weight, 2, il['prev'])
        return n, {'prev': prev, 'lung': cat(*nl)}, out
    return f


def spec_xs(B, g, h):
    """new = g(newest) ^ h(oldest)"""
    def f(x, il):
        n = xorw(B, g(x[3]), h(x[0]))
        return n, il, n
    return f


def xsh(B, *st):
    def f(x):
        for d, n in st:
            x = xorw(B, x, shr(x, n) if d == 'r' else shl(x, n))
        return x
    return f


# ---------------------------------------------------------------- following the ring
def inline_map(G, ptr, mem):
    """names the inline words of the SIMD samples: lung is what setParityValue sets, the rest is the previous output"""
    B = G.B
    byte = {}
    if G.has('smp_setpar'):
        p, m = G.cell(sym(B, G.ws, 'par'))
        _, m2 = G.run('smp_setpar', [ptr, p], {**mem, **m})
        for o, w in G.inl:
            v = G.rd(m2, ptr.base, o, w)
            if any('par' in k[:1] for k in G.names([v])):
                byte[o] = 'lung'
    lung = [(o, w) for o, w in G.inl if byte.get(o) == 'lung']
    prev = [(o, w) for o, w in G.inl if byte.get(o) != 'lung']
    for n, l in (('lung', lung), ('prev', prev)):
        if l and sum(w for _, w in l) != G.ws:
            raise Shape('the inline words are not recognised')
    return {n: l for n, l in (('lung', lung), ('prev', prev)) if l}


def follow(rep, G, ptr, mem, spec, rule, item, im=None, twice=False):
    """one advance from every position on unknown states, against the specification"""
    B = G.B
    wh = G.where('smp_next')
    N = G.N
    cur = way = rest1 = None

    def named(m):
        if not im:
            return [G.rd(m, ptr.base, o, w) for o, w in G.inl]
        r = {'prev': [0] * G.ws, 'lung': [0] * G.ws}
        r.update((n, cat(*[G.rd(m, ptr.base, o, w) for o, w in l])) for n, l in im.items())
        return r
    for t in range(N + 1):
        m, ws, _ = G.symbols(ptr, mem, 'x')
        il0 = named(m)
        out, m2 = G.step(ptr, m)
        ws2, _ = G.words(ptr, m2)
        ch = [j for j in range(N) if ws2[j] != ws[j]]
        it = '%s advance %d' % (item, t)
        if len(ch) != 1:
            if len(ch) > 1 and sum(ws2[j] == ws[j + 1] or ws2[j + 1] == ws[j] for j in range(N - 1)) >= N - 2:
                raise Shape('state kept by shifting')
            rep.bad(rule, it, wh, 'an advance changes %d of the %d state words instead of one' % (len(ch), N))
            return
        i = ch[0]
        if cur is not None:
            d = (i - cur) % N
            if way is None and d in (1, N - 1):
                way = 1 if d == 1 else -1
            if way is None or d != way % N:
                rep.bad(rule, it, wh, 'advances replace word %d and then word %d of %d, so some state word never takes part' % (cur, i, N))
                return
        cur = i
        res = {}
        for s in ((way,) if way else (1, -1)):
            x = [ws[(i + s * j) % N] for j in range(N)]
            n, il2, o = spec(x, il0)
            r = [(diff(B, ws2[i], n), 'new state word'), (diff(B, out, o), 'output')]
            if im and 'lung' in im:
                r.append((diff(B, named(m2)['lung'], il2['lung']), 'lung'))
            if twice and not any(d for d, _ in r):
                out3, _ = G.step(ptr, m2)
                _, _, o3 = spec(x[1:] + [n], il2)
                r.append((diff(B, out3, o3), 'output after next'))
            res[s] = next(('the %s differs in %s' % (w, d) for d, w in r if d), None)
        if all(res.values()):
            rep.bad(rule, it, wh, next(iter(res.values())))
            return
        if way is None and N > 2 and sum(v is None for v in res.values()) == 1:
            way = next(s for s, v in res.items() if v is None)
        rep.ok(rule, it, wh)
        mem = m2
        if t == 0:
            rest1 = G.rest(ptr, mem)
    if G.rest(ptr, mem) == rest1:
        rep.ok('cycle', item, wh)
    else:
        rep.unk('cycle', item, wh, 'the position does not return after %d advances' % N)


def safely(f):
    def g(rep, name, *a):
        try:
            f(rep, name, *a)
        except (Need, TooComplex, Shape) as e:
            rep.unk('analysis', '%s %s' % (NAMES[name], ' '.join(str(x) for x in a)), '', str(e))
    g.__name__ = f.__name__
    return g


def draws(B, vals):
    """a parameter generator that hands out these words (constants or bit vectors), then unknown ones"""
    st = {'n': 0}

    def d(w):
        k = st['n']
        st['n'] += 1
        v = vals[k] if k < len(vals) else None
        if v is None:
            return [B.var(('draw', k, i)) for i in range(w)]
        return B.const(v & ((1 << w) - 1), w) if isinstance(v, int) else v[:w]
    return d


@safely
def p20_one(rep, name, *par):
    G = gen(rep, name)
    B = G.B
    item = NAMES[name] + ''.join(' %s' % (p,) for p in par)
    c = G.c
    if name == 'mt':
        mexp, pos = par
        a, b, d = words(B, 3, 32, 'par')
        ptr, mem = G.run('smp_make', [c(mexp), c(-1), c(pos), a, b, d, c(1)], {})
        mem = G.learn(ptr, mem, 2)
        follow(rep, G, ptr, mem, spec_mt(B, G.N, mexp, pos, a, b, d), 'recurrence', item)
    elif name == 'rmt':
        mexp, pos = par
        a, b, d = words(B, 3, 64, 'par')
        ptr, mem = G.run('smp_make', [c(mexp), c(pos), a, b, d, c(1, 64)], {})
        mem = G.learn(ptr, mem, 2)
        follow(rep, G, ptr, mem, spec_rmt(B, G.N, pos, a, b, d), 'recurrence', item)
    elif name == 'mtgp':
        mexp, k = par
        ptr, mem = G.run('smp_fresh', [c(mexp), c(0)], {})
        mem = setup(G, ptr, mem, [k])
        mem = G.learn(ptr, mem, 2)
        mem, _, _ = G.symbols(ptr, mem, 'order')
        mem = setup(G, ptr, mem, [k])
        tmp = words(B, 4, 32, 'tmp')
        for k in range(4):
            p, m1 = G.cell([1] * 32)
            q, m2 = G.cell(tmp[k])
            _, mem = G.run('smp_pattern', [ptr, p, q, c(k)], {**mem, **m1, **m2})
        _, mem = G.run('smp_uptemper', [ptr], mem)
        o = G.out(0)
        _, m = G.run('smp_fields', [ptr, o], mem)
        fld = {i: G.rd(m, o.base, 4 * i, 32) for i in (2, 3, 4, 40, 41, 42, 43)}
        pos = B.cval(fld[2])
        follow(rep, G, ptr, mem, spec_mtgp(B, G.N, mexp, pos, B.cval(fld[3]), B.cval(fld[4]), [fld[i] for i in range(40, 44)], tmp), 'recurrence', NAMES[name] + ' %d pos %d' % (mexp, pos))
    elif name == 'tinymt':
        m1, m2, tm = words(B, 3, 32, 'par')
        s = words(B, 4, 32, 's')
        ptr, mem = G.run('smp_make', [c(0), m1, m2, tm], {})
        _, mem = G.run('smp_status', [ptr] + s, mem)
        x = s
        for t in range(3):
            out, mem = G.step(ptr, mem)
            _, x, o = spec_tinymt(B, m1, m2, tm)(None, x)
            d = diff(B, out, o)
            rep.verdict(d is None, 'recurrence', '%s output %d' % (item, t), G.where('smp_next'), 'differs in %s' % d)
            if d:
                break
    elif name in ('sfmt', 'dsfmt'):
        simd(rep, G, item, name, par)
    else:
        xorshift(rep, G, item, name, *par)


def setup(G, ptr, mem, vals):
    G.draws = draws(G.B, vals)
    _, mem = G.run('smp_setup', [ptr, Ptr('gen', G.B.const(0, 64))], mem)
    return mem


def simd_make(G, name, par):
    B, c = G.B, G.c
    if name == 'sfmt':
        mexp, pos, sl1, sl2, sr1, sr2 = par
        k = words(B, 8, 32, 'k')
        p, m = G.cell(cat(*k))
        ptr, mem = G.run('smp_make', [c(mexp), c(pos), c(sl1), c(sl2), c(sr1), c(sr2), p], m)
    else:
        mexp, pos, sl1 = par
        k = words(B, 6, 64, 'k')
        p, m = G.cell(cat(*k))
        ptr, mem = G.run('smp_make', [c(mexp), c(pos), c(sl1), p], m)
    return ptr, mem, k


def simd_spec(G, name, par, k, start, weight):
    if name == 'sfmt':
        return spec_sfmt(G.B, G.N, *par[1:], msk=cat(*k[:4]), start=start, weight=weight)
    return spec_dsfmt(G.B, G.N, *par[1:], msk=k[:2], start=start, weight=weight)


def simd(rep, G, item, name, par, start=0, weight=None):
    lanes = 4 if name == 'sfmt' else 2
    ptr, mem, k = simd_make(G, name, par)
    mem = G.learn(ptr, mem, 3)
    if G.N * G.ws < 256:
        raise Shape('state block')
    im = inline_map(G, ptr, mem)
    if start:
        _, mem = G.run('smp_start', [ptr, G.c(start)], mem)
    if weight:
        _, mem = G.run('smp_weight', [ptr, G.c(weight)], mem)
    follow(rep, G, ptr, mem, simd_spec(G, name, par, k, start, weight or lanes), 'output' if start or weight else 'recurrence', item, im, bool(weight))


def xs_spec(B, name, par):
    if name == 'xs2':
        a, b, c = 5, 14, 1
    elif name == 'xs5':
        a, b, c = 20, 11, 7
    if name in ('xs2', 'xs3'):
        if name == 'xs3':
            a, b, c = par
        return spec_xs(B, xsh(B, ('r', c)), xsh(B, ('l', a), ('r', b)))
    if name == 'xs5':
        return spec_xs(B, xsh(B, ('l', a)), xsh(B, ('l', b), ('r', c)))
    pat, a, b, c = par
    g = {0: [('r', a), ('l', b)], 1: [('r', a), ('l', b)], 2: [('l', a), ('r', b)], 3: [('l', a), ('r', b)],
         4: [('r', a)], 5: [('r', a)], 6: [('l', a)], 7: [('l', a)]}[pat]
    h = {0: [('l', c)], 2: [('l', c)], 1: [('r', c)], 3: [('r', c)], 4: [('r', b), ('l', c)], 6: [('r', b), ('l', c)],
         5: [('l', b), ('r', c)], 7: [('l', b), ('r', c)]}[pat]
    return spec_xs(B, xsh(B, *g), xsh(B, *h))


def xs_make(G, name, par):
    B = G.B
    ptr, mem = G.run('smp_fresh', [G.c(1)], {})
    if name in ('xs3', 'xs4'):
        a, b, c = par[-3:]
        # setUpParam takes the parameters from one draw
        v = a | b << 5 | c << 10 if name == 'xs3' else c | b << 5 | a << 10 | par[0] << 15
        mem = setup(G, ptr, mem, [v])
    return ptr, mem


def xorshift(rep, G, item, name, *par):
    import itertools
    B = G.B
    ptr, mem = xs_make(G, name, par)
    mem = G.learn(ptr, mem, 6)
    if sorted(w for _, w in G.inl) != [32] * 4 or G.N:
        raise Shape('the four words are not recognised')
    m, _, il = G.symbols(ptr, mem, 'x')
    out, m2 = G.step(ptr, m)
    _, il2 = G.words(ptr, m2)
    spec = xs_spec(B, name, par)
    bad = None
    for p in itertools.permutations(range(4)):
        x = [il[j] for j in p]
        n, _, o = spec(x, None)
        got = [il2[j] for j in p]
        want = x[1:] + [n]
        d = next((diff(B, g, w) for g, w in zip(got, want) if g != w), None) or diff(B, out, o)
        if d is None:
            rep.ok('recurrence', item, G.where('smp_next'))
            return
        if p == (0, 1, 2, 3):
            bad = d
    rep.bad('recurrence', item, G.where('smp_next'), 'whatever the order of the four words, a step is not the published one; in the order of declaration it differs in ' + bad)


def p20_jobs():
    j = []
    for mexp in (521, 607):
        n = mexp // 32 + 1
        j += [('mt', mexp, p) for p in (range(2, n) if mexp == 521 else (2, 9, n - 1))]
    j += [('rmt', 521, p) for p in range(0, 9)]
    j += [('mtgp', 521, k) for k in range(0, 5)] + [('mtgp', 607, 2)]
    j += [('tinymt',)]
    base = (607, 2, 19, 1, 7, 1)
    sf = {base}
    for i, vals in ((1, (1, 2, 3)), (2, range(1, 32)), (3, (1, 3, 5, 7)), (4, range(1, 32)), (5, (1, 3, 5, 7))):
        for v in vals:
            sf.add(base[:i] + (v,) + base[i + 1:])
    j += [('sfmt',) + p for p in sorted(sf)]
    base = (521, 1, 19)
    j += [('dsfmt',) + p for p in sorted({(521, q, 19) for q in (1, 2)} | {(521, 1, s) for s in range(1, 52)} | {(1279, q, 23) for q in (3, 5, 9)})]
    j += [('xs2',), ('xs5',)]
    j += [('xs3',) + t for t in sorted({(a, 14, 1) for a in range(32)} | {(5, b, 1) for b in range(32)} | {(5, 14, c) for c in range(32)})]
    for pat in range(8):
        j += [('xs4', pat) + t for t in sorted({(a, 14, 1) for a in range(0, 32, 3)} | {(5, b, 1) for b in range(0, 32, 3)} | {(5, 14, c) for c in range(0, 32, 3)})]
    return j


def batches(jobs, f, n=None):
    """groups the jobs of one generator so that its program is read once"""
    by = {}
    for j in jobs:
        by.setdefault(j[0], []).append(j)
    r = []
    for k, l in by.items():
        s = n or max(1, min(8, len(l) // 4))
        for i in range(s):
            if l[i::s]:
                r.append((f, (l[i::s],)))
    return r


def p20_batch(rep, jobs):
    for j in jobs:
        p20_one(rep, *j)


def p20(prop, tier):
    rep = Report(prop, tier)
    rep.rule('recurrence', 'from every position, on every state, with every parameter value (shift amounts enumerated), one advance replaces the oldest state word by the published function of the state and returns the published output')
    rep.rule('cycle', 'as many advances as there are state words bring the position back, so the positions examined are all there are')
    parallel(rep, batches(p20_jobs(), p20_batch))
    return finish(rep, 'other', 'Bit-level abstract interpretation of the sample generators with all state bits and parameter words symbolic, compared as canonical forms with the published recurrences.', floor=5)


# ---------------------------------------------------------------- P21: the state as a vector space
def concrete(G, name, mexp):
    """an object with ordinary parameters and its learned state"""
    B, c = G.B, G.c
    if name == 'mt':
        ptr, mem = G.run('smp_make', [c(mexp), c(-1), c(5), c(0x9908b0df), c(0x9d2c5680), c(0xefc60000), c(1)], {})
    elif name == 'rmt':
        ptr, mem = G.run('smp_make', [c(mexp), c(3), c(0xb5026f5aa96619e9, 64), c(0x71d67fffeda60000, 64), c(0xfff7eee000000000, 64), c(1, 64)], {})
    elif name == 'mtgp':
        ptr, mem = G.run('smp_fresh', [c(mexp), c(0x12345)], {})
        mem = setup(G, ptr, mem, [2, 0x71588353, 0xdfa887c1, 0x4ba66c6e, 0xa53da0ae])
        for k, v in enumerate((0x2f95a700, 0x60b1bc00, 0x1fe1f600, 0x0c4f3000)):
            p, m1 = G.cell([1] * 32)
            q, m2 = G.cell(c(v))
            _, mem = G.run('smp_pattern', [ptr, p, q, c(k)], {**mem, **m1, **m2})
        _, mem = G.run('smp_uptemper', [ptr], mem)
    elif name == 'tinymt':
        ptr, mem = G.run('smp_make', [c(1), c(0x8f7011ee), c(0xfc78ff1f), c(0x3793fdff)], {})
    elif name == 'sfmt':
        p, m = G.cell(cat(*[c(v) for v in (0xfdff37ff, 0xef7f3f7d, 0xff777b7d, 0x7ff7fb2f, 1, 0, 0, 0x5986f054)]))
        ptr, mem = G.run('smp_make', [c(mexp), c(2), c(15), c(3), c(13), c(3), p], m)
    elif name == 'dsfmt':
        p, m = G.cell(cat(*[c(v, 64) for v in (0x000fbfefff77efff, 0x000ffeebfbdfbfdf, 0xcfb393d661638469, 0xc166867883ae2adb, 0xccaa588000000000, 1)]))
        ptr, mem = G.run('smp_make', [c(mexp), c(1), c(19), p], m)
    else:
        ptr, mem = xs_make(G, name, (4, 5, 14, 1) if name == 'xs4' else (5, 14, 1) if name == 'xs3' else ())
    return ptr, mem


def outputs(G, ptr, mem, n):
    r = []
    for _ in range(n):
        o, mem = G.step(ptr, mem)
        r.append(o)
    return r, mem


def advanced(G, ptr, mem, k):
    for _ in range(k):
        _, mem = G.step(ptr, mem)
        mem, _, _ = G.symbols(ptr, mem, 'adv')
    return mem


def relevant(G, ptr, mem, N):
    """for each of N positions: the names of the state bits that some later output depends on"""
    sup, mems = [], []
    for t in range(N):
        m, ws, il = G.symbols(ptr, mem, 'x')
        mems.append((m, ws, il))
        o, m2 = G.step(ptr, m)
        ws2, il2 = G.words(ptr, m2)
        d = {}
        for a, b in zip(ws + il, ws2 + il2):
            for x, y in zip(a, b):
                if x > 1:
                    nm = G.B.names[G.B.node[x][0]]
                    d[nm] = {nm} if x == y else G.names([[y]])
        sup.append((G.names([o]), d))
        mem = m2
    R = [set(s) for s, _ in sup]
    ch = True
    while ch:
        ch = False
        for t in range(N - 1, -1, -1):
            n = set(sup[t][0])
            for b in R[(t + 1) % N]:
                n |= sup[t][1][b]
            if n != R[t]:
                R[t] = n
                ch = True
    return R, mems


def thrown(m):
    """condition and exception types of the throws of a run"""
    r = {}
    for g, x, _ in m.throws:
        t = next((o[1] for o in x['ops'] if o[0] == 'g'), '?')
        r[t] = m.B.or_(r.get(t, 0), g)
    return r


@safely
def p21_one(rep, name, mexp, weight, part):
    G = gen(rep, name)
    B = G.B
    item = NAMES[name] + (' %d' % mexp if mexp else '') + (' weight %d' % weight if weight else '')
    ptr, mem = concrete(G, name, mexp)
    mem0 = mem
    mem = G.learn(ptr, mem, 70 if name == 'tinymt' else 6)
    if weight:
        _, mem = G.run('smp_weight', [ptr, G.c(weight)], mem)
    N = max(G.N, 1)
    K = max(G.N, 5) + 1
    G.writes = []
    {'zero': p21_zero, 'add': p21_add, 'seed': p21_seed, 'clone': p21_clone, 'one': p21_units}[part](rep, G, item, ptr, mem0, mem, weight, N, K)
    ws_ = [x for g, x in G.writes if g]
    rep.verdict(not ws_, 'quiet', item + ' ' + part, G.where('smp_next'), 'the operations write to standard output, at %s' % (G.last.fn.where(ws_[0]) if ws_ else ''))


def p21_zero(rep, G, item, ptr, mem0, mem, weight, N, K):
    B = G.B
    R, mems = relevant(G, ptr, mem, N)
    wh = G.where('smp_iszero')
    for t, (m, ws, il) in enumerate(mems):
        v, _ = G.run('smp_iszero', [ptr], m)
        want = 1
        byname = {B.names[B.node[b][0]]: b for w in ws + il for b in w if b > 1}
        for nm in sorted(R[t], key=lambda n: -B.node[byname[n]][0]):
            want = B.and_(want, B.no(byname[nm]))
        it = '%s position %d' % (item, t)
        if v[0] == want:
            rep.ok('iszero', it, wh)
        elif B.and_(v[0], B.no(want)):
            rep.bad('iszero', it, wh, 'answers true for a state whose outputs are not all zero (%s)' % few(B.sat(B.and_(v[0], B.no(want)))))
        else:
            rep.bad('iszero', it, wh, 'answers false for a state that only outputs zero (%s)' % few(B.sat(B.and_(want, B.no(v[0])))))
    v, _ = G.run('smp_bits', [ptr], mem)
    n = B.cval(v)
    if not weight:
        k = {len(r) for r in R}
        rep.verdict(None if n is None else k == {n}, 'bitsize', item, G.where('smp_bits'), 'bitSize() is %s, but the outputs depend on %s state bits' % (n, sorted(k)))
    for t in sorted({0, 1 % N, N - 1}):
        m = mems[t][0]
        _, z = G.run('smp_zero', [ptr], m)
        v, _ = G.run('smp_iszero', [ptr], z)
        o, _ = outputs(G, ptr, z, K)
        bad = 'isZero() is not true' if v[0] != 1 else 'output %d is not zero' % next(i for i, w in enumerate(o) if any(w)) if any(any(w) for w in o) else None
        rep.verdict(bad is None, 'setzero', '%s position %d' % (item, t), G.where('smp_zero'), 'after setZero() %s' % bad)


def p21_add(rep, G, item, ptr, mem0, mem, weight, N, K):
    B = G.B
    wh = G.where('smp_add')
    for i, j in sorted({(0, 0), (0, 1 % N), (1 % N, 0), (N - 1, 1 % N), (2 % N, N // 2)}):
        m = advanced(G, ptr, mem, i)
        q, m = G.run('smp_clone', [ptr], m)
        m = advanced(G, q, m, (j - i) % N)
        m, aw, ai = G.symbols(ptr, m, 'a')
        m, bw, bi = G.symbols(q, m, 'b')
        u, m = G.run('smp_up', [q], m)
        _, s = G.run('smp_add', [ptr, u], m)
        it = '%s positions %d and %d' % (item, i, j)
        if G.words(q, s) != (bw, bi):
            rep.bad('add', it, wh, 'the added object is changed')
            continue
        sw, si = G.words(ptr, s)
        good = G.rest(ptr, s) == G.rest(ptr, m) and si == [xorw(B, x, y) for x, y in zip(ai, bi)]
        if good and G.N:
            io, jo = G.oldest(ptr, m), G.oldest(q, m)
            good = len(io) == len(jo) == 1 and all(sw[(io[0] + k) % N] == xorw(B, aw[(io[0] + k) % N], bw[(jo[0] + k) % N]) for k in range(N))
        if good:
            rep.ok('add', it, wh)
            continue
        oa, _ = outputs(G, ptr, m, K)
        ob, _ = outputs(G, q, m, K)
        os_, _ = outputs(G, ptr, s, K)
        bad = next(((k, diff(B, os_[k], xorw(B, oa[k], ob[k]))) for k in range(K) if os_[k] != xorw(B, oa[k], ob[k])), None)
        rep.verdict(bad is None, 'add', it, wh, 'output %d of the sum is not the exclusive or of the outputs: %s' % bad if bad else '')
    m, aw, ai = G.symbols(ptr, advanced(G, ptr, mem, 1), 'a')
    u, m = G.run('smp_up', [ptr], m)
    _, s = G.run('smp_add', [ptr, u], m)
    v, _ = G.run('smp_iszero', [ptr], s)
    rep.verdict(v[0] == 1, 'add', item + ' itself', wh, 'an object added to itself is not the zero state')
    G.cast = False
    r = G.call('smp_add', [ptr, Ptr('foreign', B.const(0, 64))], m)
    G.cast = True
    th = thrown(r)
    g, _, _ = G.value(r)
    if g or not th:
        rep.bad('refuse', item, wh, 'an object of another type is not refused')
    elif set(th) == {'_ZTISt16invalid_argument'}:
        same = all(G.words(ptr, mm) == (aw, ai) for _, _, mm in r.throws)
        rep.verdict(same, 'refuse', item, wh, 'the state is changed before the refusal')
    else:
        rep.bad('refuse', item, wh, 'an object of another type is refused with %s instead of std::invalid_argument' % sorted(th))


def p21_seed(rep, G, item, ptr, mem0, mem, weight, N, K):
    B = G.B
    wh = G.where('smp_seed')
    sv = sym(B, G.ws, 'seed')
    ms = []
    for k, h in enumerate((mem0, mem, advanced(G, ptr, mem, 1), advanced(G, ptr, mem, 2))):
        if k:
            h, _, _ = G.symbols(ptr, h, 'old%d' % k)
        p, m1 = G.cell(sv)
        _, s = G.run('smp_seed', [ptr, p], {**h, **m1})
        if weight:
            _, s = G.run('smp_weight', [ptr, G.c(weight)], s)
        ms.append(s)
    same = lambda a, b: G.rest(ptr, a) == G.rest(ptr, b)
    try:
        if all(G.words(ptr, s) == G.words(ptr, ms[0]) and same(s, ms[0]) for s in ms[1:]):
            rep.ok('seed', item, wh)
            return
    except Need:
        pass
    o = [outputs(G, ptr, s, K)[0] for s in ms]
    bad = next((k for k in range(K) if any(x[k] != o[0][k] for x in o)), None)
    rep.verdict(bad is None, 'seed', item, wh, 'output %s after seeding depends on what the object did before' % bad)


def p21_clone(rep, G, item, ptr, mem0, mem, weight, N, K):
    B = G.B
    wh = G.where('smp_vclone')
    for t in sorted({0, 1 % N, N - 1}):
        m = advanced(G, ptr, mem, t)
        if G.has('smp_rev'):
            _, m = G.run('smp_rev', [ptr], m)
        if G.has('smp_start'):
            _, m = G.run('smp_start', [ptr, G.c(1)], m)
        m, _, _ = G.symbols(ptr, m, 'x')
        for kind in ('smp_vclone', 'smp_clone'):
            q, s = G.run(kind, [ptr], m)
            q = Ptr(q.base, B.const(0, 64))
            it = '%s %s position %d' % (item, 'clone()' if kind == 'smp_vclone' else 'copy', t)
            d = unlike(G, s, ptr.base, q.base, {})
            if d is None:
                rep.ok('clone', it, wh)
                continue
            bad = None
            for nb in (G.ws, 7):
                a, b, sa, sb = ptr, q, s, s
                for k in range(K):
                    oa, ob = G.out(G.ws), G.out(G.ws)
                    _, sa = G.run('smp_out', [ptr, G.c(nb), oa], sa)
                    _, sb = G.run('smp_out', [q, G.c(nb), ob], sb)
                    x = diff(B, G.get(sa, oa, G.ws), G.get(sb, ob, G.ws))
                    bad = bad or (x and 'output %d of the copy differs in %s' % (k, x))
            if not bad:
                # drawing from the original must not move the copy
                _, s2 = G.step(ptr, s)
                x, y = G.step(q, s)[0], G.step(q, s2)[0]
                bad = diff(B, x, y) and 'drawing from the original changes the copy'
            if not bad:
                # reseeding the copy as the original
                p, m1 = G.cell(sym(B, G.ws, 'seed'))
                _, sa = G.run('smp_seed', [ptr, p], {**s, **m1})
                _, sb = G.run('smp_seed', [q, p], {**s, **m1})
                x, y = outputs(G, ptr, sa, K)[0], outputs(G, q, sb, K)[0]
                bad = x != y and 'the copy gives other numbers once seeded'
            rep.verdict(False if bad else None, 'clone', it, wh, bad or 'members differ at %s' % (d,))


def unlike(G, mem, a, b, seen):
    """a place where the object at b is not a copy of the one at a, None if it is one with blocks of its own"""
    if a in seen:
        return None if seen[a] == b else a
    if a == b:
        return ('shared', a)
    seen[a] = b
    for k, v in mem.items():
        if k[0] != a or isinstance(v, tuple):
            continue
        if isinstance(v, Ptr):
            w = mem.get((b, k[1], 64))
            if not isinstance(w, Ptr):
                return k
            if isinstance(v.base, tuple) and v.base[0] == 'heap':
                if v.off != w.off or not (isinstance(w.base, tuple) and w.base[0] == 'heap'):
                    return k
                d = unlike(G, mem, v.base, w.base, seen)
                if d:
                    return d
            elif v != w:
                return k
        else:
            try:
                w = G.rd(mem, b, k[1], k[2])
            except Need:
                return k
            if v != w:
                return k
    return None


def p21_units(rep, G, item, ptr, mem0, mem, weight, N, K):
    B = G.B
    wh = G.where('smp_one')
    n = B.cval(G.run('smp_bits', [ptr], mem)[0])
    seen = {}
    m, _, _ = G.symbols(ptr, advanced(G, ptr, mem, 1), 'x')
    _, z = G.run('smp_zero', [ptr], m)
    bad = None
    for k in range(n):
        _, s = G.run('smp_one', [ptr, G.c(k)], m)
        ws, il = G.words(ptr, s)
        on = [(j, i) for j, w in enumerate(ws + il) for i, b in enumerate(w) if b]
        if len(on) != 1 or any(b > 1 for w in ws + il for b in w):
            bad = 'setOneBit(%d) sets %d state bits' % (k, len(on))
        elif on[0] in seen:
            bad = 'setOneBit(%d) and setOneBit(%d) give the same state' % (seen[on[0]], k)
        elif on[0][0] < G.N and not G.mask[on[0][1]]:
            bad = 'setOneBit(%d) sets a bit outside the state' % k
        elif G.rest(ptr, s) != G.rest(ptr, z):
            bad = 'setOneBit(%d) leaves another position than setZero()' % k
        if bad:
            break
        seen[on[0]] = k
    rep.verdict(bad is None, 'unit', item, wh, bad or '')
    wh = G.where('smp_setpar')
    for t in sorted({0, 1 % N, N - 1}):
        m, ws, il = G.symbols(ptr, advanced(G, ptr, mem, t), 'x')
        pv = sym(B, G.ws, 'p')
        p, m1 = G.cell(pv)
        _, s = G.run('smp_setpar', [ptr, p], {**m, **m1})
        o = G.out(G.ws)
        _, s2 = G.run('smp_getpar', [ptr, o], s)
        got = G.get(s2, o, G.ws)
        it = '%s position %d' % (item, t)
        ws2, il2 = G.words(ptr, s)
        ch = sum(a != b for a, b in zip(ws, ws2))
        chi = sum(w for a, b, (_, w) in zip(il, il2, G.inl) if a != b)
        d = diff(B, got, pv)
        rep.verdict(d is None, 'parity', it, wh, 'getParityValue() is not the value set, in %s' % d)
        rep.verdict(ch + chi // G.ws <= 1, 'parity', it + ' rest', wh, 'setParityValue() changes %d words of the state' % (ch + chi // G.ws))


def few(s):
    return ' '.join('%s=%d' % ('.'.join(str(q) for q in k) if isinstance(k, tuple) else k, v) for k, v in sorted((s or {}).items(), key=str) if v)[:120] or 'zero'


P21 = [('mt', 521, 0), ('mt', 607, 0), ('rmt', 521, 0), ('rmt', 607, 0), ('tinymt', 0, 0), ('mtgp', 521, 0), ('mtgp', 607, 0), ('sfmt', 607, 0),
       ('sfmt', 607, 1), ('sfmt', 607, 2), ('sfmt', 607, 3), ('dsfmt', 521, 0), ('dsfmt', 521, 1), ('xs2', 0, 0), ('xs3', 0, 0), ('xs4', 0, 0), ('xs5', 0, 0)]


def p21(prop, tier):
    rep = Report(prop, tier)
    rep.rule('add', 'for all states of both objects and pairs of positions, the sum outputs the exclusive or of the outputs and the added object stays as it was')
    rep.rule('refuse', 'an object of another type is refused with std::invalid_argument, the state unchanged')
    rep.rule('iszero', 'isZero() is true exactly for the states all of whose outputs are zero')
    rep.rule('setzero', 'setZero() leads to such a state from every state and position')
    rep.rule('bitsize', 'bitSize() is the number of state bits outputs depend on')
    rep.rule('clone', 'clone() and the copy constructor give an equal object that shares nothing')
    rep.rule('seed', 'what seed() leads to depends on the seed and the parameters only')
    rep.rule('unit', 'setOneBit(k), k < bitSize(), gives distinct states with one state bit set, at the position of setZero()')
    rep.rule('parity', 'getParityValue() returns what setParityValue() set, which changes at most one state word')
    rep.rule('quiet', 'none of these writes to standard output')
    jobs = [(n, m, w, p) for n, m, w in P21 for p in ('zero', 'add', 'seed', 'clone') + (('one',) if n in ('rmt', 'sfmt', 'dsfmt') and not w else ())]
    parallel(rep, batches(jobs, p21_batch, 4))
    return finish(rep, 'other', 'Bit-level abstract interpretation of the sample generators with all state bits symbolic; the relevant bits are found by a backward closure over the supports of the canonical forms.', floor=5)


def p21_batch(rep, jobs):
    for j in jobs:
        p21_one(rep, *j)


# ---------------------------------------------------------------- P22, P27: parameters drawn and printed
def table(G, ptr, mem):
    """column name -> number event, in the order of the header; and the columns without a name"""
    he, _, _ = G.record('smp_header', ptr, mem)
    pe, g, mm = G.record('smp_param', ptr, mem)
    if g != 1:
        raise Need('getParamString does not return')
    hs = [t.strip() for _, t in G.columns(he)]
    while hs and not hs[-1]:
        hs.pop()
    ps = G.columns(pe)
    if he and not any(c and c[0][0] == 'num' for c, _ in ps):
        raise Need('no numbers seen in getParamString')
    return hs, ps


def numbers(G, ptr, mem):
    hs, ps = table(G, ptr, mem)
    r = {}
    for h, (c, t) in zip(hs, ps):
        if len(c) == 1 and c[0][0] == 'num' and not t.strip():
            r[h] = c[0][1]
    return r


def value(B, v):
    return B.cval(v) if v is not None else None


def within(rep, G, rule, item, wh, v, vals):
    """v takes exactly the given values"""
    B = G.B
    if v is None:
        rep.unk(rule, item, wh, 'column not found')
        return
    out = 1
    miss = []
    for x in vals:
        e = B.eq(v, B.const(x & ((1 << len(v)) - 1), len(v)))
        if e == 0:
            miss.append(x)
        out = B.and_(out, B.no(e))
    if out:
        a = B.sat(out)
        rep.bad(rule, item, wh, 'can become %d, outside %s' % (at(B, v, a), span(vals)))
    elif miss:
        rep.bad(rule, item, wh, 'can never become %s, although %s is the range' % (', '.join(map(str, miss[:5])), span(vals)))
    else:
        rep.ok(rule, item, wh)


def span(vals):
    l = list(vals)
    return '%s..%s' % (l[0], l[-1]) if len(l) > 4 else '{%s}' % ', '.join(map(str, l))


def at(B, v, a):
    def ev(f):
        while f > 1:
            x, lo, hi = B.node[f]
            f = hi if a.get(B.names[x], 0) else lo
        return f
    return sum(ev(b) << i for i, b in enumerate(v))


def free(rep, G, rule, item, wh, bits):
    """the bits take every combination of values: they are exclusive-or combinations of draw bits of full rank,
    or or-combinations of bits of their own"""
    B = G.B
    if bits is None:
        rep.unk(rule, item, wh, 'column not found')
        return
    fixed = [i for i, b in enumerate(bits) if b < 2]
    if fixed:
        rep.bad(rule, item, wh, 'bit %d is always %d' % (fixed[0], bits[fixed[0]]))
        return
    sup = [frozenset(G.names([[b]])) for b in bits]
    if sum(len(s) for s in sup) == len(frozenset().union(*sup)):
        rep.ok(rule, item, wh)              # each bit depends on draw bits of its own
        return
    # one value that cannot be reached is enough; each pair of bits is examined
    for i in range(len(bits)):
        for j in range(i):
            for x in (0, 1):
                for y in (0, 1):
                    if B.and_(bits[i] if x else B.no(bits[i]), bits[j] if y else B.no(bits[j])) == 0:
                        rep.bad(rule, item, wh, 'bits %d and %d can never be %d and %d' % (j, i, y, x))
                        return
    rep.unk(rule, item, wh, 'not decided whether every value is reached')


def same_word(rep, G, rule, item, wh, v, want, what):
    if v is None:
        rep.unk(rule, item, wh, 'column not found')
        return
    n = max(len(v), len(want))
    d = diff(G.B, v + [0] * (n - len(v)), want + [0] * (n - len(want)))
    rep.verdict(d is None, rule, item, wh, '%s: differs in %s' % (what, d))


@safely
def p22_one(rep, name, mexp, how):
    G = Gen(rep, name, WS.get(name, 32), BDD())
    B, c = G.B, G.c
    item = NAMES[name] + (' %d' % mexp if mexp else '') + (' ' + how if how else '')
    wh = G.where('smp_setup')
    idv = None
    # the position is drawn from its own word: order the bits of a draw from high to low for small remainders
    pre = {k: [B.var(('draw', k, i)) for i in range(63, -1, -1)][::-1] for k in range(40)}
    if name == 'mt':
        idv = c(-1) if how == 'no id' else [B.var(('id', i)) for i in range(31)] + [0]
        ptr, mem = G.run('smp_fresh', [c(mexp), idv, c(1)], {})
    elif name in ('sfmt', 'dsfmt'):
        ptr, mem = G.run('smp_fresh', [c(mexp)], {})
        if how == 'fixed':
            _, mem = G.run('smp_fixed', [ptr, c(19)], mem)
    elif name == 'rmt':
        ptr, mem = G.run('smp_fresh', [c(mexp), c(1, 64)], {})
    elif name == 'mtgp':
        idv = [B.var(('id', i)) for i in range(32)]
        ptr, mem = G.run('smp_fresh', [c(mexp), idv], {})
    elif name == 'tinymt':
        idv = [B.var(('id', i)) for i in range(32)]
        ptr, mem = G.run('smp_fresh', [idv], {})
    else:
        ptr, mem = G.run('smp_fresh', [c(1)], {})
    st = {'n': 0}

    def draw(w, ks=pre):
        k = st['n']
        st['n'] += 1
        return ks[k][:w]
    # once before with other numbers, so that what is drawn must not depend on what was there
    G.draws = lambda w: c(0x12345677 + st['n'], w) if not st.__setitem__('n', st['n'] + 1) else None
    _, mem = G.run('smp_setup', [ptr, Ptr('gen', B.const(0, 64))], mem)
    n1, st['n'] = st['n'], 0
    G.draws = draw
    _, mem = G.run('smp_setup', [ptr, Ptr('gen', B.const(0, 64))], mem)
    t = numbers(G, ptr, mem)
    N = {'mt': lambda: mexp // 32 + 1, 'rmt': lambda: mexp // 64 + 1, 'mtgp': lambda: mexp // 32 + 1, 'sfmt': lambda: mexp // 128 + 1,
         'dsfmt': lambda: (mexp - 128) // 104 + 1}.get(name, lambda: 0)()
    if name == 'mt':
        within(rep, G, 'range', item + ' pos', wh, t.get('pos'), range(2, N))
        m = t.get('mata')
        if how == 'no id':
            free(rep, G, 'free', item + ' mata', wh, m)
        else:
            free(rep, G, 'free', item + ' mata high', wh, m and m[16:])
            if m:
                same_word(rep, G, 'id', item, wh, m[:16], idv[:16], 'the low half of mata is not the id')
    elif name == 'rmt':
        within(rep, G, 'range', item + ' pos', wh, t.get('pos'), range(0, N))
        free(rep, G, 'free', item + ' mata', wh, t.get('mata'))
    elif name == 'mtgp':
        f2 = 1 << (N.bit_length() - 1)
        within(rep, G, 'range', item + ' pos', wh, t.get('pos'), range(3, N - f2) if N > 100 else range(3, N // 2))
        within(rep, G, 'range', item + ' sh1', wh, t.get('sh1'), [13])
        within(rep, G, 'range', item + ' sh2', wh, t.get('sh2'), [4])
        tb = [t.get('tbl_%d' % i) for i in range(4)]
        for i, v in enumerate(tb):
            if v is None:
                rep.unk('range', item + ' tbl_%d' % i, wh, 'column not found')
                continue
            lowbits = B.eq(v[:4], B.const(1 << i, 4))
            rep.verdict(lowbits == 0, 'range', item + ' tbl_%d' % i, wh, 'the low four bits of tbl_%d can be %d' % (i, 1 << i))
            miss = [x for x in range(16) if x != 1 << i and B.eq(v[:4], B.const(x, 4)) == 0]
            rep.verdict(not miss, 'range', item + ' tbl_%d values' % i, wh, 'the low four bits of tbl_%d are never %s' % (i, miss))
            free(rep, G, 'free', item + ' tbl_%d' % i, wh, v[20:] if i == 2 else v[4:16] if i == 3 else v[4:])
        if tb[2]:
            same_word(rep, G, 'id', item + ' tbl_2', wh, tb[2][4:20], idv[:16], 'bits 4-19 of tbl_2 are not the low half of the id')
        if tb[3]:
            same_word(rep, G, 'id', item + ' tbl_3', wh, tb[3][16:], idv[16:], 'the high half of tbl_3 is not that of the id')
    elif name == 'tinymt':
        n = pre[0][:32]
        w = shl(xorw(B, n, shl(n, 15), shl(n, 23)), 1)
        m1 = idv[:16] + w[16:]
        m2 = w[:16] + idv[16:]
        m1 = xorw(B, m1, shr(m1, 19))
        m2 = xorw(B, m2, shl(m2, 18))
        m2 = [B.no(m2[0])] + m2[1:]
        for k, want in (('mat1', m1), ('mat2', m2), ('tmat', B.const(0, 32))):
            same_word(rep, G, 'id', item + ' ' + k, wh, t.get(k), want, k + ' is not the published function of id and draw')
    elif name == 'sfmt':
        within(rep, G, 'range', item + ' pos1', wh, t.get('pos1'), range(1, N - 1))
        for k, r in (('sl1', range(1, 32)), ('sr1', range(1, 32)), ('sl2', (1, 3, 5, 7)), ('sr2', (1, 3, 5, 7))):
            within(rep, G, 'range', item + ' ' + k, wh, t.get(k), r)
        ms = [t.get('msk%d' % i) for i in (1, 2, 3, 4)]
        for i, m in enumerate(ms):
            free(rep, G, 'free', item + ' msk%d' % (i + 1), wh, m)
        if all(ms):
            free(rep, G, 'free', item + ' masks together', wh, cat(*ms))
    elif name == 'dsfmt':
        within(rep, G, 'range', item + ' pos1', wh, t.get('pos1'), range(1, N - 1))
        within(rep, G, 'range', item + ' sl1', wh, t.get('sl1'), [19] if how == 'fixed' else range(1, 52))
        for k in ('msk1', 'msk2'):
            m = t.get(k)
            free(rep, G, 'free', item + ' ' + k, wh, m and m[:52])
            rep.verdict(None if m is None else not any(m[52:]), 'range', item + ' ' + k, wh, 'reaches beyond 52 bits')
        if t.get('msk1') and t.get('msk2'):
            free(rep, G, 'free', item + ' masks together', wh, t['msk1'][:52] + t['msk2'][:52])
    else:
        ks = ('a', 'b', 'c') if name == 'xs3' else ('pat', 'a', 'b', 'c')
        vs = [t.get(k) for k in ks]
        if any(v is None for v in vs):
            rep.unk('enumerate', item, wh, 'columns not found')
            return
        use = [v[:3] if k == 'pat' else v[:5] for k, v in zip(ks, vs)]
        rest = [v[3:] if k == 'pat' else v[5:] for k, v in zip(ks, vs)]
        n = 15 if name == 'xs3' else 18
        al = cat(*use)
        if any(any(r) for r in rest):
            rep.bad('enumerate', item, wh, 'a shift amount can be 32 or more, or a pattern 8 or more')
        elif all(b > 1 for b in al) and {B.names[B.node[b][0]] for b in al} == {('draw', 0, i) for i in range(n)} and all(B.node[b][1:] in ((0, 1), (1, 0)) for b in al):
            rep.ok('enumerate', item, wh)
        else:
            bad = [i for i, b in enumerate(al) if b < 2]
            twice = len({B.node[b][0] for b in al if b > 1}) < len(al)
            if bad or twice:
                rep.bad('enumerate', item, wh, 'not every combination of parameters is reached by the numbers below 2^%d' % n)
            else:
                rep.unk('enumerate', item, wh, 'not a rearrangement of the bits of the draw')


P22 = [('mt', 521, 'no id'), ('mt', 521, 'id'), ('mt', 4423, 'id'), ('rmt', 521, ''), ('rmt', 2281, ''), ('mtgp', 521, ''), ('mtgp', 2281, ''), ('mtgp', 3217, ''),
       ('mtgp', 11213, ''), ('mtgp', 4423, ''), ('mtgp', 23209, ''), ('tinymt', 0, ''), ('sfmt', 607, ''), ('sfmt', 1279, ''), ('sfmt', 19937, ''), ('dsfmt', 521, ''), ('dsfmt', 1279, ''),
       ('dsfmt', 1279, 'fixed'), ('xs3', 0, ''), ('xs4', 0, '')]


def p22(prop, tier):
    rep = Report(prop, tier)
    rep.rule('range', 'a drawn position or shift amount takes exactly the values of its range')
    rep.rule('free', 'the free bits of a drawn matrix or mask take every value')
    rep.rule('id', 'the identifier is embedded where the generators documentation says')
    rep.rule('enumerate', 'the draws below 2^15 (2^18) are in one-to-one correspondence with the parameter combinations of the exhaustive search')
    parallel(rep, [(p22_one, j) for j in P22])
    return finish(rep, 'other', 'Bit-level abstract interpretation of setUpParam with symbolic draws and identifier; ranges read off the columns that getParamString writes.', floor=5)


@safely
def p27_one(rep, name, mexp):
    G = Gen(rep, name, WS.get(name, 32), BDD())
    B, c = G.B, G.c
    item = NAMES[name]
    wh = G.where('smp_param')
    W32 = lambda n: [B.var((n, i)) for i in range(32)]
    W64 = lambda n: [B.var((n, i)) for i in range(64)]
    want = {}
    if name == 'mt':
        want = {'mexp': c(mexp), 'id': W32('id'), 'pos': c(5), 'mata': W32('a'), 'maskb': W32('b'), 'maskc': W32('c')}
        ptr, mem = G.run('smp_make', [want[k] for k in ('mexp', 'id', 'pos', 'mata', 'maskb', 'maskc')] + [c(1)], {})
    elif name == 'rmt':
        want = {'mexp': c(mexp), 'pos': c(5), 'mata': W64('a'), 'maskb': W64('b'), 'maskc': W64('c'), 'parity': W64('p')}
        ptr, mem = G.run('smp_make', [want[k] for k in ('mexp', 'pos', 'mata', 'maskb', 'maskc')] + [c(1, 64)], {})
        p, m = G.cell(want['parity'])
        _, mem = G.run('smp_setpar', [ptr, p], {**mem, **m})
        want['maskb'] = [0] * 17 + want['maskb'][17:]
        want['maskc'] = [0] * 37 + want['maskc'][37:]
    elif name == 'tinymt':
        want = {'id': W32('id'), 'mat1': W32('a'), 'mat2': W32('b'), 'tmat': W32('c')}
        ptr, mem = G.run('smp_make', [want[k] for k in ('id', 'mat1', 'mat2', 'tmat')], {})
    elif name == 'mtgp':
        want = {'mexp': c(mexp), 'id': W32('id')}
        ptr, mem = G.run('smp_fresh', [c(mexp), want['id']], {})
        mem = setup(G, ptr, mem, [2])
        for k in range(4):
            want['tmp_%d' % k] = W32('tmp%d' % k)
            p, m1 = G.cell([1] * 32)
            q, m2 = G.cell(want['tmp_%d' % k])
            _, mem = G.run('smp_pattern', [ptr, p, q, c(k)], {**mem, **m1, **m2})
        _, mem = G.run('smp_uptemper', [ptr], mem)
        o = G.out(0)
        _, m = G.run('smp_fields', [ptr, o], mem)
        f = lambda i: G.rd(m, o.base, 4 * i, 32)
        want.update({'pos': f(2), 'sh1': f(3), 'sh2': f(4), 'mask': f(5)})
        for i in range(4):
            want['tbl_%d' % i] = f(40 + i)
        if B.cval(want['mask']) != (0xffffffff << (mexp // 32 + 1) * 32 - mexp) & 0xffffffff:
            rep.bad('column', item + ' mask', wh, 'the mask is not that of the exponent')
    elif name == 'sfmt':
        ks = ['msk%d' % i for i in (1, 2, 3, 4)] + ['parity%d' % i for i in (1, 2, 3, 4)]
        want = {'mexp': c(mexp), 'pos1': c(2), 'sl1': c(15), 'sl2': c(3), 'sr1': c(13), 'sr2': c(5)}
        want.update((k, W32(k)) for k in ks)
        p, m = G.cell(cat(*[want[k] for k in ks]))
        ptr, mem = G.run('smp_make', [want[k] for k in ('mexp', 'pos1', 'sl1', 'sl2', 'sr1', 'sr2')] + [p], m)
    elif name == 'dsfmt':
        ks = ('msk1', 'msk2', 'fix1', 'fix2', 'parity1', 'parity2')
        want = {'mexp': c(mexp), 'pos1': c(2), 'sl1': c(15)}
        want.update((k, W64(k)) for k in ks)
        p, m = G.cell(cat(*[want[k] for k in ks]))
        ptr, mem = G.run('smp_make', [want[k] for k in ('mexp', 'pos1', 'sl1')] + [p], m)
    else:
        ptr, mem = G.run('smp_fresh', [c(1)], {})
        d = [B.var(('draw', i)) for i in range(32)]
        mem = setup(G, ptr, mem, [d])
        want = {'a': d[:5], 'b': d[5:10], 'c': d[10:15]} if name == 'xs3' else {'c': d[:5], 'b': d[5:10], 'a': d[10:15], 'pat': d[15:18]}
    passes = [('', mem)]
    # parity and fixed point are found after construction
    if name in ('sfmt', 'dsfmt'):
        v = [B.var(('np', i)) for i in range(128)]
        p, m = G.cell(v)
        _, m2 = G.run('smp_setpar', [ptr, p], {**mem, **m})
        if name == 'dsfmt':
            fv = [B.var(('nf', i)) for i in range(128)]
            q, m3 = G.cell(fv)
            _, m2 = G.run('smp_fix', [ptr, q], {**m2, **m3})
        passes.append((' after setting parity', m2))
    for nm, mem in passes:
        w = dict(want)
        if nm:
            n = 32 if name == 'sfmt' else 64
            w.update(('parity%d' % (i + 1), x) for i, x in enumerate(parts(v, n)))
            if name == 'dsfmt':
                w.update(('fix%d' % (i + 1), x) for i, x in enumerate(parts(fv, 64)))
        hs, ps = table(G, ptr, mem)
        if len(ps) < len(hs):
            rep.bad('count', item + nm, wh, '%d columns for %d names' % (len(ps), len(hs)))
            continue
        if len(ps) > len(hs) and name != 'mtgp':
            rep.bad('count', item + nm, wh, '%d columns for %d names' % (len(ps), len(hs)))
            continue
        rep.ok('count', item + nm, wh)
        for k in w:
            if k not in hs:
                rep.bad('count', '%s %s%s' % (item, k, nm), wh, 'the parameter has no column')
        for h, (cl, t) in zip(hs, ps):
            it = '%s %s%s' % (item, h, nm)
            if h not in w:
                if h not in ('sha1', 'type'):
                    rep.unk('column', it, wh, 'unknown name')
                continue
            if len(cl) != 1 or cl[0][0] != 'num' or t.strip():
                rep.bad('column', it, wh, 'is not one number') if not cl and t.strip() else rep.unk('column', it, wh, 'form not recognised')
                continue
            _, bits, base, wd, fill, sig, _ = cl[0]
            same_word(rep, G, 'column', it, wh, bits, w[h], 'the column named %s holds something else' % h)
            dec = h in ('mexp', 'id', 'pos', 'pos1', 'sl1', 'sl2', 'sr1', 'sr2', 'sh1', 'sh2', 'a', 'b', 'c', 'pat')
            if dec:
                rep.verdict(base == 'dec', 'form', it, wh, 'is written in %s instead of decimal' % base)
            else:
                n = len(w[h]) // 4
                rep.verdict(base == 'hex' and wd == n and fill == '0', 'form', it, wh, 'is written in %s, width %s, filled with %r instead of %d hexadecimal digits' % (base, wd, fill, n))
        if name == 'mtgp':
            for i, (cl, t) in enumerate(ps[len(hs):len(hs) + 32]):
                src = ('tbl_%d' if i < 16 else 'tmp_%d')
                x = xorw(B, [0] * 32, *[w[src % k] for k in range(4) if (i % 16) >> k & 1])
                it = '%s table %d' % (item, i)
                if len(cl) != 1 or cl[0][0] != 'num':
                    rep.unk('column', it, wh, 'form not recognised')
                    continue
                same_word(rep, G, 'column', it, wh, cl[0][1], x, 'entry %d of the %s table is something else' % (i % 16, 'recursion' if i < 16 else 'tempering'))
                rep.verdict(cl[0][2] == 'hex', 'form', it, wh, 'is not written in hexadecimal')


P27 = [('mt', 521), ('rmt', 521), ('tinymt', 0), ('mtgp', 607), ('sfmt', 1279), ('dsfmt', 1279), ('xs3', 0), ('xs4', 0)]


def p27(prop, tier):
    rep = Report(prop, tier)
    rep.rule('count', 'getParamString writes one column for each name of getHeaderString, and every parameter has its column')
    rep.rule('column', 'the column holds the parameter of that name, for all values of the parameters')
    rep.rule('form', 'numbers, positions and shift amounts in decimal; matrices, masks and parities in zero-padded hexadecimal of full width')
    parallel(rep, [(p27_one, j) for j in P27])
    return finish(rep, 'other', 'Abstract interpretation of getHeaderString and getParamString on symbolic parameters, recording what is written to the string stream.', floor=5)


# ---------------------------------------------------------------- P23: outputs, tempering patterns, 128-bit words, certification
@safely
def p23_bits(rep, name, mexp):
    G = gen(rep, name)
    B, W = G.B, G.ws
    item = NAMES[name]
    wh = G.where('smp_out')
    ptr, mem = concrete(G, name, mexp)
    mem = G.learn(ptr, mem, 70 if name == 'tinymt' else 6)
    modes_ = [(False, '')]
    if G.has('smp_rev'):
        modes_.append((True, ' reversed'))
    if G.has('smp_isrev'):
        v, _ = G.run('smp_isrev', [ptr], mem)
        rep.verdict(v[0] == 0, 'reverse', item + ' new', G.where('smp_isrev'), 'a new object says its output is reversed')
        _, m = G.run('smp_rev', [ptr], mem)
        v, _ = G.run('smp_isrev', [ptr], m)
        rep.verdict(v[0] == 1, 'reverse', item + ' set', G.where('smp_isrev'), 'after setReverseOutput() isReverseOutput() is not true')
        _, m = G.run('smp_norev', [ptr], m)
        v, _ = G.run('smp_isrev', [ptr], m)
        rep.verdict(v[0] == 0, 'reverse', item + ' reset', G.where('smp_isrev'), 'after resetReverseOutput() isReverseOutput() is not false')
    for rv, nm in modes_:
        m = mem
        if rv:
            _, m = G.run('smp_rev', [ptr], m)
            _, m2 = G.run('smp_norev', [ptr], m)
            rep.verdict(G.rest(ptr, m2) == G.rest(ptr, mem) or None, 'reverse', item + ' back', wh, 'resetting leaves another object')
        m, ws, il = G.symbols(ptr, advanced(G, ptr, m, 1), 'x')
        full, m1 = G.step(ptr, m)
        if rv:
            _, mp = G.run('smp_norev', [ptr], m)
            plain, _ = G.step(ptr, mp)
            d = diff(B, full, plain)
            rep.verdict(d is None, 'reverse', item + ' generate()', G.where('smp_next'), 'generate() without a length depends on the reversal: %s' % d)
            full = full[::-1]
        bad = None
        for n in range(1, W + 1):
            o = G.out(W)
            _, m2 = G.run('smp_out', [ptr, G.c(n), o], m)
            got = G.get(m2, o, W)
            want = [0] * (W - n) + full[W - n:]
            d = diff(B, got, want)
            if d:
                bad = 'generate(%d) is not the upper %d bits of the%s output: %s' % (n, n, nm, d)
            elif G.words(ptr, m2) != G.words(ptr, m1) or G.rest(ptr, m2) != G.rest(ptr, m1):
                bad = 'generate(%d) leaves another state than generate()' % n
            if bad:
                break
        rep.verdict(bad is None, 'length', item + nm, wh, bad or '')


@safely
def p23_pattern(rep, name, mexp):
    G = gen(rep, name)
    B, W, c = G.B, G.ws, G.c
    item = NAMES[name]
    wh = G.where('smp_pattern')
    if name == 'mt':
        a, t0, t1 = words(B, 3, 32, 'par')
        ptr, mem = G.run('smp_make', [c(mexp), c(-1), c(5), a, t0, t1, c(1)], {})
        ts = [t0, t1]
    elif name == 'rmt':
        a, t0, t1 = words(B, 3, 64, 'par')
        ptr, mem = G.run('smp_make', [c(mexp), c(5), a, t0, t1, c(1, 64)], {})
        ts = [t0, t1]
    elif name == 'tinymt':
        m1, m2, t0 = words(B, 3, 32, 'par')
        ptr, mem = G.run('smp_make', [c(0), m1, m2, t0], {})
        ts = [t0]
    else:
        ptr, mem = concrete(G, name, mexp)
        ts = words(B, 4, 32, 'tmp')
        for k in range(4):
            p, e1 = G.cell([1] * 32)
            q, e2 = G.cell(ts[k])
            before = mem
            _, mem = G.run('smp_pattern', [ptr, p, q, c(k)], {**mem, **e1, **e2})
            new = [x for x, v in mem.items() if x[0] == ptr.base and before.get(x) != v]
            if len(new) == 1 and new[0][2] == 32:
                mem = {**mem, new[0]: ts[k]}
    place = []
    for t in ts:
        at_ = [k for k, v in mem.items() if k[0] == ptr.base and v == t]
        if len(at_) != 1:
            rep.unk('pattern', item, wh, 'the tempering words are not recognised')
            return
        place.append(at_[0])
    for k in range(len(ts)):
        mk, pt = sym(B, W, 'mask'), sym(B, W, 'pat')
        p, e1 = G.cell(mk)
        q, e2 = G.cell(pt)
        _, m = G.run('smp_pattern', [ptr, p, q, c(k)], {**mem, **e1, **e2})
        bad = None
        for j, pl in enumerate(place):
            want = [B.ite(x, y, z) for x, y, z in zip(mk, pt, ts[j])] if j == k else ts[j]
            d = diff(B, m[pl], want)
            if d and not bad:
                bad = 'the word of source bit %d %s, in %s' % (j, 'does not become (old & ~mask) | (pattern & mask)' if j == k else 'is changed', d)
        if any(m.get(x) != v for x, v in mem.items() if isinstance(v, list) and isinstance(x[0], tuple) and x[0][0] == 'heap' and x[0] != ptr.base) and not bad:
            bad = 'the state is changed'
        rep.verdict(bad is None, 'pattern', '%s source bit %d' % (item, k), wh, bad or '')


@safely
def p23_modes(rep, name, par, start, weight):
    G = gen(rep, name)
    simd(rep, G, '%s start %d weight %d' % (NAMES[name], start, weight or 0), name, par, start, weight)


def lanes64(v):
    return v[:64], v[64:]


@safely
def p23_words(rep, name, part):
    G = gen(rep, name)
    B, c = G.B, G.c
    item = NAMES[name]

    def two(f, *args):
        cells, mem = [], {}
        for a in args:
            if isinstance(a, list) and len(a) == 128:
                p, e = G.cell(a)
                mem.update(e)
                cells.append(p)
            else:
                cells.append(a)
        return cells, mem

    def res(f, *args):
        """value of the 128-bit result"""
        cells, mem = two(f, *args)
        o = G.out(128)
        _, m = G.run(f, cells + [o], mem)
        return G.get(m, o, 128)

    def chk(rule, it, f, got, want):
        d = diff(B, got, want)
        rep.verdict(d is None, rule, item + ' ' + it, G.where(f), 'differs in %s' % d)
    a, b = sym(B, 128, 'a'), sym(B, 128, 'b')
    if part == 'shift':
        bad = {'w_shl': None, 'w_shr': None}
        for n in range(128):
            for f, w in (('w_shl', shl), ('w_shr', shr)):
                d = diff(B, res(f, a, c(n)), w(a, n))
                if d and not bad[f]:
                    bad[f] = 'shifting by %d differs in %s' % (n, d)
        for f in bad:
            rep.verdict(bad[f] is None, 'word', '%s %s' % (item, 'left shift' if f == 'w_shl' else 'right shift'), G.where(f), bad[f] or '')
        return
    if part == 'position':
        bad = {}
        for n in range(129):
            if n:
                d = diff(B, res_msb(G, n), [0] * (128 - n) + [1] * n)
                if d:
                    bad.setdefault('w_msb', 'make_msb_mask(%d) is wrong, in %s' % (n, d))
            if n == 128:
                continue
            cells, mem = two('w_get', a, c(n))
            v, _ = G.run('w_get', cells, mem)
            d = diff(B, v, [a[n]] + [0] * (len(v) - 1))
            if d:
                bad.setdefault('w_get', 'getBitOfPos(%d) is wrong, in %s' % (n, d))
            x = B.var(('bit', n))
            cells, mem = two('w_set', a, c(n), [x] + [0] * 31)
            _, m = G.run('w_set', cells, mem)
            d = diff(B, G.get(m, cells[0], 128), a[:n] + [x] + a[n + 1:])
            if d:
                bad.setdefault('w_set', 'setBitOfPos(%d) is wrong, in %s' % (n, d))
        for f, nm in (('w_msb', 'make_msb_mask'), ('w_get', 'getBitOfPos'), ('w_set', 'setBitOfPos')):
            rep.verdict(f not in bad, 'word', '%s %s' % (item, nm), G.where(f), bad.get(f, ''))
        return
    chk('word', 'and', 'w_and', res('w_and', a, b), andw(B, a, b))
    chk('word', 'and_mask', 'w_andmask', res('w_andmask', a, b), andw(B, a, b))
    chk('word', 'xor', 'w_xor', res('w_xor', a, b), xorw(B, a, b))
    chk('word', 'not', 'w_not', res('w_not', a), [B.no(x) for x in a])
    for f, op in (('w_oreq', B.or_), ('w_xoreq', B.xor)):
        cells, mem = two(f, a, b)
        _, m = G.run(f, cells, mem)
        chk('word', f[2:], f, G.get(m, cells[0], 128), [op(x, y) for x, y in zip(a, b)])
    G2 = Gen(rep, name, 128, BDD())
    B2 = G2.B
    v = [(B2.var(('a', i)), B2.var(('b', i))) for i in range(128)]
    p, e1 = G2.cell([x for x, _ in v])
    q, e2 = G2.cell([y for _, y in v])
    r, _ = G2.run('w_eq', [p, q], {**e1, **e2})
    want = B2.eq([x for x, _ in v], [y for _, y in v])
    rep.verdict(r[0] == want, 'word', item + ' ==', G2.where('w_eq'), 'does not compare all bits: %s' % few(B2.sat(B2.xor(r[0], want))))
    r, _ = G2.run('w_iszero', [p], e1)
    want = B2.no(B2.any([x for x, _ in v]))
    rep.verdict(r[0] == want, 'word', item + ' isZero', G2.where('w_iszero'), 'wrong for %s' % few(B2.sat(B2.xor(r[0], want))))
    r, _ = G2.run('w_lowest', [p], e1)
    cond, val = 1, B2.const(0xffffffff, 32)
    for i in range(127, -1, -1):
        val = B2.muxw(v[i][0], B2.const(127 - i, 32), val)
    d = diff(B2, r, val)
    rep.verdict(d is None, 'word', item + ' calc_1pos', G2.where('w_lowest'), 'is not the position from the top of the lowest one bit: %s' % d)
    chk('word', 'reverse_bit', 'w_rev', res('w_rev', a), a[::-1])
    cells, mem = two('w_setzero', a)
    _, m = G.run('w_setzero', cells, mem)
    chk('word', 'setZero', 'w_setzero', G.get(m, cells[0], 128), [0] * 128)
    o = G.out(128)
    _, m = G.run('w_one', [o], {})
    chk('word', 'getOne', 'w_one', G.get(m, o, 128), [1] + [0] * 127)
    for f, w in (('w_conv64', 64), ('w_conv32', 32)):
        o = G.out(128)
        _, m = G.run(f, [a[:w], o], {})
        chk('word', 'convert %d' % w, f, G.get(m, o, 128), a[:w] + [0] * (128 - w))


def res_msb(G, n):
    o = G.out(128)
    _, m = G.run('w_msb', [G.c(n), o], {})
    return G.get(m, o, 128)


@safely
def p23_cert(rep, name, mexp, nofix):
    G = Gen(rep, name, 128, BDD())
    B, c = G.B, G.c
    item = NAMES[name] + (' without fixed point' if nofix else '')
    f = 'smp_certnofix' if nofix else 'smp_cert'
    wh = G.where(f)
    v = [[B.var((t, i)) for t in ('s', 'p', 'f')] for i in range(128)]
    s, p, fx = ([x[k] for x in v] for k in range(3))
    if name == 'sfmt':
        cell, e = G.cell(cat(*[c(0xfdff37ff)] * 4, p))
        ptr, mem = G.run('smp_make', [c(mexp), c(2), c(15), c(3), c(13), c(3), cell], e)
    else:
        cell, e = G.cell(cat(*[c(0xfbfefff77efff, 64)] * 2, fx, p))
        ptr, mem = G.run('smp_make', [c(mexp), c(1), c(19), cell], e)
    q, e = G.cell(c(1, 128))
    _, mem = G.run('smp_seed', [ptr, q], {**mem, **e})
    # the certified word: the one setParityValue writes
    pr, e = G.cell([B.var(('w', i)) for i in range(128)])
    _, mm = G.run('smp_setpar', [ptr, pr], {**mem, **e})
    o = G.out(128)

    def word(m):
        _, m2 = G.run('smp_getpar', [ptr, o], m)
        return G.get(m2, o, 128)
    pl, ent = G.cell(s)
    _, m1 = G.run('smp_setpar', [ptr, pl], {**mem, **ent})
    # keep the parity of the constructor: only the state word is taken over
    st = {k: m1[k] for k in m1 if isinstance(m1[k], list) and any(b > 1 and B.names[B.node[b][0]][0] == 's' for b in m1[k]) and (k[0] != ptr.base or not any(b > 1 and B.names[B.node[b][0]][0] in ('p', 'f') for b in mem.get(k, [])))}
    m0 = dict(mem)
    for k, x in st.items():
        G.wr(m0, k[0], k[1], k[2], x)
    if word(m0) != s:
        rep.unk('certify', item, wh, 'the certified word is not recognised')
        return
    r, m2 = G.run(f, [ptr], m0)
    base = s if nofix or name == 'sfmt' else xorw(B, s, fx)
    prod = 0
    for x, y in zip(base, p):
        prod = B.xor(prod, B.and_(x, y))
    d = diff(B, r, [prod] + [0] * 31)
    rep.verdict(d is None, 'certify', item + ' answer', wh, 'is not the inner product with the parity: %s' % d)
    n = word(m2)
    ch = xorw(B, n, s)
    bad = next((i for i in range(128) if B.and_(ch[i], prod)), None)
    rep.verdict(bad is None, 'certify', item + ' kept', wh, 'a certified state is changed')
    p2 = 0
    for x, y in zip(n if nofix or name == 'sfmt' else xorw(B, n, fx), p):
        p2 = B.xor(p2, B.and_(x, y))
    left = B.and_(B.no(p2), B.any(p))
    rep.verdict(left == 0, 'certify', item + ' repaired', wh, 'the state left does not pass: %s' % few(B.sat(left)))
    one = many = 0
    for x in ch:
        many = B.or_(many, B.and_(one, x))
        one = B.or_(one, x)
    rep.verdict(many == 0, 'certify', item + ' one bit', wh, 'more than one bit is flipped')
    same = all(m2.get(k) == v for k, v in m0.items() if isinstance(v, list) and k not in st and (k[0] == ptr.base or isinstance(k[0], tuple) and k[0][0] == 'heap'))
    rep.verdict(same, 'certify', item + ' rest', wh, 'something else than the certified word is changed')


def p23_batch(rep, jobs):
    for f, a in jobs:
        f(rep, *a)


def p23(prop, tier):
    rep = Report(prop, tier)
    rep.rule('length', 'generate(n) is the n upper bits of the output, of the reversed output in reversed mode, for n from 1 to the word size, and leaves the state generate() leaves')
    rep.rule('reverse', 'the reversal is off in a new object, follows setReverseOutput and resetReverseOutput, and does not touch generate()')
    rep.rule('pattern', 'setTemperingPattern replaces exactly the masked bits of the tempering word of the source bit')
    rep.rule('output', 'start mode k shows lanes k and up of the previous word followed by the lower lanes of the new one; weight mode w replaces the lanes from w on by those of the previous output')
    rep.rule('word', 'the operations on 128-bit words act on the number with the first 64-bit half low')
    rep.rule('certify', 'periodCertification answers whether the parity product is odd, leaves such a state alone and otherwise makes it odd with one bit')
    J = [(p23_bits, ('mt', 521)), (p23_bits, ('rmt', 521)), (p23_bits, ('tinymt', 0)), (p23_bits, ('mtgp', 521)), (p23_bits, ('sfmt', 607)), (p23_bits, ('dsfmt', 521))]
    J += [(p23_bits, ('xs%d' % k, 0)) for k in (2, 3, 4, 5)]
    J += [(p23_pattern, x) for x in (('mt', 521), ('rmt', 521), ('tinymt', 0), ('mtgp', 521))]
    J += [(p23_modes, ('sfmt', (607, 2, 19, 1, 7, 1), s, w)) for s in range(4) for w in (1, 2, 3, 4) if s or w < 4]
    J += [(p23_modes, ('dsfmt', (521, 1, 19), s, w)) for s in range(2) for w in (1, 2) if s or w < 2]
    J += [(p23_words, (n, p)) for n in ('sfmt', 'dsfmt') for p in ('shift', 'position', 'rest')]
    J += [(p23_cert, ('sfmt', 607, False)), (p23_cert, ('dsfmt', 521, False)), (p23_cert, ('dsfmt', 521, True))]
    parallel(rep, J)
    return finish(rep, 'other', 'Bit-level abstract interpretation of the sample generators on symbolic states, lengths enumerated.', floor=5)
