"""P05: how polynomials are obtained from a generator's outputs and applied to its state."""
import math
import re
from ..build import AnalysisBroken
from ..core import prog, sig, Explore, evalt, exit_iter, index_at, left_loops, loopenv, sample_ok
from ..report import Report, finish
from ..sym import Client, contains, strip_ext


def has_term(t, head):
    r = []

    def go(u):
        if isinstance(u, tuple):
            if u and u[0] == head:
                r.append(u)
            for x in u:
                go(x)
    go(t)
    return r


def leafs(t):
    """maximal opaque leaves of a polynomial expression"""
    r = set()

    def go(u):
        if isinstance(u, tuple):
            if u and u[0] in ('lcm', 'gcd', 'mul', 'div', 'add', 'mod'):
                for x in u[1:]:
                    go(x)
            elif u:
                r.add(u)
    go(t)
    return r


def bits_of(f):
    return 32 if '<unsigned int>' in f.dem else 64


# ---------------------------------------------------------------- minpoly
def minpoly(rep, P, f):
    i = sig(f)
    g = ('arg', 1)
    W = bits_of(f)
    SAM = [(s, n) for s, n in ((0, 5), (-1, 4), (-7, 9), (1, 9), (7, 5), (19937, 3), (6, 6), (0, 1))]

    def env(s, n):
        return lambda t: {('arg', 3): s, ('p:bitSize', g): n}.get(t)

    def want(s, n):
        return n if s <= 0 else s

    def sized(c, t, mul, what):
        """t must be mul * size for every sample this path admits"""
        got = None
        for s, n in SAM:
            e = env(s, n)
            if not sample_ok(c, e):
                continue
            v = evalt(t, e)
            if v is None:
                return rep.unk('minpoly', i + ' ' + what, c.where(), '%r' % (t,))
            if v != mul * want(s, n):
                return rep.bad('minpoly', i + ' ' + what, c.where(), 'with stateSize=%d and bitSize()=%d the %s is %d instead of %d' % (s, n, what, v, mul * want(s, n)))
            got = v
        if got is not None:
            rep.ok('minpoly', i + ' ' + what, c.where())

    seen = {'mps': 0, 'iter': 0}

    class C(Client):
        # us: events of the current iteration: ('gen', out term) / ('put', vec, index, value)
        def after(self, c):
            if c.m == 'generate':
                if c.args[0] != g or len(c.args) > 1:
                    rep.unk('minpoly', i + ' samples', c.where(), 'other generator or output width')
                c.us = c.us + (('gen', c.val),)
            if c.m in ('operator=', 'put') and ('ref_GF2' in c.q or 'Vec' in c.q):
                es = [(k, v) for k, v in c.mem.items() if isinstance(k, tuple) and k and k[0] == 'elem']
                for k, v in es:
                    e = ('put',) + k[1:] + (v,)
                    if e not in c.us:
                        c.us = c.us + (e,)
            if c.m == 'SetLength':
                rep.calls()
                sized(c, c.args[1], 2, 'sequence length')
            if c.m == 'MinPolySeq':
                rep.calls()
                seen['mps'] += 1
                if c.args[0] != ('arg', 0):
                    return rep.unk('minpoly', i + ' result', c.where(), 'result is not written to the caller\'s polynomial')
                sized(c, c.args[2], 1, 'degree bound')

        def edge(self, c):
            for L in left_loops(c):
                if not any(e[0] == 'put' for e in c.us) and not self.body(c, L):
                    continue
                for s, n in SAM:
                    e = env(s, n)
                    if not sample_ok(c, e):
                        continue
                    k = exit_iter(c, e, 60000 if s > 1000 else 400)
                    if k is None:
                        return rep.unk('minpoly', i + ' samples taken', c.where(), 'exit condition not interpretable')
                    k += 1 if any(x[0] == 'put' for x in c.us) else 0
                    if k != 2 * want(s, n):
                        return rep.bad('minpoly', i + ' samples taken', c.where(), 'with stateSize=%d and bitSize()=%d only %d of %d outputs are sampled' % (s, n, k, 2 * want(s, n)))
                rep.ok('minpoly', i + ' samples taken', c.where())

        def body(self, c, L):
            return any(P.cname(x) == 'generate' for b in L['blocks'] for x in f.insts(b) if x['op'] in ('call', 'invoke'))

        def backedge(self, c, h):
            if not c.us:
                return
            seen['iter'] += 1
            gens = [e for e in c.us if e[0] == 'gen']
            puts = [e for e in c.us if e[0] == 'put']
            c.us = ()
            if len(gens) != 1 or len(puts) != 1:
                if len(gens) == len(puts):
                    return rep.unk('minpoly', i + ' samples', c.where(), 'several samples per iteration')
                return rep.bad('minpoly', i + ' samples', c.where(), 'an iteration calls generate() %d times and stores %d samples; path %s' % (len(gens), len(puts), c.lines()))
            out, (_, vec, ix, val) = gens[0][1], puts[0]
            for s, n in SAM:
                e = env(s, n)
                ks = [k for k in range(min(2 * want(s, n), 40)) if sample_ok(c, loopenv(f, k, e))]
                vs = [evalt(ix, loopenv(f, k, e)) for k in ks]
                if None in vs:
                    return rep.unk('minpoly', i + ' samples', c.where(), 'index %r' % (ix,))
                if ks != vs:
                    return rep.bad('minpoly', i + ' samples', c.where(), 'with stateSize=%d and bitSize()=%d outputs %s are stored at %s' % (s, n, ks[:4], vs[:4]))
            for o, p in ((0x9d3c7a51b2e64f08, 0), (0x9d3c7a51b2e64f08, 3), (0x123456789abcdef1, 31), (0xfedcba9876543210, 17), (1, 0), (2, 0), (1 << (W - 1), W - 1), ((1 << W) - 2, 0)):
                o &= (1 << W) - 1
                if not sample_ok(c, {out: o, ('arg', 2): p}):
                    continue
                v = evalt(val, {out: o, ('arg', 2): p})
                if v is None:
                    return rep.unk('minpoly', i + ' samples', c.where(), 'sample %r' % (val,))
                if v & 1 != (o >> p) & 1:
                    return rep.bad('minpoly', i + ' samples', c.where(), 'the sample stored for output 0x%x is not its bit %d' % (o, p))
            rep.ok('minpoly', i + ' samples', c.where())
    s = Explore(rep, ['minpoly'])(f, P, C(), us0=(), generic=True, keepfact=lambda k: True)
    if s is None:
        return
    if not seen['mps']:
        rep.unk('minpoly', i + ' result', f.where({}), 'MinPolySeq is not used')
    if not seen['iter']:
        rep.unk('minpoly', i + ' samples', f.where({}), 'no sampling loop recognised')


# ---------------------------------------------------------------- LCM
def lcm(rep, P, f):
    i = sig(f)
    import math
    for alias in (None, 1, 2):
        class C(Client):
            def ret(self, c, val):
                r = c.obj(('arg', 0))
                # with an alias both names denote the argument object's initial value
                for x, y in ((12, 18), (5, 7), (8, 8), (30, 42), (1, 9), (9, 1)):
                    if alias is not None:
                        e = {('arg', 0): x, ('arg', 3 - alias): y}
                    else:
                        e = {('arg', 1): x, ('arg', 2): y}
                    v = evalt(r, e)
                    if v is None:
                        return rep.unk('lcm', i + ('' if alias is None else ' aliased %d' % alias), c.where(), '%r' % (r,))
                    if v != x * y // math.gcd(x, y):
                        return rep.bad('lcm', i + ('' if alias is None else ' when the result is operand %d' % alias), c.where(), 'computes %r instead of x*y/gcd(x,y)' % (r,))
                rep.ok('lcm', i + ('' if alias is None else ' when the result is operand %d' % alias), c.where())
        Explore(rep, ['lcm'])(f, P, C(), alias={} if alias is None else {alias: 0})


# ---------------------------------------------------------------- characteristic polynomial
def charpoly(rep, P, f):
    i = sig(f)
    g, out = ('arg', 0), ('arg', 1)
    W = bits_of(f)
    n = ('p:bitSize', g)
    seen = {'iter': 0}

    def acc(c, v):
        """is v an accumulated value: start value, lcm of one with a minimal polynomial, or the loop-carried one"""
        if v == ('init', out):
            return True
        if isinstance(v, tuple) and v[0] == 'lcm':
            a, b = v[1], v[2]
            m = [x for x in (a, b) if isinstance(x, tuple) and x[0] == 'minpoly']
            return len(m) == 1 and acc(c, b if m[0] is a else a)
        return isinstance(v, tuple) and v[0] == 'lh'

    class C(Client):
        # us: (positions measured in this iteration, exit verdict)
        def after(self, c):
            if c.m == 'minpoly':
                rep.calls()
                t = c.obj(c.args[0])
                if t[2] != g:
                    rep.unk('charpoly', i + ' position', c.where(), 'other generator')
                if len(t) > 4 and isinstance(t[4], int) and t[4] > 0 or (len(t) > 4 and not isinstance(t[4], int)):
                    rep.verdict(True if strip_ext(t[4]) == n else False, 'charpoly', i + ' size', c.where(), 'the minimal polynomials are computed for state size %r' % (t[4],))
                c.us = (c.us[0] + (t[3],), c.us[1], c.us[2])

        def backedge(self, c, h):
            ps, ex, _ = c.us
            c.us = ((), ex, 1)
            if not ps:
                return
            seen['iter'] += 1
            if len(ps) != 1:
                return rep.unk('charpoly', i + ' position', c.where(), '%d measurements per iteration' % len(ps))
            ks = [evalt(ps[0], loopenv(f, k, lambda t: None)) for k in range(W)]
            if None in ks:
                rep.unk('charpoly', i + ' position', c.where(), 'position %r' % (ps[0],))
            elif len(set(ks)) != W or min(ks) < 0 or max(ks) >= W:
                rep.bad('charpoly', i + ' position', c.where(), 'the %d iterations measure bit positions %s..., not every bit once' % (W, ks[:4]))
            else:
                rep.ok('charpoly', i + ' position', c.where())
            good, why = None, ''
            hit = False
            for k, v in c.mem.items():
                ms = {m for m in has_term(v, 'minpoly') if m[3] == ps[0]}
                if not ms or (isinstance(v, tuple) and v[0] == 'minpoly') or (isinstance(k, tuple) and k and k[0] in ('st', 'par')):
                    continue
                hit = True
                others = {t for t in leafs(v) if t not in ms}
                if len(ms) != 1 or len(others) != 1 or not acc(c, next(iter(others))):
                    continue
                m, o = ms.pop(), others.pop()
                vals = [(evalt(v, {m: x, o: y}), x * y // math.gcd(x, y)) for x, y in ((12, 18), (5, 7), (8, 8), (4, 1), (1, 9), (6, 12))]
                if any(g is None for g, _ in vals):
                    continue
                good = all(g == w for g, w in vals)
                if good:
                    break
            if good is None and not hit:
                rep.bad('charpoly', i + ' accumulate', c.where(), 'the minimal polynomial of a bit position does not enter the result; path ' + c.lines())
            else:
                rep.verdict(good, 'charpoly', i + ' accumulate', c.where(), 'the result of an iteration is not the lcm of the previous result and the minimal polynomial')

        def edge(self, c):
            for L in left_loops(c):
                if not any(P.cname(x) == 'minpoly' for b in L['blocks'] for x in f.insts(b) if x['op'] in ('call', 'invoke')):
                    continue
                ps = c.us[0]
                k = exit_iter(c, {})
                if k is not None:
                    if k > 0 and not c.us[2]:
                        c.dead = True           # the counter cannot leave before its first round
                        return
                    k += 1 if ps else 0
                    rep.verdict(k == W, 'charpoly', i + ' all positions', c.where(), 'the loop ends after %d of %d bit positions' % (k, W))
                    c.us = ((), 'all' if k == W else 'bad', 1)
                    continue
                # early exit: allowed only when the accumulated degree is the state size
                full = [t for t in {x for key in c.facts for x in key[1:]} if isinstance(t, tuple) and t[0] == 'p:deg' and acc(c, t[1]) and c.known('eq', t, n) is True]
                ge = [t for t in {x for key in c.facts for x in key[1:]} if isinstance(t, tuple) and t[0] == 'p:deg' and acc(c, t[1]) and c.known('sge', t, n) is True]
                if full or ge:
                    c.us = (ps, ('full', (full or ge)[0][1]), 1)
                    rep.ok('charpoly', i + ' early exit', c.where())
                elif any(isinstance(t, tuple) and t[0] == 'p:deg' and acc(c, t[1]) for key in c.facts for t in key[1:]) or not any(isinstance(t, tuple) and t[0].startswith('p:') for key in c.facts for t in key[1:]):
                    rep.bad('charpoly', i + ' early exit', c.where(), 'the bit positions are abandoned although the degree is not known to have reached bitSize(); path ' + c.lines())
                    c.us = (ps, 'bad', 1)
                else:
                    rep.unk('charpoly', i + ' early exit', c.where(), '')
                    c.us = (ps, 'bad', 1)

        def ret(self, c, val):
            v = c.obj(out)
            ex = c.us[1]
            if ex in (None, 'bad'):
                return rep.unk('charpoly', i + ' result', c.where(), 'return without a recognised loop exit')
            if v == ('init', out):
                k = isinstance(ex, tuple) and ex[1] == v
                if ex == 'all':
                    # nothing was ever stored into the result after the loop ran
                    return rep.verdict(None if not seen['iter'] else False, 'charpoly', i + ' result', c.where(), 'the accumulated polynomial is not stored into the result; path ' + c.lines())
                return rep.verdict(True if k else None, 'charpoly', i + ' result', c.where(), 'result unchanged')
            if isinstance(ex, tuple) and ex[0] == 'full' and ex[1] != v:
                return rep.verdict(None if acc(c, v) else False, 'charpoly', i + ' result', c.where(), 'the result is not the polynomial whose degree was tested')
            rep.verdict(True if acc(c, v) else None if isinstance(v, tuple) and v[0] in ('hv', 'ld') else False, 'charpoly', i + ' result', c.where(), 'the result is %s' % (v[0] if isinstance(v, tuple) else v,))
    s = Explore(rep, ['charpoly'])(f, P, C(), us0=((), None, 0), keepfact=lambda k: True, generic=True)
    if s is not None and not seen['iter']:
        rep.unk('charpoly', i + ' accumulate', f.where({}), 'no accumulation loop recognised')


# ---------------------------------------------------------------- annihilate
def annihilate(rep, P, f):
    i = sig(f)
    g, poly = ('arg', 0), ('init', ('arg', 1))
    seen = {'iter': 0}
    SAM = (0, 1, 5, 19937)

    def coefs(c):
        r = set()
        for key in c.facts:
            for t in key[1:]:
                for u in has_term(t, 'p:coeff'):
                    r.add(u)
        return r

    class C(Client):
        # us: events of the current iteration, in order
        def call(self, c):
            if c.m == 'add' and len(c.args) == 2 and 'NTL' not in c.q:
                c.us = c.us + (('add', c.args[0], c.args[1], c.state(c.args[1])),)
            elif c.m == 'generate':
                c.us = c.us + (('gen', c.args[0]),)
            elif c.m in ('setZero', 'clone', 'seed', 'setOneBit'):
                c.us = c.us + ((c.m, c.args[0], c.state(c.args[0])),)

        def after(self, c):
            if c.m == 'clone':
                c.us = c.us[:-1] + (('clone', c.args[0], c.state(c.args[0]), c.val),)

        def edge(self, c):
            # entering the loop: summary of what happened before it
            for L in f.loops():
                if c.dst == L['header'] and c.src not in L['blocks'] and self.body(L):
                    pre = c.us
                    cl = [e for e in pre if e[0] == 'clone']
                    if len(cl) != 1:
                        rep.unk('annihilate', i + ' start', c.where(), '%d clones' % len(cl))
                    else:
                        rep.verdict(cl[0][2] == ('st0', g), 'annihilate', i + ' start', c.where(), 'the working copy is not a copy of the generator\'s state')
                    z = c.state(g) == ('zstate',)
                    rep.verdict(z, 'annihilate', i + ' zero', c.where(), 'the generator is not cleared before the terms are added')
                    o = cl[0][3] if cl else None
                    c.us = ('pre', o, sum(1 for e in pre if e[0] == 'gen' and e[1] == o)),
            for L in left_loops(c):
                if not self.body(L):
                    continue
                ev = [e for e in c.us if e[0] != 'pre']
                for d in SAM:
                    e = lambda t: d if t == ('p:deg', poly) else None
                    k = exit_iter(c, e, 30000)
                    if k is None:
                        rep.unk('annihilate', i + ' terms', c.where(), 'exit condition not interpretable')
                        break
                    k += 1 if any(e[0] in ('gen', 'add') for e in ev) or any(P.cname(x) == 'coeff' for b in [c.src] for x in f.insts(b) if x['op'] in ('call', 'invoke')) else 0
                    if k != d + 1:
                        rep.bad('annihilate', i + ' terms', c.where(), 'for degree %d the loop considers %d of %d coefficients' % (d, k, d + 1))
                        break
                else:
                    rep.ok('annihilate', i + ' terms', c.where())

        def body(self, L):
            return any(P.cname(x) in ('add', 'coeff') for b in L['blocks'] for x in f.insts(b) if x['op'] in ('call', 'invoke'))

        def backedge(self, c, h):
            if not c.us or c.us[0][0] != 'pre':
                return
            _, other, off = c.us[0]
            ev = c.us[1:]
            c.us = c.us[:1]
            seen['iter'] += 1
            w = c.where()
            if any(e[0] not in ('add', 'gen') for e in ev):
                return rep.unk('annihilate', i + ' step', w, 'other events')
            cs = coefs(c)
            if not any(P.cname(x) == 'add' for b in f.reach for x in f.insts(b) if x['op'] in ('call', 'invoke')):
                return rep.bad('annihilate', i + ' step', w, 'no term is ever added to the generator')
            if len(cs) != 1:
                return rep.unk('annihilate', i + ' step', w, '%d coefficients tested' % len(cs))
            cf = cs.pop()
            can = [b for b in (0, 1) if sample_ok(c, lambda t: b if t == cf else None)]
            gens, adds = [e for e in ev if e[0] == 'gen'], [e for e in ev if e[0] == 'add']
            if any(e[1] != other for e in gens) or any(e[1] != g or e[2] != other for e in adds):
                return rep.unk('annihilate', i + ' step', w, 'another scheme than adding advanced copies')
            if cf[1] != poly:
                return rep.unk('annihilate', i + ' step', w, 'coefficient of another polynomial')
            if len(can) != 1:
                return rep.unk('annihilate', i + ' step', w, 'coefficient not tested')
            b = can[0]
            if len(adds) != b:
                return rep.bad('annihilate', i + ' step', w, 'a coefficient that is %s adds the copy %d times; path %s' % (('zero', 'one')[b], len(adds), c.lines()))
            table['off'] = off
            hit = False
            for d in (0, 1, 7, 40):
                for k in range(d + 1):
                    e = loopenv(f, k, lambda t: d if t == ('p:deg', poly) else None)
                    if not sample_ok(c, e):
                        continue
                    hit = True
                    ix = evalt(cf[2], e)
                    before = sum(1 for x in ev[:ev.index(adds[0])] if x[0] == 'gen') if adds else None
                    table.setdefault((d, k), {}).setdefault(b, set()).add((ix, before, len(gens), w))
            if not hit and len(gens) != 1:
                rep.bad('annihilate', i + ' step', w, 'the working copy advances %d steps for some coefficients; path %s' % (len(gens), c.lines()))
    table = {}
    s = Explore(rep, ['annihilate'])(f, P, C(), us0=(), generic=True, keepfact=lambda k: True)
    if s is None:
        return
    if not seen['iter'] or 'off' not in table:
        return rep.unk('annihilate', i + ' step', f.where({}), 'no loop recognised')
    for d in (0, 1, 7, 40):
        pos = table['off']
        for k in range(d + 1):
            cell = table.get((d, k), {})
            es = {e[:3] for v in cell.values() for e in v}
            w = next((e[3] for v in cell.values() for e in v), '')
            if any(len(v) != 1 for v in cell.values()) or not cell or any(e[0] is None for e in es) or 1 not in cell:
                return rep.unk('annihilate', i + ' step', w, 'iteration %d not determined' % k)
            one = next(iter(cell[1]))
            if len({e[2] for e in es}) != 1:
                return rep.bad('annihilate', i + ' step', w, 'the working copy advances a number of steps that depends on the coefficient')
            if one[0] != pos + one[1]:
                return rep.bad('annihilate', i + ' step', w, 'with degree %d coefficient %d is applied to the state after %d steps' % (d, one[0], pos + one[1]))
            pos += one[2]
    rep.ok('annihilate', i + ' step', f.where({}), 'coefficient k goes with k steps')


def p05(prop, tier):
    rep = Report(prop, tier)
    rep.rule('minpoly', 'minpoly() samples the given bit of exactly 2n consecutive outputs in order, n = state size (argument if positive, else bitSize()), and takes the minimal polynomial of that sequence with bound n')
    rep.rule('lcm', 'LCM(l,x,y) = x*y/gcd(x,y), also when l is one of the operands')
    rep.rule('charpoly', 'calcCharacteristicPolynomial() = lcm of the given polynomial and the minimal polynomials of all bit positions, abandoned early only at full degree')
    rep.rule('annihilate', 'annihilate(g,p) replaces the state s by the sum of A^i s over the nonzero coefficients of p')
    P = prog()
    tot = 0
    for rx, h, cnt in ((r'MTToolBox::minpoly<unsigned (int|long)>\(', minpoly, 2), (r'MTToolBox::LCM\(', lcm, 1),
                       (r'MTToolBox::calcCharacteristicPolynomial<unsigned (int|long)>\(', charpoly, 2), (r'MTToolBox::annihilate<unsigned (int|long)>\(', annihilate, 2)):
        fs = [f for f in P.fns.values() if re.search(rx, f.dem)]
        if not fs:
            raise AnalysisBroken('no definition of %s' % rx)
        for f in fs:
            h(rep, P, f)
    return finish(rep, 'other', 'Path-sensitive dataflow over minpoly, LCM, calcCharacteristicPolynomial and annihilate in both widths: per-iteration event sequences, loop-exit conditions and index expressions are compared with the defining formulas at sample points of the extracted expressions.', floor=12)
