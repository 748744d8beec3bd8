"""P06: the figures the equidistribution analysis reports.  P07: the lattice reduction behind them."""
import re
from ..build import AnalysisBroken
from ..core import KEEP, prog, sig, Explore, LoopClient, evalt, sample_ok, snap
from ..facts import Fn, addoff
from ..models import MODELS, _Prefix
from ..report import Report, finish
from ..sym import Client, Sym, strip_ext

KEEP2 = KEEP + [r'linear_generator_vector<.*>::(add|next_state|debug_print|linear_generator_vector|~linear_generator_vector)\(',
                r'AlgorithmEquidistribution<.*>::(adjust|get_equidist_main)\(', r'MTToolBox::calc_1pos\(']
LV = 'MTToolBox::linear_generator_vector::'
AE = 'MTToolBox::AlgorithmEquidistribution::'


def local_models(F):
    M = _Prefix(MODELS)

    def nothing(c):
        pass

    def add(c):
        x, y = c.args
        nx, ny = c.load(addoff(x, F['next'])), c.load(addoff(y, F['next']))
        a, b = sorted((nx, ny), key=repr)
        c.put(addoff(x, F['next']), ('xor', a, b))

    def nxt(c):
        x = c.args[0]
        t = ('id', c.x['i'])
        c.put(addoff(x, F['next']), ('nsnext', x, t))
        c.put(addoff(x, F['count']), ('nscount', x, t))
        c.put(addoff(x, F['zero']), ('nszero', x, t))

    def main(c):
        c.val = ('p:k', c.args[1], ('id', c.x['i']))

    def onepos(c):
        c.val = ('p:1pos', c.args[0])
    M[LV + 'add'] = add
    M[LV + 'next_state'] = nxt
    M[LV + 'debug_print'] = nothing
    M[LV + 'linear_generator_vector'] = nothing
    M[AE + 'get_equidist_main'] = main
    M[AE + 'adjust'] = nothing
    M['MTToolBox::calc_1pos'] = onepos
    return M


def one(P, rx):
    fs = [f for f in P.fns.values() if re.search(rx, f.dem)]
    return fs[0] if len(fs) == 1 else None


def field(k):
    """offset of a member address relative to this"""
    return 0 if k == ('arg', 0) else k[2] if isinstance(k, tuple) and k[0] == 'at' and k[1] == ('arg', 0) else None


# ---------------------------------------------------------------- roles of the members
def vec_roles(rep, P, U, rules):
    """offsets of the members of linear_generator_vector, from the unit-vector constructor and next_state()"""
    W = 32 if U == 'unsigned int' else 64
    C = r'MTToolBox::linear_generator_vector<%s>::' % U
    unit = one(P, C + r'linear_generator_vector\(MTToolBox::EquidistributionCalculatable<%s> const&, int\)' % U)
    ns = one(P, C + r'next_state\(int\)')
    if unit is None or ns is None:
        return None
    F = {}
    out = []

    class R(Client):
        def ret(self, c, val):
            out.append(snap(c))
    s = Sym(unit, P, R()).run()
    rep.fn(unit, s)
    for c in out:
        for k, v in c.mem.items():
            o = field(k)
            if o is None:
                continue
            if isinstance(v, tuple) and v[0] == 'call':
                F['rand'] = o
            elif isinstance(v, tuple) and ('arg', 2) in tuple(_sub(v)):
                F['next'] = o
    # zero flag and step counter: next_state sets the one to true and increments the other
    for x in ns.insts():
        if x['op'] == 'store':
            a = ns.addr(x['ops'][1])
            o = field(a)
            if o is None:
                continue
            v = ns.val(x['ops'][0])
            if o == F.get('next'):
                continue
            if v == 1:
                F['zero'] = o
            elif isinstance(v, tuple) and v[0] == 'add' and 1 in v[1:]:
                F['count'] = o
    if set(F) != {'rand', 'next', 'zero', 'count'}:
        return None
    F['unit'], F['ns'], F['unitout'] = unit, ns, out
    return F


def _sub(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from _sub(x)


def alg_roles(rep, P, U):
    C = r'MTToolBox::AlgorithmEquidistribution<%s>::' % U
    f = one(P, C + r'AlgorithmEquidistribution\(MTToolBox::EquidistributionCalculatable<%s> const&, int, int\)' % U)
    return f


# ---------------------------------------------------------------- constructor
def ctor(rep, P, U, F, R):
    """-> member roles {'bits','state','size','basis'} of AlgorithmEquidistribution"""
    f = alg_roles(rep, P, U)
    if f is None:
        return None
    i = sig(f)
    M = local_models(F)
    gen = ('arg', 1)

    class C(LoopClient):
        def call(self, c):
            if c.q == LV + 'linear_generator_vector':
                self.ev(c, ('vec', c.args, c.where()))
            elif c.q == LV + 'next_state':
                self.ev(c, ('ns', c.args, c.where()))

        def store(self, c, a, v):
            if isinstance(a, tuple) and (a[0] == 'ix' or a[0] == 'at') and isinstance(Fn.tbase(a), tuple) and Fn.tbase(a)[0] in ('call', 'ld'):
                self.ev(c, ('put', a, v, c.where()))
    cl = C(f)
    try:
        s = Sym(f, P, cl, us0=cl.us0, models=M, generic=True, cache=True, keepfact=lambda k: True).run()
        rep.fn(f, s)
    except Exception as e:
        if type(e).__name__ != 'TooComplex':
            raise
        rep.unk('setup', i, f.where({}), str(e))
        return None
    if not cl.rets:
        rep.unk('setup', i, f.where({}), 'no return')
        return None
    A = {}
    # roles by value at samples
    SAM = [(w, m, n) for w, m, n in ((32, 0, 101), (5, 89, 97), (1, 0, 64), (23, 521, 544))]

    def env(w, m, n):
        return lambda t: {('arg', 2): w, ('arg', 3): m, ('p:bitSize', gen): n}.get(t)
    vals = {}
    for w, m, n in SAM:
        for evs, _, c in cl.rets:
            e = env(w, m, n)
            if not sample_ok(c, e):
                continue
            for k, v in c.mem.items():
                o = field(k)
                if o is not None:
                    vals.setdefault(o, []).append((evalt(v, e), w, m, n, v))
    for o, l in vals.items():
        if any(x[0] is None for x in l):
            if any(isinstance(x[4], tuple) and x[4][0] == 'call' for x in l):
                A['basis'] = o
            continue
        if all(x[0] == x[1] for x in l):
            A['bits'] = o
        elif all(x[0] == x[1] + 1 for x in l):
            A['size'] = o
        else:
            A.setdefault('other', []).append((o, l))
    if 'bits' not in A:
        rep.bad('setup', i + ' bit length', f.where({}), 'no member holds the requested number of bits')
        return None
    st = A.pop('other', [])
    if len(st) == 1:
        o, l = st[0]
        A['state'] = o
        b = [x for x in l if x[0] != (x[2] or x[3])]
        sv = l[0][4]

        def state_of(m):
            r = set()
            for n in (101, 1000):
                for evs, _, c in cl.rets:
                    e = env(32, m, n)
                    if sample_ok(c, e):
                        for k, v in c.mem.items():
                            if field(k) == o:
                                r.add((evalt(v, e), n))
            return r
        A['state_of'] = state_of
        rep.verdict(not b, 'setup', i + ' state size', f.where({}), 'with mexp=%d and bitSize()=%d the state size used is %s' % (b[0][2], b[0][3], b[0][0]) if b else '')
    else:
        rep.unk('setup', i + ' state size', f.where({}), '%d candidate members' % len(st))
        return None
    if 'basis' not in A:
        rep.unk('setup', i + ' basis', f.where({}), 'basis is not a plain array')
        return A
    # the basis: unit vectors 0..w-1 at their index, then the generator itself
    w = 7
    e = env(w, 0, 101)
    loops = [h for h, _, evs, c in cl.iters if any(x[0] == 'vec' for x in evs)]
    if len(set(loops)) != 1:
        rep.unk('setup', i + ' basis', f.where({}), 'no construction loop')
        return A
    h = loops[0]
    r = cl.rounds(h, e)
    bad = None
    if r is None:
        rep.unk('setup', i + ' unit vectors', f.where({}), 'loop bound')
    else:
        n = r[0]
        at = {}
        for k in range(n):
            ek = cl.at(h, k, e)
            for evs, c in cl.round_records(h, k, ek):
                for x, a, wh in [x for x in evs if x[0] == 'vec']:
                    put = [y for y in evs if y[0] == 'put' and y[2] == a[0]]
                    if len(put) != 1 or put[0][1][0] != 'ix' or len(a) != 3:
                        bad = (None, 'construction not recognised')
                        continue
                    j = evalt(put[0][1][3][0][0], ek)
                    off = put[0][1][2] // 8
                    pos = evalt(a[2], ek)
                    if j is None or pos is None:
                        bad = (None, 'index not interpretable')
                    elif a[1] != gen:
                        bad = (False, 'unit vector made from another generator')
                    else:
                        at[j + off] = pos
        if bad is None and at != {k: k for k in range(w)}:
            bad = (False, 'for %d bits the unit vectors are placed as %s' % (w, at))
        rep.verdict(True if bad is None else bad[0], 'setup', i + ' unit vectors', f.where({}), '' if bad is None else bad[1])
    for evs, _, c in cl.rets:
        gv = [x for x in evs if x[0] == 'vec']
        ns = [x for x in evs if x[0] == 'ns']
        put = [x for x in evs if x[0] == 'put']
        if len(gv) != 1 or len(gv[0][1]) != 2 or gv[0][1][1] != gen:
            rep.verdict(False if len(gv) == 0 else None, 'setup', i + ' generator vector', c.where(), 'the generator itself is not added to the basis')
            continue
        p = [x for x in put if x[2] == gv[0][1][0]]
        idx = None
        if len(p) == 1 and p[0][1][0] == 'ix':
            v = evalt(p[0][1][3][0][0], lambda t: w if t in (('arg', 2), ('ld', ('at', ('arg', 0), A['bits']))) else None)
            idx = None if v is None else v + p[0][1][2] // 8
        if idx is None:
            rep.unk('setup', i + ' generator vector', c.where(), 'slot')
        else:
            rep.verdict(idx == w, 'setup', i + ' generator vector', c.where(), 'for %d bits the generator vector is put into slot %d' % (w, idx))
        # first output fetched
        if len(ns) != 1:
            rep.verdict(False if not ns else None, 'setup', i + ' first output', c.where(), 'next_state() is called %d times on the generator vector' % len(ns))
        else:
            x = ns[0][1]
            same = x[0] == gv[0][1][0]
            if not same and isinstance(x[0], tuple) and x[0][0] == 'ld' and p:
                same = x[0][1] == p[0][1]
            v = evalt(x[1], lambda t: w if t in (('arg', 2), ('ld', ('at', ('arg', 0), A['bits']))) else None)
            rep.verdict(None if v is None or not same else v == w, 'setup', i + ' first output', c.where(), 'the first output is taken with %s bits' % v)
    return A


def vec_ctors(rep, P, U, F):
    W = 32 if U == 'unsigned int' else 64
    C = r'MTToolBox::linear_generator_vector<%s>::' % U
    g = one(P, C + r'linear_generator_vector\(MTToolBox::EquidistributionCalculatable<%s> const&\)$' % U)

    def run(f):
        out = []

        class R(Client):
            def ret(self, c, val):
                out.append(snap(c))
        s = Sym(f, P, R()).run()
        rep.fn(f, s)
        return out

    def fld(c, n):
        return c.mem.get(addoff(('arg', 0), F[n]))
    for f, outs, unit in ((g, run(g) if g else [], False), (F['unit'], F['unitout'], True)):
        if f is None:
            rep.unk('vector', U + ' generator vector', '', 'constructor not found')
            continue
        i = sig(f)
        for c in outs:
            w = c.where()
            r = fld(c, 'rand')
            st = c.state(r) if r is not None else None
            if not (isinstance(r, tuple) and r[0] == 'call'):
                rep.verdict(False if r == ('arg', 1) else None, 'vector', i + ' state', w, 'the vector does not own a copy of the generator')
            elif unit:
                rep.verdict(st == ('zstate',), 'vector', i + ' state', w, 'a unit vector does not start with the zero state')
            else:
                rep.verdict(st == ('st0', ('arg', 1)), 'vector', i + ' state', w, 'the vector does not start with the generator\'s state')
            for n in ('count', 'zero'):
                v = fld(c, n)
                rep.verdict(v == 0 if isinstance(v, int) else False if v is None else None, 'vector', i + ' ' + n, w, '%s starts as %r' % (n, v))
            v = fld(c, 'next')
            if not unit:
                rep.verdict(v == 0 if isinstance(v, int) else False if v is None else None, 'vector', i + ' next', w, 'next starts as %r' % (v,))
            else:
                bad = None
                for p in (0, 1, 5, W // 2, W - 1):
                    if not sample_ok(c, {('arg', 2): p}):
                        continue
                    x = evalt(v, {('arg', 2): p})
                    if x is None:
                        bad = (None, 'next = %r' % (v,))
                        break
                    x &= (1 << W) - 1
                    if x != 1 << (W - 1 - p):
                        bad = (False, 'unit vector %d starts with next = 0x%x' % (p, x))
                        break
                rep.verdict(True if bad is None else bad[0], 'vector', i + ' next', w, '' if bad is None else bad[1])


# ---------------------------------------------------------------- add, next_state
def vec_add(rep, P, U, F):
    f = one(P, r'MTToolBox::linear_generator_vector<%s>::add\(' % U)
    if f is None:
        return rep.unk('vector-add', U, '', 'add() not found')
    i = sig(f)
    x, y = ('arg', 0), ('arg', 1)
    gx, gy = ('ld', addoff(x, F['rand'])), ('ld', addoff(y, F['rand']))

    class C(Client):
        def ret(self, c, val):
            a, b = sorted((('st0', gx), ('st0', gy)), key=repr)
            rep.verdict(c.state(gx) == ('xadd', a, b), 'vector-add', i + ' state', c.where(), 'the state after adding is %r' % (c.state(gx),))
            rep.verdict(c.state(gy) == ('st0', gy), 'vector-add', i + ' source', c.where(), 'the vector added changes')
            v = c.mem.get(addoff(x, F['next']))
            nx, ny = ('ld', addoff(x, F['next'])), ('ld', addoff(y, F['next']))
            ok = True
            for p, q in ((0b1100, 0b1010), (5, 5), (0, 7), (9, 0)):
                r = evalt(v, {nx: p, ny: q}) if v is not None else p
                if r is None:
                    ok = None
                    break
                if r != p ^ q:
                    ok = False
                    break
            rep.verdict(ok, 'vector-add', i + ' next', c.where(), 'next becomes %r' % (v,))
            for n in ('count', 'zero'):
                v = c.mem.get(addoff(x, F[n]))
                rep.verdict(v is None or v == ('ld', addoff(x, F[n])), 'vector-add', i + ' ' + n, c.where(), '%s is changed to %r' % (n, v))
    Explore(rep, ['vector-add'])(f, P, C())


def next_state(rep, P, U, F):
    f = F['ns']
    i = sig(f)
    this = ('arg', 0)
    g = ('ld', addoff(this, F['rand']))
    cnt, zero, nxt = (addoff(this, F[n]) for n in ('count', 'zero', 'next'))
    seen = set()

    class C(Client):
        # us: (outputs taken since last look, step counter matches, zero outputs seen so far, sure)
        def after(self, c):
            if c.m == 'generate':
                rep.calls()
                if c.args[0] != g:
                    rep.unk('next-state', i + ' output', c.where(), 'another generator')
                    return
                ok = len(c.args) == 2 and strip_ext(c.args[1]) == ('arg', 1)
                rep.verdict(ok, 'next-state', i + ' output', c.where(), 'outputs are not taken with the requested number of bits')
                c.us = (c.us[0] + 1, c.us[1], c.val)

        def store(self, c, a, v):
            if a == cnt:
                old = c.load(cnt)
                d = None
                if isinstance(v, tuple) and v[0] == 'add' and isinstance(v[1], int) and v[2] == old:
                    d = v[1]
                elif v == old:
                    d = 0
                elif isinstance(v, tuple) and v[0] == 'add' and isinstance(v[1], int) and isinstance(old, tuple) and old[0] == 'add' and old[2] == v[2]:
                    d = v[1] - old[1]
                elif isinstance(old, tuple) and old[0] == 'add' and isinstance(old[1], int) and old[2] == v:
                    d = -old[1]
                if d is None:
                    c.us = (c.us[0], None, c.us[2])
                elif c.us[1] is not None:
                    c.us = (c.us[0], c.us[1] + d, c.us[2])

        def backedge(self, c, h):
            n, m, o = c.us
            if m is None:
                rep.unk('next-state', i + ' steps', c.where(), 'counter')
            c.us = (0, None if m is None else m - n, None)

        def ret(self, c, val):
            n, m, o = c.us
            w = c.where()
            z0 = c.known('eq', ('ld', zero), 0)
            z = c.mem.get(zero)
            v = c.mem.get(nxt)
            if z0 is False:
                if n or m or v is not None or c.state(g) != ('st0', g):
                    rep.bad('next-state', i + ' finished', w, 'a vector already found to be zero is advanced; path ' + c.lines())
                else:
                    rep.ok('next-state', i + ' finished', w)
                return
            if m is None:
                rep.unk('next-state', i + ' steps', w, 'counter')
            else:
                rep.verdict(m == n, 'next-state', i + ' steps', w, 'the counter differs from the number of outputs taken by %s; path %s' % (m - n, c.lines()))
            if v is None:
                rep.bad('next-state', i + ' next', w, 'returns without storing an output; path ' + c.lines())
                return
            isout = isinstance(v, tuple) and (v[0] == 'out' or v[0] == 'lh')
            nz = c.known('ne', v, 0)
            if isinstance(z, int) and z & 1:
                # declared zero
                if nz is True:
                    rep.bad('next-state', i + ' zero', w, 'declared zero although the output is nonzero; path ' + c.lines())
                seen.add('zero')
                lim = [(k, r) for k, r in c.facts.items() if len(k) == 3 and any(('p:bitSize', g) in tuple(_sub(t)) for t in k[1:])]
                if not lim and not any('p:isZero' in str(k) for k in c.facts):
                    rep.bad('next-state', i + ' zero', w, 'declared zero without bound on the number of zero outputs; path ' + c.lines())
                return
            if z is not None and not isinstance(z, int):
                rep.unk('next-state', i + ' zero', w, 'flag %r' % (z,))
            if nz is not True:
                rep.bad('next-state', i + ' next', w, 'returns with a zero output and without declaring the vector zero; path ' + c.lines())
            elif not isout:
                rep.unk('next-state', i + ' next', w, 'next = %r' % (v,))
            else:
                rep.ok('next-state', i + ' next', w)
    s = Explore(rep, ['next-state'])(f, P, C(), us0=(0, 0, None), keepfact=lambda k: True)
    if s is None:
        return
    # how many zero outputs are seen before the vector is declared zero

    class D(LoopClient):
        def after(self, c):
            if c.m == 'generate':
                self.ev(c, ('gen',))

        def onedge(self, c):
            pass

        def store(self, c, a, v):
            if a == zero and v == 1:
                self.ev(c, ('zero',))
    d = D(f)
    Explore(rep, ['next-state'])(f, P, d, us0=d.us0, generic=True, keepfact=lambda k: True)
    hs = {h for h, _, evs, c in d.iters if ('gen',) in evs}
    if len(hs) != 1 or 'zero' not in seen:
        return rep.unk('next-state', i + ' patience', f.where({}), 'loop shape')
    h = hs.pop()
    pre = sum(1 for e in d.entries[0][1] if e == ('gen',)) if d.entries else 0
    for n, bl in ((1, 1), (3, 2), (19, 5), (7, 32)):
        # all outputs are zero: every exit that needs a nonzero output is impossible
        e = lambda t: n if t == ('p:bitSize', g) else bl if t == ('arg', 1) else 0 if isinstance(t, tuple) and (t[0] == 'out' or (t[0] == 'lh' and t[1] == nxt)) else 0 if t == ('ld', zero) else None
        r = d.rounds(h, e)
        if r is None:
            return rep.unk('next-state', i + ' patience', f.where({}), 'exit condition')
        taken = pre + sum(1 for k in range(r[0]) for _ in (0,)) + sum(1 for x in r[1][2] if x == ('gen',))
        # a nonzero linear output sequence of this order has no run of n zeros
        if taken < n:
            return rep.bad('next-state', i + ' patience', f.where({}), 'a vector is declared zero after %d zero outputs although the state has %d bits' % (taken, n))
    rep.ok('next-state', i + ' patience', f.where({}))


# ---------------------------------------------------------------- adjust
def adjust(rep, P, U, F, A, M):
    W = 32 if U == 'unsigned int' else 64
    f = one(P, r'MTToolBox::AlgorithmEquidistribution<%s>::adjust\(int\)' % U)
    if f is None:
        return rep.unk('adjust', U, '', 'adjust() not found')
    i = sig(f)
    nb = ('arg', 1)
    size = ('ld', addoff(('arg', 0), A['size'])) if 'size' in A else None

    class C(LoopClient):
        def call(self, c):
            if c.q == LV + 'next_state':
                rep.calls()
                self.ev(c, ('ns', c.args))

        def store(self, c, a, v):
            if isinstance(a, tuple) and a[0] == 'at' and a[2] == F['next'] and isinstance(a[1], tuple) and a[1][0] == 'ld':
                self.ev(c, ('set', a, v))
    cl = C(f)
    if Explore(rep, ['adjust'])(f, P, cl, us0=cl.us0, models=M, generic=True, cache=True, keepfact=lambda k: True) is None:
        return
    hs = {h for h, _, evs, c in cl.iters if any(x[0] == 'set' for x in evs)}
    if len(hs) != 1:
        return rep.unk('adjust', i, f.where({}), 'loop shape')
    h = hs.pop()
    for L in (1, 4, W - 1):
        for N in (L + 2, W + 1):
            if N > W + 1:
                continue
            for nextv in ((1 << (W - 1)), (1 << (W - 1 - L)), ((1 << W) - 1) ^ ((1 << (W - N + 1)) - 1), 0, 3 << (W - 1 - L)):
                nextv &= (1 << W) - 1

                def env(t):
                    if t == nb:
                        return L
                    if t == size:
                        return N
                    if isinstance(t, tuple) and t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] == 'at' and t[1][2] == F['next']:
                        return nextv
                    return None
                r = cl.rounds(h, env)
                if r is None:
                    return rep.unk('adjust', i + ' all vectors', f.where({}), 'loop bound')
                n = r[0]
                if n < L + 1 or n > N:
                    return rep.bad('adjust', i + ' all vectors', f.where({}), 'reducing to %d bits visits %d vectors of %d' % (L, n, N))
                seen = set()
                for k in range(n):
                    e = cl.at(h, k, env)
                    for evs, c in cl.round_records(h, k, e):
                        st, ns = [x for x in evs if x[0] == 'set'], [x for x in evs if x[0] == 'ns']
                        w = c.where()
                        if len(st) != 1:
                            rep.verdict(None if st else False, 'adjust', i + ' mask', w, 'an iteration sets next %d times; path %s' % (len(st), c.lines()))
                            continue
                        v = evalt(st[0][2], e)
                        ptr = st[0][1][1]
                        if isinstance(ptr[1], tuple) and ptr[1][0] == 'ix':
                            j = evalt(ptr[1][3][0][0], e)
                            seen.add(None if j is None else j + ptr[1][2] // 8)
                        else:
                            seen.add(None)
                        if v is None:
                            rep.unk('adjust', i + ' mask', w, '%r' % (st[0][2],))
                            continue
                        v &= (1 << W) - 1
                        want = nextv & (((1 << W) - 1) ^ ((1 << (W - L)) - 1))
                        if v != want:
                            rep.bad('adjust', i + ' mask', w, 'reducing to %d bits turns next 0x%x into 0x%x' % (L, nextv, v))
                            continue
                        rep.ok('adjust', i + ' mask', w)
                        if len(ns) != (1 if want == 0 else 0):
                            rep.bad('adjust', i + ' refill', w, 'a vector whose next becomes %s is advanced %d times; path %s' % ('zero' if want == 0 else 'nonzero', len(ns), c.lines()))
                        elif ns and (ns[0][1][0] != ptr or strip_ext(ns[0][1][1]) != nb):
                            rep.verdict(None if ns[0][1][0] != ptr else False, 'adjust', i + ' refill', w, 'advanced with %r bits' % (ns[0][1][1],))
                        else:
                            rep.ok('adjust', i + ' refill', w)
                if None in seen:
                    rep.unk('adjust', i + ' all vectors', f.where({}), 'index')
                else:
                    rep.verdict(set(range(L + 1)) <= seen, 'adjust', i + ' all vectors', f.where({}), 'reducing to %d bits touches only vectors %s' % (L, sorted(seen)[:5]))


# ---------------------------------------------------------------- pivot loop and minimum
def main_fn(rep, P, U, F, A, M, prop, cfg=None):
    """cfg: another analysis built on the same reduction: f (function), LV (class of the vectors),
    work (is this slot index the working slot?), samples, env (extra leaves)"""
    W = 32 if U == 'unsigned int' else 64
    f = cfg['f'] if cfg else one(P, r'MTToolBox::AlgorithmEquidistribution<%s>::get_equidist_main\(int\)' % U)
    LV = cfg['LV'] if cfg else globals()['LV']
    if f is None:
        return rep.unk('minimum' if prop == 'P06' else 'pivot', U, '', 'get_equidist_main() not found')
    i = sig(f)
    v = ('arg', 1)
    base = ('ld', addoff(('arg', 0), A['basis']))
    state = ('ld', addoff(('arg', 0), A['state']))

    def isw(t):
        return t == v or bool(cfg) and cfg['work'](t)

    def slot(t):
        """(index term, constant) of a basis slot address"""
        if isinstance(t, tuple) and t[0] == 'ix' and t[1] == base and len(t[3]) == 1 and t[3][0][1] == 8:
            return t[3][0][0], t[2] // 8
        if t == base:
            return 0, 0
        if isinstance(t, tuple) and t[0] == 'at' and t[1] == base:
            return 0, t[2] // 8
        return None

    def noalias(a, b):
        # the working slot has index v, pivots are smaller (checked by rule pivot/range)
        s, t = slot(a), slot(b)
        if s is None or t is None:
            return False
        return isw(s[0]) != isw(t[0]) and s[1] == t[1] == 0

    class C(LoopClient):
        def __init__(self, f):
            LoopClient.__init__(self, f)
            self.throws = []

        def call(self, c):
            if c.q == LV + 'add':
                rep.calls()
                x, y = c.args
                self.ev(c, ('add', x, y, c.load(addoff(x, F['count'])), c.load(addoff(y, F['count']))))
            elif c.q == LV + 'next_state':
                rep.calls()
                self.ev(c, ('ns',) + tuple(c.args))

        def throw(self, c):
            self.throws.append((c.us, snap(c), c.q, c.m))
    cl = C(f)
    rule = 'minimum' if prop == 'P06' else 'pivot'
    if Explore(rep, [rule])(f, P, cl, us0=cl.us0, models=M, generic='all' if cfg and prop == 'P06' else True, cache=True, noalias=noalias, keepfact=lambda k: True) is None:
        return
    piv = {h for h, _, evs, c in cl.iters if any(x[0] == 'add' for x in evs)}
    if not piv and prop == 'P07' and f.loops() and not any(P.cname(x) in ('add', 'operator^=', 'operator+=') for x in f.calls()) and not any(x['op'] == 'xor' and x.get('ty') not in ('i1', 'i8') for x in f.insts()):
        return rep.bad(rule, i + ' one addition', f.where({}), 'the reduction never adds one basis vector to another')
    if len(piv) != 1:
        return rep.unk(rule, i, f.where({}), 'reduction loop not recognised')
    ph = piv.pop()

    def slotval(c, t):
        for k, x in c.mem.items():
            if slot(k) is not None and slot(k)[1] == 0 and (isw(slot(k)[0]) if t == v else slot(k)[0] == t):
                return x
        return None
    if prop == 'P07':
        for h, rnd, evs, c in cl.iters:
            if h != ph:
                continue
            w = c.where()
            ad = [x for x in evs if x[0] == 'add']
            ns = [x for x in evs if x[0] == 'ns']
            if len(ad) != 1:
                rep.bad('pivot', i + ' one addition', w, 'an iteration performs %d additions; path %s' % (len(ad), c.lines()))
                continue
            _, X, Y, cx, cy = ad[0]
            le = c.known('sle', cx, cy)
            if le is True:
                rep.ok('pivot', i + ' smaller count changes', w)
            elif c.known('sgt', cx, cy) is True:
                rep.bad('pivot', i + ' smaller count changes', w, 'the vector with the larger step count is modified; path ' + c.lines())
            else:
                rep.verdict(None if contains_unknown(cx, cy) else False, 'pivot', i + ' smaller count changes', w, 'the vectors are added without comparing their step counts; path ' + c.lines())
            # the slots afterwards
            pt = [slot(k)[0] for k in c.mem if slot(k) is not None and not isw(slot(k)[0])]
            sv = slotval(c, v)
            if sv is None:
                rep.unk('pivot', i + ' slots', w, 'working slot')
            elif sv == Y:
                rep.bad('pivot', i + ' slots', w, 'the vector kept as pivot is left in the working slot; path ' + c.lines())
            elif sv != X:
                rep.unk('pivot', i + ' slots', w, 'working slot')
            else:
                ys = [k for k in c.mem if slot(k) is not None and not isw(slot(k)[0]) and c.mem[k] == Y]
                xs = [k for k in c.mem if slot(k) is not None and not isw(slot(k)[0]) and c.mem[k] == X]
                if xs:
                    rep.bad('pivot', i + ' slots', w, 'the same vector occupies the working slot and a pivot slot; path ' + c.lines())
                else:
                    rep.verdict(True if ys else None, 'pivot', i + ' slots', w, '')
            n0 = evs_next(ad[0], c, F)
            z = None
            for t in n0:
                z = c.known('eq', t, 0)
                if z is not None:
                    break
            if z is None:
                rep.unk('pivot', i + ' refill', w, 'next not tested')
            else:
                good = len(ns) == (1 if z else 0) and (not ns or (ns[0][1] == X and strip_ext(ns[0][2]) == v and evs.index(ns[0]) > evs.index(ad[0])))
                rep.verdict(good, 'pivot', i + ' refill', w, 'a working vector whose next is %s is advanced %d times%s; path %s' % ('zero' if z else 'nonzero', len(ns), '' if not ns else ' (bits %r)' % (ns[0][2],), c.lines()))
            # pivot of the next round
            upd = [(t, x) for t, x in phis_at(cl, c, ph) if isinstance(x, tuple) and x[0] == 'p:1pos']
            nx = c.mem.get(addoff(X, F['next']))
            if not upd:
                rep.unk('pivot', i + ' pivot', w, 'no pivot recomputed')
            else:
                rep.verdict(any(x[1] == nx for _, x in upd), 'pivot', i + ' pivot', w, 'the pivot is not the lowest position of the working vector after the step; path ' + c.lines())
        # entry
        for h, evs, c in cl.entries:
            if h != ph:
                continue
            upd = [x for _, x in phis_at(cl, c, ph) if isinstance(x, tuple) and x[0] == 'p:1pos']
            sv = slotval(c, v)
            nx = c.mem.get(addoff(sv, F['next'])) if sv is not None else None
            if not upd or nx is None:
                rep.unk('pivot', i + ' first pivot', c.where(), '')
            else:
                rep.verdict(any(x[1] == nx for x in upd), 'pivot', i + ' first pivot', c.where(), 'the first pivot is not taken from the working vector')
        # exit exactly when the working vector is zero
        for h, rnd, evs, c in cl.exits:
            if h != ph or evs and any(x[0] == 'add' for x in evs) and is_throw(f, c.dst):
                continue
            sv = slotval(c, v)
            z = c.load(addoff(sv, F['zero'])) if sv is not None else None
            ok = None if z is None else c.known('ne', z, 0)
            if ok is None and z is not None:
                ok = c.truth(('trunc', 'i1', z))
            if is_throw(f, c.dst):
                continue
            rep.verdict(True if ok is True else None if z is None else False, 'pivot', i + ' end', c.where(), 'the reduction ends although the working vector is not known to be zero; path ' + c.lines())
        # errors are raised only for impossible pivots
        for us, c, q, m in cl.throws:
            evs = next((fr[2:] for fr in us if fr[0] == ph), None) or next((e[3] for fr in us for e in fr[2:] if isinstance(e, tuple) and e[0] == 'loop' and e[1] == ph), ())
            ad = [x for x in evs if x[0] == 'add']
            if len(ad) != 1:
                continue
            nx = c.mem.get(addoff(ad[0][1], F['next']))
            terms = {t for k in c.facts for u in k[1:] for t in _sub(u) if isinstance(t, tuple) and t and t[0] in ('p:1pos', 'phi')}
            new = {t for t in terms if t == ('p:1pos', nx)}
            old = terms - new
            refilled = any(x[0] == 'ns' for x in evs)
            if len(new) != 1:
                rep.unk('pivot', i + ' errors', c.where(), 'pivot not identified')
                continue
            bad = None
            for n, o in ((0, 3), (1, 2), (4, 5), (30, 31)) + (((5, 2), (9, 9)) if refilled else ()):
                e = {t: o for t in old}
                e[new.copy().pop()] = n
                e[v] = max(n, o) + 1
                if cfg:
                    e.update(cfg['leaves'](1))
                if sample_ok(c, e):
                    bad = (n, o)
            rep.verdict(bad is None, 'pivot', i + ' errors', c.where(), 'an error is raised although the new pivot %s is below the old one %s' % (bad or (0, 0)) + '; path ' + c.lines())
        return
    # ------------------------------------------------ P06: the result
    S = [(1, [3], 9), (2, [5, 2], 1), (3, [4, 6, 5], 1), (4, [7, 3, 9, 3], 0), (5, [9, 8, 7, 6, 5], 2), (5, [5, 6, 7, 8, 9], 2), (5, [6, 6, 4, 6, 6], 3), (5, [6, 6, 6, 6, 6], 7)]
    hs = sorted({h for h, evs, c in cl.entries if h != ph and any(e[0] == 'loop' and e[1] == ph for e in evs)})
    for n, counts, work, el in [x + (1,) for x in S] + ([x + (x[0],) for x in S if x[0] > 1] + [(6, [4, 6, 5, 8, 3, 9], 2, 3), (6, [4, 6, 5, 8, 9, 3], 2, 2)] if cfg else []):
        for bound in (min(counts), min(counts) - 1):
            st = bound * n + n - 1

            def env(t):
                if t == v:
                    return n // el
                if cfg:
                    x = cfg['leaves'](el).get(t)
                    if x is not None:
                        return x
                    if isinstance(t, tuple) and t[0] in ('ld', 'lh') and isinstance(t[1], tuple) and t[1][0] == 'at' and t[1][2] == F['zero'] and isinstance(t[1][1], tuple) and t[1][1][0] == 'ld':
                        s = slot(t[1][1][1])
                        if s is not None:
                            return ('index', ('add', s[0], s[1]), lambda j: 0 if 0 <= j < n else 1 if j == n else None)
                if t == state:
                    return st
                if isinstance(t, tuple) and t[0] in ('ld', 'lh') and isinstance(t[1], tuple) and t[1][0] == 'at' and t[1][2] == F['count'] and isinstance(t[1][1], tuple) and t[1][1][0] == 'ld':
                    s = slot(t[1][1][1])
                    if s is not None:
                        return ('index', ('add', s[0], s[1]), lambda j: counts[j] if 0 <= j < n else work if j == n else None)
                return None
            if len(hs) > 1 and not any(is_min_loop(cl, h) for h in hs):
                return rep.unk('minimum', i, f.where({}), 'loop shape')
            h = next((h for h in hs if is_min_loop(cl, h)), None)
            if h is None:
                return rep.unk('minimum', i, f.where({}), 'no loop after the reduction')
            r = cl.rounds(h, env)
            if r is None:
                return rep.unk('minimum', i, f.where({}), 'loop bound')
            e = cl.at(h, r[0], env)
            res = set()
            for evs, val, c in cl.rets:
                if sample_ok(c, e):
                    res.add(evalt(val, e))
            thr = [c for us, c, q, m in cl.throws if any(isinstance(x, tuple) and x[0] == 'loop' and x[1] == h for fr in us for x in fr[2:]) and sample_ok(c, e)]
            if None in res:
                return rep.unk('minimum', i, f.where({}), 'result')
            if bound == min(counts):
                if thr and not res:
                    rep.bad('minimum', i + ' bound', thr[0].where(), 'k(%d)=%d with a state of %d bits is refused although the bound is %d' % (n, bound, st, st // n))
                elif res == {min(counts)}:
                    rep.ok('minimum', i, f.where({}))
                else:
                    rep.verdict(False if len(res) == 1 else None, 'minimum', i, f.where({}), 'with step counts %s the result is %s instead of %d' % (counts, sorted(res), min(counts)))
            else:
                rep.verdict(False if res else True if thr else None, 'minimum', i + ' bound', f.where({}), 'k(%d)=%d is reported for a state of %d bits, above the bound %d' % (n, min(counts), st, st // n))


def contains_unknown(*ts):
    return any(isinstance(t, tuple) and t[0] in ('hv',) for t in ts)


def is_min_loop(cl, h):
    """the loop compares step counts and does not call anything"""
    L = cl.loopsby[h]
    return not any(x['op'] in ('call', 'invoke') and not (x.get('callee') or '').startswith('llvm.') for b in L['blocks'] for x in cl.f.insts(b))


def is_throw(f, b):
    seen, st = set(), [b]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        t = f.term_inst(n)
        if t['op'] == 'ret':
            return False
        if any(x.get('noret') for x in f.insts(n)):
            continue
        st += f.succ[n]
    return True


def phis_at(cl, c, h):
    pb = cl.f.bof[c.x['i']] if c.src is None else c.src
    r = []
    for x in cl.f.insts(h):
        if x['op'] != 'phi':
            break
        t = cl.carried(c, ('phi', x['i']), pb)
        r.append((('phi', x['i']), t))
    return r


def evs_next(ad, c, F):
    """terms for the working vector's next right after the addition"""
    return [t for k in c.facts for t in k[1:] if isinstance(t, tuple) and t[0] == 'xor']


# ---------------------------------------------------------------- entry points
def entry_points(rep, P, U, F, A, M):
    for name in ('get_all_equidist', 'get_equidist'):
        f = one(P, r'MTToolBox::AlgorithmEquidistribution<%s>::%s\(int\*\)' % (U, name))
        if f is None:
            raise AnalysisBroken(name + ' not found')
        i = sig(f)
        al = name == 'get_all_equidist'
        bits, state = ('ld', addoff(('arg', 0), A['bits'])), ('ld', addoff(('arg', 0), A['state']))
        size = ('ld', addoff(('arg', 0), A['size'])) if 'size' in A else None
        outp = ('arg', 1)

        class C(LoopClient):
            def after(self, c):
                if c.q == AE + 'get_equidist_main':
                    rep.calls()
                    self.ev(c, ('main', c.args[1], c.val))
                elif c.q == AE + 'adjust':
                    rep.calls()
                    self.ev(c, ('adjust', c.args[1]))

            def store(self, c, a, v):
                if Fn.tbase(a) == outp:
                    self.ev(c, ('out', a, v))
        cl = C(f)
        if Explore(rep, ['report'])(f, P, cl, us0=cl.us0, models=M, generic=True, cache=True, keepfact=lambda k: True) is None:
            continue
        K = lambda n: 3 * n % 7 + 1         # pretended k(n)
        und = None
        for w in (1, 2, 3, 6, 32):
            st = 997
            stray = set()

            def env(t):
                if t == bits:
                    return w
                if t == state:
                    return st
                if t == size:
                    return w + 1
                if isinstance(t, tuple) and t[0] == 'p:k':
                    return ('index', t[1], K)
                if isinstance(t, tuple) and t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] == 'ix' and t[1][1] == outp and len(t[1][3]) == 1 and t[1][3][0][1] == 4 and t[1][2] % 4 == 0:
                    # an entry of the caller's table the step itself did not just write
                    def outside(j, o=t[1][2] // 4):
                        if 0 <= o + j < w:
                            return K(o + j + 1)     # what the table has to hold there
                        stray.add(o + j)
                        return 1000003
                    return ('index', t[1][3][0][0], outside)
                return None
            # events in order, loops expanded round by round
            traces = expand(cl, env)
            if traces[0] is None:
                und = traces[1]
                break
            for trace, final in traces:
                ms = [a for x, a, *_ in trace if x == 'main']
                if None in ms:
                    und = 'bit length of a step'
                    break
                if ms != list(range(w, 0, -1)):
                    rep.bad('report', i + ' all lengths', f.where({}), 'for %d bits the dimensions are computed for %s bits' % (w, ms))
                    break
                rep.ok('report', i + ' all lengths', f.where({}))
                cur = w
                bad = None
                for t in trace:
                    if t[0] == 'adjust':
                        cur = t[1]
                    elif t[0] == 'main' and t[1] != cur:
                        bad = 'the basis is adjusted to %s bits when the dimension for %s bits is computed' % (cur, t[1])
                rep.verdict(bad is None, 'report', i + ' adjusted', f.where({}), bad or '')
                outs = {}
                for t in trace:
                    if t[0] == 'out':
                        outs[t[1]] = t[2]
                d = [st // x - K(x) for x in range(1, w + 1)]
                val = final
                if stray:
                    rep.bad('report', i + ' table', f.where({}), 'for %d bits entry %d of the table, which has no meaning, is read' % (w, min(stray)))
                    break
                if None in outs or None in outs.values() or val is None:
                    und = 'values not interpretable'
                    break
                if al:
                    want = {4 * (x - 1): K(x) for x in range(1, w + 1)}
                    rep.verdict(outs == want, 'report', i + ' table', f.where({}), 'for %d bits the table is filled as %s' % (w, str({k // 4: x for k, x in sorted(outs.items())})[:120]))
                    rep.verdict(val == sum(d), 'report', i + ' total', f.where({}), 'for %d bits the total is %s instead of the sum %s of all defects' % (w, val, sum(d)))
                else:
                    rep.verdict(val == K(w), 'report', i + ' dimension', f.where({}), 'for %d bits the result is %s instead of the dimension %d for all bits' % (w, val, K(w)))
                    rep.verdict(outs.get(0) == sum(d[:-1]), 'report', i + ' total', f.where({}), 'for %d bits the total is %s instead of the sum %s of the defects of fewer bits' % (w, outs.get(0), sum(d[:-1])))
            else:
                continue
            break
        if und:
            rep.unk('report', i + ' all lengths', f.where({}), und)
        # nothing else the steps read is changed: bits and state stay what they were during adjust/main
    for nm in ('adjust', 'get_equidist_main'):
        f = one(P, r'MTToolBox::AlgorithmEquidistribution<%s>::%s\(' % (U, nm))
        if f is None:
            continue
        for x in f.insts():
            if x['op'] == 'store':
                o = field(f.addr(x['ops'][1]))
                if o in (A['bits'], A['state'], A.get('size')):
                    rep.bad('report', sig(f) + ' members', f.where(x), 'the bit length or state size is changed while a dimension is computed')
        rep.ok('report', sig(f) + ' members', f.where({}))


def expand(cl, env):
    """event traces for the sampled leaves: [([(kind, values...)], result value)] or (None, reason).
    A round that depends on values the sample leaves open contributes one trace per alternative."""
    first = expand1(cl, env, {}, open_ := {})
    if first[0] is None:
        return first
    r = [first]
    for k, n in open_.items():
        for a in range(1, n):
            t = expand1(cl, env, {k: a}, {})
            if t[0] is None:
                return t
            r.append(t)
    return r


def expand1(cl, env, choice, open_):
    if not cl.rets:
        return None, 'no return'
    trace = []

    def put(evs, e):
        for x in evs:
            if x[0] == 'main':
                trace.append(('main', evalt(x[1], e)))
            elif x[0] == 'adjust':
                trace.append(('adjust', evalt(x[1], e)))
            elif x[0] == 'out':
                trace.append(('out', off_of(x[1], e), evalt(x[2], e)))
    hs = sorted({h for h, _, _ in [(a, b, c) for a, b, c in cl.entries]})
    e0 = env
    if not hs:
        cand = [(evs, v, c) for evs, v, c in cl.rets if sample_ok(c, e0)]
        if len(cand) != 1:
            return None, 'paths'
        put(cand[0][0], e0)
        return trace, evalt(cand[0][1], e0)
    if len(hs) != 1:
        return None, 'several loops'
    h = hs[0]
    ent = [(evs, c) for hh, evs, c in cl.entries if sample_ok(c, e0)]
    if not ent:
        cand = [(evs, v, c) for evs, v, c in cl.rets if not any(x[0] == 'loop' for x in evs) and sample_ok(c, e0)]
        if len(cand) != 1:
            return None, 'no loop entry'
        put(cand[0][0], e0)
        return trace, evalt(cand[0][1], e0)
    put(ent[0][0], e0)
    r = cl.rounds(h, env)
    if r is None:
        return None, 'loop exit not computable'
    n, ex = r
    for k in range(n):
        e = cl.at(h, k, env)
        rec = cl.round_records(h, k, e)
        alts = list(dict.fromkeys(tuple(x) for x, _ in rec))
        if not alts or len(alts) > 8:
            return None, 'round not determined'
        if len(alts) > 1:
            open_[k] = len(alts)
        put(alts[choice.get(k, 0) % len(alts)], e)
    e = cl.at(h, n, env)
    put(ex[2], e)
    cand = []
    for evs, v, c in cl.rets:
        lp = [k for k, x in enumerate(evs) if x[0] == 'loop' and x[1] == h]
        if not lp or not sample_ok(c, e) or (evs[lp[0]][2] == 0) != (n == 0) or evs[lp[0]][3] != ex[2]:
            continue
        cand.append((evs[lp[0] + 1:], v))
    if len({(x, repr(v)) for x, v in cand}) != 1:
        return None, 'exit not determined'
    put(cand[0][0], e)
    return trace, evalt(cand[0][1], e)


def off_of(a, e):
    """byte offset of an address from its base, for the sampled leaves"""
    if isinstance(a, tuple) and a[0] == 'at':
        return a[2]
    if isinstance(a, tuple) and a[0] == 'ix':
        o = a[2]
        for t, s in a[3]:
            x = evalt(t, e)
            if x is None:
                return None
            o += x * s
        return o
    return 0


def wrapper(rep, P):
    """the reducible front end forwards to the analysis it owns"""
    for f in P.fns.values():
        m = re.search(r'MTToolBox::AlgorithmReducibleEquidistribution<.*>::(get_all_equidist|get_equidist)\(int\*\)', f.dem)
        if m:
            i = sig(f)
            got = []

            class C(Client):
                def after(self, c):
                    if c.q.startswith(AE[:-2] + '::') and c.m in ('get_all_equidist', 'get_equidist'):
                        got.append((c.m, c.args, c.val))
                        c.put(('fw', c.m), (c.args[1], c.val))

                def ret(self, c, val):
                    g = [(k[1], v) for k, v in c.mem.items() if isinstance(k, tuple) and k[0] == 'fw']
                    ok = len(g) == 1 and g[0][0] == m.group(1) and g[0][1][0] == ('arg', 1) and val == g[0][1][1]
                    rep.verdict(ok if g else None, 'report', i + ' forwards', c.where(), 'does not return the result of %s()' % m.group(1))
            Explore(rep, ['report'])(f, P, C())


def reducible_ctor(rep, P):
    """works on a private copy of the generator, annihilated with charpoly/irreducible factor"""
    for f in P.fns.values():
        if not re.search(r'MTToolBox::AlgorithmReducibleEquidistribution<.*>::AlgorithmReducibleEquidistribution\(', f.dem):
            continue
        i = sig(f)

        class C(Client):
            def call(self, c):
                if c.q == AE + 'AlgorithmEquidistribution':
                    rep.calls()
                    g, w, m = c.args[1], c.args[2], c.args[3] if len(c.args) > 3 else 0
                    st = c.state(g)
                    wh = c.where()
                    rep.verdict(strip_ext(w) == ('arg', 3), 'reduce', i + ' bit length', wh, 'analyses %r bits' % (w,))
                    rep.verdict(strip_ext(m) == ('arg', 4), 'reduce', i + ' mexp', wh, 'state size %r' % (m,))
                    if g == ('arg', 1):
                        rep.bad('reduce', i + ' copy', wh, 'the analysis changes the caller\'s generator')
                        return
                    if not (isinstance(st, tuple) and st[0] == 'ann'):
                        rep.verdict(False if isinstance(st, tuple) and st[0] in ('st0', 'adv') else None, 'reduce', i + ' annihilated', wh, 'the state analysed is %s, not the annihilated one' % (st[0] if isinstance(st, tuple) else st,))
                        return
                    q = st[2]
                    good = None
                    cp = [t for t in _sub(q) if isinstance(t, tuple) and t and t[0] == 'charpoly']
                    if isinstance(q, tuple) and q[0] == 'div' and len(set(cp)) == 1 and q[1] == cp[0]:
                        good = q[2] == ('init', ('arg', 2))
                        one_ = cp[0][3]
                        rep.verdict(one_ in (('mono', 0, 1), ('const', 1)) if isinstance(one_, tuple) and one_[0] in ('mono', 'const', 'zero') else None, 'reduce', i + ' start polynomial', wh, 'the characteristic polynomial is accumulated onto %r instead of 1' % (one_,))
                    elif isinstance(q, tuple) and q[0] in ('charpoly', 'init', 'div', 'gcd', 'mod'):
                        good = False
                    rep.verdict(good, 'reduce', i + ' annihilated', wh, 'the state is annihilated by %r instead of characteristic polynomial / irreducible factor' % (q,))
        Explore(rep, ['reduce'])(f, P, C())


def setup(rep, rules):
    P = prog(keep=KEEP2)
    r = []
    for U in ('unsigned int', 'unsigned long'):
        F = vec_roles(rep, P, U, rules)
        if F is None:
            for x in rules:
                rep.unk(x, U, '', 'members of linear_generator_vector not recognised')
            continue
        r.append((P, U, F))
    return P, r


def defaults(rep, P, U, A):
    """callers that give no Mersenne exponent get the whole state analysed"""
    for f in P.fns.values():
        for x in f.calls('AlgorithmEquidistribution'):
            if not P.cqual(x).startswith(AE + 'AlgorithmEquidistribution') or U not in x.get('cdem', f.dem) and U not in f.dem:
                continue
            a = P.cargs(x)
            m = f.val(a[3]) if len(a) > 3 else None
            if isinstance(m, int):
                rep.calls()
                r = A['state_of'](m)
                bad = [(s, n) for s, n in r if s is not None and s != n]
                rep.verdict(None if not r or any(s is None for s, _ in r) else not bad, 'setup', sig(f) + ' whole state', f.where(x), 'called without a Mersenne exponent (value %d) the analysis uses state size %s for a state of %s bits' % ((m,) + bad[0]) if bad else '')


def p06(prop, tier):
    rep = Report(prop, tier)
    rep.rule('setup', 'the analysis starts from unit vectors 0..w-1 with zero state and the generator itself, the state size is mexp if given, else bitSize()')
    rep.rule('report', 'get_all_equidist() stores the dimension for every v=w..1 at v-1 and returns the sum of all defects; get_equidist() returns the dimension for w and the sum of the defects for fewer bits; the basis is adjusted to v bits before each step')
    rep.rule('minimum', 'the dimension is the least step count of the vectors 0..v-1; a value above floor(state/v) is an error, any other is reported')
    rep.rule('reduce', 'the reducible variant analyses a private copy annihilated by characteristic polynomial / irreducible factor')
    P, us = setup(rep, ['setup', 'report', 'minimum'])
    for P, U, F in us:
        A = ctor(rep, P, U, F, None)
        if A is None or 'basis' not in A:
            continue
        M = local_models(F)
        defaults(rep, P, U, A)
        entry_points(rep, P, U, F, A, M)
        main_fn(rep, P, U, F, A, M, 'P06')
    wrapper(rep, P)
    reducible_ctor(rep, P)
    return finish(rep, 'other', 'Dataflow with loop summaries: the entry points, the constructor and the final minimum are summarised as recurrences and evaluated at sample sizes; the reducible front end by abstract state terms.', floor=15)


def p07(prop, tier):
    rep = Report(prop, tier)
    rep.rule('vector', 'a vector owns a copy of the generator; unit vector p has zero state and next = bit p from the top; counters start at zero')
    rep.rule('vector-add', 'adding vectors adds states and next words together and touches nothing else')
    rep.rule('next-state', 'each output taken is counted and kept as next; outputs are skipped only while zero; the zero flag is set only after at least as many zero outputs as the state has bits')
    rep.rule('adjust', 'reducing the output length masks next to the new length in every vector and refills those that become zero')
    rep.rule('pivot', 'each reduction step adds the pivot vector to the working vector, modifying the one with the smaller count; refill iff next became zero; pivot recomputed; ends iff the working vector is zero')
    P, us = setup(rep, ['vector', 'vector-add', 'next-state', 'adjust', 'pivot'])
    quiet = Report('x')
    for P, U, F in us:
        vec_ctors(rep, P, U, F)
        vec_add(rep, P, U, F)
        next_state(rep, P, U, F)
        A = ctor(quiet, P, U, F, None)
        if A is None or 'basis' not in A:
            continue
        M = local_models(F)
        adjust(rep, P, U, F, A, M)
        main_fn(rep, P, U, F, A, M, 'P07')
    return finish(rep, 'other', 'Path-sensitive dataflow over the reduction: per-path event and fact checks in both widths; loop bounds and masks from extracted expressions.', floor=20)
