"""P09: what the two-stage searches (recursion, then tempering) do and hand out."""
import re
from ..build import AnalysisBroken
from ..core import prog, sig, Explore, evalt
from ..facts import addoff
from ..models import MODELS, _Prefix
from ..report import Report, finish
from ..sym import Client, Sym, strip_ext
from .search import field_addr

N = 'MTToolBox::'


def members(P, C, name):
    return [f for f in P.fns.values() if f.dem.replace('[abi:cxx11]', '').startswith(C + '::' + name + '(')]


def getter(rep, P, C, name, byload):
    fs = members(P, C, name)
    if not fs:
        return None
    got = set()

    class G(Client):
        def ret(self, c, val):
            got.add(field_addr(val, byload))
    s = Sym(fs[0], P, G()).run()
    rep.fn(fs[0], s)
    return got.pop() if len(got) == 1 else None


def sub(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from sub(x)


def models(S):
    """S: search class -> offsets of the polynomials its getters hand out"""
    M = _Prefix(MODELS)

    def off(a):
        return 0 if a == ('arg', 0) else a[2]

    for cls, F in S.items():
        def ctor(c, F=F):
            c.put(('srch', c.args[0]), tuple(c.args[1:]))

        def start(c, F=F):
            s = c.args[0]
            who = c.mem.get(('srch', s))
            t = ('id', c.x['i'])
            c.val = ('p:start', s, t)
            c.sym.havoc(c, s)
            c.put(('srch', s), who)
            for k, a in F.items():
                c.put(addoff(s, off(a)), ('found', k, s, t))
            if who:
                c.put(('par', who[0]), ('found', 'par', s, t))
                c.put(('st', who[0]), ('found', 'st', s, t))
        M[N + cls + '::' + cls] = ctor
        M[N + cls + '::start'] = start

    def temper(c):
        g = c.args[1]
        c.put(('par', g), ('tempered', c.par(g), c.args[0]))
        c.put(('rev', g), 0)
        c.val = ('call', c.x['i'])
    M[N + 'AlgorithmTempering::operator()'] = temper

    def lsb(c):
        c.val = ('p:lsb', c.args[0])
    M[N + 'AlgorithmTempering::isLSBTempering'] = lsb

    def ana(c):
        g = c.args[1]
        c.put(('ana', c.args[0]), (g, c.args[2], c.args[3] if len(c.args) > 3 else 0, c.state(g), c.par(g), c.rev(g)))
    M[N + 'AlgorithmEquidistribution::AlgorithmEquidistribution'] = ana

    def dtor(c):
        pass
    M[N + 'AlgorithmEquidistribution::~AlgorithmEquidistribution'] = dtor

    def all_(c):
        c.val = ('p:delta', c.mem.get(('ana', c.args[0])), c.args[1])
    M[N + 'AlgorithmEquidistribution::get_all_equidist'] = all_

    def parity(c):
        g, f = c.args[1], c.args[2]
        c.val = ('p:parity', g, c.par(g), c.obj(f))
    for cls in ('AlgorithmCalculateParity',):
        M[N + cls + '::searchParity'] = parity
    return M


def run(prop, tier):
    rep = Report(prop, tier)
    rep.rule('ctor', 'the constructor keeps the caller\'s parameter source and primitivity test')
    rep.rule('search', 'the recursion search runs on the caller\'s generator with that parameter source and test, with a positive trial limit, and success is reported only after it succeeded')
    rep.rule('stages', 'after the recursion search, the second tempering (unless switched off) and then the first are applied exactly once each to the caller\'s generator')
    rep.rule('delta', 'the defect handed out was measured on the final parameters, with all bits of the word, in normal bit order, against the Mersenne exponent for reducible generators')
    rep.rule('poly', 'the polynomial and weight handed out belong to the successful search')
    rep.rule('parity', 'reducible: the parity vector is searched for the accepted parameters with the irreducible factor found, and handed out')
    rep.rule('annihilated', 'reducible: the state tempered and measured is annihilated by characteristic polynomial / irreducible factor')
    P = prog()
    for red in (False, True):
        for U in ('unsigned int', 'unsigned long'):
            W = 32 if U == 'unsigned int' else 64
            C = N + ('AlgorithmReducibleRecursionAndTempering<%s, MtvGen<%s>>' % (U, U) if red else 'AlgorithmRecursionAndTempering<%s>' % U)
            SC = 'AlgorithmReducibleRecursionSearch' if red else 'AlgorithmRecursionSearch'
            S = {SC: {}}
            for k, n in (('char', 'getCharacteristicPolynomial'), ('irr', 'getIrreducibleFactor')) if red else (('char', 'getMinPoly'),):
                a = getter(rep, P, N + SC + '<%s>' % U, n, False)
                if a is None:
                    raise AnalysisBroken('%s::%s' % (SC, n))
                S[SC][k] = a
            F = {}
            for k, n, b in (('delta', 'getDelta', True), ('poly', 'getIrreducibleFactor' if red else 'getCharacteristicPolynomial', False)) + ((('parity', 'getParity', True),) if red else (('weight', 'getWeight', True),)):
                F[k] = getter(rep, P, C, n, b)
            M = models(S)
            ct = members(P, C, C[len(N):].split('<')[0])
            fs = members(P, C, 'search')
            if len(fs) != 2 or not ct or None in F.values():
                for r in ('search', 'stages', 'delta'):
                    rep.unk(r, C, '', 'members not recognised')
                continue
            # constructor
            base = prim = None
            for f in ct:
                outs = []

                class K(Client):
                    def ret(self, c, val):
                        outs.append((dict(c.mem), c.where()))
                s = Sym(f, P, K()).run()
                rep.fn(f, s)
                for mem, w in outs:
                    inv = {v: k for k, v in mem.items() if isinstance(k, tuple) and k[0] in ('arg', 'at')}
                    rep.verdict(('arg', 1) in inv, 'ctor', sig(f) + ' source', w, 'the caller\'s parameter source is not kept')
                    base = inv.get(('arg', 1))
                    if not red:
                        rep.verdict(('arg', 2) in inv, 'ctor', sig(f) + ' primitivity', w, 'the caller\'s primitivity test is not kept')
                        prim = inv.get(('arg', 2))
            for f in fs:
                one(rep, P, f, red, W, S[SC], F, M, base, prim, SC)
    return finish(rep, 'other', 'Path-sensitive typestate analysis of both overloads of both two-stage searches in both word sizes; recursion search, parity search and equidistribution analysis enter by their contracts (P01, P02, P06, P10).', floor=20)


def one(rep, P, f, red, W, SF, F, M, base, prim, SC):
    i = sig(f)
    g = ('arg', 1)
    nargs = len(f.j['args'])
    two = nargs >= 7
    lsbarg = ('arg', 6) if two else None
    temper = []
    seen = [0]

    class C(Client):
        def call(self, c):
            if c.q == N + SC + '::' + SC:
                rep.calls()
                a = c.args
                rep.verdict(a[1] == g, 'search', i + ' generator', c.where(), 'the search runs on another generator')
                if base is not None:
                    rep.verdict(a[2] == ('ld', base), 'search', i + ' source', c.where(), 'the search does not draw from the caller\'s parameter source')
                if not red and prim is not None:
                    rep.verdict(len(a) > 3 and a[3] == ('ld', prim) if len(a) > 3 else False, 'search', i + ' primitivity', c.where(), 'the search does not use the primitivity test given')
            elif c.q == N + SC + '::start':
                rep.calls()
                vs = [evalt(strip_ext(c.args[1]), {('p:bitSize', g): n, ('p:getMexp', g): max(1, n - 3)}) for n in (1, 31, 127, 19937)]
                rep.verdict(None if None in vs else all(v > 0 for v in vs), 'search', i + ' trials', c.where(), 'the search is started with a trial limit of %s' % (vs,))
                c.us = c.us + (('start',),) if c.us[-1:] != (('start',),) else c.us
            elif c.q == N + 'AlgorithmTempering::operator()':
                rep.calls()
                c.us = c.us + (('temper', c.args[0], c.args[1]),)
                if red and c.args[1] == g:
                    self.annih(c, 'tempered')
            elif c.q == N + 'AlgorithmEquidistribution::AlgorithmEquidistribution':
                rep.calls()
                if red and c.args[1] == g:
                    self.annih(c, 'measured')
            elif c.q.endswith('::searchParity'):
                rep.calls()
                st = c.par(c.args[1])
                rep.verdict(c.args[1] == g, 'parity', i + ' generator', c.where(), 'the parity vector is searched for another generator')
                fac = c.obj(c.args[2])
                rep.verdict(self.isfound(fac, 'irr'), 'parity', i + ' factor', c.where(), 'the parity vector is searched with %r' % (fac,))
                rep.verdict(isinstance(st, tuple) and st[0] == 'found' or isinstance(st, tuple) and st[0] == 'tempered', 'parity', i + ' accepted parameters', c.where(), 'the parity vector is searched before parameters were accepted')

        def isfound(self, v, k):
            if isinstance(v, tuple) and v[0] == 'found':
                return v[1] == k
            return None if isinstance(v, tuple) and v[0] in ('hv', 'lh', 'ld') else False

        def annih(self, c, what):
            st = c.state(g)
            if not (isinstance(st, tuple) and st[0] == 'ann'):
                rep.verdict(False if isinstance(st, tuple) and st[0] in ('found', 'adv', 'seeded', 'st0', 'nx') else None, 'annihilated', i, c.where(), 'the state %s was not annihilated' % what)
                return
            q = st[2]
            cp = {t for t in sub(q) if isinstance(t, tuple) and t and t[0] == 'charpoly'}
            good = None
            if isinstance(q, tuple) and q[0] == 'div' and len(cp) == 1 and q[1] in cp:
                good = self.isfound(q[2], 'irr')
            elif isinstance(q, tuple) and q[0] in ('charpoly', 'found'):
                good = False
            rep.verdict(good, 'annihilated', i, c.where(), 'the state %s was annihilated by %r' % (what, q))

        def ret(self, c, val):
            t = val & 1 if isinstance(val, int) else c.truth(val)
            w = c.where()
            st = [k for k in c.facts for k in k[1:] if isinstance(k, tuple) and k[0] == 'p:start']
            good = any(c.truth(k) is True for k in st)
            if t is None:
                v = strip_ext(val)
                if isinstance(v, tuple) and v[0] == 'call':
                    return self.forwarded(c)
                rep.unk('search', i, w, 'result %r' % (val,))
                return
            if not t:
                rep.verdict(not good, 'search', i + ' success', w, 'failure is reported although the recursion search succeeded; path ' + c.lines())
                return
            seen[0] += 1
            rep.verdict(good, 'search', i, w, 'success is reported without a successful recursion search; path ' + c.lines())
            if not good:
                return
            ev = [e for e in c.us if e[0] == 'temper']
            other = [e for e in ev if e[2] != g]
            if other:
                rep.bad('stages', i, w, 'another generator is tempered')
            if two:
                no = c.truth(lsbarg)
                if no is None:
                    no = c.known('ne', lsbarg, 0)
                seq = [e[1] for e in ev]
                full, short = [('arg', 3), ('arg', 2)], [('arg', 2)]
                if no is None:
                    rep.verdict(False if seq not in (full, short) or True and seq else None, 'stages', i, w, 'the tempering applied (%s) does not depend on no_lsb; path %s' % (self.names(seq), c.lines()))
                else:
                    rep.verdict(seq == (short if no else full), 'stages', i, w, 'with no_lsb %s the tempering algorithms applied are %s; path %s' % ('set' if no else 'not set', self.names(seq), c.lines()))
            else:
                seq = [e[1] for e in ev]
                rep.verdict(seq == [('arg', 2)], 'stages', i, w, 'the tempering algorithms applied are %s; path %s' % (self.names(seq), c.lines()))
            self.results(c, g, w)

        def names(self, s):
            return [{('arg', 2): 'st1', ('arg', 3): 'st2'}.get(x, '?') for x in s]

        def results(self, c, g, w):
            d = strip_ext(c.mem.get(F['delta']))
            if not (isinstance(d, tuple) and d[0] == 'p:delta' and d[1]):
                rep.verdict(False if d is None or isinstance(d, int) else None, 'delta', i, w, 'the defect handed out is not measured on this path: %r; path %s' % (d, c.lines()))
            else:
                h, bits, mexp, st, par, rev = d[1]
                want = ('p:getMexp', g)
                if h != g:
                    rep.unk('delta', i, w, 'another generator measured')
                else:
                    if par != c.par(g):
                        rep.bad('delta', i + ' parameters', w, 'the defect handed out was measured before the last tempering; path ' + c.lines())
                    else:
                        rep.ok('delta', i + ' parameters', w)
                    b = evalt(strip_ext(bits), {})
                    rep.verdict(None if b is None else b == W, 'delta', i + ' bits', w, 'the defect is measured with %s of %d bits' % (b, W))
                    rep.verdict(rev == 0, 'delta', i + ' bit order', w, 'the defect is measured with reversed output; path ' + c.lines())
                    m = strip_ext(mexp)
                    if red:
                        rep.verdict(m == want if m == want or m == 0 or m == ('p:bitSize', g) else None, 'delta', i + ' exponent', w, 'the defect of a reducible generator is measured against its state size instead of the Mersenne exponent')
                    else:
                        rep.verdict(m == 0 or m == ('p:bitSize', g) if isinstance(m, int) or m[0] in ('p:bitSize',) else None, 'delta', i + ' exponent', w, 'the defect is measured against %r' % (m,))
            rep.verdict(c.rev(g) == 0, 'delta', i + ' left in normal order', w, 'the generator is left with reversed output; path ' + c.lines())
            p = c.obj(F['poly'])
            want = 'irr' if red else 'char'
            rep.verdict(self.isfound(p, want), 'poly', i, w, 'the polynomial handed out is %r' % (p,))
            if 'weight' in F:
                v = strip_ext(c.mem.get(F['weight']))
                x = evalt(v, lambda t: 17 if t == ('p:weight', p) else 18 if t[0] == 'p:weight' and isinstance(t[1], tuple) and t[1][0] in ('init', 'found') else None)
                rep.verdict(False if v is None else None if x is None else x == 17, 'poly', i + ' weight', w, 'the weight handed out is %r' % (v,))
            if red:
                v = strip_ext(c.mem.get(F['parity']))
                if isinstance(v, tuple) and v[0] == 'p:parity':
                    rep.ok('parity', i, w)
                else:
                    rep.verdict(False if v is None or isinstance(v, int) else None, 'parity', i, w, 'the parity handed out is %r' % (v,))

        def forwarded(self, c):
            pass
    s = Explore(rep, ['search', 'stages', 'delta'])(f, P, C(), us0=(), models=M, keepfact=lambda k: any(isinstance(t, tuple) and t[0] in ('p:start', 'arg') for t in k[1:]))
    if s is not None and not seen[0]:
        rep.unk('search', i, f.where({}), 'no path reports success')
