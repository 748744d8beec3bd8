"""P01, P02: what the recursion searches accept, reject and count."""
from ..core import prog, sig, Explore, scev_eval, evalt
from ..facts import Fn
from ..report import Report, finish
from ..sym import Client, strip_ext


def getter(P, q, want):
    """address term returned (or loaded and returned) by a const member, relative to this"""
    r = {}
    for f in P.find(rx=q):
        got = []

        class C(Client):
            def ret(self, c, val):
                got.append(val)
        from ..sym import Sym
        Sym(f, P, C()).run()
        r[sig(f)] = (f, got)
    return r


def cls_of(f):
    return f.dem[:f.dem.rfind('::', 0, f.dem.rfind('('))]


def rebase(a, k):
    """the same member of an object passed as argument k (after a hidden result pointer)"""
    return a if a is None else ('arg', k) if a[0] == 'arg' else ('at', ('arg', k), a[2])


def field_addr(val, byload):
    """('at'|'arg' address) of the member a getter hands out"""
    v = strip_ext(val)
    if byload:
        return v[1] if isinstance(v, tuple) and v[0] == 'ld' else None
    return v if isinstance(v, tuple) and v[0] in ('at', 'arg') else None


class SearchClient(Client):
    """us = candidates drawn in the current iteration and increments of the counter:
    (drawn, incs)"""

    def __init__(self, rep, fn, reducible, fields):
        self.rep, self.fn, self.red, self.F = rep, fn, reducible, fields
        self.i = sig(fn)
        self.accepts = self.rejects = 0
        self.loop = drawing_loop(fn)

    # ------------------------------------------------ events
    # us = (drawn, increments, pending); pending: a candidate of a finished iteration for
    # which no reason to discard is known, with the verdict on accepting it
    def after(self, c):
        if c.m == 'setUpParam':
            if c.us[0]:
                self.judge(c)
                self.count(c)
                c.us = (0, 0, None)
            elif c.us[2]:
                self.discarded(c, c.us[2])
            c.us = (1, c.us[1], None)
            self.g, self.pg = c.args[0], c.args[1]
        if c.m in ('minpoly',):
            v = c.obj(c.args[0])
            # a minimal polynomial of a 2n-term sequence computed with bound n has degree <= n
            c.assume([('sle', ('p:deg', v), ('p:bitSize', c.args[1])), ('sge', ('p:deg', v), 0)])

    def store(self, c, addr, val):
        if addr == self.F['count']:
            old = c.load(addr)
            old = strip_ext(old)
            d, n, p = c.us
            if val == ('add', 1, old) or val == ('add', old, 1):
                c.us = (d, n + 1 if isinstance(n, int) else None, p)
            elif isinstance(old, int) and isinstance(val, int) and val - old == 1:
                c.us = (d, n + 1 if isinstance(n, int) else None, p)
            else:
                dl = {(v - k) for v, k in zip([evalt(val, lambda t, k=k: k if t == old else None) for k in (10, 1000)], (10, 1000)) if v is not None} if not isinstance(old, int) else {val - old} if isinstance(val, int) else set()
                dl = {x - (1 << 64) if x >= 1 << 63 else x for x in dl}
                c.us = (d, n + dl.pop() if isinstance(n, int) and len(dl) == 1 else None, p)

    def edge(self, c):
        """remember by which block the drawing loop was left"""
        L = self.loop
        if L is not None and c.src in L['blocks'] and c.dst not in L['blocks']:
            c.us = c.us[:3] + (c.src,)

    def backedge(self, c, header):
        p = c.us[2]
        if c.us[0]:
            if self.discard_reason(c, self.g):
                self.rep.ok('reject', self.i, c.where())
                p = None
            else:
                p = self.accept_eval(c) + (c.where(), c.lines(), self.blind(c))
        if c.us[:2] != (0, 0):
            self.count(c)
        c.us = (0, 0, p)

    def ret(self, c, val):
        t = c.truth(val)
        if t is None:
            from ..sym import cond_atoms2
            for truth in (True, False):
                at = cond_atoms2(val, truth)
                if at is None:
                    continue
                import copy
                c2 = copy.copy(c)
                c2.dead = False
                c2.assume(at)
                if not c2.dead:
                    self.leave(c2, truth)
        else:
            self.leave(c, t)

    def leave(self, c, truth):
        if c.us[:2] != (0, 0):
            self.count(c)
        if truth:
            self.accepts += 1
            if c.us[0]:
                ok, why = self.accept_eval(c)
            elif c.us[2]:
                ok, why = c.us[2][:2]
            else:
                ok, why = False, 'success is reported without a candidate that passed having been drawn; path ' + c.lines()
            self.rep.verdict(ok, 'accept', self.i, c.where(), why)
            return
        if len(c.us) > 3:
            e = dict(self.loop['exits'])
            if e.get(c.us[3]) is None and any(v is not None for v in e.values()):
                t = self.fn.term_inst(c.us[3])
                v = self.fn.val(t['ops'][0]) if t.get('ops') else None
                if v is not None and not self.counts(v):
                    self.rep.bad('budget', self.i + ' early', c.where(), 'the search gives up before the number of trials asked for is used up, although no candidate was accepted; path ' + c.lines())
        if c.us[0]:
            self.judge(c)
        elif c.us[2]:
            self.discarded(c, c.us[2])

    def counts(self, v, seen=()):
        """does the exit condition depend on an argument or on something carried around the loop?"""
        if not isinstance(v, tuple):
            return False
        if v[0] == 'arg' and v != ('arg', 0):
            return True
        if v[0] == 'phi':
            L = self.loop
            b = self.fn.bof[v[1]]
            if b == L['header']:
                return True
            return v[1] not in seen and any(p in L['blocks'] and self.counts(self.fn.val(o), seen + (v[1],)) for o, p in self.fn.inst[v[1]]['ops'])
        return any(self.counts(x, seen) for x in v[1:])

    # ------------------------------------------------ obligations
    def count(self, c):
        d, n = c.us[:2]
        if n == d:
            self.rep.ok('count', self.i, c.where())
        elif n is None:
            self.rep.unk('count', self.i, c.where(), 'the counter is updated in a form the rule does not know')
        else:
            self.rep.bad('count', self.i, c.where(), '%d candidate examined but the trial counter was incremented %d times on the path %s' % (d, n, c.lines()))

    def cand(self, c, v):
        """is v the minimal polynomial of the candidate drawn last, from a nonzero constant seed?"""
        if not (isinstance(v, tuple) and v[0] == 'minpoly'):
            if isinstance(v, tuple) and v[0] in ('charpoly', 'lcm', 'lh', 'hv', 'ld', 'select'):
                return None, 'the polynomial comes from %s' % v[0]
            return False, 'the polynomial handed out is %s, not the minimal polynomial of the candidate' % (v[0] if isinstance(v, tuple) else v,)
        s, g = v[1], v[2]
        if g != self.g:
            return None, 'minimal polynomial of another generator object'
        par = c.par(g)
        if not (isinstance(par, tuple) and par[0] == 'drawn'):
            return False, 'no parameters were drawn before the candidate was accepted'
        if isinstance(s, tuple) and s[0] == 'unk':
            return False, 'the minimal polynomial is measured from the state left by setUpParam(), without seeding'
        if s == ('st0', g):
            return False, 'the minimal polynomial is measured before parameters were drawn and the state seeded'
        if not (isinstance(s, tuple) and s[0] == 'seeded'):
            if isinstance(s, tuple) and s[0] in ('adv', 'nx'):
                return None, 'state advanced before the measurement'
            return False, 'the minimal polynomial is measured from state %s' % (s[0] if isinstance(s, tuple) else s,)
        if s[2] != par:
            return False, 'the minimal polynomial belongs to parameters drawn earlier than the ones the generator holds'
        if s[1] == 0:
            return False, 'the candidate is seeded with 0'
        if not isinstance(s[1], int):
            return None, 'seed value is not a constant'
        sz = v[4] if len(v) > 4 else 0
        if isinstance(sz, int) and sz > 0:
            return False, 'the minimal polynomial is computed for a fixed state size %d' % sz
        return True, ''

    def accept_eval(self, c):
        """(verdict, reason) for reporting success in this state"""
        g = self.g
        v = c.obj(self.F['char'])
        path = '; path ' + c.lines()
        ok, why = self.cand(c, v)
        if ok is not True:
            return ok, why + path
        par = c.par(g)
        if par[2] is not None and self.F.get('pgen') and par[2] != ('ld', self.F['pgen']):
            return False, 'parameters are not drawn from the caller\'s parameter generator'
        if not self.red:
            n = ('p:bitSize', g)
            d = c.known('eq', ('p:deg', v), n)
            hit = None
            for f, rel in c.facts.items():
                for t in f[1:]:
                    if isinstance(t, tuple) and t[0] == 'p:prim' and t[3] == v and c.truth(('icmp', 'ne', t, 0)) is True:
                        hit = t
            if hit is None:
                return False, 'success without a positive primitivity verdict on the candidate\'s minimal polynomial' + path
            if hit[1] != ('ld', self.F.get('prim')):
                return False, 'the primitivity test used is not the one given at construction'
            dt = strip_ext(hit[2])
            if dt == n or (d is True and dt == ('p:deg', v)):
                return True, ''
            if dt == ('p:deg', v):
                return False, 'success without the degree being known to equal bitSize()' + path
            return None, 'degree argument %r' % (dt,)
        n = ('p:getMexp', g)
        irr = c.obj(self.F['irr'])
        if irr == v:
            return False, 'the irreducible factor handed out is the whole characteristic polynomial' + path
        if not (isinstance(irr, tuple) and irr[0] == 'fac'):
            return (None if isinstance(irr, tuple) and irr[0] in ('lh', 'hv', 'ld') else False), 'irreducible factor is %s' % (irr[0] if isinstance(irr, tuple) else irr,) + path
        if irr[1] != v:
            return False, 'the factor was extracted from another polynomial than the one handed out as characteristic polynomial'
        if strip_ext(irr[2]) != n:
            return False, 'the factor was searched with degree %r instead of getMexp()' % (irr[2],)
        if c.truth(('icmp', 'ne', ('p:hasFac', v, irr[2]), 0)) is True:
            return True, ''
        return False, 'success although the factor search did not answer yes' + path

    def blind(self, c):
        """a test the rule does not interpret was made on the candidate"""
        return any(isinstance(t, tuple) and t[0] in ('p:IterIrredTest', 'p:isPrime') for f in c.facts for t in f[1:])

    def judge(self, c):
        """the candidate drawn in this iteration is being discarded"""
        if self.discard_reason(c, self.g):
            self.rep.ok('reject', self.i, c.where())
        else:
            self.discarded(c, (None, '', c.where(), c.lines(), self.blind(c)))

    def discarded(self, c, p):
        if p[4]:
            self.rep.unk('reject', self.i, p[2], 'other test than the primitivity functor')
        else:
            self.rep.bad('reject', self.i, p[2], 'a candidate is discarded although neither its degree nor the %s is known to fail; path %s' % ('factor test' if self.red else 'primitivity test', p[3]))

    def discard_reason(self, c, g):
        n = ('p:getMexp', g) if self.red else ('p:bitSize', g)
        for f, rel in c.facts.items():
            for a, b in ((f[1], f[2]), (f[2], f[1])) if len(f) == 3 else ():
                if not isinstance(a, tuple):
                    continue
                if a[0] == 'p:deg' and isinstance(a[1], tuple):
                    if a[1][0] == 'minpoly' and not self.red and b == n and c.known('eq', a, b) is False:
                        return 'degree'
                    if a[1][0] == 'minpoly' and self.red and b == n and c.known('slt', a, b) is True:
                        return 'degree'
                    if a[1][0] == 'fac' and self.red and b == n and c.known('eq', a, b) is False:
                        return 'degree'
                if a[0] == 'p:prim' and not self.red and c.truth(('icmp', 'ne', a, 0)) is False:
                    return 'prim'
                if a[0] == 'p:hasFac' and self.red and strip_ext(a[2]) == n and c.truth(('icmp', 'ne', a, 0)) is False:
                    return 'factor'
        return None


def drawing_loop(f):
    draws = [x for x in f.calls('setUpParam')]
    L = None
    for l in f.loops():
        if draws and all(f.bof[x['i']] in l['blocks'] for x in draws):
            if L is None or len(l['blocks']) < len(L['blocks']):
                L = l
    return L


def budget(rep, P, f):
    """the loop that draws candidates runs max(0, try_count) times unless a candidate is accepted"""
    i = sig(f)
    draws = [x for x in f.calls('setUpParam')]
    rep.calls(len(draws))
    if not draws:
        rep.unk('budget', i, f.where({}), 'no draw in the entry point itself')
        return
    L = None
    for l in f.loops():
        if all(f.bof[x['i']] in l['blocks'] for x in draws):
            if L is None or len(l['blocks']) < len(L['blocks']):
                L = l
    if L is None:
        rep.bad('budget', i, f.where(draws[0]), 'candidates are drawn outside any loop: the number of trials does not follow try_count')
        return
    cs = [e for _, e in L['exits'] if e is not None]
    an = [k for k, v in f.argnames.items() if k > 0] or [1]
    res = []
    for e in cs:
        ok = True
        for n in (0, 1, 2, 3, 17, 100000):
            v = scev_eval(e, {1: n})
            if v is None:
                ok = None
                break
            # iterations in which a candidate is drawn: header-tested loops run v times
            res.append((n, v))
    if not res:
        rep.unk('budget', i, f.where(draws[0]), 'loop exit count not computable')
        return
    hdr = L['header']
    # the exit is taken in iteration v (0-based); if the draw precedes the exit test it has already happened
    bad = []
    dom = f.dominators()
    for b, e in L['exits']:
        if e is None:
            continue
        pre = f.bof[draws[0]['i']] != b and f.bof[draws[0]['i']] in dom[b] or any(y['i'] == draws[0]['i'] for y in f.insts(b))
        guarded = entry_guard(f, L, 1)
        for n in (0, 1, 2, 3, 17, 100000):
            v = scev_eval(e, {1: n})
            if v is None:
                break
            trials = v + 1 if pre else v
            if guarded and n < guarded:
                trials = 0
            if trials != max(0, n):
                bad.append((n, trials))
    if bad:
        rep.bad('budget', i, f.where(draws[0]), 'with try_count=%d the search draws %d candidates before giving up' % bad[0])
    else:
        rep.ok('budget', i, f.where(draws[0]), 'trial loop bound = max(0, try_count)')


def entry_guard(f, L, arg):
    """smallest n for which the loop is entered when a test of the argument guards it (0: none)"""
    # a guard 'arg < 1 -> skip' in front of a bottom-tested loop
    for p in f.pred[L['header']]:
        if p in L['blocks']:
            continue
        b = p
        for _ in range(4):
            ps = [q for q in f.pred[b]]
            t = f.term_inst(b)
            if t['op'] == 'br' and t['ops']:
                at = f.atoms(t['ops'][0], t['to'][0] in (b, L['header']) or t['to'][0] == p)
                for a in at or []:
                    if len(a) == 3 and a[1] == ('arg', arg) and isinstance(a[2], int):
                        if a[0] in ('sgt',):
                            return a[2] + 1
                        if a[0] in ('sge',):
                            return a[2]
                        if a[0] == 'ne' and a[2] == 0:
                            return 1
            if len(ps) != 1:
                break
            b = ps[0]
    return 0


def run(prop, tier, red):
    rep = Report(prop, tier)
    rep.rule('accept', 'every path on which start() returns true has drawn parameters, seeded with a nonzero constant, measured the minimal polynomial and obtained the positive tests on it; the getters hand out that polynomial')
    rep.rule('reject', 'a drawn candidate is discarded only when its degree or the test is known to fail')
    rep.rule('count', 'each drawn candidate increments the counter returned by getCount() exactly once')
    rep.rule('budget', 'the drawing loop runs max(0,try_count) times unless a candidate is accepted')
    rep.rule('ctor', 'constructors store the caller\'s generator, parameter generator and primitivity test and set the counter to 0')
    rep.rule('params', 'getParamString() returns the parameter string of the searched generator')
    P = prog()
    K = 'AlgorithmReducibleRecursionSearch' if red else 'AlgorithmRecursionSearch'
    ex = Explore(rep, ['accept', 'reject', 'count'])
    from ..sym import Sym
    from ..build import AnalysisBroken
    for U in ('unsigned int', 'unsigned long'):
        C = 'MTToolBox::%s<%s>' % (K, U)

        def member(name):
            fs = [f for f in P.fns.values() if f.dem.replace('[abi:cxx11]', '').startswith(C + '::' + name + '(')]
            return fs

        def rets(f):
            got = []

            class G(Client):
                def ret(self, c, val):
                    got.append((val, c))
            s = Sym(f, P, G()).run()
            rep.fn(f, s)
            return got
        F = {}
        for key, name, byload in (('count', 'getCount', True), ('char', 'getCharacteristicPolynomial' if red else 'getMinPoly', False)) + ((('irr', 'getIrreducibleFactor', False),) if red else ()):
            fs = member(name)
            if not fs:
                raise AnalysisBroken('%s::%s not found' % (C, name))
            vals = {field_addr(v, byload) for v, _ in rets(fs[0])}
            if len(vals) != 1 or None in vals:
                rep.unk('accept', sig(fs[0]), fs[0].where({}), 'getter does not hand out a member')
                F = None
                break
            F[key] = vals.pop()
        if F is None:
            continue
        # constructors
        for f in member(K):
            res = []

            class CC(Client):
                def ret(self, c, val):
                    res.append((dict(c.mem), c.where()))
            if ex(f, P, CC()) is None:
                continue
            i = sig(f)
            nargs = len(f.j['args'])
            for mem, w in res:
                inv = {}
                for k, v in mem.items():
                    if isinstance(k, tuple) and Fn.tbase(k) == ('arg', 0):
                        inv.setdefault(v, k)
                gfield, pfield = inv.get(('arg', 1)), inv.get(('arg', 2))
                if mem.get(F['count']) != 0:
                    rep.verdict(False if isinstance(mem.get(F['count']), int) or F['count'] not in mem else None, 'ctor', i + ' count', w, 'the trial counter starts as %r' % (mem.get(F['count']),))
                else:
                    rep.ok('ctor', i + ' count', w)
                for nm, fl in (('generator', gfield), ('parameter generator', pfield)):
                    if fl is None:
                        rep.bad('ctor', i + ' ' + nm, w, 'the caller\'s %s is not stored' % nm)
                    else:
                        rep.ok('ctor', i + ' ' + nm, w)
                F.setdefault('gen', gfield)
                F.setdefault('pgen', pfield)
                if not red:
                    if nargs >= 4:
                        pf = inv.get(('arg', 3))
                        if pf is None:
                            rep.bad('ctor', i + ' primitivity', w, 'the caller\'s primitivity test is not stored')
                        else:
                            F['prim'] = pf
                            rep.ok('ctor', i + ' primitivity', w)
                    else:
                        gl = [v for v in inv if isinstance(v, tuple) and v[0] == 'g' and 'MersennePrimitivity' in v[1]]
                        rep.verdict(True if gl else None, 'ctor', i + ' primitivity', w, 'default primitivity test')
        for f in member('start'):
            cl = SearchClient(rep, f, red, F)
            cl.g, cl.pg = ('ld', F.get('gen')), None
            s = ex(f, P, cl, us0=(0, 0, None), keepfact=lambda k: any(isinstance(t, tuple) and str(t[0]).startswith('p:') for t in k))
            if s is None:
                continue
            if cl.accepts == 0:
                rep.bad('accept', sig(f), f.where({}), 'start() never reports success')
            if cl.g != ('ld', F.get('gen')):
                rep.bad('accept', sig(f), f.where({}), 'the candidate is not the caller\'s generator')
            budget(rep, P, f)
        for f in member('getParamString'):
            ok = None
            calls = [x for x in f.calls() if P.cname(x) in ('getParamString', 'getHeaderString')]
            rep.calls(len(calls))
            rep.fn(f)
            if calls:
                ok = all(P.cname(x) == 'getParamString' and f.val(P.cargs(x)[0]) == ('ld', rebase(F.get('gen'), len(f.j['args']) - 1)) for x in calls)
            rep.verdict(ok, 'params', sig(f), f.where({}), '' if ok else 'does not forward to the searched generator\'s getParamString()')
    return finish(rep, 'other', 'Path-sensitive typestate analysis of the search entry points on normalised LLVM IR (all helpers inlined, generator and NTL calls modelled), every path including both template widths; plus trip-count analysis of the drawing loop.', floor=8)


def p01(prop, tier):
    return run(prop, tier, False)


def p02(prop, tier):
    return run(prop, tier, True)
