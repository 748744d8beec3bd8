"""P18: the linearity test answers exactly its question; P19: Sequential counts down and refuses"""
from .. import core
from ..bdd import BDD
from ..bits import Bits, Ptr, Need
from ..facts import TooComplex
from ..build import AnalysisBroken
from ..report import Report, finish, parallel
from .util import loc, one, differ

ROUNDS = 100
TYPES = (('unsigned int', 32), ('unsigned long', 64))


# ---------------------------------------------------------------- P18
class Gens:
    """abstract generators: an object is its history (what it was made from, how often it was advanced)"""
    def __init__(self, P, rep, B, w, f, item):
        self.P, self.rep, self.B, self.w, self.f, self.item = P, rep, B, w, f, item
        self.n = 0
        self.vars = {}
        self.first = {}
        self.seeds = []
        self.orig = False
        self.issues = []

    def out(self, h):
        v = self.vars.get(h)
        if v is None:
            v = self.vars[h] = [self.B.var((h, i)) for i in range(self.w)]
        return v

    def new(self, mem, h, g):
        self.n += 1
        b = ('gen', self.n)
        mem[(('m', b), 0, 8)] = self.first[b] = ('h', h)
        mem[(('m', b), 8, 8)] = [g]
        return Ptr(b, self.B.const(0, 64))

    def obj(self, p):
        if not isinstance(p, Ptr) or self.B.cval(p.off) != 0 or not (p.base == 'arg' or isinstance(p.base, tuple) and p.base[0] == 'gen'):
            raise Need('unknown generator')
        return p.base

    def hist(self, mem, b):
        if b == 'arg':
            return ('original', 0)
        h = mem.get((('m', b), 0, 8))
        if not h or h[0] != 'h':
            raise Need('generator with several histories')
        return h[1]

    def touch(self, b, i, what):
        if b == 'arg':
            self.issues.append((i, "calls %s on the caller's generator" % what))

    def alive(self, mem, b, g, i):
        if b != 'arg' and self.B.and_(g, self.B.no(mem[(('m', b), 8, 8)][0])):
            self.issues.append((i, 'uses a copy that was released'))

    def hook(self, m, i, a, g, mem):
        B = self.B
        n = i.get('cdem') or ''
        c = self.P.cname(i)
        if not i.get('callee') or 'EquidistributionCalculatable' in n or 'AbstractGenerator' in n:
            b = self.obj(a[0])
            self.alive(mem, b, g, i)
            if c == 'clone':
                return self.new(mem, self.hist(mem, b), g)
            if c.startswith('~') or c in ('?', 'operator delete'):
                self.touch(b, i, 'delete')
                if b != 'arg':
                    l = mem[(('m', b), 8, 8)][0]
                    mem[(('m', b), 8, 8)] = [B.and_(l, B.no(g))]
                return None
            if c == 'seed':
                self.touch(b, i, c)
                k = B.cval(a[1])
                if k is None or b == 'arg':
                    raise Need('seed')
                self.seeds.append((i, k))
                mem[(('m', b), 0, 8)] = ('h', (('seed', k), 0))
                return None
            if c == 'add':
                self.touch(b, i, c)
                o = self.obj(a[1])
                self.alive(mem, o, g, i)
                if b == 'arg':
                    raise Need('add')
                mem[(('m', b), 0, 8)] = ('h', (('sum',) + tuple(sorted((self.hist(mem, b), self.hist(mem, o)))), 0))
                return None
            if c == 'generate':
                self.touch(b, i, c)
                if b == 'arg' or len(a) > 1:
                    raise Need('generate')
                h = self.hist(mem, b)
                mem[(('m', b), 0, 8)] = ('h', (h[0], h[1] + 1))
                return self.out(h)
            if c in ('bitSize', 'isZero', 'setZero'):
                raise Need(c)
            raise Need('call of ' + c)
        if n.startswith(('std::', 'operator<<')) or 'std::ostream' in n or 'std::ios' in n:
            return Ptr('os', B.const(0, 64)) if i.get('ty') == 'ptr' else None
        return NotImplemented

    def load(self, m, base, off, width):
        if isinstance(base, tuple) and base[0] == 'vt' and off < 0:
            return self.B.const(0, 64)          # offset of a base class
        if base == 'arg' or isinstance(base, tuple) and base[0] in ('gen', 'vt'):
            return Ptr(('vt', base), self.B.const(0, 64))
        if isinstance(base, tuple) and base[0] == 'm':
            return self.first[base[1]] if off == 0 else [0]
        if base == 'os':
            return Ptr('os', self.B.const(0, 64))
        return None


def linear(rep, P, T, w):
    f = one(P, r'MTToolBox::TestLinearity<%s>::operator\(\)' % T)
    if f is None:
        raise AnalysisBroken('TestLinearity::operator() not found')
    rep.fn(f)
    item = 'TestLinearity u%d' % w
    B = BDD()
    G = Gens(P, rep, B, w, f, item)
    # the specification's outputs, later rounds nearer the root
    A, C = (('seed', 1234), 0), (('seed', 4321), 0)
    keys = {}

    def spec(s1, s2, rounds):
        a, c = (('seed', s1), 0), (('seed', s2), 0)
        aa = ('sum',) + tuple(sorted((a, a)))
        ac = ('sum',) + tuple(sorted((a, c)))
        return ('seed', s1), ('seed', s2), aa, ac
    # seeds are read off the code first (constants), so that their outputs can be ordered well
    ks = []
    for x in f.insts():
        if x['op'] in ('call', 'invoke') and P.cname(x) == 'seed':
            for o in x['ops'][1:]:
                if o[0] == 'c':
                    ks.append(int(o[1]) & ((1 << w) - 1))
    for g in P.fns.values():
        if 'TestLinearity' in g.dem:
            for x in g.insts():
                if x['op'] in ('call', 'invoke') and P.cname(x) == 'seed':
                    ks += [int(o[1]) & ((1 << w) - 1) for o in x['ops'][1:] if o[0] == 'c']
    ks = list(dict.fromkeys(ks))[:2]
    if len(ks) == 2:
        a, c, aa, ac = spec(ks[0], ks[1], ROUNDS)
        for r in range(ROUNDS + 20, -1, -1):
            hs = [(a, r), (c, r), (ac, r)]
            for h in hs:
                G.vars[h] = []
            for i in range(w):
                for h in hs:
                    G.vars[h].append(B.var((h, i)))
        for r in range(ROUNDS + 20, -1, -1):
            for h in ((aa, r), (('sum',) + tuple(sorted(((c, 0), (c, 0)))), r)):
                G.out(h)
    try:
        m = Bits(f, [Ptr('this', B.const(0, 64)), Ptr('arg', B.const(0, 64))], hook=G.hook, B=B, load=G.load).run()
    except (Need, TooComplex) as e:
        for i, t in G.issues:
            rep.bad('untouched', item, f.where(i), t)
        rep.unk('answer', item, loc(f), str(e))
        return
    for i, t in G.issues:
        rep.bad('untouched' if 'caller' in t else 'release', item, f.where(i), t)
    if not G.issues:
        rep.ok('untouched', item, loc(f))
    # every copy is released when the function returns
    for g, v, mem in m.rets:
        for k, l in mem.items():
            if isinstance(k[0], tuple) and k[0][0] == 'm' and k[1] == 8 and B.and_(g, l[0]):
                rep.bad('release', item, loc(f), 'a copy is not released on every path')
    rep.ok('release', item, loc(f))
    if m.throws:
        rep.unk('answer', item, loc(f), 'throws')
        return
    sd = {k for _, k in G.seeds}
    rep.verdict(len(sd) >= 2 and 0 not in sd, 'seeds', item, loc(f), 'the copies are seeded with %s: two different nonzero seeds are needed' % sorted(sd))
    if len(ks) != 2:
        rep.unk('answer', item, loc(f), 'seeds not recognised')
        return

    def want(a, c, aa, ac, rounds=ROUNDS):
        r = 1
        for n in range(rounds):
            x = G.out((aa, n))
            for b in x:
                r = B.and_(B.no(b), r)
        for n in range(rounds):
            x, y, z = G.out((a, n)), G.out((c, n)), G.out((ac, n))
            e = 1
            for p, q, s in zip(x, y, z):
                e = B.and_(e, B.no(B.xor(B.xor(p, q), s)))
            r = B.and_(e, r)
        return r
    res = 0
    for g, v, mem in m.rets:
        res = B.or_(res, B.and_(g, v[0]))
    for x, y in ((0, 1), (1, 0)):
        good = want(*spec(ks[x], ks[y], ROUNDS))
        # looking at more outputs is allowed: yes must follow from the agreement of all of them
        if res == good or B.and_(res, B.no(good)) == 0 and B.and_(want(*spec(ks[x], ks[y], ROUNDS), rounds=ROUNDS + 20), B.no(res)) == 0:
            rep.ok('answer', item, loc(f))
            return
    good = want(*spec(ks[0], ks[1], ROUNDS))
    s = B.sat(B.and_(res, B.no(good)))
    a, c, aa, ac = spec(ks[0], ks[1], ROUNDS)
    known = {a, c, aa, ac, spec(ks[1], ks[0], ROUNDS)[2]}
    if {h for h in G.vars if h[0] not in known}:
        rep.unk('answer', item, loc(f), 'generators the specification does not know: %s' % [name(h) for h in G.vars if h[0] not in known][:2])
    elif s:
        rep.bad('answer', item, loc(f), 'answers yes although the outputs do not agree (first outputs set: %s)' % ones(s))
    else:
        s = B.sat(B.and_(want(*spec(ks[0], ks[1], ROUNDS), rounds=ROUNDS + 20), B.no(res))) or {}
        rep.bad('answer', item, loc(f), 'answers no although all outputs agree (outputs set: %s)' % ones(s))


def ones(s):
    return ', '.join(name(h) for h in sorted({k[0] for k, v in s.items() if v}, key=repr)[:3])


def name(h):
    b, n = h
    return '%s at round %d' % ('copy seeded %d' % b[1] if b[0] == 'seed' else 'sum' if b[0] == 'sum' else str(b), n)


def p18(prop, tier):
    rep = Report(prop, tier)
    rep.rule('answer', 'the answer is yes exactly when a copy added to itself gives %d zero outputs and the sum of two copies gives %d times the exclusive or of their outputs' % (ROUNDS, ROUNDS))
    rep.rule('seeds', 'the two copies start from two different nonzero seeds')
    rep.rule('untouched', "nothing but clone is called on the caller's generator")
    rep.rule('release', 'every copy is released once, on every path, and not used afterwards')
    P = core.prog(keep=[], passes='function(sroa,loop-simplify)')
    parallel(rep, [(linear, (P, T, w)) for T, w in TYPES])
    return finish(rep, 'other', 'Bit-level abstract interpretation with generators as histories: output n of a history is an arbitrary word; the answer as a canonical Boolean function of all outputs is compared with the specification.', floor=2)


# ---------------------------------------------------------------- P19
class Obj:
    """an object's methods as functions of its memory"""
    def __init__(self, P, rep, cls):
        self.P, self.rep, self.cls = P, rep, cls
        self.B = BDD()
        self.junk = []

    def unset(self, m, base, off, w):
        """a member no constructor wrote holds anything (one witness: the same arbitrary word everywhere)"""
        if base in ('this', 'src') and w <= len(self.junk):
            return self.junk[:w]

    def find(self, sig):
        f = one(self.P, r'^%s::%s$' % (self.cls, sig))
        if f is None:
            raise AnalysisBroken('no function %s::%s' % (self.cls, sig))
        self.rep.fn(f)
        return f

    def hook(self, m, i, a, g, mem):
        n = i.get('callee') or ''
        if n == '__cxa_allocate_exception':
            return Ptr(('exc', i['i']), self.B.const(0, 64))
        if n in ('__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch') or (i.get('cdem') or '').startswith('std::'):
            return Ptr('os', self.B.const(0, 64)) if i.get('ty') == 'ptr' else None
        return NotImplemented

    def call(self, f, args, mem, this='this', pre=1):
        B = self.B
        m = Bits(f, [Ptr(this, B.const(0, 64))] + list(args), mem=mem, hook=self.hook, load=self.unset, B=B, pre=pre).run()
        return m

    def value(self, m):
        """(guard, value, memory) merged over returns"""
        B = self.B
        g, v, mem = 0, None, None
        for gg, vv, mm in m.rets:
            if gg == 0:
                continue
            if mem is None:
                g, v, mem = gg, vv, mm
            else:
                a = {'r': v} if v is not None else {}
                b = {'r': vv} if vv is not None else {}
                g, e, mem = m._merge((g, a, mem), (gg, b, mm))
                v = e.get('r')
        return g, v, mem

    def cells(self, mem, this='this'):
        return {k[1:]: v for k, v in mem.items() if k[0] == this and not isinstance(v, Ptr)}

    def same(self, a, b, g):
        """None if the two objects agree under g, otherwise a condition under which they differ; '' if not comparable"""
        a, b = self.cells(a), self.cells(b)
        if set(a) != set(b):
            return ''
        for k in a:
            if a[k] == b[k]:
                continue
            if not isinstance(a[k], list) or not isinstance(b[k], list):
                return ''
            d = differ(self.B, g, a[k], b[k])
            if d:
                return d
        return None


def sequential(rep, P, T, w):
    O = Obj(P, rep, r'MTToolBox::Sequential<%s>' % T)
    B = O.B
    it = 'Sequential<u%d>' % w
    try:
        mk2 = O.find(r'Sequential\(%s, %s\)' % (T, T))
        nxt = O.find(r'next\(\)')
        s, k = [], []
        for i in range(w):          # counter and mask interleaved
            s.append(B.var(('seed', i)))
            k.append(B.var(('mask', i)))
            O.junk.append(B.var(('unset', i)))
        wh = loc(nxt)

        def make(f, args, mem=None):
            g, v, mm = O.value(O.call(f, args, mem or {}))
            return mm

        def show(d):
            t = B.sat(d) or {}
            return ', '.join('%s=0x%x' % (n, sum(t.get((n, i), 0) << i for i in range(w))) for n in ('seed', 'mask', 'value', 'unset') if any(q[0] == n for q in t))

        def counted(mem, cnt, msk, item, wh, depth=2):
            """observes the object: outputs cnt^msk, (cnt-1)^msk ... then refusal (bounded, for layouts not recognised)"""
            cur, live, c = mem, 1, cnt
            for r in range(depth):
                m = O.call(nxt, [], cur, pre=live)
                g, v, cur2 = O.value(m)
                thr = 0
                for t in m.throws:
                    thr = B.or_(thr, t[0])
                if B.and_(live, B.no(g)):
                    rep.bad('count', item, wh, 'refuses although the counter has not reached zero for ' + show(B.and_(live, B.no(g))))
                    return False
                d = differ(B, live, v, [B.xor(x, y) for x, y in zip(c, msk)])
                if d:
                    rep.bad('count', item, wh, 'output %d is wrong for %s' % (r, show(d)))
                    return False
                z = B.no(B.any(c))
                end = B.and_(live, z)
                if end:
                    m2 = O.call(nxt, [], cur2, pre=end)
                    g2, _, _ = O.value(m2)
                    if g2:
                        rep.bad('refuse', item, wh, 'a number is handed out after zero for ' + show(g2))
                        return False
                live = B.and_(live, B.no(z))
                c = B.sub(c, B.const(1, w))
                cur = cur2
            return True
        mem0 = make(mk2, [k, s])
        ok = counted(mem0, s, k, it, wh)
        # one output, counter not zero: the object is the one a new one with counter - 1 would be
        m = O.call(nxt, [], mem0)
        g, v, mem1 = O.value(m)
        for gu, x, what in m.ub:
            rep.bad('defined', it, nxt.where(x), what)
        nz = B.any(s)
        memd = make(mk2, [k, B.sub(s, B.const(1, w))])
        d = O.same(mem1, memd, nz)
        if ok:
            rep.verdict(True if d is None else None, 'count', it, wh, 'the object after an output is not recognised as a new one with the next counter')
        # exhausted object: refuses with std::underflow_error, and goes on refusing
        ex = B.no(nz)
        m2 = O.call(nxt, [], mem1, pre=ex)
        thr = 0
        for t in m2.throws:
            thr = B.or_(thr, t[0])
        g2, _, _ = O.value(m2)
        if g2 == 0 and thr == ex:
            rep.ok('refuse', it, wh)
            for t in m2.throws:
                ti = [o[1] for o in t[1]['ops'] if o[0] == 'g' and str(o[1]).startswith('_ZTI')]
                rep.verdict(ti == ['_ZTISt15underflow_error'] if ti and ti[0].startswith('_ZTISt') else None, 'refuse', it + ' exception', nxt.where(t[1]), 'throws %s instead of std::underflow_error' % ti)
                m3 = O.call(nxt, [], t[2], pre=t[0])
                g3, _, _ = O.value(m3)
                rep.verdict(g3 == 0, 'refuse', it + ' again', nxt.where(t[1]), 'a number is handed out after the refusal')
        elif g2:
            rep.bad('refuse', it, wh, 'a number is handed out after zero for ' + show(g2))
        else:
            rep.unk('refuse', it, wh, 'how it refuses is not recognised')
        # other constructors
        ones = B.const((1 << w) - 1, w)

        def equal(rule, item, f, mem, cnt, msk, g=1):
            d = O.same(mem, make(mk2, [msk, cnt]), g)
            if d is None:
                rep.ok(rule, item, loc(f))
            elif counted(mem, cnt, msk, item, loc(f), 3):
                rep.unk(rule, item, loc(f), 'object not recognised')
        f = O.find(r'Sequential\(\)')
        equal('make', it + ' default', f, make(f, []), ones, B.const(0, w))
        f = O.find(r'Sequential\(%s\)' % T)
        equal('make', it + ' mask', f, make(f, [k]), ones, k)
        # copying any reachable object: a fresh or counted one, and an exhausted one
        f = O.find(r'Sequential\(MTToolBox::Sequential<%s>( const)?&\)' % T)
        for nm, src, cond in (('fresh', mem0, 1), ('after an output', mem1, 1)):
            mm = {('src',) + kk[1:]: vv for kk, vv in src.items() if kk[0] == 'this'}
            _, _, cp = O.value(O.call(f, [Ptr('src', B.const(0, 64))], mm))
            d = O.same(cp, src, cond)
            item = it + ' copy ' + nm
            if d is None:
                rep.ok('copy', item, loc(f))
            else:
                # the copy must behave as the original: compare the next two answers
                bad = compare_behaviour(O, nxt, cp, src, 3)
                rep.verdict(False if bad else None, 'copy', item, loc(f), bad or 'object not recognised')
        # seeding from any object, the exhausted one included
        val = [B.var(('value', i)) for i in range(64)]
        for sig, n in ((r'seed\(unsigned int\)', 32), (r'seed\(unsigned long\)', 64), (r'reseed\(%s\)' % T, w)):
            f = O.find(sig)
            a = val[:n]
            want = (a + [0] * 64)[:w]
            _, _, mm = O.value(O.call(f, [a], mem1))
            equal('reseed', it + ' ' + sig.split('\\')[0] + ' u%d' % n, f, mm, want, k)
        # the other accessors
        for sig, n in ((r'getUint32\(\)', 32), (r'getUint64\(\)', 64)):
            f = O.find(sig)
            for nm, src in (('fresh', mem0), ('after an output', mem1)):
                a, b = O.call(f, [], src), O.call(nxt, [], src)
                ga, va, ma = O.value(a)
                gb, vb, mb = O.value(b)
                item = it + ' ' + sig.split('\\')[0] + ' ' + nm
                if ga != gb:
                    rep.bad('access', item, loc(f), 'refuses differently from next()')
                    continue
                d = differ(B, gb, va, (vb + [0] * 64)[:n])
                e = O.same(ma, mb, gb)
                rep.verdict(False if d else True if e is None else None, 'access', item, loc(f), 'differs from next() for ' + show(d) if d else 'object not recognised')
        f = O.find(r'bitSize\(\) const')
        _, v, _ = O.value(O.call(f, [], mem0))
        rep.verdict(B.cval(v) == w, 'access', it + ' bitSize', loc(f), 'is %s' % B.cval(v))
    except (Need, TooComplex) as e:
        rep.unk('analysis', it, '', str(e))


def compare_behaviour(O, nxt, a, b, n):
    B = O.B
    live = 1
    for r in range(n):
        x, y = O.call(nxt, [], a, pre=live), O.call(nxt, [], b, pre=live)
        ga, va, ma = O.value(x)
        gb, vb, mb = O.value(y)
        if ga != gb:
            return 'answer %d is refused by one and given by the other' % r
        if ga == 0:
            return None
        if differ(B, ga, va, vb):
            return 'answer %d differs from that of the original' % r
        a, b, live = ma, mb, ga
    return None


def p19(prop, tier):
    rep = Report(prop, tier)
    rep.rule('count', 'an object with counter c and mask m hands out c xor m and then behaves as one with counter c-1')
    rep.rule('refuse', 'after the number for zero it throws std::underflow_error, each time')
    rep.rule('make', 'the default counter is all ones, the default mask zero')
    rep.rule('copy', 'a copy goes on exactly as the original would')
    rep.rule('reseed', 'seeding sets the counter, keeps the mask and ends a refusal')
    rep.rule('access', 'getUint32, getUint64 and bitSize agree with next() and the word size')
    rep.rule('defined', 'no undefined arithmetic')
    P = core.prog(keep=[], ast=False, passes='function(sroa,loop-simplify)')
    parallel(rep, [(sequential, (P, T, w)) for T, w in TYPES])
    return finish(rep, 'other', 'Bit-level abstract interpretation with symbolic counter and mask; induction on the counter (the object after an output equals a new one with the next counter).', floor=2)
