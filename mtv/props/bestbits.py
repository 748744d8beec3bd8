"""P08, best-bits search: which candidates a round of the search makes.

Two parts: the functions that make one candidate and that decide whether it is in range are
interpreted bit by bit with the previous pattern symbolic; the loops that call them are
decided from their recurrences."""
import re
from .. import core
from ..bits import Bits, Need, Ptr
from ..bdd import BDD
from ..core import sig, Explore, LoopClient, evalt
from ..facts import TooComplex
from ..report import parallel
from ..sym import strip_ext

CLS = r'MTToolBox::AlgorithmBestBits<%s>::'
TP = r'MTToolBox::temper_params<%s>'


def roles(P, T):
    """constructor, maker of one candidate, range test, constructor of a pattern (by their signatures)"""
    c, t = CLS % T, TP % T
    pats = {'ctor': c + r'AlgorithmBestBits\(int, int const\*, int, int\)$',
            'make': c + r'\w+\(%s&, int, int, %s const&\)( const)?$' % (t, t),
            'range': c + r'\w+\(int, int\)( const)?$',
            'pattern': t + r'::temper_params\(int\)$'}
    r = {}
    for k, p in pats.items():
        fs = [f for f in P.fns.values() if re.match(p, f.dem)]
        if len(fs) == 1:
            r[k] = fs[0]
    return r


class World:
    def __init__(self, R, size, shifts, limit, W):
        self.B = B = BDD()
        self.n = 0
        self.R, self.W, self.size = R, W, size
        mem = {('shv', 4 * k, 32): B.const(s, 32) for k, s in enumerate(shifts)}
        self.mem = self.call('ctor', [Ptr('this', B.const(0, 64)), B.const(W, 32), Ptr('shv', B.const(0, 64)), B.const(size, 32), B.const(limit, 32)], mem)[1]
        for k in [k for k in self.mem if k[0] == 'shv']:
            del self.mem[k]

    def hook(self, m, i, a, g, mem):
        n = i.get('cdem') or i.get('callee') or ''
        if n.startswith('operator new'):
            self.n += 1
            return Ptr(('new', self.n), self.B.const(0, 64))
        if n.startswith('operator delete'):
            return None
        if n.startswith('std::') or 'ostream' in n:
            return Ptr('os', self.B.const(0, 64)) if i.get('ty') == 'ptr' else None
        return NotImplemented

    def call(self, role, args, mem):
        m = Bits(self.R[role], args, mem=mem, hook=self.hook, B=self.B).run()
        rets = [r for r in m.rets if r[0] != 0]
        if len(rets) != 1:
            raise Need('%d ways to return' % len(rets))
        return rets[0][1], rets[0][2]

    def members(self):
        return {k[1]: self.B.cval(v, True) for k, v in self.mem.items() if k[0] == 'this' and isinstance(v, list)}

    def pattern(self, base, mem):
        """a pattern object; returns (memory, base of its words)"""
        B = self.B
        _, mem = self.call('pattern', [Ptr(base, B.const(0, 64)), B.const(self.size, 32)], mem)
        p = [v for k, v in mem.items() if k[0] == base and isinstance(v, Ptr)]
        if len(p) != 1:
            raise Need('words of a pattern')
        return dict(mem), p[0].base


CONF = [(1, (7,)), (1, (12,)), (2, (7, 5)), (2, (4, 9)), (2, (3, 3))]


def candidate(rep, P, T, W, conf):
    R = roles(P, T)
    it = 'AlgorithmBestBits<%s>' % T.replace('unsigned long', 'u64').replace('unsigned int', 'u32')
    if not {'ctor', 'make', 'pattern'} <= set(R):
        rep.unk('candidate', it, '', 'the function making a candidate is not recognised')
        return
    mk = R['make']
    rep.fn(mk)
    w = mk.where({})
    step = W // 8
    done = 0
    for size, shifts in [conf]:
        for v in (0, 1, 6, W // 2 - 1, W - 14):
            new = [(j, W - 1 - v) for j in range(size)]
            if size == 2:
                new.append((0, W - 1 - v - shifts[1]))
            if min(b for j, b in new) < 1 or v + max(shifts) + (shifts[1] if size == 2 else 0) >= W:
                continue
            cf = '%d parameters, shifts %s, position %d' % (size, list(shifts), v)
            try:
                o = World(R, size, shifts, W, W)
                B = o.B
                got = set()
                for pat in range(1 << len(new)):
                    mem = dict(o.mem)
                    mem, rb = o.pattern('res', mem)
                    mem, pb = o.pattern('par', mem)
                    old = []
                    for j in range(size):
                        bits = [B.var(('old', j, k)) for k in range(W)]
                        old.append(bits)
                        mem[(pb, step * j, W)] = bits
                    if 'range' in R:
                        x, _ = o.call('range', [Ptr('this', B.const(0, 64)), B.const(pat, 32), B.const(v, 32)], mem)
                        x = B.cval(x)
                        if x is None or not x & 1:
                            rep.verdict(None if x is None else False, 'candidate', it + ' range', R['range'].where({}), 'for %s the pattern %d, all of whose bits stay inside the word, is left out' % (cf, pat))
                            return
                    _, mm = o.call('make', [Ptr('this', B.const(0, 64)), Ptr('res', B.const(0, 64)), B.const(pat, 32), B.const(v, 32), Ptr('par', B.const(0, 64))], mem)
                    p = [q for k, q in mm.items() if k[0] == 'res' and isinstance(q, Ptr)]
                    if len(p) == 1:
                        rb = p[0].base
                    tup = {}
                    for j in range(size):
                        val = mm.get((rb, step * j, W))
                        if not isinstance(val, list):
                            raise Need('words of the candidate')
                        for b in range(W):
                            if (j, b) in new:
                                if val[b] not in (0, 1):
                                    rep.bad('candidate', it + ' bits', w, 'for %s bit %d of parameter %d depends on the previous pattern' % (cf, b, j))
                                    return
                                tup[(j, b)] = val[b]
                            elif val[b] != old[j][b] and b != 0:
                                rep.bad('candidate', it + ' bits', w, 'for %s and pattern %d bit %d of parameter %d is not that of the pattern settled before' % (cf, pat, b, j))
                                return
                    got.add(tuple(sorted(tup.items())))
                if len(got) != 1 << len(new):
                    rep.bad('candidate', it + ' choices', w, 'for %s only %d of the %d choices of the new bits %s are made' % (cf, len(got), 1 << len(new), new))
                    return
                done += 1
            except (Need, TooComplex, KeyError) as e:
                rep.unk('candidate', it, w, '%s: %s' % (cf, e))
                return
    rep.verdict(True if done else None, 'candidate', it, w, 'nothing decided', )
    if 'range' in R:
        rep.ok('candidate', it + ' range', R['range'].where({}))


class Rounds(LoopClient):
    def __init__(self, f, T):
        super().__init__(f)
        c, t = CLS % T, TP % T
        self.mk = re.compile(c + r'\w+\(%s&, int, int, %s const&\)' % (t, t))
        self.rg = re.compile(c + r'\w+\(int, int\)')
        self.relevant = set()

    def onedge(self, c):
        # the inner history is not needed
        while len(c.us[-1]) > 2 and isinstance(c.us[-1][-1], tuple) and c.us[-1][-1][0] == 'loop':
            c.us = c.us[:-1] + (c.us[-1][:-1],)

    def call(self, c):
        d = c.x.get('cdem') or ''
        if self.mk.match(d):
            self.ev(c, ('make',) + tuple(strip_ext(a) for a in c.args[-3:]))

    def after(self, c):
        d = c.x.get('cdem') or ''
        if self.rg.match(d):
            c.val = ('p:inrange', ('id', c.x['i']))


def loops(rep, P0, f, T, W, models):
    """operator(): positions, previous patterns and patterns it goes through"""
    from .temper import ancestors
    i = sig(f)
    cl = Rounds(f, T)
    s = Explore(rep, ['patterns'])(f, f.prog, cl, us0=Rounds.us0, models=models, generic='all', keepfact=lambda k: False)
    if s is None:
        return
    w = f.where({})
    recs = [(h, rnd, e, c) for h, rnd, evs, c in cl.iters for e in evs if e[0] == 'make']
    heads = {h for h, r, e, c in recs}
    if len(heads) != 1:
        rep.unk('patterns', i, w, 'the loop over the patterns is not recognised')
        return
    H = heads.pop()
    anc = ancestors(cl, H)
    if len(anc) != 3:
        rep.unk('patterns', i, w, '%d loops around a candidate' % len(anc))
        return
    top, par = anc[0], anc[1]
    R = roles(P0, T)
    calls = {e for h, r, e, c in recs}

    kept = [4]

    def member(size, limit, extra=None):
        mb = World(R, size, (7, 5, 3)[:size], limit, W).members()

        def leaf(t):
            if extra and t in extra:
                return extra[t]
            if isinstance(t, tuple) and t:
                if t[0] == 'ld' and t[1] == ('arg', 0):
                    return mb.get(0)
                if t[0] in ('ld',) and isinstance(t[1], tuple) and t[1][:2] == ('at', ('arg', 0)) and len(t[1]) == 3:
                    return mb.get(t[1][2])
                if t[0] == 'p:size':
                    return kept[0]
            return None
        return leaf
    try:
        # patterns
        for size in (1, 2, 3):
            n = size * (size + 1) // 2
            env0 = member(size, 9)
            for v in (0, 1, 5):
                env = cl.at(top, v, env0)
                r = cl.rounds(H, env)
                if r is None:
                    rep.unk('patterns', i + ' all', w, 'rounds of the pattern loop not computed')
                    break
                for e in calls:
                    memo = {}
                    ps = [evalt(e[1], cl.at(H, k, env, memo)) for k in range(r[0])]
                    if None in ps:
                        rep.unk('patterns', i + ' all', w, 'patterns not computed')
                        continue
                    miss = set(range(1 << n)) - set(ps)
                    rep.verdict(not miss, 'patterns', i + ' all', f.where(f.insts(H)[0]), 'with %d parameters, at position %d, pattern %s of the %d choices of %d bits is not tried' % (size, v, min(miss) if miss else '', 1 << n, n))
        # positions
        for limit in (1, 3, 8, 30):
            env = member(2, limit)
            r = cl.rounds(top, env)
            rep.verdict(None if r is None else r[0] == limit, 'patterns', i + ' positions', f.where(f.insts(top)[0]), 'with limit %d %s positions are worked on' % (limit, r and r[0]))
            for e in calls:
                memo = {}
                vs = [evalt(e[2], cl.at(top, k, env, memo)) for k in range(limit)]
                rep.verdict(None if None in vs else vs == list(range(limit)), 'patterns', i + ' position of a candidate', w, 'candidates are made for positions %s' % (vs,))
        # previous patterns
        for kept[0] in (1, 4, 500):
            r = cl.rounds(par, member(2, 5))
            rep.verdict(None if r is None else r[0] == kept[0], 'patterns', i + ' previous', f.where(f.insts(par)[0]), 'candidates are made from %s of %d patterns kept' % (r and r[0], kept[0]))
        kept[0] = 4
        env = member(2, 5)
        for e in calls:
            t = e[3]
            while isinstance(t, tuple) and t[0] in ('held', 'ld'):
                t = t[1]
            if isinstance(t, tuple) and t[0] == 'elem':
                memo = {}
                ks = [evalt(strip_ext(t[2]), cl.at(par, k, env, memo)) for k in range(4)]
                rep.verdict(None if None in ks else sorted(ks) == [0, 1, 2, 3], 'patterns', i + ' previous pattern', w, 'candidates are made from the kept patterns number %s of 4' % (ks,))
            else:
                rep.unk('patterns', i + ' previous pattern', w, 'made from %r' % (e[3],))
    except (Need, TooComplex, KeyError) as x:
        rep.unk('patterns', i, w, str(x))


def run(rep, models):
    P0 = core.prog(keep=[], ast=False, passes='function(sroa,loop-simplify)')
    P3 = core.prog(keep=core.KEEP + [r'MTToolBox::AlgorithmBestBits<[^>]*>::\w+\(int, int\)', r'MTToolBox::AlgorithmBestBits<[^>]*>::\w+\(MTToolBox::temper_params<[^>]*>&, int, int,'])
    jobs = []
    for T, W in (('unsigned int', 32), ('unsigned long', 64)):
        jobs += [(candidate, (P0, T, W, conf)) for conf in CONF]
        jobs += [(loops, (P0, f, T, W, models)) for f in P3.fns.values() if re.match(CLS % T + r'operator\(\)\(', f.dem)]
    parallel(rep, jobs)
