"""P08: the tempering searches install what they measure and leave the best pattern installed."""
import re
from ..build import AnalysisBroken
from ..core import prog, sig, Explore, LoopClient, evalt, loopenv, sample_ok
from ..facts import addoff
from ..models import MODELS, _Prefix
from ..report import Report, finish
from ..sym import Client, strip_ext, contains
from .twostage import models as ts_models
from . import bestbits as bb

N = 'MTToolBox::'
AE = N + 'AlgorithmEquidistribution::'
G = ('arg', 1)


def sub(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from sub(x)


def models():
    M = _Prefix(ts_models({}))

    def sp_get(c):
        a = c.args[0]
        v = c.mem.get(a)
        c.val = v if v is not None else ('held', a)

    def elem(c):
        c.val = ('elem', c.args[0], strip_ext(c.args[1]))
    for n in ('operator->', 'operator*', 'get'):
        M['std::__shared_ptr_access::' + n] = sp_get
        M['std::__shared_ptr::' + n] = sp_get
    for n in ('operator[]', 'at'):
        M['std::vector::' + n] = elem

    def front(c):
        c.val = ('elem', c.args[0], 0)
    M['std::vector::front'] = front

    def nothing(c):
        pass
    for n in ('push_back', 'clear', '~vector', 'vector'):
        M['std::vector::' + n] = nothing

    def size(c):
        c.val = ('p:size', c.args[0], ('id', c.x['i']))
    M['std::vector::size'] = size

    def allq(c):
        c.val = ('p:delta', ('id', c.x['i']))
    M[AE + 'get_all_equidist'] = allq

    def getq(c):
        c.val = ('p:k', ('id', c.x['i']))
    M[AE + 'get_equidist'] = getq
    return M


def contains_held(t):
    return any(isinstance(x, tuple) and x and x[0] == 'held' for x in sub(t))


def keep(k):
    return any(isinstance(t, tuple) and t and t[0] in ('p:delta', 'ld') and (t[0] == 'p:delta' or contains_held(t)) for t in k[1:])


class Events(LoopClient):
    """records what happens to the generator and to the candidate list"""
    NAMES = ('setTemperingPattern', 'setUpTempering', 'setReverseOutput', 'resetReverseOutput', 'AlgorithmEquidistribution', 'get_all_equidist', 'get_equidist', 'push_back', 'clear')

    def __init__(self, fn, prog):
        super().__init__(fn)
        self.mins = set()
        self.relevant = {L['header'] for L in fn.loops() if any(x['op'] in ('call', 'invoke') and prog.cname(x) in self.NAMES for b in L['blocks'] for x in fn.insts(b))}

    def edge(self, c):
        super().edge(c)
        fr = c.us[-1]
        if fr[-1:] and isinstance(fr[-1], tuple) and fr[-1][0] == 'loop' and fr[-1][1] not in self.relevant:
            c.us = c.us[:-1] + (fr[:-1],)

    def call(self, c):
        if c.q.endswith('::setTemperingPattern') and len(c.args) == 4:
            self.ev(c, ('set',) + c.args)
        elif c.q.endswith('::setUpTempering'):
            self.ev(c, ('setup', c.args[0]))
        elif c.q.endswith('::setReverseOutput'):
            self.ev(c, ('rev', c.args[0], 1))
        elif c.q.endswith('::resetReverseOutput'):
            self.ev(c, ('rev', c.args[0], 0))
        elif c.q == AE + 'AlgorithmEquidistribution':
            self.ev(c, ('measure', c.args[1], c.args[2], c.args[3] if len(c.args) > 3 else 0))
        elif c.q == AE + 'get_all_equidist':
            self.ev(c, ('delta', ('p:delta', ('id', c.x['i']))))
        elif c.q == AE + 'get_equidist':
            self.ev(c, ('k', c.x['i']))
        elif c.q == 'std::vector::push_back':
            self.ev(c, ('push', c.args[0], c.args[1]))
        elif c.q == 'std::vector::clear':
            self.ev(c, ('clear', c.args[0]))


class Protocol(Client):
    """us = a pattern was set but not yet made effective"""
    def __init__(self, rep, i, lsb, bits):
        self.rep, self.i, self.lsb, self.bits, self.n = rep, i, lsb, bits, 0

    def call(self, c):
        rep, i = self.rep, self.i
        if c.q.endswith('::setTemperingPattern'):
            rep.calls()
            rep.verdict(c.args[0] == G, 'install', i + ' generator', c.where(), 'the pattern is set in another generator')
            c.us = 1
        elif c.q.endswith('::setUpTempering'):
            rep.calls()
            c.us = 0
        elif c.q == AE + 'AlgorithmEquidistribution':
            rep.calls()
            self.n += 1
            w = c.where()
            rep.verdict(c.args[1] == G, 'measure', i + ' generator', w, 'another generator is measured')
            rep.verdict(c.us == 0, 'measure', i + ' effective', w, 'a pattern is measured before setUpTempering() made it effective; path ' + c.lines())
            r = c.rev(G)
            rep.verdict(r == self.lsb if isinstance(r, int) else False if isinstance(r, tuple) and r[0] == 'rev0' else None, 'measure', i + ' bit order', w,
                        'the generator is measured with %s output although isLSBTempering() is %s; path %s' % ({0: 'normal', 1: 'reversed'}.get(r, 'whatever'), bool(self.lsb), c.lines()))
            m = strip_ext(c.args[3]) if len(c.args) > 3 else 0
            rep.verdict(m == 0 or (m == ('p:bitSize', G) or None), 'measure', i + ' size', w, 'measured against %r' % (m,))
            if self.bits is not None:
                bs = [evalt(strip_ext(c.args[2]), loopenv(c.fn, k, {})) for k in (0, 1, 2)]
                b = next((x for x in bs if x is not None and x != self.bits), bs[0])
                rep.verdict(None if b is None else b == self.bits, 'measure', i + ' bits', w, '%s bits are measured instead of %d' % (b, self.bits))

    def ret(self, c, val):
        rep, i = self.rep, self.i
        rep.verdict(c.us == 0, 'install', i + ' effective', c.where(), 'the search ends with a pattern that setUpTempering() has not made effective; path ' + c.lines())
        r = c.rev(G)
        rep.verdict(r == 0 if isinstance(r, int) else False, 'restore', i, c.where(), 'the search ends with %s output; path %s' % ('reversed' if r == 1 else 'unchanged', c.lines()))


def popcount(n):
    return bin(n & (2 ** 64 - 1)).count('1')


def ancestors(cl, h):
    """headers of the loops around loop h, outermost first (from the nesting)"""
    fn = cl.f
    r = [L for L in fn.loops() if h in L['blocks']]
    return [L['header'] for L in sorted(r, key=lambda L: -len(L['blocks']))]


def flat(evs):
    for e in evs:
        if e[0] == 'loop':
            yield from flat(e[3])
        else:
            yield e


def partial(rep, P, f, W, params, tries, step, lsb, M):
    i = sig(f)
    pr = Protocol(rep, i, lsb, W)
    s = Explore(rep, ['measure', 'install', 'restore'])(f, P, pr, us0=0, models=M, generic='all')
    if s is None:
        return
    if not pr.n:
        rep.unk('measure', i, f.where({}), 'no measurement found')
        return
    cl = Events(f, P)
    s = Explore(rep, ['best', 'candidates', 'windows'])(f, P, cl, us0=Events.us0, models=M, generic='all', wide=True, keepfact=keep)
    if s is None:
        return
    heads = {h for h, r, evs, c in cl.iters if any(e[0] == 'measure' for e in evs)}
    if len(heads) != 1:
        for r in ('best', 'candidates', 'windows'):
            rep.unk(r, i, f.where({}), 'candidate loop not recognised')
        return
    H = heads.pop()
    nest = ancestors(cl, H)
    n = 127
    base = {('p:bitSize', G): n, ('arg', 2): 0}
    # ---- one candidate
    sel(rep, cl, i, H, base, n, W)
    # ---- what is tried, and what is installed afterwards, for every window and parameter
    windows = []
    stop = []

    def walk(d, env):
        h = nest[d]
        r = cl.rounds(h, env)
        if r is None:
            stop.append('the number of rounds of a loop cannot be computed (loop at %s)' % f.where(f.insts(h)[0]))
            return
        k, (hh, rnd, evs, c) = r
        if h == H:
            tried = []
            memo = {}
            for j in range(k):
                e = cl.at(h, j, env, memo)
                sets = set()
                for evs2, c2 in cl.round_records(h, j, e):
                    ss = [x for x in evs2 if x[0] == 'set']
                    if len(ss) != 1:
                        stop.append('a candidate sets %d patterns' % len(ss))
                        return
                    sets.add(tuple(evalt(x, e) for x in ss[0][2:]))
                if len(sets) != 1 or None in list(sets)[0]:
                    stop.append('candidate %d cannot be evaluated: %r' % (j, sets))
                    return
                tried.append(sets.pop())
            # installation after the loop: found in the parent's records
            inst = set()
            last = cl.at(h, k, env)
            src = cl.iters if d else [(None, 0, evs3, c3) for evs3, v3, c3 in cl.rets]
            for hp, rr, evs2, c2 in src:
                if d and hp != nest[d - 1]:
                    continue
                ev = list(evs2)
                q = [a for a, x in enumerate(ev) if x[0] == 'loop' and x[1] == H]
                if not q or not sample_ok(c2, env):
                    continue
                ss = [x for x in ev[q[-1] + 1:] if x[0] == 'set']
                if len(ss) != 1:
                    inst.add(('no', len(ss)))
                    continue
                inst.add((evalt(ss[0][2], env), evalt(ss[0][4], env)))
            windows.append((tried, inst))
            return
        for j in range(k):
            walk(d + 1, cl.at(h, j, env))
    walk(0, lambda t: base.get(t))
    w = f.where(f.insts(H)[0])
    if stop:
        rep.unk('windows', i, w, stop[0])
        rep.unk('candidates', i, w, stop[0])
        return
    want = [(p, min(step, tries - p), q) for p in range(0, tries, step) for q in range(params)]
    M64 = (1 << W) - 1
    got = []
    for tried, inst in windows:
        masks = {t[0] & M64 for t in tried}
        pos = {t[2] for t in tried}
        got.append((tuple(masks)[0] if len(masks) == 1 else None, tuple(pos)[0] if len(pos) == 1 else None))

    def mask(p, size):
        m = (1 << size) - 1
        return m << p if lsb else m << (W - p - size)
    exp = [(mask(p, size), q) for p, size, q in want]
    rep.verdict(got == exp, 'windows', i, w, 'windows (mask, parameter) searched: %s; expected %s' % (show(got, exp), show(exp, got)))
    bad = None
    for (tried, inst), (m, q) in zip(windows, exp):
        pats = [t[1] & M64 for t in tried]
        subs = set()
        x = m
        while True:
            subs.add(x)
            if x == 0:
                break
            x = (x - 1) & m
        if set(pats) != subs or len(pats) != len(subs):
            bad = 'for the window %#x of parameter %d the patterns tried are not all %d patterns within the window (%d tried, missing %s, foreign %s)' % (
                m, q, len(subs), len(pats), [hex(x) for x in sorted(subs - set(pats))[:3]], [hex(x) for x in sorted(set(pats) - subs)[:3]])
            break
    rep.verdict(bad is None, 'candidates', i, w, bad or '')
    bad, unk = None, None
    for (tried, inst), (m, q) in zip(windows, exp):
        if len(inst) != 1:
            unk = 'the installation after the candidates is not recognised: %r' % (inst,)
            continue
        x = list(inst)[0]
        if x[0] == 'no':
            bad = 'after the candidates of the window %#x of parameter %d the best pattern is not installed' % (m, q) if x[1] == 0 else None
            unk = unk or (None if x[1] == 0 else 'several patterns installed')
        elif x[0] is None or x[1] is None:
            unk = 'installation not evaluated'
        elif x[0] & M64 != m or x[1] != q:
            bad = 'the best pattern of window %#x, parameter %d is installed with mask %#x in parameter %d' % (m, q, x[0] & M64, x[1])
    rep.verdict(False if bad else None if unk else True, 'best', i + ' place', w, bad or unk or '')


def show(a, b):
    d = [x for x in a if x not in b][:4] or a[:4]
    return str([('%#x' % m if m is not None else '?', q) for m, q in d]) + ' (%d in all)' % len(a)


def sel(rep, cl, i, H, base, n, W):
    """the carried best defect and best pattern"""
    f = cl.f
    # the pattern installed after the loop
    cand = set()
    for src in ([e for e in cl.iters], [(None, 0, evs, c) for evs, v, c in cl.rets]):
        for h, r, evs, c in src:
            q = [a for a, x in enumerate(evs) if x[0] == 'loop' and x[1] == H]
            if q:
                cand |= {x[3] for x in evs[q[-1] + 1:] if x[0] == 'set'}
    w = f.where(f.insts(H)[0])
    phis = [('phi', x['i']) for x in f.insts(H) if x['op'] == 'phi']
    recs = [(rnd, evs, c) for h, rnd, evs, c in cl.iters if h == H]
    best = set()
    for X in cand:
        best |= {t for t in sub(X) if t in phis or isinstance(t, tuple) and t and t[0] == 'lh'}
    pat = None
    foreign = False
    for X in cand:
        X = strip_ext(X)
        if X in phis or isinstance(X, tuple) and X[0] == 'lh':
            pat = X if pat in (None, X) else False
        elif isinstance(X, int) and X == 0:
            continue                # no candidate was tried
        else:
            foreign = True
    if not cand:
        rep.bad('best', i, w, 'no pattern is installed after the candidates were measured')
        return
    if not pat or foreign:
        # the last candidate instead of the best?
        sets = {x[3] for rnd, evs, c in recs for x in evs if x[0] == 'set'}
        rep.verdict(False if cand & sets else None, 'best', i, w, 'the pattern installed after the candidates is %r' % (sorted(map(repr, cand))[:2],))
        return
    # which carried value is the best defect: the one that can take over a measured defect
    dkey = set()
    for x in phis:
        for rnd, evs, c in recs:
            v = cl.carried(c, x, c.x and f.bof.get(c.x['i']))
            if any(isinstance(t, tuple) and t and t[0] == 'p:delta' for t in sub(v)):
                dkey.add(x)
    for rnd, evs, c in recs:
        for k, v in c.mem.items():
            if isinstance(v, tuple) and v[0] == 'p:delta' and isinstance(k, tuple) and k[0] in ('new', 'at', 'arg'):
                dkey.add(('lh', k, ('id', -(H + 2))))
    used = {t for rnd, evs, c in recs for k in c.facts for t in k[1:]}
    dkey = {k for k in dkey if k in used} or dkey
    if not dkey and recs:
        cmp = {t for rnd, evs, c in recs for k in c.facts if any(isinstance(x, tuple) and x[0] == 'p:delta' for x in k[1:]) for t in k[1:] if not (isinstance(t, tuple) and t[0] == 'p:delta')}
        if cmp and not any(isinstance(t, tuple) and (t in phis or t[0] == 'lh') for x in cmp for t in sub(x)):
            rep.bad('best', i, w, 'every candidate is compared with the same value; the best defect so far is not remembered')
            return
    if len(dkey) != 1:
        rep.unk('best', i, w, 'the carried best defect is not recognised')
        return
    dk = dkey.pop()
    # initial value: no defect can reach it
    ini = set()
    for h, evs, c in cl.entries:
        if h == H and sample_ok(c, base):
            v = cl.carried(c, dk if dk[0] == 'phi' else dk[:2], c.src)
            ini.add(evalt(v, base) if v is not None else None)
    lim = sum(n // v for v in range(1, W + 1))
    if None in ini or not ini:
        rep.unk('best', i + ' start', w, 'initial best defect not evaluated')
    else:
        rep.verdict(all(x >= lim for x in ini), 'best', i + ' start', w, 'the search starts with best defect %s for a %d-bit state; a candidate can be worse and would never be taken' % (sorted(ini), n))
    bad = unk = None
    cnt = 0
    for d0, p0 in ((10, 0b0), (10, 0b1010), (10, 0b111), (0, 1)):
        for d in (0, 3, 9, 10, 11, 25):
            for p in (0, 0b1, 0b1100, 0b111100, 0b11):
                env = dict(base)
                for rnd, evs, c in recs:
                    dl = [x[1] for x in evs if x[0] == 'delta']
                    sv = [x for x in evs if x[0] == 'set']
                    if len(dl) != 1 or len(sv) != 1:
                        unk = 'a candidate is not one installation and one measurement'
                        continue
                    env[dl[0]] = d
                    env[sv[0][3]] = p
                env[dk] = d0
                env[pat] = p0
                e = env.get
                out = set()
                for rnd, evs, c in recs:
                    if rnd == 0 or not sample_ok(c, e):
                        continue
                    pb = c.x and f.bof.get(c.x['i'])
                    a = cl.carried(c, pat if pat[0] == 'phi' else pat[:2], pb)
                    b = cl.carried(c, dk if dk[0] == 'phi' else dk[:2], pb)
                    out.add((evalt(b, e), evalt(a, e)))
                if len(out) != 1 or None in list(out)[0]:
                    unk = 'update not evaluated: %r' % (out,)
                    continue
                cnt += 1
                o = out.pop()
                if d < d0:
                    w2 = (d, p)
                elif d == d0:
                    w2 = (d0, p if popcount(p) > popcount(p0) else p0)
                    if popcount(p) == popcount(p0) and o == (d0, p):
                        continue
                else:
                    w2 = (d0, p0)
                if o != w2:
                    bad = 'best so far (defect %d, pattern %s), candidate (defect %d, pattern %s): the search goes on with (defect %s, pattern %s)' % (d0, bin(p0), d, bin(p), o[0], bin(o[1]))
    rep.verdict(False if bad else None if unk or not cnt else True, 'best', i, w, bad or unk or '')


# ---------------------------------------------------------------- AlgorithmBestBits
def bestbits(rep, P, f, W, M):
    i = sig(f)
    pr = Protocol(rep, i, 0, None)
    s = Explore(rep, ['measure', 'install', 'restore'])(f, P, pr, us0=0, models=M, generic='all')
    if s is None:
        return
    if not pr.n:
        rep.unk('measure', i, f.where({}), 'no measurement found')
        return
    cl = Events(f, P)
    s = Explore(rep, ['best', 'windows'])(f, P, cl, us0=Events.us0, models=M, generic='all', keepfact=keep)
    if s is None:
        return
    heads = {h for h, r, evs, c in cl.iters if any(e[0] == 'measure' for e in evs)}
    if len(heads) != 1:
        for r in ('best', 'windows'):
            rep.unk(r, i, f.where({}), 'candidate loop not recognised')
        return
    H = heads.pop()
    w = f.where(f.insts(H)[0])
    recs = [(rnd, evs, c) for h, rnd, evs, c in cl.iters if h == H]
    OM = (1 << W) - 1
    pushed = set()
    setloops = {h for h, r, evs, c in cl.iters if any(e[0] == 'set' for e in evs)}
    for rnd, evs, c in recs:
        mi = [a for a, x in enumerate(evs) if x[0] == 'measure']
        if not mi:
            continue
        pre, post = evs[:mi[0]], evs[mi[0] + 1:]
        lp = [x for x in pre if x[0] == 'loop' and x[1] in setloops]
        if not lp and not any(x[0] == 'set' for x in pre):
            rep.bad('install', i + ' candidate', w, 'a candidate is measured without installing its pattern; path ' + c.lines())
            continue
        if len(mi) != 1 or len(lp) != 1:
            continue
        rep.ok('install', i + ' candidate', w)
        # bits measured: one more than the position worked on
        top = ancestors(cl, H)[0]
        b = evs[mi[0]][2]
        vals = []
        for k in (0, 1, 5):
            vals.append(evalt(strip_ext(b), cl.at(top, k, {})))
        rep.verdict(None if None in vals else vals == [1, 2, 6], 'measure', i + ' bits', w, 'at positions 0, 1, 5 the number of bits measured is %s' % (vals,))
        # the measured defect is kept for this candidate, which is listed exactly when it is not worse
        dl = [x[1] for x in post if x[0] == 'delta']
        push = [x for x in post if x[0] == 'push']
        for x in push:
            pushed.add(x[1])
        dst = [k for k, v in c.mem.items() if dl and v == dl[0] and isinstance(k, tuple) and k[0] in ('at', 'new', 'call', 'held')]
        rep.verdict(True if dst else None, 'best', i + ' defect kept', w, 'the measured defect is not stored in the candidate')
        if dl:
            for d0 in (5, 9):
                for d in (0, 4, 5, 6, 9, 10):
                    bk = [x for x in c.facts if dl[0] in x[1:]]
                    oth = {t for x in bk for t in x[1:] if t != dl[0]}
                    if len(oth) != 1:
                        continue
                    o = oth.pop()
                    if not isinstance(o, tuple):
                        continue
                    if not sample_ok(c, {dl[0]: d, o: d0}):
                        continue
                    if d <= d0 and not push:
                        # a tie: lost if the best so far is the defect of a candidate listed
                        tie = any(best_so_far(cl, H, o, r2) for r2 in recs)
                        rep.verdict(False if d < d0 or tie else None, 'best', i + ' listed', w, 'a candidate with defect %d is dropped although the best so far is %d' % (d, d0))
                    else:
                        rep.ok('best', i + ' listed', w)
        # every parameter is installed from the candidate, with a full mask
    inst_loops(rep, cl, i, H, W)
    final(rep, cl, i, H, W)


def best_so_far(cl, H, o, rec):
    rnd, evs, c = rec
    dl = [e[1] for e in evs if e[0] == 'delta']
    if o[0] != 'phi' or cl.f.bof.get(o[1]) != H or len(dl) != 1 or not any(e[0] == 'push' for e in evs):
        return False
    return strip_ext(cl.carried(c, o, c.x and cl.f.bof.get(c.x['i']))) == dl[0]


def inst_loops(rep, cl, i, H, W):
    """loops that set patterns: positions 0..size-1, full mask, value = element of the same index"""
    f = cl.f
    OM = (1 << W) - 1
    hs = {h for h, r, evs, c in cl.iters if any(e[0] == 'set' for e in evs)} - set(ancestors(cl, H)) | set()
    for h in sorted(hs):
        w = f.where(f.insts(h)[0])
        for hh, rnd, evs, c in cl.iters:
            if hh != h:
                continue
            ss = [e for e in evs if e[0] == 'set']
            if len(ss) != 1:
                rep.unk('install', i + ' all parameters', w, '%d patterns set per round' % len(ss))
                continue
            _, g, m, v, p = ss[0]
            rep.verdict(None if not isinstance(m, int) else m & OM == OM, 'install', i + ' mask', w, 'the pattern is set with mask %r' % (m,))
            ix = [t for t in sub(v) if isinstance(t, tuple) and t and t[0] == 'ix']
            def three(t):
                """every scalar member is the number of parameters; 3 here"""
                if isinstance(t, tuple) and len(t) >= 2 and t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] in ('at', 'held', 'arg', 'elem'):
                    return 3
                return None
            r = cl.rounds(h, three, limit=12)
            n = r[0] if r else 3
            memo = {}
            pos = [evalt(strip_ext(p), cl.at(h, k, three, memo)) for k in range(n)]
            if len(ix) == 1 and len(ix[0][3]) == 1 and None not in pos:
                idx = [evalt(ix[0][3][0][0], cl.at(h, k, three, memo)) for k in range(n)]
                rep.verdict(None if None in idx else False if idx != pos or r and sorted(pos) != [0, 1, 2] else True if sorted(pos) == [0, 1, 2] else None, 'install', i + ' all parameters', w, 'parameters %s of 3 are set from entries %s' % (pos, idx))
            else:
                rep.verdict(False if None not in pos and sorted(pos) != [0, 1, 2] else None, 'install', i + ' all parameters', w, 'parameters %s are set from %r' % (pos, v))


def final(rep, cl, i, H, W):
    """after the positions: the first of the candidates kept is installed"""
    f = cl.f
    top = ancestors(cl, H)[0]
    w = f.where(f.insts(top)[0])
    kept = set()
    ok = None
    allsets = {h: [x for hh, r, evs, c in cl.iters if hh == h for x in evs if x[0] == 'set'] for h, r, evs, c in cl.iters}
    for evs, v, c in cl.rets:
        q = [a for a, x in enumerate(evs) if x[0] == 'loop' and x[1] == top]
        if not q:
            continue
        rest = evs[q[-1] + 1:]
        lp = [x for x in rest if x[0] == 'loop' and allsets.get(x[1])]
        sets = [x for x in rest if x[0] == 'set'] + [y for x in lp for y in allsets[x[1]]]
        if not sets:
            if True:
                rep.bad('best', i + ' installed', w, 'the pattern found is not installed; path ' + c.lines())
            continue
        for x in sets:
            el = {t for t in sub(x[3]) if isinstance(t, tuple) and t and t[0] == 'elem'}
            if len(el) == 1:
                e = el.pop()
                kept.add(e[1])
                ok = e[2] == 0
    if kept:
        rep.ok('best', i + ' installed', w)
    else:
        rep.unk('best', i + ' installed', w, 'installation of the result not recognised')
    # selection: the candidates kept are those whose defect equals the minimum
    if len(kept) != 1:
        return
    K = kept.pop()
    for h in sorted({h for h, r, evs, c in cl.iters}):
        for hh, rnd, evs, c in cl.iters:
            if hh != h or not any(x[0] == 'push' and x[1] == K for x in evs):
                continue
            wl = f.where(f.insts(h)[0])
            srcs = {x[2] for x in evs if x[0] == 'push' and x[1] == K}
            good = None
            for s in srcs:
                if isinstance(s, tuple) and s[0] == 'elem':
                    d = [k for k in c.facts if any(contains(t, ('held', s)) for t in k[1:])]
                    if not d:
                        good = False
                        det = 'a candidate is kept whatever its defect'
                        continue
                    rel = c.facts[d[0]]
                    good = rel == {'='}
                    det = 'the relation between a kept candidate\'s defect and the minimum is %s' % ''.join(sorted(rel))
                    other = [t for t in d[0][1:] if not contains(t, ('held', s))]
                    minimum(rep, cl, i, other[0] if other else None, s, wl)
            if good is not None:
                rep.verdict(good, 'best', i + ' kept', wl, det)
            srcs = {s[1] for s in srcs if isinstance(s, tuple) and s[0] == 'elem'}
            if len(srcs) == 1 and rnd == 1:
                whole(rep, cl, i, h, srcs.pop(), K, wl)


def whole(rep, cl, i, h, src, K, w):
    """the selection looks at every candidate: 12 of them, all equally good"""
    for j in range(13):
        def leaf(t):
            if isinstance(t, tuple) and t:
                if t[0] == 'p:size':
                    return 12 if t[1] == src else j + 1 if t[1] == K else None
                if t[0] == 'ld' and contains_held(t):
                    return 5
                if t[0] == 'phi' and cl.f.bof.get(t[1]) != h:
                    return 5
            return None
        e = cl.at(h, j, leaf)
        taken = False
        for hh, rnd, evs, c in cl.exits:
            if hh != h or (rnd == 0) != (j == 0) or not sample_ok(c, e):
                continue
            t = c.x
            if t['op'] != 'br' or not t['ops']:
                return
            v = evalt(c.sym.val(t['ops'][0], c.env), e)
            if v is None:
                return
            if (v & 1) == (1 if t['to'][0] == c.dst else 0):
                taken = True
        if taken:
            rep.verdict(j == 12, 'best', i + ' kept all', w, 'with 12 equally good candidates only %d are looked at' % (j + 1))
            return


def minimum(rep, cl, i, m, s, w):
    """m is carried by a loop that takes the smaller of itself and each candidate's defect"""
    f = cl.f
    m = strip_ext(m)
    if (m, s) in cl.mins:
        return
    cl.mins.add((m, s))
    if not (isinstance(m, tuple) and m[0] == 'phi'):
        rep.unk('best', i + ' minimum', w, 'the minimum is %r' % (m,))
        return
    h = f.bof[m[1]]
    res = None
    det = ''
    for d0 in (5, 9):
        for d in (0, 4, 5, 6, 12):
            out = set()
            for hh, rnd, evs, c in cl.iters:
                if hh != h or rnd == 0:
                    continue

                def env(t):
                    if t == m:
                        return d0
                    if isinstance(t, tuple) and t and t[0] == 'ld' and any(isinstance(x, tuple) and x and x[0] == 'held' for x in sub(t)):
                        return d
                    return None
                if not sample_ok(c, env):
                    continue
                v = cl.carried(c, m, f.bof.get(c.x['i']))
                out.add(evalt(v, env))
            if len(out) != 1 or None in out:
                res = res if res is False else None
                rep.unk('best', i + ' minimum', w, 'update not evaluated %r' % (out,))
                return
            o = out.pop()
            if o != min(d, d0):
                res, det = False, 'best so far %d, candidate %d: continues with %d' % (d0, d, o)
            elif res is None:
                res = True
    rep.verdict(res, 'best', i + ' minimum', w, det)


def run(prop, tier):
    rep = Report(prop, tier)
    rep.rule('measure', 'every measurement is of the caller\'s generator, after setUpTempering() made the last pattern set effective, in the bit order isLSBTempering() states, over the bits worked on')
    rep.rule('install', 'patterns are set in the caller\'s generator, for all parameters, and made effective before the search ends')
    rep.rule('windows', 'every parameter is searched in every window of bit positions 0, step, 2*step, .. below the limit, in order, with the mask of exactly that window')
    rep.rule('candidates', 'in each window every pattern within the window is tried exactly once')
    rep.rule('best', 'the pattern left installed is one with the least defect measured; of equal defect one with more bits (partial bit pattern)')
    rep.rule('candidate', 'best bits: a candidate keeps all bits settled before; the bits of this position, and of the positions they reach, take every combination')
    rep.rule('patterns', 'best bits: every position below the limit, every pattern kept of the position before, every pattern of new bits')
    rep.rule('restore', 'the search ends with normal output order')
    P = prog()
    M = models()
    n = 0
    for f in list(P.fns.values()):
        m = re.match(r'MTToolBox::AlgorithmPartialBitPattern<(unsigned int|unsigned long), (\d+), (\d+), (\d+), (\d+), (true|false)>::operator\(\)\(', f.dem)
        if m:
            n += 1
            W, params, tries, step = (int(m.group(k)) for k in (2, 3, 4, 5))
            partial(rep, P, f, W, params, tries, step, int(m.group(6) == 'true'), M)
        m = re.match(r'MTToolBox::AlgorithmBestBits<(unsigned int|unsigned long)>::operator\(\)\(', f.dem)
        if m:
            n += 1
            bestbits(rep, P, f, 32 if m.group(1) == 'unsigned int' else 64, M)
        m = re.match(r'MTToolBox::Algorithm(PartialBitPattern<.*(true|false)>|BestBits<[^>]*>)::isLSBTempering\(', f.dem)
        if m:
            outs = set()

            class R(Client):
                def ret(self, c, val):
                    outs.add(val)
            s = Explore(rep, ['measure'])(f, P, R())
            want = 1 if m.group(2) == 'true' else 0
            rep.verdict(None if not all(isinstance(x, int) for x in outs) else {x & 1 for x in outs} == {want}, 'measure', sig(f), f.where({}), 'isLSBTempering() returns %s' % outs)
    bb.run(rep, M)
    if n < 6:
        raise AnalysisBroken('tempering searches not found (%d)' % n)
    return finish(rep, 'other', 'Typestate of the generator (patterns set / made effective / bit order) on every path of the tempering searches; windows, candidates and the choice of the best pattern from the recurrences of the search loops for the instantiated parameters (4x23 bits of 32, 2x50 bits of 64, both bit orders).', floor=20)
