"""P17: MersenneTwister and MersenneTwister64 are MT19937 and MT19937-64 for every seed and key"""
import random
from .. import core
from ..bdd import Opaque
from ..bits import Bits, Ptr, Need
from ..facts import TooComplex
from ..build import AnalysisBroken
from ..report import Report, finish, parallel
from .util import loc, one


class Spec:
    """the published generators, as canonical forms"""
    def __init__(self, w):
        self.w = w
        if w == 32:
            self.N, self.M, self.s, self.f, self.f1, self.f2, self.dflt = 624, 397, 30, 1812433253, 1664525, 1566083941, 5489
            self.low, self.mag = 31, 0x9908b0df
            self.temper_ = [('r', 11, 0xffffffff), ('l', 7, 0x9d2c5680), ('l', 15, 0xefc60000), ('r', 18, 0xffffffff)]
        else:
            self.N, self.M, self.s, self.f, self.f1, self.f2, self.dflt = 312, 156, 62, 6364136223846793005, 3935559000370003845, 2862933555777941757, 19650218
            self.low, self.mag = 31, 0xB5026F5AA96619E9
            self.temper_ = [('r', 29, 0x5555555555555555), ('l', 17, 0x71D67FFFEDA60000), ('l', 37, 0xFFF7EEE000000000), ('r', 43, 2 ** 64 - 1)]

    def mix(self, B, x):
        return [B.xor(a, b) for a, b in zip(x, x[self.s:] + [0] * self.s)]

    def seeded(self, B, v):
        r = [v]
        for i in range(1, self.N):
            r.append(B.add(B.mul(self.mix(B, r[-1]), B.const(self.f, self.w)), B.const(i, self.w)))
        return r

    def keyed(self, B, key):
        w, N = self.w, self.N
        mt = self.seeded(B, B.const(19650218, w))
        i, j = 1, 0
        for k in range(max(N, len(key))):
            t = [B.xor(a, b) for a, b in zip(mt[i], B.mul(self.mix(B, mt[i - 1]), B.const(self.f1, w)))]
            mt[i] = B.add(B.add(t, key[j]), B.const(j, w))
            i, j = i + 1, (j + 1) % len(key)
            if i >= N:
                mt[0], i = mt[N - 1], 1
        for k in range(N - 1):
            t = [B.xor(a, b) for a, b in zip(mt[i], B.mul(self.mix(B, mt[i - 1]), B.const(self.f2, w)))]
            mt[i] = B.sub(t, B.const(i, w))
            i += 1
            if i >= N:
                mt[0], i = mt[N - 1], 1
        mt[0] = B.const(1 << (w - 1), w)
        return mt

    def step(self, B, x):
        """appends the next word of the recurrence, returns its tempered value"""
        t = len(x) - self.N
        y = x[t + 1][:self.low] + x[t][self.low:]
        r = [B.xor(a, b) for a, b in zip(x[t + self.M], y[1:] + [0])]
        r = [B.xor(a, y[0]) if (self.mag >> k) & 1 else a for k, a in enumerate(r)]
        x.append(r)
        for d, n, m in self.temper_:
            s = r[n:] + [0] * n if d == 'r' else [0] * n + r[:-n]
            r = [B.xor(a, b) if (m >> k) & 1 else a for k, (a, b) in enumerate(zip(r, s))]
        return r


class Machine:
    """one generator class: its functions, run in the bit domain on a memory"""
    def __init__(self, P, rep, cls, w):
        self.P, self.rep, self.cls, self.w = P, rep, cls, w
        self.B = Opaque()
        self.B.var('')
        self.rng = random.Random(5)
        self.n = 0
        self.size = {}

    def find(self, sig):
        f = one(self.P, r'^%s$' % ('MTToolBox::' + self.cls + '::' + sig))
        if f is None:
            raise AnalysisBroken('no function %s::%s' % (self.cls, sig))
        self.rep.fn(f)
        return f

    def hook(self, m, i, a, g, mem):
        n = i.get('cdem') or i.get('callee') or ''
        B = self.B
        if n.startswith('operator new') or n == 'malloc':
            self.n += 1
            self.size[('heap', self.n)] = B.cval(a[0])
            return Ptr(('heap', self.n), B.const(0, 64))
        if n.startswith('operator delete') or n == 'free':
            return None
        if 'basic_string' in n:
            q = n.split('(')[0].split('::')[-1]
            if q in ('c_str', 'data'):
                return Ptr('key', B.const(0, 64))
            if q in ('size', 'length'):
                return B.const(len(self.key), 64)
            if q in ('operator[]', 'at'):
                return Ptr('key', a[1])
        return NotImplemented

    def load(self, m, base, off, width):
        B = self.B
        if base == 'key':
            kw = self.kw
            if off % (kw // 8) == 0 and width == kw:
                k = off * 8 // kw
                if k < len(self.key):
                    return self.key[k]
                if kw == 8 and k == len(self.key):
                    return B.const(0, 8)    # terminator
            raise Need('key element %d of %d' % (off * 8 // self.kw, len(self.key)))
        if isinstance(base, tuple) and base[0] == 'heap' or base == 'this':
            if self.size.get(base) is not None and not 0 <= off <= self.size[base] - width // 8:
                self.rep.bad('defined', self.cls + ' state', self.where, 'reads byte %d of a block of %d' % (off, self.size[base]))
            k = ('old', base, off)
            if k not in self.old:
                self.old[k] = [B.var((k, i)) for i in range(width)]
            return self.old[k] if len(self.old[k]) == width else None
        return None

    def call(self, f, args, mem, key=(), kw=8):
        self.where = loc(f)
        self.key, self.kw, self.old = list(key), kw, getattr(self, 'old', {})
        m = Bits(f, [Ptr('this', self.B.const(0, 64))] + list(args), mem=mem, hook=self.hook, B=self.B, load=self.load, rounds=6000).run()
        if m.throws:
            raise Need('exception')
        live = [r for r in m.rets if r[0] != 0]
        if len(live) != 1:
            raise Need('%d ways to return' % len(live))
        for k in live[0][2]:
            n = self.size.get(k[0])
            if n is not None and not 0 <= k[1] <= n - k[2] // 8:
                self.rep.bad('defined', self.cls + ' state', self.where, 'writes byte %d of a block of %d' % (k[1], n))
        return live[0][1], live[0][2], m.ub

    # ------------------------------------------------ comparison
    def differ(self, a, b):
        """None: identical canonical forms; otherwise a witness text, or '' when no point tells them apart"""
        if len(a) != len(b):
            return 'width %d instead of %d' % (len(a), len(b))
        if list(a) == list(b):
            return None
        B = self.B
        ds = [B.xor(x, y) for x, y in zip(a, b) if x != y]
        pts = [B.sat(ds[0]) or {}, B.sat(ds[-1]) or {}]
        cands = [lambda n, s=s: s.get(n, 0) for s in pts]
        cands += [lambda n: 0, lambda n: 1]
        for _ in range(12):
            tab = {}
            cands.append(lambda n, tab=tab: tab.setdefault(n, self.rng.getrandbits(1)))
        for c in cands:
            p = B.at(c)
            x, y = p.word(a), p.word(b)
            if x != y:
                seen = {}
                for v, val in p.val.items():
                    n = B.names[v]
                    if isinstance(n, tuple) and isinstance(n[0], str) and n[0] in ('seed', 'key0'):
                        seen[n[0]] = seen.get(n[0], 0) | (val << n[1])
                return '0x%x instead of 0x%x%s' % (x, y, ''.join(' for %s=0x%x' % kv for kv in sorted(seen.items())))
        return ''


def cells(mem, w):
    return {k: v for k, v in mem.items() if isinstance(k[0], tuple) and k[0][0] == 'heap'}


def control(mem):
    return {k: v for k, v in mem.items() if k[0] == 'this' and not isinstance(v, Ptr)}


def check(rep, P, cls, w, part):
    S = Spec(w)
    M = Machine(P, rep, cls, w)
    B = M.B
    nm = 'MT19937' + ('-64' if w == 64 else '')

    def outputs(rule, item, f, mem, words, n):
        """compares the next n outputs with the published ones"""
        x = list(words)
        for k in range(n):
            v, mem, ub = M.call(f, [], mem)
            want = S.step(B, x)
            d = M.differ(v, want)
            if d is not None:
                rep.verdict(False if d else None, rule, item, loc(f), 'output %d is %s' % (k, d) if d else 'output %d has another form' % k)
                return False
            for u in ub:
                rep.bad('defined', item, f.where(u[1]), u[2])
        return True

    try:
        init = M.find(r'seed\(unsigned long\)')
        ctor = M.find(cls + r'\(%s\)' % ('unsigned int' if w == 32 else 'unsigned long'))
        dflt = M.find(cls + r'\(\)')
        get = M.find(r'next\(\)')
        g32, g64 = M.find(r'getUint32\(\)'), M.find(r'getUint64\(\)')
        own = 'unsigned int' if w == 32 else 'unsigned long'
        karr = M.find(r'%s\(%s const\*, int\)' % (cls, own))
        kstr = M.find(cls + r'\(std::.*basic_string.*\)')
        sarr = M.find(r'seed\(%s const\*, int\)' % own)
        sstr = M.find(r'seed\(std::.*basic_string.*\)')
        # ---- seeding with a number
        sv = B.word('seed', w)
        ref = S.seeded(B, sv)
        _, mem, ub = M.call(ctor, [sv], {})
        heap = cells(mem, w)
        pos = {}
        for k, v in heap.items():
            if isinstance(v, list) and len(v) == w:
                pos.setdefault(tuple(v), []).append(k)
        lay = {}
        for t in range(S.N):
            c = pos.get(tuple(ref[t]))
            if not c:
                lay = None
                break
            lay[t] = c[0]
        if lay is None:
            ok = outputs('seed', 'constructor with a number', get, mem, ref, S.N + 3)
            if ok:
                rep.unk('seed', 'constructor with a number', loc(ctor), 'state words not recognised')
            return
        rep.ok('seed', 'constructor with a number', loc(ctor))
        rep.ok('defined', cls + ' state', loc(ctor))
        home = control(mem)
        base = {k: v for k, v in mem.items() if k[0] == 'this'}

        def same_state(rule, item, f, mem2, want):
            bad = None
            for k, v in mem2.items():
                if k in base and isinstance(v, Ptr) and isinstance(base[k], Ptr) and M.size.get(v.base) != M.size.get(base[k].base):
                    # a block of another size: it must do for a cycle of outputs
                    outputs(rule, item, get, mem2, want, 1100)
            # the block of the state may be another allocation
            ren = {}
            for k, v in mem2.items():
                if k in base and isinstance(v, Ptr) and isinstance(base[k], Ptr) and v.base != base[k].base:
                    ren[base[k].base] = v.base
            for t in range(S.N):
                b, o, ww = lay[t]
                v = mem2.get((ren.get(b, b), o, ww))
                u = want[t]
                if v is None:
                    v = M.load(None, ren.get(b, b), o, ww)
                if t == 0:
                    v, u = v[S.low:], u[S.low:]
                d = M.differ(v, u)
                if d is not None:
                    bad = (t, d)
                    if d:
                        break
            c2 = control(mem2)
            if bad is None:
                ctl = [k for k in home if c2.get(k) != home[k]]
                if not ctl:
                    rep.ok(rule, item, loc(f))
                    return
                why = 'the position differs from that after seeding with a number'
            else:
                why = 'state word %d is %s' % bad
            # the state is laid out differently or wrong: the outputs tell
            if outputs(rule, item, get, mem2, want, S.N + 3):
                rep.verdict(None if bad and bad[1] == '' else None, rule, item, loc(f), why)

        words = [B.word('x%d' % t, w) for t in range(S.N)]
        mem1 = dict(mem)
        for t in range(S.N):
            mem1[lay[t]] = words[t]

        def reseed(item, f, args, want, *key):
            # any position at all; if the old position is not simply forgotten, one after 100 outputs
            used = dict(mem1)
            for k in control(used):
                used[k] = [B.var(('oldpos', k, i)) for i in range(k[2])]
            try:
                _, m2, _ = M.call(f, args, used, *key)
                if all(control(m2).get(k) == home[k] for k in home):
                    same_state('reseed', item, f, m2, want)
                    return
            except (Need, TooComplex):
                pass
            cur = dict(mem1)
            for _ in range(100):
                _, cur, _ = M.call(get, [], cur)
            _, m2, _ = M.call(f, args, cur, *key)
            same_state('reseed', item, f, m2, want)
            if rep.obs.get(('reseed', item), {}).get('status') == 'DISCHARGED':
                rep.unk('reseed', item, loc(f), 'the state depends on the old position')

        # ---- one cycle of outputs from arbitrary words
        # words of the state no layout names are stale
        if part == 'cycle':
            x = list(words)
            cur, n, closed = mem1, 0, False
            out = g32 if w == 32 else g64
            item = 'recurrence and tempering'
            failed = False
            while n < 4 * 1024 and not closed:
                v, cur, ub = M.call(out, [], cur)
                want = S.step(B, x)
                for u in ub:
                    rep.bad('defined', 'output', out.where(u[1]), u[2])
                d = M.differ(v, want)
                if d is not None:
                    rep.verdict(False if d else None, 'output', item, loc(get), 'output %d is %s' % (n, d))
                    failed = True
                    break
                n += 1
                if n % 8 == 0 and all(control(cur).get(k) == home[k] for k in home):
                    closed = all(list(cur[lay[t]][S.low if t == 0 else 0:]) == list(x[n + t][S.low if t == 0 else 0:]) for t in range(S.N) if lay[t] in cur)
            if not failed:
                rep.verdict(True if closed else None, 'output', item, loc(get), 'the position does not come back within %d outputs' % n)
            rep.note('%s: %d outputs until the position comes back' % (cls, n))
        if part == 'entry':
            # ---- the other entry points
            x = list(words)
            v, m2, _ = M.call(get, [], mem1)
            rep.verdict(M.differ(v, S.step(B, x)) is None, 'entry', 'next', loc(get), 'not the next output')
            if w == 32:
                x = list(words)
                cur = mem1
                ok = True
                for k in range(3):
                    v, cur, _ = M.call(g64, [], cur)
                    hi = S.step(B, x)
                    lo = S.step(B, x)
                    d = M.differ(v, lo + hi)
                    if d is not None:
                        ok = False if d else None
                        break
                rep.verdict(ok, 'entry', 'getUint64', loc(g64), 'is %s (expected: first output above second)' % d if ok is not True else '')
            else:
                x = list(words)
                cur = mem1
                ok = True
                for k in range(3):
                    v, cur, _ = M.call(g32, [], cur)
                    d = M.differ(v, S.step(B, x)[32:])
                    if d is not None:
                        ok = False if d else None
                        break
                rep.verdict(ok, 'entry', 'getUint32', loc(g32), 'is %s (expected: upper half of the output)' % d if ok is not True else '')
                bs = M.find(r'bitSize\(\) const')
                v, _, _ = M.call(bs, [], mem1)
                rep.verdict(B.cval(v) == 19937, 'entry', 'bitSize', loc(bs), 'is %s' % B.cval(v))
        if part == 'entry':
            # ---- the other ways of seeding
            _, m2, _ = M.call(dflt, [], {})
            same_state('seed', 'default constructor', dflt, m2, S.seeded(B, B.const(S.dflt, w)))
            wide = B.word('seed64', 64)
            reseed('seed(number) on a used generator', init, [wide], S.seeded(B, wide[:w]))
        lens = [1, 2, 3, S.N - 1, S.N, S.N + 1, 2 * S.N + 5]
        if rep.tier == 'thorough':
            lens += [4, 5, 7, 16, 100, S.N // 2, S.N - 2, S.N + 2, 2 * S.N - 1, 2 * S.N, 2 * S.N + 1, 3 * S.N]
        for k, n in enumerate(lens):
            if part != 'key%d' % (k % 3):
                continue
            key = [B.word('key%d' % k, w) for k in range(n)]
            want = S.keyed(B, key)
            _, m2, _ = M.call(karr, [Ptr('key', B.const(0, 64)), B.const(n, 32)], {}, key, w)
            same_state('key', 'constructor with a key of %d words' % n, karr, m2, want)
        if part == 'strings':
            key = [B.word('key%d' % k, w) for k in range(4)]
            reseed('seed(key) on a used generator', sarr, [Ptr('key', B.const(0, 64)), B.const(4, 32)], S.keyed(B, key), key, w)
            for n in (1, 5, S.N + 2):
                key = [B.word('chr%d' % k, 8) for k in range(n)]
                want = S.keyed(B, [c + [c[7]] * (w - 8) for c in key])
                _, m2, _ = M.call(kstr, [Ptr('str', B.const(0, 64))], {}, key, 8)
                same_state('key', 'constructor with a string of %d characters' % n, kstr, m2, want)
            reseed('seed(string) on a used generator', sstr, [Ptr('str', B.const(0, 64))], want, key, 8)
    except (Need, TooComplex) as e:
        rep.unk('analysis', cls, '', str(e))


def p17(prop, tier):
    rep = Report(prop, tier)
    rep.rule('seed', 'after construction the state is that of the published initialisation, for every seed')
    rep.rule('key', 'after construction from a key or string the state is that of the published initialisation by array')
    rep.rule('reseed', 'seeding a used generator gives the same state as a new one')
    rep.rule('output', 'from any state every output is the tempered next word of the recurrence, over a full cycle of the position (induction covers all later outputs)')
    rep.rule('entry', 'getUint32 and getUint64 hand out consecutive outputs in the documented way')
    rep.rule('defined', 'no undefined arithmetic')
    P = core.prog(keep=[], ast=False)
    parallel(rep, [(check, (P, cls, w, part)) for cls, w in (('MersenneTwister', 32), ('MersenneTwister64', 64))
                   for part in ('cycle', 'key0', 'key1', 'key2', 'strings', 'entry')])
    return finish(rep, 'other', 'Value-graph comparison in a bit-level domain: words are canonical forms over the symbolic seed, key and state words (sums and products in normalised linear form), compared for identity with the published recurrences; seeds and state arbitrary, key lengths from a list, outputs by induction over one cycle of the position.', floor=1)
