"""Facts about the library itself (include/ and lib/), loaded once per check."""
import math, os
from . import build
from .build import TU, REPO, VERIF
from .facts import Prog, TooComplex, eval_icmp, to_signed
from .sym import Sym, Client

# Public functions that are analysed on their own: calls to them are modelled, everything else is inlined.
KEEP = [r'MTToolBox::AlgorithmPrimitivity::operator\(\)', r'MTToolBox::isPrime\(', r'MTToolBox::isIrreducible\(', r'MTToolBox::isMexp\(',
        r'MTToolBox::hasFactorOfDegree\(', r'MTToolBox::minpoly<', r'MTToolBox::annihilate<', r'MTToolBox::calcCharacteristicPolynomial<',
        r'MTToolBox::Algorithm(Reducible)?Equidistribution<.*>::(get_all_equidist|get_equidist|Algorithm(Reducible)?Equidistribution|~Algorithm(Reducible)?Equidistribution)\(',
        r'MTToolBox::Algorithm(Reducible)?RecursionSearch<.*>::(start|Algorithm(Reducible)?RecursionSearch)\(', r'::searchParity\(', r'MTToolBox::LCM\(']


def tus():
    lib = os.path.join(REPO, 'lib')
    r = [TU(VERIF + '/drivers/core.cpp')]
    for f in sorted(os.listdir(lib)):
        if f.endswith('.cpp'):
            r.append(TU(os.path.join(lib, f)))
    return r


_cache = {}


def prog(keep=KEEP, ast=True, **kw):
    k = (tuple(keep or ()), ast, repr(kw))
    if k not in _cache:
        t = tus()
        if 'bc' not in _cache:
            _cache['bc'] = build.bitcode(t)
        ir = build.irfacts(_cache['bc'], keep=keep, **kw)
        if ast and 'ast' not in _cache:
            _cache['ast'] = build.astfacts(t)
        _cache[k] = Prog(ir, _cache['ast'] if ast else {'calls': [], 'throws': [], 'records': [], 'functions': []})
    return _cache[k]


def sig(f):
    """stable, readable instance name of a function"""
    return f.dem.replace('MTToolBox::', '').replace('unsigned long', 'u64').replace('unsigned int', 'u32')


class Explore:
    """Runs a client and turns TooComplex into an undecided obligation."""
    def __init__(self, rep, rules):
        self.rep, self.rules = rep, rules

    def __call__(self, fn, prog, client, **kw):
        try:
            s = Sym(fn, prog, client, **kw).run()
            self.rep.fn(fn, s)
            return s
        except TooComplex as e:
            for r in self.rules:
                self.rep.unk(r, sig(fn), fn.where({}), str(e))
            return None


# ---------------------------------------------------------------- iteration counts
def scev_eval(s, args, fn=None):
    """value of a SCEV trip-count expression for concrete argument values (None: unknown)"""
    if s is None:
        return None
    k = s[0]
    if k == 'c':
        return int(s[1])
    if k == 'u':
        o = s[1]
        if o[0] == 'a':
            return args.get(o[1])
        if o[0] == 'v' and fn is not None:
            return args.get(('v', o[1]))
        return None
    if k in ('add', 'mul', 'smax', 'umax', 'smin', 'umin', 'umin_seq'):
        vs = [scev_eval(x, args, fn) for x in s[1]]
        if any(v is None for v in vs):
            return None
        if k == 'add':
            return sum(vs)
        if k == 'mul':
            r = 1
            for v in vs:
                r *= v
            return r
        return max(vs) if 'max' in k else min(vs)
    if k == 'rec':
        it = args.get(('it', s[1]))
        if it is None:
            return None
        r, b = 0, 1
        for j, x in enumerate(s[2]):
            v = scev_eval(x, args, fn)
            if v is None:
                return None
            r += v * b
            b = b * (it - j) // (j + 1)
        return r
    if k in ('trunc', 'zext', 'sext', 'p2i'):
        return scev_eval(s[1], args, fn)
    if k == 'udiv':
        a, b = scev_eval(s[1], args, fn), scev_eval(s[2], args, fn)
        return None if a is None or not b or a < 0 else a // b
    return None


# ---------------------------------------------------------------- arithmetic terms
def _wide(f, signed=False):
    def g(a, b, w):
        m = (1 << w) - 1
        a, b = (to_signed(a & m, w), to_signed(b & m, w)) if signed else (a & m, b & m)
        r = f(a, b, w)
        return None if r is None else to_signed(r & m, w)
    return g


def _tdiv(a, b):
    return None if b == 0 else abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)


WIDE = {'add': _wide(lambda a, b, w: a + b), 'sub': _wide(lambda a, b, w: a - b), 'mul': _wide(lambda a, b, w: a * b),
        'and': _wide(lambda a, b, w: a & b), 'or': _wide(lambda a, b, w: a | b), 'xor': _wide(lambda a, b, w: a ^ b),
        'shl': _wide(lambda a, b, w: a << b if b < w else None), 'lshr': _wide(lambda a, b, w: a >> b if b < w else None),
        'ashr': _wide(lambda a, b, w: a >> b if 0 <= b < w else None, True),
        'udiv': _wide(lambda a, b, w: a // b if b else None), 'urem': _wide(lambda a, b, w: a % b if b else None),
        'sdiv': _wide(lambda a, b, w: _tdiv(a, b), True), 'srem': _wide(lambda a, b, w: None if b == 0 else a - b * _tdiv(a, b), True)}


def evalt(t, env):
    """integer value of a term; env maps leaf terms (or a callable) to integers; None: unknown"""
    if isinstance(t, int):
        return t
    if not isinstance(t, tuple):
        return None
    get = env if callable(env) else env.get
    v = get(t)
    if isinstance(v, tuple):                # ('index', term, f): an array the sample knows
        j = evalt(v[1], env)
        v = None if j is None else v[2](j)
    if v is not None:
        return v
    k = t[0]
    if k == 'const':
        return evalt(t[1], env)
    if k == 'zero':
        return 0
    if k in ('zext', 'sext', 'trunc'):
        return evalt(t[2], env)
    if k == 'select':
        v = evalt(t[1], env)
        return None if v is None else evalt(t[2] if v & 1 else t[3], env)
    if k == 'icmp':
        a, b = evalt(t[2], env), evalt(t[3], env)
        return None if a is None or b is None else int(eval_icmp(t[1], a, b))
    if k in ('p:eq', 'p:IsOne', 'p:IsZero', 'p:rep', 'gf2of', 'lcm', 'gcd') and len(t) >= 2:
        vs = [evalt(x, env) for x in t[1:]]
        if None in vs:
            return None
        if k == 'p:eq':
            return int(vs[0] == vs[1])
        if k == 'p:IsOne':
            return int(vs[0] == 1)
        if k == 'p:IsZero':
            return int(vs[0] == 0)
        if k in ('gcd', 'lcm'):
            g = math.gcd(vs[0], vs[1])
            return g if k == 'gcd' else (vs[0] * vs[1] // g if g else 0)
        return vs[0]
    if k == 'init' and len(t) == 2:
        return get(t[1])
    if k in ('wzext', 'wtrunc'):
        a = evalt(t[2], env)
        if a is None:
            return None
        a &= (1 << t[1]) - 1
        return a if k == 'wzext' else to_signed(a, t[1])
    if len(t) == 4 and k in WIDE:
        a, b, w = evalt(t[1], env), evalt(t[2], env), t[3]
        if a is None or b is None:
            return None
        return WIDE[k](a, b, w)
    if len(t) == 3 and k in ('add', 'sub', 'mul', 'div', 'mod', 'power', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'smax', 'smin', 'umax', 'umin', 'and', 'or', 'xor', 'lshr', 'ashr'):
        a, b = evalt(t[1], env), evalt(t[2], env)
        if a is None or b is None:
            return None
        try:
            return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a // b, 'sdiv': lambda: a // b, 'udiv': lambda: a // b,
                    'mod': lambda: a % b, 'srem': lambda: a % b, 'urem': lambda: a % b, 'power': lambda: a ** b if 0 <= b < 4096 else None, 'shl': lambda: a << b,
                    'lshr': lambda: a >> b, 'ashr': lambda: a >> b, 'smax': lambda: max(a, b), 'umax': lambda: max(a, b), 'smin': lambda: min(a, b), 'umin': lambda: min(a, b),
                    'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[k]()
        except (ZeroDivisionError, ValueError, OverflowError):
            return None
    return None


def phi_scev(fn, i):
    return fn.inst[i].get('scev')


def index_at(fn, t, k, args=None):
    """value of an index term in iteration k of the loop its counters belong to"""
    def env(u):
        if u[0] == 'phi':
            s = phi_scev(fn, u[1])
            a = dict(args or {})
            if s is not None and s[0] == 'rec':
                a[('it', s[1])] = k
                r = scev_eval(s, a, fn)
                if r is not None:
                    return r
            # value carried from the previous iteration
            h = fn.bof[u[1]]
            L = next((l for l in fn.loops() if l['header'] == h), None)
            if L is None or k > 64:
                return None
            outs = [o for o, p in fn.inst[u[1]]['ops'] if (p in L['blocks']) == (k > 0)]
            if len(outs) != 1:
                return None
            return index_at(fn, fn.val(outs[0]), k - 1 if k else 0, args)
        if u[0] == 'call':
            x = fn.inst[u[1]]
            cal = x.get('callee') or ''
            if cal.startswith(('llvm.usub.sat', 'llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
                vs = [index_at(fn, fn.val(o), k, args) for o in x['ops'][:2]]
                if None in vs:
                    return None
                return max(0, vs[0] - vs[1]) if 'usub' in cal else max(vs) if 'max' in cal else min(vs)
        if args and u in args:
            return args[u]
        return None
    return evalt(t, env)


def exit_counts(L, args, fn=None):
    """[(exiting block, iterations before this exit is taken)] for the computable exits"""
    return [(b, scev_eval(e, args, fn)) for b, e in L['exits'] if e is not None]


def loop_with(fn, block):
    return fn.loop_of(block)


# ---------------------------------------------------------------- sampling the facts of a path
def sample_ok(c, env):
    """can the facts of this path hold for the sampled leaf values? (facts that do not evaluate are ignored)"""
    for k, rel in c.facts.items():
        if len(k) != 3:
            continue
        a, b = evalt(k[1], env), evalt(k[2], env)
        if a is None or b is None:
            continue
        if k[0] == 'u':
            a, b = a & (2 ** 64 - 1), b & (2 ** 64 - 1)
        if ('<' if a < b else '>' if a > b else '=') not in rel:
            return False
    return True


def loopenv(fn, k, env):
    """leaf environment in iteration k: counters from scalar evolution, everything else from env"""
    get = env if callable(env) else env.get

    def g(t):
        v = get(t)
        if v is not None:
            return v
        if isinstance(t, tuple) and t and t[0] == 'phi':
            s = phi_scev(fn, t[1])
            if s is not None and s[0] == 'rec':
                return scev_sample(fn, s, {s[1]: k}, get)
        return None
    return g


def scev_sample(fn, s, its, get):
    """value of a SCEV with loop iteration numbers its and leaf terms from get"""
    k = s[0]
    if k == 'c':
        return int(s[1])
    if k == 'u':
        o = s[1]
        t = fn.val(o)
        v = get(t)
        if v is None and o[0] == 'v':
            v = get(('v', o[1]))
        return v if not isinstance(v, tuple) else evalt(t, get)
    if k == 'rec':
        it = its.get(s[1])
        if it is None:
            return None
        r, b = 0, 1
        for j, x in enumerate(s[2]):
            v = scev_sample(fn, x, its, get)
            if v is None:
                return None
            r += v * b
            b = b * (it - j) // (j + 1)
        return r
    if k in ('add', 'mul', 'smax', 'umax', 'smin', 'umin', 'umin_seq'):
        vs = [scev_sample(fn, x, its, get) for x in s[1]]
        if any(v is None for v in vs):
            return None
        if k == 'add':
            return sum(vs)
        if k == 'mul':
            r = 1
            for v in vs:
                r *= v
            return r
        return max(vs) if 'max' in k else min(vs)
    if k in ('trunc', 'zext', 'sext', 'p2i'):
        return scev_sample(fn, s[1], its, get)
    if k == 'udiv':
        a, b = scev_sample(fn, s[1], its, get), scev_sample(fn, s[2], its, get)
        return None if a is None or not b or a < 0 else a // b
    return None


def exit_iter(c, env, limit=400):
    """at an edge that leaves a loop by its branch condition: the iteration (from 0) in
    which the sampled condition first leaves; None when it cannot be evaluated"""
    t = c.x
    if t['op'] != 'br' or not t['ops']:
        return None
    cond = c.sym.val(t['ops'][0], c.env)
    leave = 1 if t['to'][0] == c.dst else 0
    for k in range(limit):
        v = evalt(cond, loopenv(c.fn, k, env))
        if v is None:
            return None
        if (v & 1) == leave:
            return k
    return None


def left_loops(c):
    """loops this edge leaves, innermost first"""
    return sorted([L for L in c.fn.loops() if c.src in L['blocks'] and c.dst not in L['blocks']], key=lambda L: len(L['blocks']))


# ---------------------------------------------------------------- loops as recurrences
import copy as _copy
from .sym import is_term as _is_term


def snap(c):
    c2 = _copy.copy(c)
    c2.env = dict(c.env)
    return c2


class LoopClient(Client):
    """Collects, per natural loop, what happens before it, in one (generic) iteration and
    at its exits, and the recurrences of the values carried around it.

    us is a stack of event frames; frame = (header or None, rounds (0/1), events...).
    Subclasses add events with self.ev(c, event)."""

    def __init__(self, fn):
        self.f = fn
        self.entries, self.iters, self.exits, self.rets = [], [], [], []
        self.loopsby = {L['header']: L for L in fn.loops()}

    us0 = ((None, 0),)

    def ev(self, c, e):
        c.us = c.us[:-1] + (c.us[-1] + (e,),)

    def replace_last(self, c, e):
        c.us = c.us[:-1] + (c.us[-1][:-1] + (e,),)

    def events(self, c):
        return c.us[-1][2:]

    def edge(self, c):
        us = c.us
        # leaving loops
        while us[-1][0] is not None and c.dst not in self.loopsby[us[-1][0]]['blocks']:
            fr = us[-1]
            c.us = us
            self.exits.append((fr[0], fr[1], fr[2:], snap(c)))
            us = us[:-1]
            us = us[:-1] + (us[-1] + (('loop', fr[0], fr[1], fr[2:]),),)
        L = self.loopsby.get(c.dst)
        if L is not None and c.src not in L['blocks']:
            c.us = us
            self.entries.append((c.dst, us[-1][2:], snap(c)))
            us = us + ((c.dst, 0),)
        c.us = us
        self.onedge(c)

    def onedge(self, c):
        pass

    def backedge(self, c, h):
        fr = c.us[-1]
        self.iters.append((h, fr[1], fr[2:], snap(c)))
        c.us = c.us[:-1] + ((h, 1),)
        self.onback(c, h)

    def onback(self, c, h):
        pass

    def ret(self, c, val):
        self.rets.append((c.us[-1][2:], val, snap(c)))

    # ------------------------------------------------ recurrences
    def carried(self, c, key, pb):
        """value a header phi or a memory cell gets along this edge"""
        if key[0] == 'phi':
            for o, p in self.f.inst[key[1]]['ops']:
                if p == pb:
                    return c.sym.val(o, c.env)
            return None
        return c.mem.get(key[1], ('init', key[1]))

    def value(self, h, key, k, env, memo=None):
        """value of a carried key at the start of round k of loop h (None: unknown)"""
        memo = {} if memo is None else memo
        if (key, k) in memo:
            return memo[(key, k)]
        memo[(key, k)] = None
        get = env if callable(env) else env.get
        r = None
        if key[0] == 'phi':
            s = phi_scev(self.f, key[1])
            if s is not None and s[0] == 'rec':
                r = scev_sample(self.f, s, {s[1]: k}, get)
        if r is None:
            vals = set()
            if k == 0:
                for hh, _, c in self.entries:
                    if hh == h and sample_ok(c, get):
                        v = self.carried(c, key, c.src)
                        vals.add(evalt(v, get) if v is not None else None)
            else:
                e = self.at(h, k - 1, env, memo)
                for hh, rnd, _, c in self.iters:
                    if hh == h and (rnd == 0) == (k == 1) and sample_ok(c, e):
                        v = self.carried(c, key, c.x and self.f.bof.get(c.x['i']))
                        vals.add(evalt(v, e) if v is not None else None)
            if len(vals) == 1:
                r = vals.pop()
        memo[(key, k)] = r
        return r

    def at(self, h, k, env, memo=None):
        """leaf environment in round k of loop h"""
        memo = {} if memo is None else memo
        get = env if callable(env) else env.get
        seen = {}

        def g(t):
            if t in seen:
                return seen[t]
            v = get(t)
            if v is None and isinstance(t, tuple) and t:
                if t[0] == 'phi' and len(t) == 2 and self.f.bof.get(t[1]) == h:
                    v = self.value(h, t, k, env, memo)
                elif t[0] == 'lh' and t[2] == ('id', -(h + 2)):
                    v = self.value(h, t, k, env, memo)
            seen[t] = v
            return v
        return g

    def rounds(self, h, env, limit=600):
        """number of completed rounds before loop h is left, for the sampled leaves:
        (completed rounds, exit record) or None"""
        memo = {}
        for k in range(limit):
            e = self.at(h, k, env, memo)
            for hh, rnd, evs, c in self.exits:
                if hh != h or (rnd == 0) != (k == 0) or not sample_ok(c, e):
                    continue
                t = c.x
                if t['op'] != 'br' or not t['ops']:
                    return None
                v = evalt(c.sym.val(t['ops'][0], c.env), e)
                if v is None:
                    return None
                if (v & 1) == (1 if t['to'][0] == c.dst else 0):
                    return k, (hh, rnd, evs, c)
        return None

    def round_records(self, h, k, e):
        """iteration summaries that can describe round k under the leaf environment e"""
        return [(evs, c) for hh, rnd, evs, c in self.iters if hh == h and (rnd == 0) == (k == 0) and sample_ok(c, e)]
