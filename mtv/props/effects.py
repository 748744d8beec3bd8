"""Effect analyses over the call graph: what the library touches besides its arguments.

Functions are visited with the constants known at the call (conditional constant propagation), so that what only
happens when the caller asked for it is told from what always happens."""
import re
from .. import build, core
from ..build import REPO, VERIF, TU, AnalysisBroken
from ..facts import Prog, fold_bin, fold_cast, eval_icmp, to_signed, width, short
from ..report import Report, finish

PASSES = 'function(sroa,early-cse,simplifycfg,loop-simplify)'
SAMPLES = ('mt', 'rmt', 'tinymt', 'mtgp', 'sfmt', 'dsfmt', 'xs2', 'xs3', 'xs4', 'xs5')
_w = {}


def worlds(samples=True):
    """[(name, program)]: the library, and each sample generator"""
    if not _w:
        lib = core.tus()
        smp = [TU(VERIF + '/drivers/samples/%s.cpp' % n, incs=[REPO]) for n in SAMPLES]
        bc = build.bitcode(lib + smp)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            a = ex.submit(lambda: Prog(build.irfacts(bc[:len(lib)], inline=False, passes=PASSES), build.astfacts(lib)))
            b = [ex.submit(lambda k: Prog(build.irfacts([bc[len(lib) + k]], inline=False, passes=PASSES), build.astfacts([smp[k]])), k) for k in range(len(smp))]
            _w['library'] = a.result()
            for n, x in zip(SAMPLES, b):
                _w[n] = x.result()
    return [(n, p) for n, p in _w.items() if samples or n == 'library']


def own(f):
    """the function is written in the library or in a sample generator"""
    return f.src.startswith(REPO + '/')


def blocks(f, exc=False):
    return [b for b in f.j['blocks'] if exc or b['id'] in f.reach]


def allinsts(f):
    return [x for b in f.j['blocks'] for x in b['insts'] if x['op'] != 'dbg']


def strip(op, f, seen=None):
    """base objects an address operand may point into"""
    seen = set() if seen is None else seen
    k = op[0]
    if k == 'g':
        return {('g', op[1])}
    if k == 'a':
        return {('a', op[1])}
    if k != 'v':
        return {('c',)}
    if op[1] in seen:
        return set()
    seen.add(op[1])
    x = f.inst.get(op[1])
    if x is None:
        return {('?',)}
    o = x['op']
    if o in ('getelementptr', 'bitcast', 'addrspacecast', 'freeze', 'inttoptr', 'ptrtoint'):
        return strip(x['ops'][0], f, seen)
    if o == 'phi':
        r = set()
        for v, _ in x['ops']:
            r |= strip(v, f, seen)
        return r
    if o == 'select':
        return strip(x['ops'][1], f, seen) | strip(x['ops'][2], f, seen)
    if o == 'alloca':
        return {('local', op[1])}
    if o == 'load':
        return {('load', op[1])}
    if o in ('call', 'invoke'):
        return {('call', op[1])}
    return {('?', op[1])}


# ---------------------------------------------------------------- conditional constants
BOT = 'not computed'


class Consts:
    """conditional constant propagation in one function"""

    def __init__(self, f, args):
        self.f = f
        self.v = {}
        self.args = args
        self.blocks = set()
        self.edges = set()
        self.blocks.add(f.entry)
        self.edges.add((None, f.entry))
        ch = True
        while ch:
            while self._pass():
                pass
            ch = False
            for b in list(self.blocks):
                for s in self._next(b):
                    if (b, s) not in self.edges:
                        self.edges.add((b, s))
                        self.blocks.add(s)
                        ch = True

    def val(self, op):
        """a number, None (unknown) or BOT (not computed yet)"""
        k = op[0]
        if k == 'c':
            return int(op[1])
        if k == 'null':
            return 0
        if k == 'a':
            return self.args.get(op[1])
        if k == 'v':
            return self.v.get(op[1], BOT)
        return None

    def _pass(self):
        ch = False
        for b in list(self.blocks):
            for x in self.f.blocks[b]['insts']:
                if x['op'] == 'dbg' or 'ty' not in x:
                    continue
                i = x['i']
                old = self.v.get(i, BOT)
                if old is None:
                    continue
                n = self._eval(x, b)
                if n is BOT:
                    continue
                if old is not BOT and n != old:
                    n = None
                if n is None or old is BOT:
                    self.v[i] = n
                    ch = True
        return ch

    def _eval(self, x, b):
        o = x['op']
        if o == 'phi':
            vs = {self.val(v) for v, p in x['ops'] if (p, b) in self.edges} - {BOT}
            return vs.pop() if len(vs) == 1 else None if vs else BOT
        if o in ('zext', 'sext', 'trunc'):
            v = self.val(x['ops'][0])
            if v is None or v is BOT:
                return v
            s = x['ops'][0]
            if s[0] == 'a' and o == 'zext':
                m = width(self.f.j['args'][s[1]]['ty'])
                return v & ((1 << m) - 1) if m else None
            r = fold_cast(o, v, x, self.f)
            return r if isinstance(r, int) else None
        if o == 'icmp':
            a, c = self.val(x['ops'][0]), self.val(x['ops'][1])
            if a is BOT or c is BOT:
                return BOT
            return None if a is None or c is None else int(eval_icmp(x['pred'], a, c))
        if o == 'select':
            c = self.val(x['ops'][0])
            if c is BOT or c is None:
                return c
            return self.val(x['ops'][1 if c & 1 else 2])
        if o in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr'):
            a, c = self.val(x['ops'][0]), self.val(x['ops'][1])
            if a is BOT or c is BOT:
                return BOT
            if o == 'and' and (a == 0 or c == 0):
                return 0
            m = width(x['ty'])
            if o == 'or' and m and any(isinstance(q, int) and q & ((1 << m) - 1) == (1 << m) - 1 for q in (a, c)):
                return -1
            if a is None or c is None:
                return None
            return fold_bin(o, a, c, x['ty'])
        return None

    def _next(self, b):
        t = self.f.term_inst(b)
        if t['op'] == 'br' and t['ops']:
            c = self.val(t['ops'][0])
            if c is BOT:
                return []
            if c is not None:
                return [t['to'][0 if c & 1 else 1]]
        if t['op'] == 'switch':
            c = self.val(t['ops'][0])
            if c is BOT:
                return []
            if c is not None:
                return [next((d for v, d in t['cases'] if v == c), t['default'])]
        return self.f.succ[b]

    def insts(self):
        for b in self.f.j['blocks']:
            if b['id'] in self.blocks:
                for x in b['insts']:
                    if x['op'] != 'dbg':
                        yield x


def callees(P, f, x):
    """functions with a body that a call may reach"""
    c = x.get('callee')
    if c is not None:
        return [P.fns[c]] if c in P.fns else []
    n = P.cname(x)
    if n == '?':
        return []
    k = len(x['ops'])
    return [g for g in P.fns.values() if own(g) and short(g.dem) == n and len(g.j['args']) == k]


def walk(P, f, args, into=None):
    """every (function, constants, caller path) reached from f"""
    seen = {}
    st = [(f, tuple(sorted(args.items())), (f.name,))]
    while st:
        g, a, path = st.pop()
        if (g.name, a) in seen:
            continue
        c = Consts(g, dict(a))
        seen[(g.name, a)] = (g, c, path)
        for x in c.insts():
            if x['op'] in ('call', 'invoke'):
                for h in callees(P, g, x):
                    if into is not None and not into(h):
                        continue
                    ca = {}
                    for k, o in enumerate(x['ops']):
                        if k < len(h.j['args']) and width(h.j['args'][k]['ty']) == 1:
                            v = c.val(o)
                            if v is not None and v is not BOT:
                                ca[k] = v & 1
                    st.append((h, tuple(sorted(ca.items())), path + (h.name,) if len(path) < 8 else path))
    return seen.values()


# ---------------------------------------------------------------- entries
STREAM = re.compile(r'basic_ostream|ostream')


def plain(q):
    """a name without template arguments"""
    while True:
        r = re.sub(r'<[^<>]*>', '', q.replace('->', '').replace('operator<<', 'operator_shl').replace('operator<', 'operator_lt'))
        if r == q:
            return r
        q = r


def methods(P):
    """(names of members that are not public, names of all members)"""
    if 'mtv_methods' not in P.__dict__:
        priv, pub = set(), set()
        for r in P.ast['records']:
            for m in r['methods']:
                (pub if m['access'] == 0 else priv).add(plain(m['q']))
        P.mtv_methods = (priv - pub, priv | pub)
    return P.mtv_methods


def considered(name, P, f):
    """functions the effect rules speak about: all of the library; the classes of the samples (not their programs)"""
    return own(f) and (name == 'library' or plain(f.q) in methods(P)[1])


def returning(f):
    """blocks from which the function can still return"""
    if not hasattr(f, 'mtv_ret'):
        pred = {}
        for b in f.reach:
            for s in f.succ.get(b, []):
                pred.setdefault(s, []).append(b)
        st = [b for b in f.reach if f.term_inst(b)['op'] == 'ret']
        seen = set(st)
        while st:
            for p in pred.get(st.pop(), []):
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        f.mtv_ret = seen
    return f.mtv_ret


def entries(name, P):
    """[(function, index of the flag that asks for output or None, indices of stream parameters)]"""
    priv = methods(P)[0]
    r = []
    for f in P.fns.values():
        if not considered(name, P, f) or plain(f.q) in priv or short(f.dem).startswith(('__', '_GLOBAL')):
            continue
        d = f.j.get('ditypes') or []
        off = len(f.j['args']) - (len(d) - 1)
        streams = [k for k in range(len(f.j['args'])) if 0 <= k - off < len(d) - 1 and STREAM.search(str(d[1 + k - off])) and '&' in str(d[1 + k - off])]
        bools = [k for k, a in enumerate(f.j['args']) if a['ty'] == 'i1']
        n = short(f.dem)
        gen = any('TemperingCalculatable' in str(t) or 'MtvGen' in str(t) for t in d[2:])
        flag = bools[0] if bools and gen and n in ('operator()', 'search') else None
        r.append((f, flag, streams))
    return r


CSTD = {'printf', 'puts', 'putchar', 'vprintf', 'fprintf', 'fputs', 'fputc', 'putc', 'fwrite', 'perror', 'write', 'vfprintf', 'putchar_unlocked', 'dprintf', 'system', 'popen'}
GSTD = {'_ZSt4cout', '_ZSt4cerr', '_ZSt4clog', '_ZSt5wcout', '_ZSt5wcerr', 'stdout', 'stderr'}
NONDET = re.compile(r'^(time|clock|rand|srand|random|srandom|drand48|lrand48|mrand48|srand48|gettimeofday|clock_gettime|timespec_get|getpid|getenv|secure_getenv|getrandom|rand_r|times|getrusage)$'
                    r'|^std::random_device|std::chrono::.*::now|^NTL::(RandomBnd|RandomBits|RandomLen|random|SetSeed|GetCurrentRandomStream|RandomWord|RandomStream|GetTime|GetWallTime|RandomPrime|GenPrime|BuildRandomIrred)')
ENDS = re.compile(r'^(exit|_exit|_Exit|abort|quick_exit|raise|kill|longjmp|_longjmp|siglongjmp|std::terminate|std::quick_exit|std::exit|std::abort)$')


def target(x):
    return re.split(r'[(<]', x.get('cdem') or '')[0].split(' ')[-1] if x.get('callee') else ''


def tname(x):
    d = x.get('cdem') or ''
    return core_name(d)


def core_name(d):
    from ..facts import qual
    return qual(d) if '(' in d else d


def is_output(P, f, x):
    """(kind, base) for a call that writes text: 'std' on a standard stream, 'arg'/'held' on somebody's stream, None"""
    n = x.get('cdem') or ''
    c = x.get('callee') or ''
    if c in CSTD:
        return 'std'
    for o in x['ops']:
        if any(b[0] == 'g' and b[1] in GSTD for b in strip(o, f)):
            if 'operator<<' in n or STREAM.search(n) or n.startswith(('std::', 'NTL::')) or 'operator<<' in (P.cname(x) or ''):
                return 'std'
    if ('operator<<' in n and STREAM.search(n)) or re.search(r'std::(basic_ostream<.*>|ostream)::(write|put|flush)\(', n):
        return chain(P, f, x['ops'][0], set())
    return None


def chain(P, f, op, seen):
    """whose stream this is"""
    r = set()
    for b in strip(op, f):
        if b[0] == 'g':
            r.add('std' if b[1] in GSTD else 'held')
        elif b[0] == 'local':
            r.add('local')
        elif b[0] == 'a':
            r.add('arg')
        elif b[0] == 'call':
            if b[1] in seen:
                continue
            seen.add(b[1])
            y = f.inst[b[1]]
            r.add(chain(P, f, y['ops'][0], seen) if y['ops'] else 'held')
        else:
            r.add('held')
    for k in ('std', 'arg', 'held', 'local'):
        if k in r:
            return k
    return 'local'


def where(f, x):
    return f.where(x)


def dem(P, names):
    return ' -> '.join(core.sig(P.fns[n]) if n in P.fns else n for n in names)


# ---------------------------------------------------------------- P15: silence
def leaks_flag(f, c):
    """a known flag is put into an object, so what it decides cannot be followed"""
    for x in c.insts():
        if x['op'] == 'store' and any(b[0] in ('a', 'load', 'call', 'g') for b in strip(x['ops'][1], f)):
            o = x['ops'][0]
            d = 0
            while o[0] == 'v' and d < 6 and f.inst[o[1]]['op'] in ('zext', 'sext', 'trunc', 'freeze'):
                o = f.inst[o[1]]['ops'][0]
                d += 1
            if o[0] == 'a' and o[1] in c.args:
                return True
    return False


def p15(prop, tier):
    rep = Report(prop, tier)
    rep.rule('silent', 'a public function writes on no stream, unless its caller asked for it (verbose) or gave it a stream to print on')
    rep.rule('stream', 'a function that is given a stream to print on writes on that stream only')
    rep.rule('file', 'no function opens, removes or renames files, reads input, or starts programs')
    FILES = re.compile(r'^(fopen|fopen64|open|open64|freopen|creat|remove|rename|unlink|fork|execv|execve|execvp|execl|system|popen|scanf|getchar|fgets|std::basic_(i|o)?fstream|std::basic_filebuf)')
    for name, P in worlds():
        n = 0
        for f, flag, streams in entries(name, P):
            rep.fn(f)
            inst = '%s%s' % ('' if name == 'library' else name + ': ', core.sig(f))
            bad = unsure = wrote = None
            fl = None
            for g, c, path in walk(P, f, {} if flag is None else {flag: 0}):
                lk = leaks_flag(g, c)
                for x in c.insts():
                    if x['op'] not in ('call', 'invoke'):
                        continue
                    rep.calls()
                    if FILES.match(tname(x)) and own(g):
                        fl = (g, x, path)
                    if not own(g):
                        continue
                    k = is_output(P, g, x)
                    if k in (None, 'local') or g.bof[x['i']] not in returning(g):
                        continue
                    if k == 'held' and flag is None:
                        continue
                    if flag is None and streams and k != 'std':
                        wrote = True
                        continue
                    if k == 'arg' and g is not f and flag is None:
                        # a helper prints on a stream of its caller: decided by what the caller passes
                        continue
                    bad = bad or (g, x, path, k)
                if lk:
                    unsure = True
            n += 1
            if flag is not None and streams:
                cls = plain(f.q).rsplit('::', 1)[0]
                other = None
                for g, c, path in walk(P, f, {}, lambda h: plain(h.q).rsplit('::', 1)[0] == cls or '::' not in plain(h.q).replace('MTToolBox::', '')):
                    for x in c.insts():
                        if x['op'] in ('call', 'invoke') and is_output(P, g, x) == 'std' and g.bof[x['i']] in returning(g):
                            other = other or (g, x, path)
                rep.verdict(other is None, 'stream', inst, where(other[0], other[1]) if other else where(f, {}), 'writes on a standard stream instead of the one it is given')
            r = 'stream' if flag is None and streams else 'silent'
            if bad:
                g, x, path, k = bad
                t = 'writes on %s%s: %s' % ('a standard stream' if k == 'std' else 'a stream', ' although nothing asked for it' if flag is not None else '', dem(P, path))
                (rep.unk if unsure and flag is not None else rep.bad)(r, inst, where(g, x), t)
            else:
                rep.ok(r, inst, where(f, {}))
            if fl:
                rep.bad('file', inst, where(fl[0], fl[1]), 'calls %s: %s' % (tname(fl[1]), dem(P, fl[2])))
            else:
                rep.ok('file', inst, where(f, {}))
        if not n:
            raise AnalysisBroken('no public function found in ' + name)
    return finish(rep, 'other', 'Interprocedural effect analysis with conditional constants: writes on streams and files reachable from every public function.', floor=20)


# ---------------------------------------------------------------- P14: results depend on arguments only
def guarded(f):
    """blocks that run under a guard of a local static (once), with the values they may use"""
    r = set()
    for x in allinsts(f):
        if x.get('callee') == '__cxa_guard_acquire':
            # the initialisation: from the acquired branch to the release
            if x['i'] not in f.bof:
                continue
            b = f.bof[x['i']]
            last = {f.bof[y['i']] for y in allinsts(f) if y.get('callee') == '__cxa_guard_release' and y['ops'] == x['ops'] and y['i'] in f.bof}
            for s in f.succ.get(b, []):
                if s == b or not dominated(f, b, s):
                    continue
                st, seen = [s], set()
                while st:
                    n = st.pop()
                    if n in seen or not dominated(f, s, n):
                        continue
                    seen.add(n)
                    if n not in last:
                        st += f.succ[n]
                r |= seen
    return r


def dominated(f, a, b):
    """every path from the entry to b passes a"""
    if a == b:
        return True
    seen, st = {f.entry}, [f.entry]
    if a == f.entry:
        return True
    while st:
        n = st.pop()
        if n == b:
            return False
        for s in f.succ[n]:
            if s != a and s not in seen:
                seen.add(s)
                st.append(s)
    return True


def depends_args(f, op, seen=None):
    seen = set() if seen is None else seen
    if op[0] == 'a':
        return True
    if op[0] != 'v' or op[1] in seen:
        return False
    seen.add(op[1])
    x = f.inst.get(op[1])
    if x is None:
        return False
    if x['op'] == 'alloca':
        # what is put into the local variable
        for y in f.insts():
            if y['op'] in ('store', 'call', 'invoke') and any(o[0] == 'v' and ('local', op[1]) in strip(o, f) for o in y['ops']):
                if any(depends_args(f, o, seen) for o in y['ops']):
                    return True
        return False
    if x['op'] == 'phi':
        return any(depends_args(f, o, seen) for o, _ in x['ops'])
    ops = list(x['ops']) + [v for v, _ in x.get('vars', [])]
    return any(depends_args(f, o, seen) for o in ops)


def const_params(d):
    """for a demangled signature: (this is const, [parameter types])"""
    n = len(d)
    if not d.endswith((')', ' const')):
        return None
    this = d.endswith(' const')
    if this:
        d = d[:-6]
    depth, ps, cur, k = 0, [], '', len(d) - 1
    # find the matching opening parenthesis
    i = k
    while i >= 0:
        if d[i] == ')':
            depth += 1
        elif d[i] == '(':
            depth -= 1
            if depth == 0:
                break
        i -= 1
    body = d[i + 1:k]
    depth = 0
    for ch in body:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            ps.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        ps.append(cur.strip())
    return this, ps


def readonly(t):
    """a parameter of this type cannot be used to change what it points to (short of a cast)"""
    t = t.strip()
    return t.endswith(('const&', 'const*')) or not t.endswith(('&', '*'))


def changes(P, f, x, k):
    """does external call x change what its operand k points to?  None: cannot tell"""
    c, d = x.get('callee') or '', x.get('cdem') or ''
    if c.startswith('llvm.'):
        if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            return k == 0
        return False
    if c in ('__cxa_atexit', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', '__dynamic_cast'):
        return False
    cp = const_params(d)
    if cp is None:
        return None
    this, ps = cp
    sr = len(x.get('sret', []))
    n = len(x['ops']) - sr
    k -= sr
    if k < 0:
        return True
    if n == len(ps) + 1:        # member: operand 0 is this
        if k == 0:
            nm = short(d)
            if nm.startswith('~'):
                return True
            return not this
        k -= 1
    if k >= len(ps):
        return None
    return not readonly(ps[k])


def p14(prop, tier):
    rep = Report(prop, tier)
    rep.rule('state', 'no function writes a global or a local static after its one initialisation, which uses no argument: nothing is remembered between calls or shared between objects')
    rep.rule('source', 'no function reads a clock, an environment variable, a process number or an entropy source, or draws from a global random generator; a time that is printed on request reaches nothing else')
    for name, P in worlds():
        inst0 = '' if name == 'library' else name + ': '
        for f in P.fns.values():
            if not (considered(name, P, f) or (name == 'library' and own(f))):
                continue
            rep.fn(f)
            inst = inst0 + core.sig(f)
            init = f.name.startswith(('_GLOBAL__', '__cxx_global_var_init')) or '__cxx_global' in f.name
            once = guarded(f)
            bad = unk = None

            def mutable(o):
                for b in strip(o, f):
                    if b[0] == 'g' and not b[1].startswith(('_ZGV', '_ZTV', '_ZTT', '_ZTI', '_ZTS', '__dso')):
                        g = P.globals.get(b[1])
                        if g is not None and not g['const'] and b[1] not in GSTD:
                            yield b[1], g
            for x in f.insts():
                b = f.bof[x['i']]
                hit = []
                if x['op'] == 'store':
                    hit = [(g, True, [x['ops'][0]]) for g in mutable(x['ops'][1])]
                elif x['op'] in ('atomicrmw', 'cmpxchg'):
                    hit = [(g, True, x['ops'][1:]) for g in mutable(x['ops'][0])]
                elif x['op'] in ('call', 'invoke'):
                    rep.calls()
                    for k, o in enumerate(x['ops']):
                        for g in mutable(o):
                            h = callees(P, f, x)
                            if h:
                                cp = const_params(h[0].dem)
                                ch = None
                                sr = len(x.get('sret', []))
                                if cp:
                                    kk = k - sr
                                    mem = len(x['ops']) - sr == len(cp[1]) + 1
                                    ch = (not cp[0]) if mem and kk == 0 else not readonly(cp[1][kk - mem]) if 0 <= kk - mem < len(cp[1]) else None
                                    if ch and x.get('callee') in P.fns:
                                        ch = mutates(P, P.fns[x['callee']], k)
                            else:
                                ch = changes(P, f, x, k) if x.get('callee') else None
                            if ch is not False:
                                hit.append((g, ch, [q for j, q in enumerate(x['ops']) if j != k]))
                for (gn, g), sure, vals in hit:
                    if init and not any(depends_args(f, v) for v in vals):
                        continue
                    if b in once and g.get('internal', True) and not any(depends_args(f, v) for v in vals):
                        continue
                    if b in once and x['op'] in ('call', 'invoke') and not any(depends_args(f, v) for v in vals):
                        continue
                    t = (x, 'writes %s, which outlives the call' % g['dem'])
                    if sure:
                        bad = bad or t
                    else:
                        unk = unk or t
            if bad:
                rep.bad('state', inst, where(f, bad[0]), bad[1])
            elif unk:
                rep.unk('state', inst, where(f, unk[0]), unk[1])
            else:
                rep.ok('state', inst, where(f, {}))
            src = None
            for x in f.insts():
                if x['op'] in ('call', 'invoke') and NONDET.search(tname(x)):
                    if tname(x) == 'time' and printed_only(P, f, x):
                        continue
                    src = x
                    break
            if src:
                rep.bad('source', inst, where(f, src), 'uses %s' % tname(src))
            else:
                rep.ok('source', inst, where(f, {}))
    return finish(rep, 'other', 'Effect analysis: stores to storage that outlives the call, and calls of sources that differ between runs.', floor=50)


def uses(f, i):
    return [x for x in allinsts(f) if x['i'] != i and any(o == ['v', i] or o == ('v', i) or (isinstance(o, (list, tuple)) and len(o) == 2 and isinstance(o[0], (list, tuple)) and list(o[0]) == ['v', i]) for o in x['ops'])]


def printed_only(P, f, x):
    """the result of time() only reaches ctime and stream insertions"""
    st, seen = [x['i']], set()
    if x['ops'] and x['ops'][0][0] != 'null':
        for b in strip(x['ops'][0], f):
            if b[0] == 'local':
                st.append(b[1])
            elif b[0] != 'c':
                return False
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        for u in uses(f, i):
            if u['op'] == 'store':
                if any(o[0] == 'v' and o[1] == i for o in u['ops'][:1]):
                    for b in strip(u['ops'][1], f):
                        if b[0] != 'local':
                            return False
                        st.append(b[1])
            elif u['op'] in ('load', 'phi', 'bitcast', 'getelementptr', 'zext', 'sext', 'trunc', 'freeze', 'sub', 'add', 'sitofp', 'fdiv', 'sdiv'):
                st.append(u['i'])
            elif u['op'] in ('call', 'invoke'):
                n = tname(u)
                if n in ('ctime', 'ctime_r', 'localtime', 'localtime_r', 'gmtime', 'asctime', 'strftime', 'difftime', 'std::put_time'):
                    st.append(u['i'])
                elif (u.get('callee') or '').startswith('llvm.') or n == 'time':
                    pass
                elif 'operator<<' in (u.get('cdem') or ''):
                    pass
                else:
                    return False
            else:
                return False
    return True


# ---------------------------------------------------------------- what happens to a parameter
GETTERS = re.compile(r'')


def mutates(P, f, k, seen=None, esc=None):
    """does f change the object its argument k points to?  True / False / None (handed to something unknown)"""
    r = mutation(P, f, k, seen)
    return False if r is None else r[0]


def mutation(P, f, k, seen=None, start=None, also=()):
    """None, or (True|None, function, instruction, what)"""
    seen = set() if seen is None else seen
    key = (f.name, k if start is None else ('v', start))
    if key in seen:
        return None
    seen.add(key)
    res = None

    def put(sure, x, what):
        nonlocal res
        if res is None or (sure and not res[0]):
            res = (sure, f, x, what)
    src = ('a', k) if start is None else ('v', start)
    taint, places = set(), set()

    def t(o):
        return (o[0] == src[0] and o[1] == src[1]) or (o[0] == 'v' and o[1] in taint)
    ch = True
    while ch:
        ch = False
        for x in allinsts(f):
            i = x['i']
            if i in taint:
                continue
            o = x['op']
            hit = False
            if o in ('getelementptr', 'bitcast', 'addrspacecast', 'freeze', 'ptrtoint', 'inttoptr'):
                hit = t(x['ops'][0])
            elif o == 'phi':
                hit = any(t(v) for v, _ in x['ops'])
            elif o == 'select':
                hit = t(x['ops'][1]) or t(x['ops'][2])
            elif o in ('add', 'sub') and x.get('ty') == 'i64':
                hit = any(t(v) for v in x['ops'])
            elif o == 'load' and x.get('ty') == 'ptr':
                hit = any(b in places for b in strip(x['ops'][0], f))
            elif o in ('call', 'invoke') and x.get('callee') == '__dynamic_cast':
                hit = t(x['ops'][0])
            elif o in ('call', 'invoke') and x.get('callee') in P.fns and x.get('ty') == 'ptr':
                h = P.fns[x['callee']]
                hit = any(t(v) and returns(P, h, j) for j, v in enumerate(x['ops']))
            if hit:
                taint.add(i)
                ch = True
            if o == 'store' and t(x['ops'][0]):
                for b in strip(x['ops'][1], f):
                    if b[0] == 'local' and b not in places:
                        places.add(b)
                        ch = True
    for x in allinsts(f):
        o = x['op']
        if o == 'store':
            if t(x['ops'][1]):
                put(True, x, 'writes to it')
            if t(x['ops'][0]):
                for b in strip(x['ops'][1], f):
                    if b[0] != 'local':
                        put(None, x, 'keeps a reference to it')
        elif o in ('atomicrmw', 'cmpxchg') and t(x['ops'][0]):
            put(True, x, 'writes to it')
        elif o in ('call', 'invoke'):
            for j, v in enumerate(x['ops']):
                if not t(v):
                    continue
                if x.get('callee') is None:
                    l = x.get('loc')
                    m = P.callmap.get(tuple(l)) if l else None
                    if m is None:
                        put(None, x, 'is handed to an unknown call')
                    elif j == len(x.get('sret', [])):
                        if not m['const'] and m['m'] not in also:
                            put(True, x, 'is changed by %s()' % m['m'])
                    else:
                        # argument of a virtual method: read-only by the interface's contract where declared const,
                        # add() takes its operand by non-const reference but only reads it
                        if m['m'] != 'add':
                            bodies = callees(P, f, x)
                            rr = [mutation(P, h, j, seen, None, also) for h in bodies]
                            rr = [q for q in rr if q]
                            if rr:
                                put(rr[0][0], x, 'is passed on to %s(), where it %s' % (m['m'], rr[0][3]))
                            elif not bodies:
                                put(None, x, 'is handed to %s()' % m['m'])
                elif x['callee'] in P.fns:
                    q = mutation(P, P.fns[x['callee']], j, seen, None, also)
                    if q:
                        put(q[0], x, 'is passed on to %s, where it %s' % (core.sig(P.fns[x['callee']]).split('(')[0], q[3]))
                else:
                    c = changes(P, f, x, j)
                    if c:
                        put(True, x, 'is changed by %s' % (tname(x)))
                    elif c is None:
                        put(None, x, 'is handed to %s' % tname(x))
    return res


def returns(P, f, k, seen=None):
    """may f return (a part of) its argument k?"""
    seen = set() if seen is None else seen
    if (f.name, k) in seen:
        return False
    seen.add((f.name, k))
    for x in f.insts():
        if x['op'] == 'ret' and x['ops']:
            for b in strip(x['ops'][0], f):
                if b == ('a', k):
                    return True
                if b[0] == 'call' and f.inst[b[1]].get('callee') in P.fns:
                    h = P.fns[f.inst[b[1]]['callee']]
                    if any(('a', k) in strip(v, f) and returns(P, h, j, seen) for j, v in enumerate(f.inst[b[1]]['ops'])):
                        return True
    return False


MEASURE = re.compile(r'::(\w*Equidistribution)::\1$|linear_generator_vector::linear_generator_vector$|::TestLinearity::operator\(\)$|::is(Prime|Irreducible|Mexp\w*)$|AlgorithmPrimitivity::operator\(\)$')


def p11(prop, tier):
    rep = Report(prop, tier)
    rep.rule('input', 'a generator or polynomial that is measured, searched from or tested is only read: it is copied first, and the copy is what moves')
    rep.rule('const', 'no function writes through a parameter it declares const')
    n = 0
    for name, P in worlds():
        pre = '' if name == 'library' else name + ': '
        for f in P.fns.values():
            if not considered(name, P, f):
                continue
            cp = const_params(f.dem)
            if cp is None:
                continue
            nm = short(f.dem)
            base = sum(1 for a in f.j['args'] if a.get('sret'))
            mem = len(f.j['args']) - base == len(cp[1]) + 1
            meas = MEASURE.search(plain(f.q))
            for k, ty in enumerate(cp[1]):
                a = base + mem + k
                if a >= len(f.j['args']) or f.j['args'][a]['ty'] != 'ptr':
                    continue
                isgen = re.search(r'EquidistributionCalculatable|MtvGen|GF2X', ty)
                named = nm == 'searchParity' and k == 0
                if not (ty.endswith(('const&', 'const*')) or named or (meas and isgen and ty.endswith(('&', '*')))):
                    continue
                rule = 'input' if isgen else 'const'
                rep.fn(f)
                n += 1
                q = mutation(P, f, a, also=('setParityValue',) if named else ())
                inst = '%s%s parameter %d' % (pre, core.sig(f), k + 1)
                if q is None:
                    rep.ok(rule, inst, where(f, {}))
                    continue
                sure, g, x, what = q
                if sure is None and 'keeps a reference' in what:
                    z = later(P, f, g, x)
                    if z:
                        rep.bad(rule, inst, where(z[1], z[2]), 'a reference kept by %s is later changed: %s' % (core.sig(f), z[3]))
                    else:
                        rep.ok(rule, inst, where(f, {}))
                    continue
                rep.verdict(None if sure is None else False, rule, inst, where(g, x), 'the parameter %s' % what)
    if n < 10:
        raise AnalysisBroken('too few read-only parameters found')
    return finish(rep, 'other', 'Interprocedural may-write analysis of parameters: stores, non-const methods and escapes.', floor=10)


def later(P, f, g, x):
    """a kept reference that a method of the same class uses to change the object"""
    cls = g.q.rsplit('::', 1)[0]
    st = None
    for b in strip(x['ops'][1], g):
        if b == ('a', 0):
            st = g.addr(x['ops'][1]) if hasattr(g, 'addr') else None
    if st is None:
        return None
    off = st[2] if isinstance(st, tuple) and st[0] == 'at' else 0
    for h in P.fns.values():
        if h.q.rsplit('::', 1)[0] != cls:
            continue
        for y in h.insts():
            if y['op'] == 'load' and y.get('ty') == 'ptr':
                a = h.addr(y['ops'][0])
                if a == ('arg', 0) and off == 0 or isinstance(a, tuple) and a[0] == 'at' and a[1] == ('arg', 0) and a[2] == off:
                    q = mutation(P, h, None, start=y['i'])
                    if q and q[0]:
                        return q
    return None


# ---------------------------------------------------------------- P13: failures
def p13(prop, tier):
    rep = Report(prop, tier)
    rep.rule('thrown', 'everything thrown is an object derived from std::exception, thrown by value')
    rep.rule('surface', 'a handler does not turn a failure into an ordinary return')
    rep.rule('leave', 'no function that may not throw (destructors, noexcept) can run into a throw')
    rep.rule('end', 'no function ends or aborts the process')
    for name, P in worlds():
        pre = '' if name == 'library' else name + ': '
        cnt = {}
        for t in P.ast['throws']:
            if t.get('rethrow') or t.get('dep') or not t['loc'][0].startswith(REPO + '/') or (name != 'library' and plain(t['fn']) not in methods(P)[1]):
                continue
            k = '%s%s %s' % (pre, t['fn'].replace('MTToolBox::', ''), t['type'])
            cnt[k] = cnt.get(k, 0) + 1
            rep.verdict(bool(t.get('exc')) and not t.get('ptr'), 'thrown', k, '%s:%d' % tuple(t['loc'][:2]), 'throws %s, which no handler of std::exception receives' % t['type'])
        # may throw
        may = {}
        for f in P.fns.values():
            for b in f.j['blocks']:
                if b['id'] not in f.reach:
                    continue
                for x in b['insts']:
                    if x.get('callee') in ('__cxa_throw', '__cxa_rethrow') and own(f):
                        may.setdefault(f.name, (f, x))
        ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                if f.name in may:
                    continue
                for x in f.insts():
                    if x['op'] not in ('call', 'invoke') or x.get('callee') is None:
                        continue
                    if x['callee'] in may and (x['op'] == 'call' or not caught(f, x)):
                        may[f.name] = (f, x)
                        ch = True
                        break
        for f in P.fns.values():
            if not considered(name, P, f):
                continue
            rep.fn(f)
            inst = pre + core.sig(f)
            if f.j.get('nounwind'):
                q = may.get(f.name)
                rep.verdict(q is None, 'leave', inst, where(*q) if q else where(f, {}), 'may not throw, but runs into a throw (the process ends)')
            sw = swallowed(f)
            rep.verdict(sw is None, 'surface', inst, where(f, sw) if sw else where(f, {}), 'a caught failure ends in an ordinary return')
            e = next((x for x in allinsts(f) if x['op'] in ('call', 'invoke') and ENDS.match(tname(x))), None)
            if e is None and any(x.get('callee') == '__assert_fail' for x in allinsts(f)):
                rep.unk('end', inst, where(f, {}), 'an assertion may end the process')
            else:
                rep.verdict(e is None, 'end', inst, where(f, e) if e else where(f, {}), 'calls %s' % (tname(e) if e else ''))
    return finish(rep, 'other', 'Types of throw expressions, reachability of throws from functions that may not throw, handlers that return, calls that end the process.', floor=20)


def raw(f):
    return {b['id']: b for b in f.j['blocks']}


def caught(f, x):
    """the invoke's landing pad leads to a handler"""
    B = raw(f)
    st, seen = [x['unwind']], set()
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        for y in B[b]['insts']:
            if y.get('callee') == '__cxa_begin_catch':
                return True
        st += B[b]['succs']
    return False


def swallowed(f):
    B = raw(f)
    for b in f.j['blocks']:
        for k, x in enumerate(b['insts']):
            if x.get('callee') == '__cxa_begin_catch':
                st, seen = [b['id']], set()
                first = True
                while st:
                    n = st.pop()
                    if n in seen:
                        continue
                    seen.add(n)
                    ins = B[n]['insts'][k if first else 0:]
                    first = False
                    if any(y.get('callee') in ('__cxa_throw', '__cxa_rethrow') for y in ins):
                        continue
                    if any(y['op'] == 'ret' for y in ins):
                        return x
                    st += [t for t in B[n]['succs']] if B[n]['insts'][-1]['op'] != 'invoke' else [B[n]['insts'][-1]['normal']]
    return None
