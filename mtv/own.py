"""Ownership of heap blocks: a path-sensitive abstract interpreter over the un-inlined IR.

Values are integers known at the point, addresses (object, offset), and symbols for everything else.  A symbol stands for
all values: a branch on one is followed both ways, remembering only which way was taken.  The state carries a ledger of
heap blocks: made (how), released, handed to a smart pointer.  Loops whose counters are known are followed; a counter that
only an unknown condition ends is widened to a symbol."""
import re
from .facts import fold_bin, fold_cast, eval_icmp, to_signed, width, short
from .bits import live

NEW = {'_Znwm': 'new', '_Znam': 'new[]', '_ZnwmRKSt9nothrow_t': 'new', '_ZnamRKSt9nothrow_t': 'new[]', 'malloc': 'malloc', 'calloc': 'malloc', 'realloc': 'malloc',
       '_ZnwmSt11align_val_t': 'new', '_ZnamSt11align_val_t': 'new[]', 'aligned_alloc': 'malloc', 'strdup': 'malloc'}
DEL = {'_ZdlPv': 'new', '_ZdlPvm': 'new', '_ZdaPv': 'new[]', '_ZdaPvm': 'new[]', 'free': 'malloc', '_ZdlPvSt11align_val_t': 'new', '_ZdaPvSt11align_val_t': 'new[]',
       '_ZdlPvmSt11align_val_t': 'new', '_ZdaPvmSt11align_val_t': 'new[]'}
SMART = re.compile(r'^std::(__shared_ptr|shared_ptr|unique_ptr|auto_ptr|__shared_count)<')
PASS = re.compile(r'^std::(swap|exchange|move|forward|addressof|min|max|__addressof)$')
LIMIT = 8000
TURNS = 2


class Stop(Exception):
    pass


class Heap:
    __slots__ = ('status', 'form', 'size', 'site')

    def __init__(self, status, form, size, site):
        self.status, self.form, self.size, self.site = status, form, size, site

    def key(self):
        return (self.status, self.form, self.size)


class State:
    __slots__ = ('env', 'mem', 'heap', 'facts', 'epoch')

    def __init__(self, env=None, mem=None, heap=None, facts=None, epoch=None):
        self.env, self.mem, self.heap, self.facts, self.epoch = env or {}, mem or {}, heap or {}, facts or {}, epoch or {}

    def copy(self):
        return State(dict(self.env), dict(self.mem), dict(self.heap), dict(self.facts), dict(self.epoch))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset((k, h.key()) for k, h in self.heap.items()), frozenset(self.facts.items()), frozenset(self.epoch.items()))


def isptr(v):
    return isinstance(v, tuple) and v and v[0] == 'o'


def relevant(P, own):
    """functions of the repository that make or release blocks, themselves or through a callee"""
    r = set()
    call = {}
    for f in P.fns.values():
        if not own(f):
            continue
        for x in f.insts():
            if x['op'] not in ('call', 'invoke'):
                continue
            c = x.get('callee')
            if c in NEW or c in DEL or (c is None and (P.cname(x) == 'clone' or P.cname(x).startswith('~'))):
                r.add(f.name)
            elif c:
                call.setdefault(c, set()).add(f.name)
                if PASS.match(f.q):
                    pass
    st = list(r)
    while st:
        for g in call.get(st.pop(), ()):
            if g not in r:
                r.add(g)
                st.append(g)
    return r


class Own:
    def __init__(self, P, own, report):
        self.P, self.own, self.report = P, own, report
        self.rel = relevant(P, own)
        self.nstates = 0
        self.calls = 0
        self.partial = None
        self.kept = {}
        self.sums = {}
        self.wr = {}
        # classes that release memory themselves when they are destroyed: their life cycles are decided on their own
        self.owners = {cls(P.fns[n]) for n in self.rel if re.search(r'D[12]Ev$', n)}
        self.home = None

    # ---- values
    def val(self, o, s, f, d):
        k = o[0]
        if k == 'c':
            return int(o[1])
        if k == 'null':
            return 0
        if k == 'v':
            return s.env.get((d, o[1]), ('u', ('?', d, f.name, o[1])))
        if k == 'a':
            return s.env.get((d, 'a%d' % o[1]), ('u', ('?', d, f.name, 'a', o[1])))
        if k == 'g':
            return ('o', ('g', o[1]), 0)
        if k == 'fn':
            return ('u', ('fn', o[1]))
        return ('u', ('k', str(o)))

    def bad(self, f, x, rule, what):
        self.report(rule, f, x, what)

    def check(self, f, x, s, p, w=None):
        if not isptr(p):
            return
        h = s.heap.get(p[1])
        if h is None:
            return
        if h.status == 'freed':
            self.bad(f, x, 'use', 'uses a block that was released (made at %s)' % h.site)
            raise Stop()
        if w and p[2] is not None and h.size is not None and not (0 <= p[2] and p[2] + w <= h.size):
            self.bad(f, x, 'use', 'touches bytes %d to %d of a block of %d bytes (made at %s)' % (p[2], p[2] + w - 1, h.size, h.site))
            raise Stop()

    def load(self, f, x, s, p, ty, w):
        if not isptr(p):
            return ('u', ('ld', len(str(p)), f.name, x['i']))
        obj, off = p[1], p[2]
        if off is None:
            return ('u', ('ldx', f.name, x['i']))
        c = s.mem.get((obj, off))
        if c is not None and c[1] == w:
            return c[0]
        if c is None and not any(o == obj and (not isinstance(a, int) or off - 16 < a < off + w and a + cw > off) for (o, a), (v, cw) in s.mem.items()):
            e = s.epoch.get(obj, 0)
            if ty == 'ptr':
                v = ('o', ('sym', obj, off, e), 0)
            else:
                v = ('u', ('ld', obj, off, w, e))
            return v
        return ('u', ('ldp', f.name, x['i']))

    def store(self, s, p, v, w):
        if not isptr(p):
            # kept in a place that is not known here
            if isptr(v) and v[1] in s.heap and s.heap[v[1]].status == 'live':
                h = s.heap[v[1]]
                s.heap[v[1]] = Heap('given', h.form, h.size, h.site)
            return
        obj, off = p[1], p[2]
        if off is None:
            if isptr(v):
                k = 0
                while (obj, ('any', k)) in s.mem:
                    k += 1
                    if k > 40:
                        return
                s.mem[(obj, ('any', k))] = (v, w)
            for key in [q for q in s.mem if q[0] == obj and isinstance(q[1], int) and not isptr(s.mem[q][0])]:
                del s.mem[key]
            s.epoch[obj] = s.epoch.get(obj, 0) + 1 if s.epoch.get(obj, 0) < 3 else 3
            return
        for key in [q for q in s.mem if q[0] == obj and isinstance(q[1], int) and q[1] < off + w and q[1] + s.mem[q][1] > off]:
            del s.mem[key]
        s.mem[(obj, off)] = (v, w)

    def havoc(self, s, p):
        """unknown code may have written through p: integers there are no longer known (addresses it cannot know stay)"""
        if not isptr(p):
            return
        obj = p[1]
        h = s.heap.get(obj)
        for key in [q for q in s.mem if q[0] == obj and isinstance(q[1], int) and not isptr(s.mem[q][0])]:
            del s.mem[key]
        s.epoch[obj] = min(s.epoch.get(obj, 0) + 1, 3)
        if s.facts:
            s.facts = {k: q for k, q in s.facts.items() if not loads(k, obj)}

    # ---- functions
    def refs(self, s, roots):
        """heap blocks that can be reached from the roots and from objects that are not heap blocks"""
        seen, st = set(), []

        def put(v):
            if isptr(v):
                st.append(v[1])
        for v in roots:
            put(v)
        by = {}
        for (o, a), (v, w) in s.mem.items():
            if isptr(v):
                by.setdefault(o, []).append(v[1])
        while st:
            o = st.pop()
            if o in seen:
                continue
            seen.add(o)
            st += by.get(o, ())
        return seen

    def run(self, f, args, s, depth=0):
        """all (return value, state) in which f can return"""
        if depth > 8:
            raise Limit('calls too deep in %s' % f.q)
        s = s.copy()
        for k, v in enumerate(args):
            s.env[(depth, 'a%d' % k)] = v
        work = [(f.entry, None, s)]
        seen, out = set(), []
        lv = live(f)
        argslive = {'a%d' % k for k in range(len(args))}
        visits = {}
        heads = {L['header']: L for L in f.j.get('loops', [])}
        while work:
            b, pred, s = work.pop()
            # phis
            new = {}
            for x in f.insts(b):
                if x['op'] != 'phi':
                    break
                o = next((v for v, p in x['ops'] if p == pred), None)
                v = self.val(o, s, f, depth) if o is not None else ('u', ('phi', x['i']))
                new[x['i']] = v
            for i, v in new.items():
                s.env[(depth, i)] = v
            keep = lv[b]
            s.env = {k: v for k, v in s.env.items() if k[0] != depth or k[1] in keep or k[1] in argslive or k[1] in new or isinstance(k[1], tuple) and not (b in heads and pred not in heads[b]['blocks'] and k[1][1] in heads[b]['blocks'])}
            k = (b, s.key())
            if k in seen:
                continue
            seen.add(k)
            self.nstates += 1
            if self.nstates > LIMIT:
                raise Limit('too many states in %s' % f.q)
            if b in heads:
                visits[b] = visits.get(b, 0) + 1
                if visits[b] > 3000:
                    raise Limit('a loop of %s is followed too often' % f.q)
            try:
                self.block(f, b, s, depth, work, out, visits, heads)
            except Stop:
                pass
        return out

    def block(self, f, b, s, d, work, out, visits, heads, start=0):
        ins = f.insts(b)
        k = start
        while k < len(ins):
            x = ins[k]
            k += 1
            o = x['op']
            if o == 'phi':
                continue
            if 'ty' in x and s.facts:
                me = ('?', d, f.name, x['i'])
                s.facts = {q: v for q, v in s.facts.items() if not mentions(q, me)}
            if o == 'ret':
                v = self.val(x['ops'][0], s, f, d) if x['ops'] else None
                for key in [q for q in s.env if q[0] == d]:
                    del s.env[key]
                dead = [q for q in s.mem if q[0][0] == 'al' and q[0][1] == d]
                for q in dead:
                    del s.mem[q]
                out.append((v, s, x))
                return
            if o == 'br':
                if not x['ops']:
                    work.append((x['to'][0], b, s))
                    return
                c = self.cond(self.val(x['ops'][0], s, f, d), s)
                if isinstance(c, int):
                    work.append((x['to'][0 if c & 1 else 1], b, s))
                    return
                # a loop that an unknown condition ends is followed for at most TURNS more rounds
                ways = [(x['to'][0], 1), (x['to'][1], 0)]
                for L in heads.values():
                    if b in L['blocks'] and any(t not in L['blocks'] for t in x['to']):
                        it = (d, ('it', b))
                        n = s.env.get(it, 0)
                        s.env[it] = n + 1
                        if n >= TURNS:
                            ways = [w for w in ways if w[0] not in L['blocks']]
                for t, q in ways:
                    z = s.copy()
                    self.assume(z, c, q)
                    work.append((t, b, z))
                return
            if o == 'switch':
                c = self.val(x['ops'][0], s, f, d)
                if isinstance(c, int):
                    work.append((next((t for v, t in x['cases'] if v == c), x['default']), b, s))
                else:
                    for t in {t for v, t in x['cases']} | {x['default']}:
                        work.append((t, b, s.copy()))
                return
            if o in ('unreachable', 'resume'):
                return
            if o in ('call', 'invoke'):
                rs = self.call(f, x, s, d)
                if o == 'invoke':
                    for z in rs:
                        work.append((x['normal'], b, z))
                    return
                if not rs:
                    return
                for z in rs[1:]:
                    try:
                        self.block(f, b, z, d, work, out, visits, heads, k)
                    except Stop:
                        pass
                s = rs[0]
                continue
            if o == 'select':
                c = self.cond(self.val(x['ops'][0], s, f, d), s)
                a, e = self.val(x['ops'][1], s, f, d), self.val(x['ops'][2], s, f, d)
                if isinstance(c, int):
                    s.env[(d, x['i'])] = a if c & 1 else e
                elif a == e:
                    s.env[(d, x['i'])] = a
                elif isptr(a) or isptr(e):
                    z = s.copy()
                    self.assume(z, c, 0)
                    z.env[(d, x['i'])] = e
                    try:
                        self.block(f, b, z, d, work, out, visits, heads, k)
                    except Stop:
                        pass
                    self.assume(s, c, 1)
                    s.env[(d, x['i'])] = a
                else:
                    s.env[(d, x['i'])] = ('u', ('?', d, f.name, x['i']))
                continue
            self.inst(f, x, s, d)

    def cond(self, c, s):
        if isinstance(c, int):
            return c
        if isinstance(c, tuple) and c[0] == 'n':
            v = self.cond(c[1], s)
            return 1 - (v & 1) if isinstance(v, int) else c
        return s.facts.get(c, c)

    def assume(self, s, c, q):
        while isinstance(c, tuple) and c[0] == 'n':
            c, q = c[1], 1 - q
        s.facts[c] = q

    def compare(self, p, a, b, s):
        if isinstance(a, int) and isinstance(b, int):
            return int(eval_icmp(p, a, b))
        if p in ('eq', 'ne'):
            r = None
            if isptr(a) and isptr(b):
                if a[1] == b[1] and a[2] is not None and b[2] is not None:
                    r = a[2] == b[2]
                elif a[1] != b[1] and (a[1] in s.heap or b[1] in s.heap or a[1][0] == 'al' or b[1][0] == 'al'):
                    r = False
            elif isptr(a) and b == 0 or isptr(b) and a == 0:
                q = a if isptr(a) else b
                if q[1][0] != 'sym':
                    r = False
            if r is not None:
                return int(r == (p == 'eq'))
        if p == 'ne':
            return ('n', self.compare('eq', a, b, s))
        if p in ('sge', 'uge'):
            return ('n', ('c', p[0] + 'lt', a, b))
        if p in ('sgt', 'ugt'):
            return ('c', p[0] + 'lt', b, a)
        if p in ('sle', 'ule'):
            return ('n', ('c', p[0] + 'lt', b, a))
        return ('c', p, a, b)

    def inst(self, f, x, s, d):
        o = x['op']
        me = (d, x['i'])
        unk = ('u', ('?', d, f.name, x['i']))
        if o == 'alloca':
            n = self.val(x['ops'][0], s, f, d) if x['ops'] else 1
            obj = ('al', d, f.name, x['i'])
            s.env[me] = ('o', obj, 0)
            return
        if o == 'getelementptr':
            p = self.val(x['ops'][0], s, f, d)
            if not isptr(p):
                s.env[me] = unk
                return
            off = p[2]
            if off is not None:
                off += x['off']
                for v, sc in x.get('vars', []):
                    n = self.val(v, s, f, d)
                    if not isinstance(n, int):
                        off = None
                        break
                    off += n * sc
            s.env[me] = ('o', p[1], off)
            return
        if o in ('bitcast', 'addrspacecast', 'freeze', 'ptrtoint', 'inttoptr'):
            s.env[me] = self.val(x['ops'][0], s, f, d)
            return
        if o == 'load':
            p = self.val(x['ops'][0], s, f, d)
            w = 8 if x['ty'] == 'ptr' else (width(x['ty']) or 64) // 8 or 1
            self.check(f, x, s, p, w)
            s.env[me] = self.load(f, x, s, p, x['ty'], w)
            return
        if o == 'store':
            p, v = self.val(x['ops'][1], s, f, d), self.val(x['ops'][0], s, f, d)
            w = 8 if x['vty'] == 'ptr' else (width(x['vty']) or 64) // 8 or 1
            self.check(f, x, s, p, w)
            self.store(s, p, v, w)
            return
        if o in ('zext', 'sext', 'trunc'):
            v = self.val(x['ops'][0], s, f, d)
            if isinstance(v, int):
                a = x['ops'][0]
                if a[0] == 'a' and o == 'zext':
                    m = width(f.j['args'][a[1]]['ty'])
                    r = v & ((1 << m) - 1)
                else:
                    r = fold_cast(o, v, x, f)
                s.env[me] = r if isinstance(r, int) else unk
            else:
                s.env[me] = v if o != 'trunc' or x['ty'] == 'i1' else ('u', ('cast', x['ty'], v)) if len(str(v)) < 300 else unk
            return
        if o == 'icmp':
            a, b = self.val(x['ops'][0], s, f, d), self.val(x['ops'][1], s, f, d)
            c = self.compare(x['pred'], a, b, s)
            s.env[me] = c if isinstance(c, int) or len(str(c)) < 400 else unk
            return
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            a, b = self.val(x['ops'][0], s, f, d), self.val(x['ops'][1], s, f, d)
            if isinstance(a, int) and isinstance(b, int):
                r = None
                try:
                    r = fold_bin(o, a, b, x['ty'])
                except Exception:
                    pass
                s.env[me] = r if isinstance(r, int) else unk
            elif o in ('add', 'sub') and isptr(a) and isinstance(b, int) and a[2] is not None:
                s.env[me] = ('o', a[1], a[2] + (b if o == 'add' else -b))
            elif o == 'xor' and x['ty'] == 'i1' and b == -1 and not isptr(a):
                s.env[me] = ('n', a)
            elif o in ('and', 'or', 'add', 'sub', 'mul') and not isptr(a) and not isptr(b) and len(str(a)) + len(str(b)) < 120:
                s.env[me] = ('u', ('op', o, a, b))
            else:
                s.env[me] = unk
            return
        if 'ty' in x:
            s.env[me] = unk

    def fresh(self, s, f, x, d, form, size, site=None):
        n = 0
        while ('h', f.name, x['i'], d, n) in s.heap:
            n += 1
        if n > 1200:
            raise Limit('too many blocks')
        obj = ('h', f.name, x['i'], d, n)
        s.heap[obj] = Heap('live', form, size if isinstance(size, int) else None, f.where(x))
        for q in [q for q in s.mem if q[0] == obj]:
            del s.mem[q]
        s.epoch.pop(obj, None)
        return ('o', obj, 0)

    def free(self, f, x, s, p, form):
        if p == 0:
            return
        if not isptr(p) or p[2] is None and p[1] in s.heap and s.heap[p[1]].form != 'new[]':
            self.partial = 'releases an address that is not known here'
            raise Stop()
        h = s.heap.get(p[1])
        if h is None:
            # a block made elsewhere: from now on it is gone
            if p[1][0] == 'al' or p[1][0] == 'g':
                self.bad(f, x, 'once', 'releases an object that was not made by new')
                raise Stop()
            s.heap[p[1]] = Heap('freed', form, None, 'elsewhere')
            return
        if h.status == 'freed':
            self.bad(f, x, 'once', 'releases a block a second time (made at %s)' % h.site)
            raise Stop()
        if h.status == 'given':
            self.partial = 'releases a block that was handed to other code before'
            raise Stop()
        if h.status == 'owned':
            self.bad(f, x, 'once', 'releases a block that a smart pointer owns (made at %s)' % h.site)
            raise Stop()
        if form and h.form != form and h.form != 'any':
            self.bad(f, x, 'form', 'a block made by %s (at %s) is released as one made by %s' % (h.form, h.site, form))
            raise Stop()
        s.heap[p[1]] = Heap('freed', h.form, h.size, h.site)

    def call(self, f, x, s, d):
        P = self.P
        self.calls += 1
        c = x.get('callee')
        me = (d, x['i'])
        unk = ('u', ('?', d, f.name, x['i']))
        vals = [self.val(o, s, f, d) for o in x['ops']]
        if c in NEW:
            n = vals[0] if NEW[c] != 'malloc' or c in ('malloc',) else None
            s.env[me] = self.fresh(s, f, x, d, NEW[c], n)
            return [s]
        if c in DEL:
            self.free(f, x, s, vals[0], DEL[c])
            return [s]
        if c and c.startswith('llvm.'):
            if c.startswith(('llvm.memcpy', 'llvm.memmove')):
                self.check(f, x, s, vals[0], vals[2] if isinstance(vals[2], int) else None)
                self.check(f, x, s, vals[1], vals[2] if isinstance(vals[2], int) else None)
                a, b, n = vals[:3]
                if isptr(a) and isptr(b) and a[2] is not None and b[2] is not None and isinstance(n, int) and n <= 4096:
                    cells = [(off - b[2], v, w) for (o, off), (v, w) in list(s.mem.items()) if o == b[1] and isinstance(off, int) and b[2] <= off and off + w <= b[2] + n]
                    for q in [q for q in s.mem if q[0] == a[1] and isinstance(q[1], int) and q[1] < a[2] + n and q[1] + s.mem[q][1] > a[2]]:
                        del s.mem[q]
                    for off, v, w in cells:
                        s.mem[(a[1], a[2] + off)] = (v, w)
                else:
                    self.havoc(s, a)
            elif c.startswith('llvm.memset'):
                self.check(f, x, s, vals[0], vals[2] if isinstance(vals[2], int) else None)
                self.havoc(s, vals[0])
            if 'ty' in x:
                s.env[me] = unk
            return [s]
        if c is None:
            n = P.cname(x)
            for v in vals:
                self.check(f, x, s, v)
            if n == 'clone':
                s.env[me] = self.fresh(s, f, x, d, 'new', None)
                return [s]
            if n.startswith('~'):
                self.free(f, x, s, vals[0], 'new')
                return [s]
            if n == '?' and len(vals) == 1 and 'ty' not in x and deleting(f, x):
                self.free(f, x, s, vals[0], None)
                return [s]
            for v in vals:
                self.havoc(s, v)
            if 'ty' in x:
                s.env[me] = unk
            return [s]
        g = P.fns.get(c)
        dm = x.get('cdem') or ''
        q = strip(dm)
        if SMART.match(dm) and re.search(r'::(shared_ptr|__shared_ptr|unique_ptr|auto_ptr|reset|__shared_count)(\(|$)', q):
            # a raw pointer handed to a smart pointer
            for v in vals[1:2]:
                if isptr(v) and v[1] in s.heap:
                    h = s.heap[v[1]]
                    if h.status == 'live':
                        if h.form == 'new[]' and not re.match(r'std::\w+<[^(]*\[\]', dm):
                            self.bad(f, x, 'form', 'a block made by new[] (at %s) is given to a smart pointer that releases one made by new' % h.site)
                            raise Stop()
                        s.heap[v[1]] = Heap('owned', h.form, h.size, h.site)
                    elif h.status == 'owned':
                        self.bad(f, x, 'once', 'a second smart pointer takes a block (made at %s)' % h.site)
                        raise Stop()
                    else:
                        self.bad(f, x, 'use', 'a smart pointer takes a block that was released')
                        raise Stop()
            if 'ty' in x:
                s.env[me] = unk
            return [s]
        if g is not None and g.name not in self.stack and self.follow(g, x, s, vals):
            self.stack.append(g.name)
            try:
                rs = self.run(g, vals, s, d + 1)
            finally:
                self.stack.pop()
            res = []
            for v, z, y in rs:
                if 'ty' in x:
                    z.env[me] = v if v is not None else unk
                res.append(z)
            return uniq(res)
        for v in vals:
            self.check(f, x, s, v)
        if g is None or not self.own(g) or c in self.rel and self.summary(g) != 'balanced':
            self.hand(s, vals, g, dm)
        for k, v in enumerate(vals):
            if not isptr(v):
                continue
            w = self.writes(g).get(k, ()) if g is not None and self.own(g) else None
            if w is None or v[2] is None:
                self.havoc(s, v)
            else:
                self.part(s, v, w)
        if 'ty' in x:
            if g is not None and x['ty'].startswith('i') and (not vals or all(isinstance(v, int) for v in vals)):
                v = self.pure(g, vals)
                s.env[me] = v if v is not None else unk
            elif x['ty'] == 'ptr' and c == '__dynamic_cast':
                s.env[me] = vals[0]
            else:
                s.env[me] = unk
        if x.get('noret'):
            return []
        return [s]

    stack = []

    def follow(self, g, x, s, vals):
        if not self.own(g):
            return bool(PASS.match(g.q))
        if g.name in self.rel:
            c = cls(g)
            if not (c and c in self.owners and c == self.home and re.search(r'[CD][012]Ev?', g.name)) and self.summary(g) != 'follow':
                return False
            return not c or c not in self.owners or c == self.home or x.get('ty') == 'ptr'
        return any(isptr(v) and v[1] in s.heap and self.keeps(g, k) for k, v in enumerate(vals))

    def writes(self, g):
        """argument -> bytes the function may write there (offset, width); None for anywhere"""
        if g.name in self.wr:
            return self.wr[g.name]
        self.wr[g.name] = r = {}
        if not g.insts():
            r.update({k: None for k in range(len(g.j['args']))})
            return r

        def put(k, off, w):
            if off is None:
                r[k] = None
            elif r.get(k, ()) is not None:
                r.setdefault(k, set()).add((off, w))

        def base(o, off, seen):
            if o[0] == 'a':
                return [(o[1], off)]
            if o[0] != 'v' or o[1] in seen:
                return []
            y = g.inst.get(o[1])
            if y is None:
                return []
            if y['op'] == 'getelementptr':
                return base(y['ops'][0], None if off is None or y.get('vars') else off + y['off'], seen)
            if y['op'] in ('bitcast', 'addrspacecast', 'freeze'):
                return base(y['ops'][0], off, seen)
            if y['op'] == 'phi':
                return [q for v, b in y['ops'] for q in base(v, None, seen | {o[1]})]
            if y['op'] == 'select':
                return [q for v in y['ops'][1:] for q in base(v, off, seen | {o[1]})]
            return []
        for x in g.insts():
            if x['op'] == 'store':
                for k, off in base(x['ops'][1], 0, frozenset()):
                    put(k, off, 8 if x['vty'] == 'ptr' else (width(x['vty']) or 512) // 8 or 1)
            elif x['op'] in ('call', 'invoke'):
                c = x.get('callee')
                h = self.P.fns.get(c)
                inner = self.writes(h) if h is not None and self.own(h) else None
                for j, o in enumerate(x['ops']):
                    for k, off in base(o, 0, frozenset()):
                        if c and c.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume')) or c and c.startswith(('llvm.memcpy', 'llvm.memmove')) and j == 1:
                            continue
                        if inner is None:
                            put(k, off if off else None, 1 << 30)
                        else:
                            w = inner.get(j, ())
                            if w is None:
                                put(k, None, 0)
                            for a, n in w or ():
                                put(k, None if off is None else off + a, n)
        return r

    def part(self, s, p, w):
        """known bytes of an object were written: what they hold is not known any more"""
        obj, off = p[1], p[2]
        hit = lambda a, n: any(a < off + q + m and a + n > off + q for q, m in w)
        for key in [q for q in s.mem if q[0] == obj and isinstance(q[1], int) and not isptr(s.mem[q][0]) and hit(q[1], s.mem[q][1])]:
            del s.mem[key]
        if w:
            if s.facts:
                s.facts = {k: q for k, q in s.facts.items() if not loads(k, obj, hit)}

    def summary(self, g):
        """'balanced': whatever it is given, it releases what it makes and nothing else; 'deep': too many ways through it"""
        if g.name in self.sums:
            return self.sums[g.name]
        self.sums[g.name] = 'follow'
        keep = self.report, self.partial, self.nstates, self.home, self.stack
        bad = []
        self.report, self.nstates, self.home, self.stack, self.partial = (lambda *a: bad.append(a)), 0, cls(g), [g.name], None
        r = 'balanced'
        try:
            args = [('o', ('arg', g.name, k), 0) if a['ty'] == 'ptr' else ('u', ('arg', g.name, k)) for k, a in enumerate(g.j['args'])]
            for ret, z, x in self.run(g, args, State()):
                if isptr(ret) and ret[1] in z.heap or any(k[0] != 'h' or h.status != 'freed' for k, h in z.heap.items()):
                    r = 'follow'
                    break
            if self.partial:
                r = 'follow'
        except Limit:
            r = 'deep'
        self.report, self.partial, self.nstates, self.home, self.stack = keep
        self.sums[g.name] = r
        return r

    def keeps(self, g, k):
        """the function stores its argument somewhere or passes it on"""
        q = (g.name, k)
        if q not in self.kept:
            self.kept[q] = False
            me = ['a', k]
            for x in g.insts():
                if x['op'] == 'store' and list(x['ops'][0]) == me:
                    self.kept[q] = True
                elif x['op'] in ('call', 'invoke') and any(list(o) == me for o in x['ops']) and self.own(self.P.fns.get(x.get('callee')) or g):
                    h = self.P.fns.get(x.get('callee'))
                    if h and any(list(o) == me and self.keeps(h, j) for j, o in enumerate(x['ops'])):
                        self.kept[q] = True
                elif x['op'] == 'ret' and x['ops'] and list(x['ops'][0]) == me:
                    self.kept[q] = True
        return self.kept[q]

    def hand(self, s, vals, g, dm):
        """a block handed to code that is not followed: that code may own it from now on"""
        own = g is not None and self.own(g)
        if not own and not re.search(r'^(void )?std::.*::(push_back|emplace_back|emplace|insert|assign|push|push_front|reset|resize|vector|pair|tuple|function|thread|deque|list|map|set)(\(|$)', strip(dm)):
            return
        for k, v in enumerate(vals):
            if not isptr(v):
                continue
            t = [v[1]] if not own or k or not cls(g) else []
            t += [q[1] for (o, a), (q, w) in s.mem.items() if o == v[1] and o[0] == 'al' and isptr(q)]
            for o in t:
                h = s.heap.get(o)
                if h and h.status == 'live':
                    s.heap[o] = Heap('given', h.form, h.size, h.site)

    def pure(self, g, vals):
        """the constant a small function returns for constant arguments"""
        if g.name in self.stack or len(g.inst) > 60:
            return None
        self.stack.append(g.name)
        n = self.nstates
        try:
            rs = self.run(g, vals, State(), 7)
            r = {v for v, z, y in rs}
            return r.pop() if len(r) == 1 and all(isinstance(v, int) for v in r) else None
        except (Limit, Stop):
            return None
        finally:
            self.stack.pop()
            self.nstates = n


def strip(dm):
    """a demangled name without template arguments"""
    out, n = [], 0
    for ch in dm:
        if ch == '<':
            n += 1
        elif ch == '>':
            n -= 1
        elif not n:
            out.append(ch)
    return re.sub(r'\(.*', '', ''.join(out))


def cls(g):
    """the class of a member function, with its template arguments"""
    d = g.dem
    n = 0
    end = None
    for k, ch in enumerate(d):
        if ch == '<':
            n += 1
        elif ch == '>':
            n -= 1
        elif ch == '(' and not n:
            end = k
            break
    d = d[:end]
    n, cut = 0, None
    for k, ch in enumerate(d):
        if ch == '<':
            n += 1
        elif ch == '>':
            n -= 1
        elif ch == ':' and not n and d[k:k + 2] == '::':
            cut = k
    if cut is None:
        return ''
    c = d[:cut]
    n = 0
    for k in range(len(c) - 1, -1, -1):
        if c[k] == '>':
            n += 1
        elif c[k] == '<':
            n -= 1
        elif c[k] == ' ' and not n:
            c = c[k + 1:]
            break
    return c if strip(c) not in ('MTToolBox', 'std', '(anonymous namespace)') else ''


def uniq(states):
    seen, r = set(), []
    for s in states:
        k = s.key()
        if k not in seen:
            seen.add(k)
            r.append(s)
    return r


def mentions(t, m):
    if t == m:
        return True
    return isinstance(t, tuple) and any(mentions(q, m) for q in t)


def loads(t, obj, hit=None):
    """the term mentions something read from the object"""
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == 'ld' and t[1] == obj:
            return hit is None or len(t) < 4 or not isinstance(t[2], int) or hit(t[2], t[3])
        return any(loads(q, obj, hit) for q in t)
    return False


def deleting(f, x):
    """an indirect call through slot 1 of the table: the deleting destructor"""
    o = x.get('cptr')
    if not o or o[0] != 'v':
        return False
    y = f.inst.get(o[1])
    if not y or y['op'] != 'load' or y['ops'][0][0] != 'v':
        return False
    z = f.inst.get(y['ops'][0][1])
    return bool(z and z['op'] == 'getelementptr' and z['off'] == 8 and not z.get('vars'))


class Limit(Exception):
    pass
