"""Bit-level abstract interpretation of normalised IR in the domain of decision diagrams.

Every integer value is a vector of canonical Boolean functions of the input bits, paths
are merged at join points under their path conditions, loops are followed until their
continuation condition is the constant false.  Nothing is executed and no solver is
asked: equality with a specification is identity of canonical forms."""
from .bdd import BDD
from .facts import TooComplex, width, Fn


class Ptr:
    """pointer: base object and byte offset (64 bits)"""
    __slots__ = ('base', 'off')

    def __init__(self, base, off):
        self.base, self.off = base, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off == o.off

    def __hash__(self):
        return hash((self.base, tuple(self.off)))

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.base, BDD.cval(self.off))


class Need(Exception):
    """the analysis cannot follow this construct"""


def live(f):
    """block -> values needed on entry (phis of the block included)"""
    r = getattr(f, '_live', None)
    if r is not None:
        return r
    use, phi, dfn = {}, {}, {}

    def refs(o, s):
        if isinstance(o, (list, tuple)):
            if len(o) >= 2 and o[0] == 'v' and not isinstance(o[1], (list, tuple)):
                s.add(o[1])
            else:
                for q in o:
                    refs(q, s)
    blocks = list(f.succ)
    for b in blocks:
        u, d, ph = set(), set(), set()
        for x in f.insts(b):
            if x['op'] == 'phi':
                ph.add(x['i'])
                for o, p in x['ops']:
                    refs(o, use.setdefault(('edge', p), set()))
                continue
            s = set()
            refs(x['ops'], s)
            refs(x.get('vars', []), s)
            refs(x.get('cptr', []), s)
            u |= s - d
            d.add(x['i'])
        use[b], phi[b], dfn[b] = u, ph, d
    out = {b: set() for b in blocks}
    ch = True
    while ch:
        ch = False
        for b in blocks:
            o = set(use.get(('edge', b), ()))
            for t in f.succ[b]:
                o |= out[t] - phi[t]
            n = use[b] | (o - dfn[b]) | phi[b]
            if n != out[b]:
                out[b] = n
                ch = True
    f._live = out
    return out


class Bits:
    def __init__(self, fn, args, mem=None, hook=None, B=None, pre=1, rounds=700, load=None, depth=0):
        self.depth = depth
        self.fn, self.args, self.hook, self.loadhook = fn, args, hook, load
        self.B = B
        self.mem0 = dict(mem or {})
        self.rets = []          # (guard, value)
        self.throws = []        # (guard, inst)
        self.ub = []            # (guard, inst, what)
        self.pre = pre
        self.rounds = rounds
        self.visits = {}

    # ------------------------------------------------ control
    def run(self):
        f, B = self.fn, self.B
        order = self._rpo()
        pend = {f.entry: (self.pre, {}, dict(self.mem0))}
        steps = 0
        while pend:
            b = min(pend, key=lambda x: order[x])
            g, env, mem = pend.pop(b)
            self.visits[b] = self.visits.get(b, 0) + 1
            steps += 1
            if self.visits[b] > self.rounds or steps > 30000:
                raise TooComplex('a loop is not left after %d rounds' % self.rounds)
            for dst, eg, eenv, emem in self._block(b, g, env, mem):
                if eg == 0:
                    continue
                if dst in pend:
                    pend[dst] = self._merge(pend[dst], (eg, eenv, emem), live(f)[dst])
                else:
                    pend[dst] = (eg, eenv, emem)
        return self

    def _rpo(self):
        f = self.fn
        seen, out = set(), []
        heads = {L['header']: set(L['blocks']) for L in f.loops()}

        def dfs(b):
            st = [(b, iter(self._sorted(b, heads)))]
            seen.add(b)
            while st:
                n, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self._sorted(s, heads))))
                        break
                else:
                    out.append(n)
                    st.pop()
        dfs(f.entry)
        return {b: i for i, b in enumerate(reversed(out))}

    def _sorted(self, b, heads):
        # successors that leave the most loops first, so that loop bodies get smaller numbers
        ins = [h for h, bl in heads.items() if b in bl]
        return sorted(self.fn.succ[b], key=lambda s: sum(s in heads[h] for h in ins))

    def _merge(self, a, b, keep=None):
        B = self.B
        g1, e1, m1 = a
        g2, e2, m2 = b
        env = {}
        for k, v in e1.items():
            if k not in e2 or keep is not None and k not in keep:
                continue
            w = e2[k]
            if v is None or w is None:          # undefined on one path
                env[k] = w if v is None else v
                continue
            if v is w or v == w:
                env[k] = v
            elif isinstance(v, list) and isinstance(w, list) and len(v) == len(w):
                env[k] = B.muxw(g2, w, v)
            elif isinstance(v, Ptr) and isinstance(w, Ptr) and v.base == w.base:
                env[k] = Ptr(v.base, B.muxw(g2, w.off, v.off))
        mem = {}
        if m1.keys() != m2.keys():
            m1, m2 = self._align(m1, m2)
        for k in set(m1) | set(m2):
            v, w = m1.get(k), m2.get(k)
            if v is w or v == w:
                mem[k] = v
            elif v is None or w is None:
                # written on one path only: the other still has the initial value
                x = self._initial(k)
                v, w = (x if v is None else v), (x if w is None else w)
                mem[k] = B.muxw(g2, w, v) if isinstance(v, list) and isinstance(w, list) and len(v) == len(w) else ('lost',)
            elif isinstance(v, list) and isinstance(w, list) and len(v) == len(w):
                mem[k] = B.muxw(g2, w, v)
            else:
                mem[k] = ('lost',)
        return B.or_(g1, g2), env, mem

    def _align(self, m1, m2):
        """cuts cells that overlap a differently cut cell of the other memory into bytes"""
        d1, d2 = m1.keys() - m2.keys(), m2.keys() - m1.keys()
        if not d1 or not d2:
            return m1, m2
        by = {}
        for k in d1:
            by.setdefault(k[0], []).append(k)
        cut1, cut2 = set(), set()
        for k in d2:
            for q in by.get(k[0], ()):
                if q[1] < k[1] + k[2] // 8 and k[1] < q[1] + q[2] // 8:
                    cut1.add(q)
                    cut2.add(k)
        r = []
        for m, cut in ((m1, cut1), (m2, cut2)):
            if cut:
                m = dict(m)
                for k in cut:
                    v = m.pop(k)
                    for j in range(k[2] // 8):
                        m[(k[0], k[1] + j, 8)] = v[8 * j:8 * j + 8] if isinstance(v, list) else ('lost',)
            r.append(m)
        return r

    def _initial(self, k):
        if self.loadhook:
            return self.loadhook(self, k[0], k[1], k[2])
        return None

    # ------------------------------------------------ values
    def val(self, o, env):
        B = self.B
        k = o[0]
        if k == 'c':
            return B.const(int(o[1]) & ((1 << o[2]) - 1), o[2])
        if k == 'a':
            return self.args[o[1]]
        if k == 'v':
            if o[1] not in env:
                raise Need('value of %s' % self.fn.inst[o[1]]['op'])
            return env[o[1]]
        if k == 'g':
            return Ptr(('g', o[1]), B.const(o[2], 64))
        if k == 'null':
            return Ptr('null', B.const(0, 64))
        if k == 'undef':
            return None
        if k == 'fn':
            return Ptr(('fn', o[1]), B.const(0, 64))
        raise Need('operand ' + str(k))

    def bits(self, o, env):
        v = self.val(o, env)
        if isinstance(v, Ptr):
            raise Need('pointer used as number')
        if v is None:
            raise Need('undefined value')
        return v

    def any(self, o, env, w):
        """as bits; an undefined value is an arbitrary one"""
        if self.val(o, env) is None:
            if not w:
                raise Need('undefined value')
            self.B.undefs = getattr(self.B, 'undefs', 0) + 1
            return [self.B.var((('undef', self.B.undefs), i)) for i in range(w)]
        return self.bits(o, env)

    def flag(self, g, x, what):
        if g != 0:
            self.ub.append((g, x, what))

    # ------------------------------------------------ memory
    def addr(self, p):
        o = self.B.cval(p.off, True)
        return None if o is None else (p.base, o)

    def load(self, p, w, mem, g=1, x=None):
        B = self.B
        if not isinstance(p, Ptr):
            raise Need('load through unknown pointer')
        o = B.cval(p.off, True)
        if o is not None:
            k = (p.base, o, w)
            if k in mem:
                if not isinstance(mem[k], (list, Ptr)):
                    raise Need('merged memory')
                return mem[k]
            part = [kk for kk in mem if kk[0] == p.base and kk[1] < o + w // 8 and o < kk[1] + kk[2] // 8]
            if part:
                out = []
                for j in range(o, o + w // 8):
                    c = [kk for kk in part if kk[1] <= j < kk[1] + kk[2] // 8]
                    if len(c) != 1 or not isinstance(mem[c[0]], list):
                        raise Need('partial memory access')
                    out += mem[c[0]][8 * (j - c[0][1]):8 * (j - c[0][1]) + 8]
                return out
            v = self.glob(p.base, o, w)
            if v is None:
                v = self._initial(k)
            if v is None:
                raise Need('unknown memory')
            return v
        # symbolic index: every offset the canonical form allows, up to a table of 4096
        free = [i for i, b in enumerate(p.off) if b > 1]
        if len(free) > 12 or not (isinstance(p.base, tuple)):
            raise Need('unbounded index')
        r = None
        for n in range(1 << len(free)):
            off = list(p.off)
            c = 1
            for j, i in enumerate(free):
                bit = (n >> j) & 1
                c = B.and_(c, p.off[i] if bit else B.no(p.off[i]))
                off[i] = bit
            if B.and_(c, g) == 0:
                continue
            try:
                v = self.load(Ptr(p.base, off), w, mem)
            except Need:
                self.flag(B.and_(c, g), x, 'reads outside its table')
                continue
            r = v if r is None else B.muxw(c, v, r)
        if r is None:
            raise Need('unknown memory')
        return r

    def _put(self, mem, base, off, w, v):
        k = (base, off, w)
        if k not in mem:
            for q in [q for q in mem if q[0] == base and q[1] < off + w // 8 and off < q[1] + q[2] // 8]:
                old = mem.pop(q)
                for j in range(q[1], q[1] + q[2] // 8):
                    if not off <= j < off + w // 8:
                        mem[(base, j, 8)] = old[8 * (j - q[1]):8 * (j - q[1]) + 8] if isinstance(old, list) else ('lost',)
        mem[k] = v

    def glob(self, base, off, w):
        if not (isinstance(base, tuple) and base[0] == 'g'):
            return None
        gl = self.fn.prog.globals.get(base[1])
        if gl is None or not gl.get('const') or 'init' not in gl:
            return None
        flat = {}

        def put(c, o):
            if c[0] == 'c':
                flat[o] = (int(c[1]), c[2])
                return c[2] // 8
            if c[0] in ('arr', 'st'):
                n = 0
                for x in c[1]:
                    n += put(x, o + n)
                return n
            if c[0] == 'str':
                for i, ch in enumerate(c[1]):
                    flat[o + i] = (ch, 8)
                return len(c[1])
            if c[0] in ('fn', 'g', 'null'):
                flat[o] = (Ptr(('fn', c[1]), self.B.const(0, 64)) if c[0] == 'fn' else Ptr(('g', c[1]), self.B.const(c[2], 64)) if c[0] == 'g' else Ptr('null', self.B.const(0, 64)), 64)
                return 8
            if c[0] == 'ce' and c[1] == 'inttoptr' and c[2][0][0] == 'c':
                flat[o] = (int(c[2][0][1]), 64)
                return 8
            if c[0] == 'zero':
                flat['zero'] = o
            return 0
        put(gl['init'], 0)
        v = flat.get(off)
        if v is None or v[1] != w:
            return None
        if isinstance(v[0], Ptr):
            return v[0]
        return self.B.const(v[0] & ((1 << w) - 1), w)

    # ------------------------------------------------ one block
    def _block(self, b, g, env, mem):
        f, B = self.fn, self.B
        env = dict(env)
        for x in f.insts(b):
            op = x['op']
            if op == 'phi':
                continue
            if op in ('br', 'switch', 'ret', 'unreachable', 'invoke', 'resume'):
                break
            self._inst(x, g, env, mem)
        op = x['op']
        if op == 'ret':
            self.rets.append((g, self.val(x['ops'][0], env) if x['ops'] else None, mem))
            return []
        if op in ('unreachable', 'resume'):
            return []
        if op == 'invoke':
            self._inst(x, g, env, mem)
            return [self._edge(b, x['normal'], g, env, mem)]
        if op == 'br':
            if not x['ops']:
                return [self._edge(b, x['to'][0], g, env, mem)]
            c = self.bits(x['ops'][0], env)[0]
            return [self._edge(b, x['to'][0], B.and_(g, c), env, mem), self._edge(b, x['to'][1], B.and_(g, B.no(c)), env, mem)]
        v = self.bits(x['ops'][0], env)
        out, rest = [], g
        for k, d in x['cases']:
            c = B.eq(v, B.const(k & ((1 << len(v)) - 1), len(v)))
            out.append(self._edge(b, d, B.and_(rest, c), env, mem))
            rest = B.and_(rest, B.no(c))
        out.append(self._edge(b, x['default'], rest, env, mem))
        return out

    def _edge(self, b, dst, g, env, mem):
        if g == 0:
            return dst, 0, env, mem
        env2 = dict(env)
        for x in self.fn.insts(dst):
            if x['op'] != 'phi':
                break
            for o, p in x['ops']:
                if p == b:
                    try:
                        env2[x['i']] = self.val(o, env)
                    except Need:
                        env2.pop(x['i'], None)
        return dst, g, env2, dict(mem)

    def _inst(self, x, g, env, mem):
        B = self.B
        op = x['op']
        i = x['i']
        o = x['ops']
        if op == 'alloca':
            env[i] = Ptr(('new', self.fn.name, i, self.depth), B.const(0, 64))
            return
        if op == 'store':
            p, v = self.val(o[1], env), self.val(o[0], env)
            a = self.addr(p) if isinstance(p, Ptr) else None
            if a is None:
                raise Need('store to unknown place')
            if isinstance(v, Ptr):
                self._put(mem, a[0], a[1], 64, v)
                return
            if v is None:
                return
            w = (len(v) + 7) // 8 * 8
            self._put(mem, a[0], a[1], w, v + [0] * (w - len(v)))
            return
        if op == 'load':
            w = width(x['ty']) if x['ty'] != 'ptr' else 64
            if w is None:
                raise Need('load of ' + x['ty'])
            v = self.load(self.val(o[0], env), (w + 7) // 8 * 8, mem, g, x)
            if isinstance(v, Ptr) and x['ty'] != 'ptr' and v.base == 'null':
                v = self.B.const(0, 64)         # a zero among the pointers of a table
            env[i] = v if isinstance(v, Ptr) else v[:w]
            return
        if op == 'getelementptr':
            p = self.val(o[0], env)
            if not isinstance(p, Ptr) or 'off' not in x:
                raise Need('address')
            off = B.add(p.off, B.const(x['off'] & (2 ** 64 - 1), 64))
            for v, s in x['vars']:
                t = self.bits(v, env)
                t = t + [t[-1]] * (64 - len(t))
                off = B.add(off, B.mul(t, B.const(s & (2 ** 64 - 1), 64)))
            env[i] = Ptr(p.base, off)
            return
        if op in ('call', 'invoke'):
            self._call(x, g, env, mem)
            return
        if op == 'select':
            c = self.bits(o[0], env)[0]
            a, b = self.val(o[1], env), self.val(o[2], env)
            if isinstance(a, Ptr):
                if not isinstance(b, Ptr) or a.base != b.base:
                    raise Need('choice of pointers')
                env[i] = Ptr(a.base, B.muxw(c, a.off, b.off))
            else:
                env[i] = B.muxw(c, a, b)
            return
        if op in ('zext', 'sext', 'trunc'):
            v, w = self.bits(o[0], env), width(x['ty'])
            env[i] = v[:w] if op == 'trunc' else v + [v[-1] if op == 'sext' else 0] * (w - len(v))
            return
        if op == 'freeze':
            env[i] = self.val(o[0], env)
            return
        if op == 'extractvalue':
            v = self.val(o[0], env)
            if not isinstance(v, tuple) or len(x['idx']) != 1:
                raise Need('aggregate')
            env[i] = v[x['idx'][0]]
            return
        if op == 'insertvalue':
            v = self.val(o[0], env)
            v = list(v) if isinstance(v, tuple) else [None] * (x['idx'][0] + 1)
            v += [None] * (x['idx'][0] + 1 - len(v))
            v[x['idx'][0]] = self.val(o[1], env)
            env[i] = tuple(v)
            return
        if op == 'icmp':
            a, b = self.val(o[0], env), self.val(o[1], env)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.base != b.base:
                    if 'null' in (a.base, b.base) and x['pred'] in ('eq', 'ne') and B.cval(a.off) is not None and B.cval(b.off) is not None:
                        env[i] = [int(x['pred'] == 'ne')]
                        return
                    raise Need('pointer comparison')
                a, b = a.off, b.off
            if a is None or b is None or isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Need('comparison')
            p = x['pred']
            if p in ('eq', 'ne'):
                r = B.eq(a, b)
                r = r if p == 'eq' else B.no(r)
            else:
                lt = B.slt if p[0] == 's' else B.ult
                r = lt(a, b) if p[1:] == 'lt' else lt(b, a) if p[1:] == 'gt' else B.no(lt(b, a)) if p[1:] == 'le' else B.no(lt(a, b))
            env[i] = [r]
            return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            w = width(x['ty'])
            a, b = self.any(o[0], env, w), self.any(o[1], env, w)
            if op in ('add', 'sub'):
                bb = b if op == 'add' else B.notw(b)
                if (x.get('nuw') or x.get('nsw')) and not (B.opaque and not B._small(a, b)):
                    r, c = B.addc(a, bb, 0 if op == 'add' else 1)
                else:
                    r, c = (B.add if op == 'add' else B.sub)(a, b), None
                if c is None:
                    pass
                elif x.get('nuw'):
                    self.flag(B.and_(g, c if op == 'add' else B.no(c)), x, 'unsigned overflow')
                if c is not None and x.get('nsw'):
                    self.flag(B.and_(g, B.and_(B.xor(a[-1], r[-1]), B.xor(bb[-1], r[-1]))) if op == 'add' else B.and_(g, B.and_(B.xor(a[-1], b[-1]), B.xor(a[-1], r[-1]))), x, 'signed overflow')
            elif op == 'mul':
                r = B.mul(a, b)
                if x.get('nsw'):
                    ca, cb = B.cval(a, True), B.cval(b, True)
                    if ca is not None and cb is not None:
                        if not -(1 << (w - 1)) <= ca * cb < (1 << (w - 1)):
                            self.flag(g, x, 'signed overflow')
            elif op == 'and':
                r = [B.and_(p, q) for p, q in zip(a, b)]
            elif op == 'or':
                r = [B.or_(p, q) for p, q in zip(a, b)]
            elif op == 'xor':
                r = [B.xor(p, q) for p, q in zip(a, b)]
            elif op in ('shl', 'lshr', 'ashr'):
                big = B.no(B.ult(b, B.const(w, w)))
                self.flag(B.and_(g, big), x, 'shift by the word width or more')
                r = B.shift(a, b, op)
                if op == 'shl' and not B.opaque and x.get('nsw'):
                    back = B.shift(r, b, 'ashr')
                    self.flag(B.and_(g, B.and_(B.no(big), B.no(B.eq(back, a)))), x, 'signed overflow')
            else:
                self.flag(B.and_(g, B.no(B.any(b))), x, 'division by zero')
                q, m = (B.udivrem if op[0] == 'u' else B.sdivrem)(a, b)
                r = q if op.endswith('div') else m
            env[i] = r
            return
        raise Need('instruction ' + op)

    def _call(self, x, g, env, mem):
        B = self.B
        cal = x.get('callee') or ''
        i = x['i']
        if not cal and 'cptr' in x:
            t = self.val(x['cptr'], env)
            if isinstance(t, Ptr) and isinstance(t.base, tuple) and t.base[0] == 'fn':
                cal = t.base[1]
                f2 = self.fn.prog.fns.get(cal)
                x = dict(x, callee=cal, cdem=f2.dem if f2 else cal)
        if cal.startswith('llvm.'):
            n = cal.split('.')[1]
            if cal.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                self._memop(x, n, g, env, mem)
                return
            if n in ('dbg', 'lifetime', 'assume', 'stacksave', 'stackrestore', 'va_start'):
                return
            a = [self.bits(o, env) if o[0] != 'c' or n not in () else None for o in x['ops']]
            w = len(a[0]) if a else 0
            if n == 'ctpop':
                env[i] = B.popcount(a[0], w)
            elif n == 'bitreverse':
                env[i] = a[0][::-1]
            elif n == 'bswap':
                env[i] = [a[0][(w // 8 - 1 - k // 8) * 8 + k % 8] for k in range(w)]
            elif n in ('cttz', 'ctlz'):
                src = a[0] if n == 'cttz' else a[0][::-1]
                r = B.const(w, w)
                for k in range(w - 1, -1, -1):
                    r = B.muxw(src[k], B.const(k, w), r)
                if a[1][0] == 1:
                    self.flag(B.and_(g, B.no(B.any(a[0]))), x, 'count of zero bits of 0')
                env[i] = r
            elif n in ('fshl', 'fshr') and B.cval(a[2]) is not None:
                k = B.cval(a[2]) % w
                cat = a[1] + a[0]
                env[i] = cat[w - k:2 * w - k] if n == 'fshl' else cat[k:k + w]
            elif n in ('umax', 'umin', 'smax', 'smin'):
                lt = (B.slt if n[0] == 's' else B.ult)(a[0], a[1])
                env[i] = B.muxw(lt, a[1], a[0]) if n[1:] == 'max' else B.muxw(lt, a[0], a[1])
            elif n == 'abs':
                env[i] = B.muxw(a[0][-1], B.neg(a[0]), a[0])
            elif n == 'usub' and '.sat' in cal:
                env[i] = B.muxw(B.ult(a[0], a[1]), B.const(0, w), B.sub(a[0], a[1]))
            elif 'with' in cal.split('.') and n in ('uadd', 'usub', 'umul'):
                z = [0] * w
                r = (B.add if n == 'uadd' else B.sub if n == 'usub' else B.mul)(a[0] + z, a[1] + z)
                env[i] = (r[:w], [B.any(r[w:])])
            else:
                raise Need(cal)
            return
        if cal in ('__cxa_throw',):
            self.throws.append((g, x, dict(mem)))
            return
        if self.hook:
            r = self.hook(self, x, [self._try(o, env) for o in x['ops']], g, mem)
            if r is not NotImplemented:
                if r is not None:
                    env[i] = r
                return
        f2 = self.fn.prog.fns.get(cal)
        if f2 is not None and self.depth < 24:
            a = [self.val(o, env) for o in x['ops']]
            m = Bits(f2, a, mem=mem, hook=self.hook, B=B, pre=g, rounds=self.rounds, load=self.loadhook, depth=self.depth + 1).run()
            self.ub += m.ub
            got, rv, mm = 0, None, None
            for gg, v, mem2 in m.rets:
                if mm is None:
                    rv, mm = v, mem2
                else:
                    _, e, mm = self._merge((got, {'r': rv} if rv is not None else {}, mm), (gg, {'r': v} if v is not None else {}, mem2))
                    rv = e.get('r')
                got = B.or_(got, gg)
            if B.and_(g, B.no(got)) or mm is None:
                raise Need('call that does not return: ' + (x.get('cdem') or cal))
            mem.clear()
            mem.update(mm)
            if rv is not None:
                env[i] = rv
            return
        raise Need('call of ' + (x.get('cdem') or cal or 'a virtual function'))

    def _try(self, o, env):
        try:
            return self.val(o, env)
        except Need:
            return None

    def _memop(self, x, n, g, env, mem):
        B = self.B
        p, ln = self.val(x['ops'][0], env), B.cval(self.bits(x['ops'][2], env))
        if ln is None or not isinstance(p, Ptr) or self.addr(p) is None:
            raise Need(n)
        base, off = self.addr(p)
        if n == 'memset':
            c = self.bits(x['ops'][1], env)
            done = 0
            while done < ln:
                w = next(w for w in (64, 32, 16, 8) if (off + done) % (w // 8) == 0 and done + w // 8 <= ln)
                self._put(mem, base, off + done, w, c * (w // 8))
                done += w // 8
            return
        q = self.val(x['ops'][1], env)
        if not isinstance(q, Ptr) or self.addr(q) is None:
            raise Need(n)
        sb, so = self.addr(q)
        done, moved = 0, []
        while done < ln:
            for w in (64, 32, 16, 8):
                if w // 8 > ln - done:
                    continue
                v = mem.get((sb, so + done, w))
                if v is None and w == 8:
                    try:
                        v = self.load(Ptr(sb, B.const((so + done) & (2 ** 64 - 1), 64)), 8, mem)
                    except Need:
                        pass
                elif v is None and not any(k[0] == sb and k[1] < so + done + w // 8 and so + done < k[1] + k[2] // 8 for k in mem):
                    v = self.glob(sb, so + done, w)
                    if v is None:
                        v = self._initial((sb, so + done, w))
                if v is not None:
                    moved.append((done, w, v))
                    done += w // 8
                    break
            else:
                moved.append((done, 8, ('lost',)))     # copy of an unset byte
                done += 1
        for o, w, v in moved:
            self._put(mem, base, off + o, w, v)
