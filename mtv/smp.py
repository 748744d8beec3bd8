"""Machine for the sample generators: their operations, run in the bit domain on a symbolic memory.

Roles are inferred: the state is what setZero writes and add changes, minus what moves when the
zero state is advanced (the position); the oldest word is the one an advance overwrites."""
import os
from . import build, core
from .bdd import BDD, Opaque
from .bits import Bits, Ptr, Need
from .build import TU, REPO, VERIF, AnalysisBroken
from .facts import Prog, TooComplex

_progs = {}


def program(name):
    if name not in _progs:
        tu = TU(VERIF + '/drivers/samples/%s.cpp' % name, incs=[REPO])
        ir = build.irfacts(build.bitcode([tu]), passes='function(sroa,loop-simplify)')
        _progs[name] = Prog(ir, build.astfacts([tu]))
    return _progs[name]


class Machine:
    def __init__(self, rep, name, B=None):
        self.rep, self.name = rep, name
        self.P = program(name)
        self.B = B or BDD()
        self.n = 0
        self.size = {}
        self.cast = True            # whether dynamic_cast succeeds
        self.draws = None           # outputs of a parameter generator
        self.init = {}              # lazily created symbolic words: base -> function(off, width)
        self.fns = {}
        self.text = None
        self.writes = []            # calls of the standard streams

    # ------------------------------------------------ running
    def fn(self, n):
        f = self.fns.get(n)
        if f is None:
            r = [g for g in self.P.fns.values() if g.dem.split('(')[0] == n]
            if not r:
                raise AnalysisBroken('no function %s in %s' % (n, self.name))
            f = self.fns[n] = r[0]
            self.rep.fn(f)
        return f

    def has(self, n):
        return any(g.dem.split('(')[0] == n for g in self.P.fns.values())

    def where(self, n):
        f = self.fn(n)
        for x in f.insts():
            l = x.get('loc')
            if l and l[0].startswith(REPO + '/samples'):
                return f.where(x)
        return f.where({})

    def new(self, size=None):
        self.n += 1
        b = ('heap', self.n)
        self.size[b] = size
        return Ptr(b, self.B.const(0, 64))

    def hook(self, m, i, a, g, mem):
        B = self.B
        c = i.get('callee') or ''
        n = i.get('cdem') or c
        if n.startswith('operator new') or c == 'malloc':
            return self.new(B.cval(a[0]) if a and isinstance(a[0], list) else None)
        if n.startswith('operator delete') or c == 'free':
            return None
        if c == '__dynamic_cast':
            return Ptr(a[0].base, B.const(0, 64)) if self.cast and isinstance(a[0], Ptr) else Ptr('null', B.const(0, 64))
        if c == '__cxa_allocate_exception':
            return Ptr(('exc', i['i']), B.const(0, 64))
        if c.startswith('__cxa_') or c in ('fflush', 'memcmp') or c.startswith('__clang_call'):
            return Ptr('os', B.const(0, 64)) if i.get('ty') == 'ptr' else None
        if not c and a and isinstance(a[0], Ptr) and a[0].base == 'gen':
            q = self.P.cname(i)
            if self.draws is None or q not in ('getUint32', 'getUint64'):
                raise Need('call of ' + q)
            return self.draws(32 if q == 'getUint32' else 64)
        if n.startswith(('std::', 'operator<<')) or 'std::' in n.split('(')[0]:
            if self.text is not None:
                r = self.text(m, i, n, a, g, mem)
                if r is not NotImplemented:
                    return r
            if 'operator<<' in n and any(isinstance(q, Ptr) and isinstance(q.base, tuple) and q.base[0] == 'g' and q.base[1] in ('_ZSt4cout',) for q in a[:1]):
                self.writes.append((g, i))
            if i.get('ty') == 'ptr':
                return a[0] if a and isinstance(a[0], Ptr) and 'operator<<' in n else Ptr('os', B.const(0, 64))
            return None
        return NotImplemented

    def load(self, m, base, off, width):
        if base == 'gen' or isinstance(base, tuple) and base[0] == 'vt' and base[1] == 'gen':
            return Ptr(('vt', 'gen'), self.B.const(0, 64))
        if base == 'os' or isinstance(base, tuple) and base[0] == 'vt' and base[1] == 'os' or base == ('g', '_ZSt4cout') or base == ('g', '_ZSt4cerr'):
            return self.B.const(0, 64) if width == 64 and isinstance(base, tuple) and base[0] == 'vt' and off < 0 else Ptr(('vt', 'os'), self.B.const(0, 64))
        f = self.init.get(base)
        return f(off, width) if f else None

    # ------------------------------------------------ text
    def strings(self, base, off):
        """constant characters at a place"""
        gl = self.P.globals.get(base[1]) if isinstance(base, tuple) and base[0] == 'g' else None
        if not gl or 'init' not in gl:
            return None
        i = gl['init']
        if i[0] == 'zero':
            return ''
        if i[0] != 'str':
            return None
        b = bytes(c & 255 for c in i[1])[off:]
        return b.split(b'\0')[0].decode('latin1')

    def record(self, name, ptr, mem):
        """what a function writes to a string stream or builds a string from:
        [('text', s) | ('num', bits, 'dec'|'hex'|.., width, fill, signed) | ('other', type)]"""
        B = self.B
        ev = []
        st = {'base': 'dec', 'w': 0, 'fill': ' '}

        def text(m, i, n, a, g, mem):
            if g == 0:
                return NotImplemented
            fn = n.split('std::', 1)[1] if n.startswith('std::') else n
            if n.startswith('std::setw') or n.startswith(('std::setfill', 'std::_Setfill', 'std::setbase')):
                return a[0]
            if 'basic_string<' in n and 'basic_string<' in n.split('::')[-1].join(['']) or 'basic_string' in n and a and len(a) > 1 and isinstance(a[1], Ptr) and self.strings(a[1].base, B.cval(a[1].off) or 0) is not None and 'operator' not in n:
                ev.append(('text', self.strings(a[1].base, B.cval(a[1].off) or 0), g))
                return None
            if 'operator<<' not in n:
                if any(q in n for q in ('to_string', '::append', 'operator+', '::write', '::put(', '::assign', '::insert', '::push_back', 'to_chars', 'operator=')):
                    st['odd'] = n
                return NotImplemented
            v = a[1] if len(a) > 1 else None
            sig = n[n.rindex('operator<<'):]
            if isinstance(v, Ptr) and isinstance(v.base, tuple) and v.base[0] == 'fn':
                q = v.base[1]
                for k in ('dec', 'hex', 'oct'):
                    if q == '_ZSt3%sRSt8ios_base' % k:
                        st['base'] = k
                if q.startswith('_ZSt4endl'):
                    ev.append(('text', '\n', g))
            elif '_Setw' in sig:
                st['w'] = B.cval(v)
            elif '_Setfill' in sig:
                st['fill'] = chr(B.cval(v) or 0)
            elif isinstance(v, Ptr):
                t = self.strings(v.base, B.cval(v.off) or 0)
                ev.append(('text', t, g) if t is not None else ('other', sig, g))
                st['w'] = 0
            elif isinstance(v, list):
                if len(v) == 8 and 'char' in sig:
                    ev.append(('text', chr(B.cval(v) or 63), g))
                else:
                    ev.append(('num', v, st['base'], st['w'], st['fill'], sig, g))
                st['w'] = 0
            return NotImplemented
        self.text = text
        try:
            r = self.out(64)
            f = self.fn(name)
            m = Bits(f, [ptr], mem=mem, hook=self.hook, B=self.B, load=self.load).run()
            g, _, mm = self.value(m)
        finally:
            self.text = None
        if 'odd' in st:
            raise Need('text built with ' + st['odd'][:60])
        return ev, g, mm

    def columns(self, ev):
        """fields of the text between commas: (number event or None, text)"""
        cols, cur, txt = [], [], ''
        for e in ev:
            if e[-1] != 1:
                raise Need('text written only sometimes')
            if e[0] == 'text':
                p = e[1].split(',')
                txt += p[0]
                for q in p[1:]:
                    cols.append((cur, txt))
                    cur, txt = [], q
            else:
                cur = cur + [e]
        if cur or txt.strip():
            cols.append((cur, txt))
        return cols

    def call(self, name, args, mem, pre=1):
        m = Bits(self.fn(name), args, mem=mem, hook=self.hook, B=self.B, pre=pre, load=self.load, rounds=4000).run()
        return m

    def value(self, m):
        """(guard, value, memory) merged over the returns"""
        g, v, mem = 0, None, None
        for gg, vv, mm in m.rets:
            if gg == 0:
                continue
            if mem is None:
                g, v, mem = gg, vv, mm
            else:
                a = {'r': v} if v is not None else {}
                b = {'r': vv} if vv is not None else {}
                g, e, mem = m._merge((g, a, mem), (gg, b, mm))
                v = e.get('r')
        return g, v, mem

    def run(self, name, args, mem, pre=1):
        """value and memory of a call that must return"""
        m = self.call(name, args, mem, pre)
        self.last = m
        g, v, mm = self.value(m)
        if mm is None or self.B.and_(pre, self.B.no(g)):
            raise Need('%s does not return' % name)
        return v, mm

    # ------------------------------------------------ memory
    def c(self, v, w=32):
        return self.B.const(v & ((1 << w) - 1), w)

    def rd(self, mem, base, off, w):
        return Bits(self.fn(next(iter(self.fns)) if self.fns else 'smp_next'), [], hook=self.hook, B=self.B, load=self.load).load(Ptr(base, self.B.const(off, 64)), w, mem)

    def get(self, mem, p, w):
        """word of w bits at a pointer, 64 bits at a time"""
        o = self.B.cval(p.off)
        r = []
        for k in range(0, w, 64):
            r += self.rd(mem, p.base, o + k // 8, min(64, w - k))
        return r

    def wr(self, mem, base, off, w, v):
        Bits(self.fn(next(iter(self.fns))), [], B=self.B)._put(mem, base, off, w, v)

    def put(self, mem, p, v):
        o = self.B.cval(p.off)
        for k in range(0, len(v), 64):
            self.wr(mem, p.base, o + k // 8, min(64, len(v) - k), v[k:k + 64])

    def cell(self, v):
        """a fresh place holding v, as (pointer, memory entries)"""
        self.n += 1
        b = ('tmp', self.n)
        p = Ptr(b, self.B.const(0, 64))
        mem = {}
        for k in range(0, len(v), 64):
            mem[(b, k // 8, min(64, len(v) - k))] = v[k:k + 64]
        return p, mem

    def out(self, w):
        self.n += 1
        return Ptr(('tmp', self.n), self.B.const(0, 64))

    def cells(self, mem, root):
        """integer cells of the object and of the blocks it owns: (base, off, width)"""
        seen, todo, r = set(), [root.base], []
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            for k, v in mem.items():
                if k[0] != b:
                    continue
                if isinstance(v, Ptr):
                    if isinstance(v.base, tuple) and v.base[0] == 'heap':
                        todo.append(v.base)
                elif isinstance(v, list):
                    r.append(k)
        return sorted(r, key=repr)


class Shape(Exception):
    """the state of the generator cannot be recognised"""


class Gen(Machine):
    """one generator class at one size: which cells are its state, and where it stands"""

    def __init__(self, rep, name, ws, B=None):
        Machine.__init__(self, rep, name, B)
        self.ws = ws

    def step(self, ptr, mem):
        """output and memory after one advance"""
        o = self.out(self.ws)
        _, m = self.run('smp_next', [ptr, o], mem)
        return self.get(m, o, self.ws), m

    def ring(self, mem, ptr):
        return mem[(ptr.base, self.field, 64)].base if self.field is not None else None

    def learn(self, ptr, mem, steps=40):
        """state cells: those that depend on the seed; their words become the symbols of the analysis"""
        B = self.B
        p, m = self.cell([B.var(('seed', i)) for i in range(self.ws)])
        m = dict(mem, **{}) if False else {**mem, **m}
        _, m = self.run('smp_seed', [ptr, p], m)
        live = {}
        for _ in range(steps):
            for k, v in m.items():
                if isinstance(v, list) and (k[0] == ptr.base or isinstance(k[0], tuple) and k[0][0] == 'heap'):
                    for i, b in enumerate(v):
                        if b > 1 and mem.get(k) != v:
                            live.setdefault((k[0], k[1] + i // 8), set()).add(i % 8)
            _, m = self.step(ptr, m)
            # what is no constant stays unknown, without the expression it has grown to
            for k, v in m.items():
                if isinstance(v, list) and (k[0] == ptr.base or isinstance(k[0], tuple) and k[0][0] == 'heap') and mem.get(k) != v and any(b > 1 for b in v):
                    m[k] = [B.var(('live', self.n, k, i)) if b > 1 else b for i, b in enumerate(v)]
        own = {b.base: k[1] for k, b in m.items() if k[0] == ptr.base and isinstance(b, Ptr) and isinstance(b.base, tuple) and b.base[0] == 'heap'}
        heap = sorted({k[0] for k in live if k[0] != ptr.base and k[0] in own}, key=repr)
        if len(heap) > 1:
            raise Shape('several blocks of state')
        self.field = own[heap[0]] if heap else None
        W = self.ws
        if heap:
            offs = sorted(k[1] for k in live if k[0] == heap[0])
            self.N = offs[-1] * 8 // W + 1
            self.base0 = 0
            self.mask = [1 if any(i % 8 in live.get((heap[0], (j * W + i) // 8), ()) for j in range(self.N)) else 0 for i in range(W)]
        else:
            self.N, self.mask = 0, []
        # inline words: maximal runs of bytes that move, cut at the width of their cells
        inl = {}
        for k, v in m.items():
            if k[0] == ptr.base and isinstance(v, list) and any((k[0], k[1] + d) in live for d in range(k[2] // 8)):
                inl[k[1]] = k[2]
        self.inl = [(o, inl[o]) for o in sorted(inl)]
        return m

    def symbols(self, ptr, mem, tag, keep=()):
        """memory in which every state word is unknown; ring words and inline words"""
        B = self.B
        mem = dict(mem)
        ws, il = [], []
        rb = self.ring(mem, ptr)
        for j in range(self.N):
            w = [B.var((tag, j, i)) if self.mask[i] else 0 for i in range(self.ws)]
            self.put(mem, Ptr(rb, B.const(j * self.ws // 8, 64)), w)
            ws.append(w)
        for o, w in self.inl:
            if o in keep:
                il.append(self.rd(mem, ptr.base, o, w))
                continue
            v = [B.var((tag, 'inl', o, i)) for i in range(w)]
            self.wr(mem, ptr.base, o, w, v)
            il.append(v)
        return mem, ws, il

    def words(self, ptr, mem):
        rb = self.ring(mem, ptr)
        return ([self.get(mem, Ptr(rb, self.B.const(j * self.ws // 8, 64)), self.ws) for j in range(self.N)],
                [self.rd(mem, ptr.base, o, w) for o, w in self.inl])

    def rest(self, ptr, mem):
        """the cells of the object that are not state"""
        inl = {o for o, w in self.inl}
        return {k[1:]: v for k, v in mem.items() if k[0] == ptr.base and k[1] not in inl}

    def names(self, vs):
        B = self.B
        s, seen, todo = set(), set(), [b for v in vs for b in v]
        while todo:
            f = todo.pop()
            if f < 2 or f in seen:
                continue
            seen.add(f)
            v, lo, hi = B.node[f]
            s.add(B.names[v])
            todo += [lo, hi]
        return s

    def oldest(self, ptr, mem, tag='probe'):
        """the ring words one advance replaces"""
        m, ws, _ = self.symbols(ptr, mem, tag)
        _, m2 = self.step(ptr, m)
        ws2, _ = self.words(ptr, m2)
        return [j for j in range(self.N) if ws[j] != ws2[j]]


def xorw(B, *ws):
    r = ws[0]
    for w in ws[1:]:
        r = [B.xor(a, b) for a, b in zip(r, w)]
    return r


def andw(B, a, b):
    return [B.and_(x, y) for x, y in zip(a, b)]


def shl(a, n):
    return ([0] * n + a)[:len(a)]


def shr(a, n):
    return (a + [0] * n)[n:n + len(a)]


def iff(B, c, a):
    return [B.and_(c, x) for x in a]
