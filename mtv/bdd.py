"""Reduced ordered decision diagrams and bit vectors over them (canonical form of Boolean functions)."""
import sys
from .facts import TooComplex
sys.setrecursionlimit(400000)


class BDD:
    """nodes are integers; 0 and 1 are the constants"""
    def __init__(self, limit=3000000):
        self.tab = {}
        self.node = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
        self.memo = {}
        self.limit = limit
        self.names = []

    def var(self, name):
        self.names.append(name)
        return self.mk(len(self.names) - 1, 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.tab.get(k)
        if r is None:
            r = len(self.node)
            if r > self.limit:
                raise TooComplex('decision diagram too large')
            self.node.append(k)
            self.tab[k] = r
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        nf, ng, nh = self.node[f], self.node[g], self.node[h]
        v = min(nf[0], ng[0], nh[0])
        f0, f1 = (nf[1], nf[2]) if nf[0] == v else (f, f)
        g0, g1 = (ng[1], ng[2]) if ng[0] == v else (g, g)
        h0, h1 = (nh[1], nh[2]) if nh[0] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        if len(self.memo) > 2 * self.limit:
            raise TooComplex('decision diagram too large')
        self.memo[k] = r
        return r

    def no(self, f):
        return 1 - f if f < 2 else self.ite(f, 0, 1)

    def and_(self, f, g):
        if f > g:
            f, g = g, f
        if f < 2:
            return g if f else 0
        return self.ite(f, g, 0)

    def or_(self, f, g):
        if f > g:
            f, g = g, f
        if f < 2:
            return 1 if f else g
        return self.ite(f, 1, g)

    def xor(self, f, g):
        if f > g:
            f, g = g, f
        if f == 0:
            return g
        if f == 1:
            return self.no(g)
        return self.ite(f, self.no(g), g)

    def sat(self, f):
        """one assignment {name: 0/1} with f true, or None"""
        if f == 0:
            return None
        r = {}
        while f != 1:
            v, lo, hi = self.node[f]
            if lo != 0:
                r[self.names[v]] = 0
                f = lo
            else:
                r[self.names[v]] = 1
                f = hi
        return r

    opaque = False

    # ------------------------------------------------ bit vectors, least significant bit first
    def word(self, name, w, known=None):
        return [self.var((name, i)) for i in range(w if known is None else known)] + [0] * (0 if known is None else w - known)

    @staticmethod
    def const(v, w, cache={}):
        r = cache.get((v, w))
        if r is None:
            if len(cache) > 20000:
                cache.clear()
            r = cache[(v, w)] = tuple((v >> i) & 1 for i in range(w))
        return list(r)

    @staticmethod
    def cval(bits, signed=False):
        v, k = 0, 1
        for b in bits:
            if b == 1:
                v += k
            elif b:
                return None
            k += k
        return v - (1 << len(bits)) if signed and bits and bits[-1] else v

    def muxw(self, c, a, b):
        if c < 2:
            return list(a if c else b)
        return [self.ite(c, x, y) for x, y in zip(a, b)]

    def addc(self, a, b, c):
        if c < 2:
            x, y = self.cval(a), self.cval(b)
            if x is not None and y is not None:
                t, w = x + y + c, len(a)
                return self.const(t, w), (t >> w) & 1
        r = []
        for x, y in zip(a, b):
            t = self.xor(x, y)
            r.append(self.xor(t, c))
            c = self.ite(t, c, x)
        return r, c

    def add(self, a, b):
        return self.addc(a, b, 0)[0]

    def notw(self, a):
        return [self.no(x) for x in a]

    def sub(self, a, b):
        return self.addc(a, self.notw(b), 1)[0]

    def ult(self, a, b):
        return self.no(self.addc(a, self.notw(b), 1)[1])

    def slt(self, a, b):
        return self.ult(a[:-1] + [self.no(a[-1])], b[:-1] + [self.no(b[-1])])

    def eq(self, a, b):
        if a == b:
            return 1
        r = 1
        for x, y in zip(a, b):
            r = self.and_(r, self.no(self.xor(x, y)))
            if r == 0:
                break
        return r

    def any(self, bits):
        r = 0
        for x in bits:
            r = self.or_(r, x)
        return r

    def shift(self, a, n, kind):
        """shift by a vector; the result for amounts >= width is unspecified"""
        w = len(a)
        fill = a[-1] if kind == 'ashr' else 0
        r = list(a)
        k = self.cval(n)
        if k is not None:
            k = min(k, w) if k < w else w
            return ([0] * k + r)[:w] if kind == 'shl' else r[k:] + [fill] * k
        for i, s in enumerate(n):
            if s == 0 or (1 << i) >= w and s != 1 and i >= w.bit_length():
                continue
            k = 1 << i
            if kind == 'shl':
                t = ([0] * min(k, w) + r)[:w]
            else:
                t = (r[k:] if k < w else []) + [fill] * min(k, w)
            r = self.muxw(s, t, r)
        return r

    def mul(self, a, b):
        x, y = self.cval(a), self.cval(b)
        if x is not None and y is not None:
            return self.const(x * y & ((1 << len(a)) - 1), len(a))
        if sum(x > 1 for x in a) < sum(x > 1 for x in b):
            a, b = b, a
        w = len(a)
        # signed digits keep multiplications by constants short
        acc = self.const(0, w)
        for i, s in enumerate(b):
            if s == 0:
                continue
            sh = ([0] * i + a)[:w]
            acc = self.add(acc, [self.and_(s, x) for x in sh])
        return acc

    def udivrem(self, a, b):
        w = len(a)
        k = self.cval(b)
        if k and k & (k - 1) == 0:
            s = k.bit_length() - 1
            return a[s:] + [0] * s, a[:s] + [0] * (w - s)
        q, r = [0] * w, [0] * (w + 1)
        b = b + [0]
        for i in range(w - 1, -1, -1):
            r = [a[i]] + r[:-1]
            ge = self.no(self.ult(r, b))
            r = self.muxw(ge, self.sub(r, b), r)
            q[i] = ge
        return q, r[:w]

    def neg(self, a):
        return self.sub(self.const(0, len(a)), a)

    def sdivrem(self, a, b):
        sa, sb = a[-1], b[-1]
        ua, ub = self.muxw(sa, self.neg(a), a), self.muxw(sb, self.neg(b), b)
        q, r = self.udivrem(ua, ub)
        return self.muxw(self.xor(sa, sb), self.neg(q), q), self.muxw(sa, self.neg(r), r)

    def popcount(self, a, w):
        r = self.const(0, w)
        for x in a:
            r = self.add(r, [x] + [0] * (w - 1))
        return r


class Opaque(BDD):
    """words whose sums and products are opaque words identified by their normalised linear form
    (coefficients modulo 2^w over canonical words); xor, and, shifts stay exact on bits"""
    opaque = True

    def __init__(self, limit=6000000):
        BDD.__init__(self, limit)
        self.form = {}      # bits -> (coefficients, constant)
        self.byform = {}
        self.meaning = {}   # variable name -> (form or product, bit)

    def lin(self, bits):
        k = tuple(bits)
        if k in self.form:
            return self.form[k]
        c = self.cval(bits)
        if c is not None:
            return {}, c
        return {k: 1}, 0

    def word_of(self, d, c, w):
        m = (1 << w) - 1
        d2, c = {}, c & m
        for a, k in d.items():
            k &= m
            if k:
                # the coefficient's power of two makes the top bits of the word irrelevant
                z = (k & -k).bit_length() - 1
                if z:
                    a = a[:w - z] + (0,) * z
                d2[a] = (d2.get(a, 0) + k) & m
        d = {a: k for a, k in d2.items() if k and any(a)}
        if not d:
            return self.const(c, w)
        if len(d) == 1 and c == 0:
            (a, k), = d.items()
            if k & (k - 1) == 0:
                return ([0] * (k.bit_length() - 1) + list(a))[:w]
        key = (w, frozenset(d.items()), c)
        r = self.byform.get(key)
        if r is None:
            if w == 64:
                cd, cc = self._cut(d, 32)
                lo = self.word_of(cd, c + cc, 32)
                n = 32
            else:
                lo, n = [], 0
            ident = ('lin', len(self.byform))
            for i in range(n, w):
                self.meaning[(ident, i)] = (d, c, w, i)
            r = lo + [self.var((ident, i)) for i in range(n, w)]
            self.byform[key] = r
            self.form[tuple(r)] = (d, c)
        return list(r)

    def _cut(self, d, w):
        r, t = {}, 0
        for a, k in d.items():
            f, c = self.lin(list(a[:w]))
            t += c * k
            for b, q in f.items():
                r[b] = r.get(b, 0) + q * k
        return r, t

    def _small(self, a, b):
        return sum(x > 1 for x in a) + sum(x > 1 for x in b) <= 8

    def add(self, a, b):
        x, y = self.cval(a), self.cval(b)
        if x is not None and y is not None:
            return self.const(x + y & ((1 << len(a)) - 1), len(a))
        if x == 0:
            return list(b)
        if y == 0:
            return list(a)
        if all(x == 0 or y == 0 for x, y in zip(a, b)):
            return [y if x == 0 else x for x, y in zip(a, b)]
        if self._small(a, b):
            return BDD.add(self, a, b)
        (d, c), (e, k) = self.lin(a), self.lin(b)
        d = dict(d)
        for x, q in e.items():
            d[x] = d.get(x, 0) + q
        return self.word_of(d, c + k, len(a))

    def sub(self, a, b):
        if self._small(a, b):
            return BDD.sub(self, a, b)
        (d, c), (e, k) = self.lin(a), self.lin(b)
        d = dict(d)
        for x, q in e.items():
            d[x] = d.get(x, 0) - q
        return self.word_of(d, c - k, len(a))

    def mul(self, a, b):
        ca, cb = self.cval(a), self.cval(b)
        w = len(a)
        if ca is not None and cb is not None:
            return self.const(ca * cb & ((1 << w) - 1), w)
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None:
            d, c = self.lin(a)
            return self.word_of({x: q * cb for x, q in d.items()}, c * cb, w)
        if self._small(a, b):
            return BDD.mul(self, a, b)
        raise TooComplex('product of two unknown words')

    # ------------------------------------------------ evaluation of canonical forms at a point
    def at(self, asg):
        return Point(self, asg)


class Point:
    """evaluates canonical forms under an assignment name -> 0/1 (default for missing names)"""
    def __init__(self, B, asg):
        self.B, self.asg, self.val = B, asg, {}

    def var(self, v):
        r = self.val.get(v)
        if r is None:
            n = self.B.names[v]
            m = self.B.meaning.get(n)
            if m is None:
                r = self.asg(n)
                self.val[v] = r
            else:
                d, c, w, i = m
                t = c
                for a, k in d.items():
                    t += k * self.word(a)
                t &= (1 << w) - 1
                r = (t >> i) & 1
                self.val[v] = r
        return r

    def bit(self, f):
        while f > 1:
            v, lo, hi = self.B.node[f]
            f = hi if self.var(v) else lo
        return f

    def word(self, bits):
        return sum(self.bit(b) << i for i, b in enumerate(bits))
