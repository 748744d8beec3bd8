"""P10: the parity vector of a reducible generator."""
import re
from ..build import AnalysisBroken
from ..core import KEEP, prog, sig, Explore, LoopClient, evalt, sample_ok, scev_eval
from ..facts import addoff, Fn
from ..models import MODELS, _Prefix
from ..report import Report, finish
from ..sym import Client, strip_ext, TOP, ids_of

KEEP10 = KEEP + [r'MTToolBox::calc_1pos\(', r'MTToolBox::fromGF2Vec<']
N = 'MTToolBox::'
G = ('arg', 1)
F = ('arg', 2)


def models():
    M = _Prefix(MODELS)

    def onepos(c):
        c.val = ('p:1pos', c.args[0])
    M[N + 'calc_1pos'] = onepos

    def fromvec(c):
        c.val = ('p:fromvec', c.mem.get(('rowof', c.args[0]), ('row?', c.args[0])))
    M[N + 'fromGF2Vec'] = fromvec

    def row(c):
        c.val = ('row', c.args[0], c.args[1])
        c.put(('rowof', c.val), ('row', c.mem.get(('ker', c.args[0]), ('ker?', c.args[0])), c.args[1]))
    M['NTL::Mat::operator[]'] = row

    def kernel(c):
        c.put(('ker', c.args[0]), ('ker', c.args[1]))
    M['NTL::kernel'] = kernel

    def assign(c):
        c.put(('ker', c.args[0]), c.mem.get(('ker', c.args[1]), ('matrix', c.args[1])))
        c.val = c.args[0]
    M['NTL::Mat::operator='] = assign

    def rows(c):
        c.val = ('p:rows', c.args[0])
    M['NTL::Mat::NumRows'] = rows
    return M


def enc(t):
    return ('ph', t[1]) if isinstance(t, tuple) and len(t) == 2 and t[0] == 'phi' else t


def dec(t):
    return ('phi', t[1]) if isinstance(t, tuple) and len(t) == 2 and t[0] == 'ph' else t


class U:
    """ghost variables of the search"""
    F = ('cur', 'pos', 'zero', 'unit', 'placed', 'add', 'store', 'limit', 'sp', 'pend')
    __slots__ = F

    def __init__(self, t):
        for k, v in zip(self.F, t):
            setattr(self, k, v)

    def t(self):
        return tuple(getattr(self, k) for k in self.F)


U0 = (frozenset(), frozenset([0]), None, 0, 0, None, None, 0, None, 0)


class Ghost(Client):
    def __init__(self, rep, f, prog, gen):
        self.rep, self.f, self.i, self.gen = rep, f, sig(f), gen
        self.n1 = self.nunit = self.nret = self.nplace = self.nred = 0
        self.work = None
        self.arrays = {}
        self.reduces = 0
        self.loops = {L['header']: L for L in f.loops()}
        self.inner = None
        for b in f.reach:
            for x in f.insts(b):
                if x['op'] in ('call', 'invoke') and prog.cname(x) == 'setOneBit':
                    self.work = f.val([o for k, o in enumerate(x['ops']) if k not in set(x.get('sret', []))][0])
        cs = [b for b in f.reach for x in f.insts(b) if x['op'] in ('call', 'invoke') and prog.cname(x) == 'calc_1pos']
        ls = sorted([L for L in f.loops() if cs and cs[0] in L['blocks']], key=lambda L: len(L['blocks']))
        if ls:
            self.inner = ls[0]
        cs = [b for b in f.reach for x in f.insts(b) if x['op'] in ('call', 'invoke') and prog.cname(x) == 'setOneBit']
        ls = sorted([L for L in f.loops() if cs and cs[0] in L['blocks']], key=lambda L: -len(L['blocks']))
        self.outer = ls[0] if ls else None
        self.alive = {b for b in f.reach if f.insts(b)[-1]['op'] == 'ret'}
        st = list(self.alive)
        while st:
            for p in f.pred[st.pop()]:
                if p in f.reach and p not in self.alive:
                    self.alive.add(p)
                    st.append(p)

    def sat(self, u, t):
        return strip_ext(t) in {dec(x) for x in u.cur}

    def base_of(self, t):
        """(array, index) when t is the generator of an array element"""
        a = None
        if isinstance(t, tuple) and t[0] == 'ld':
            a = t[1]
        return a if isinstance(a, tuple) and a[0] == 'ix' else None

    def call(self, c):
        rep, i, w = self.rep, self.i, c.where()
        u = U(c.us)
        m = c.m
        a = c.args
        if a and a[0] == G and (m in ('generate', 'seed', 'setUpParam', 'add', 'setZero', 'setOneBit') or c.q.endswith('annihilate')):
            rep.bad('caller', i, w, '%s() is called on the caller\'s generator' % m)
        if c.q == N + 'annihilate' and a[0] == G:
            rep.bad('caller', i, w, 'the caller\'s generator is annihilated')
        if m == 'setParityValue':
            rep.calls()
            rep.verdict(a[0] == G, 'result', i + ' stored in', w, 'the parity vector is set in another generator')
            u.sp = enc(strip_ext(a[1]))
        elif m == 'setOneBit':
            rep.calls()
            if a[0] != self.work:
                rep.unk('units', i + ' generator', w, 'unit states are made in more than one generator')
            self.done(c, u)
            p = strip_ext(a[1])
            self.nunit += 1
            good = p in {dec(x) for x in u.pos}
            if not good:
                known = [x for x in u.pos if x != TOP]
                good = None if not known else False if isinstance(p, int) and all(isinstance(x, int) for x in known) or any(isinstance(x, tuple) and x[0] == 'ph' or isinstance(x, tuple) and x[0] == 'add' for x in known) else None
            rep.verdict(good, 'units', i, w, 'after the unit states before, the state with bit %r set comes next instead of %r; path %s' % (p, sorted(map(repr, u.pos)), c.lines()))
            u.pos = frozenset([1 + p] if isinstance(p, int) else [enc(x) for x in (('add', 1, p), ('add', p, 1))])
            u.unit, u.placed, u.zero, u.cur, u.limit = 1, 0, None, frozenset(), 0
            c.facts = {k: v for k, v in c.facts.items() if "'onebit'" not in repr(k)}
        elif c.q == N + 'annihilate':
            rep.calls()
            rep.verdict(a[1] == F, 'annihilated', i + ' polynomial', w, 'the unit state is annihilated with another polynomial')
            if a[0] == self.work:
                u.unit, u.zero, u.cur = 2, None, frozenset()
        elif a and a[0] == self.work and self.work and m in ('generate', 'getParityValue', 'isZero'):
            if m != 'isZero':
                rep.verdict(u.unit != 1, 'annihilated', i, w, '%s() is called on a unit state that was not annihilated; path %s' % (m, c.lines()))
            if m == 'generate':
                u.cur, u.zero, u.unit = frozenset(), None, (u.unit if u.unit != 2 else 3)
            if m == 'getParityValue':
                rep.verdict(u.unit != 2, 'annihilated', i + ' generated', w, 'the parity value of an annihilated state is read before an output was generated; path ' + c.lines())
        elif a and a[0] == self.work and m == 'setZero':
            u.cur, u.zero = frozenset([0]), True
        elif c.q == N + 'calc_1pos':
            self.n1 += 1
            rep.calls()
            self.sync(c, u)
            rep.verdict(self.sat(u, a[0]) if u.cur - {TOP} else None, 'pivot', i + ' current value', w, 'the pivot is taken from %r, which is not the parity value of the current working state; path %s' % (a[0], c.lines()))
        elif m == 'add' and len(a) == 2 and 'MtvGen' in c.q + self.gen:
            rep.calls()
            x, y = strip_ext(a[0]), strip_ext(a[1])
            w_, b = (x, y) if x == self.work else (y, x)
            ba = self.base_of(b)
            if x == self.work or ba is None:
                self.reduces += 1
            if ba is not None:
                self.arrays.setdefault(ba[1], {})['rg'] = ba[2]
            if w_ != self.work or ba is None:
                rep.unk('pivot', i + ' operands', w, 'sum of %r and %r' % (x, y))
            else:
                iv = [v for v, s in ba[3]]
                good = len(iv) == 1 and isinstance(iv[0], tuple) and iv[0][0] == 'p:1pos' and self.sat(u, iv[0][1])
                if good:
                    # the pivot of a zero word is -1, no base vector
                    nz = c.known('ne', iv[0][1], 0) is True or c.known('sge', iv[0], 0) is True
                    isz = c.known('eq', iv[0][1], 0) is True
                    rep.verdict(False if isz else True if nz else None, 'pivot', i + ' nonzero', w, 'the base vector at the pivot of a zero word is used; path ' + c.lines())
                rep.verdict(good if good else False if u.cur - {TOP} and len(iv) == 1 else None, 'pivot', i + ' base', w, 'the base vector used is number %r, not the pivot of the working vector; path %s' % (iv, c.lines()))
                # is that base empty?
                nx = self.nextof(c, ba)
                if u.store is not None and u.store[2] == ba[3]:
                    nx = {v for v in nx if isinstance(v, tuple) and v[0] == 'ld'}
                emp = self.empty(c, nx)
                if x == self.work:
                    self.nred += 1
                    rep.verdict(None if emp is None else not emp, 'pivot', i + ' reduce', w, 'an empty base vector is added to the working vector; path ' + c.lines())
                    new = set()
                    for t in u.cur:
                        for v in nx:
                            p, q = sorted((dec(t), v), key=lambda z: (not isinstance(z, int), repr(z)))
                            new.add(('xor', p, q))
                    u.cur, u.zero = frozenset(new), None
                    u.add = ('w',)
                else:
                    self.nplace += 1
                    rep.verdict(emp, 'pivot', i + ' place', w, 'the working vector is added to a base vector that is not empty; path ' + c.lines())
                    u.add = ('b', ba)
                    u.placed = 1
        c.us = u.t()

    def leave(self, c, u):
        """the loop over the unit states ends"""
        rep, i = self.rep, self.i
        self.done(c, u)
        if u.unit:
            full = any(c.known('sge', dec(x), ('p:bitSize', g)) is True for x in u.pos for g in (G, self.work))
            cnt = [k for k in c.facts if len(k) == 3 and any(isinstance(t, tuple) and t[0] == 'sub' and t[1][:1] == ('p:bitSize',) and t[2][:1] == ('p:getMexp',) for t in k[1:] if isinstance(t, tuple) and len(t) == 3 and isinstance(t[1], tuple) and isinstance(t[2], tuple))]
            enough = False
            for k in cnt:
                rel = c.facts[k]
                first = isinstance(k[1], tuple) and k[1][0] == 'sub'
                if ('<' if not first else '>') not in rel:
                    enough = True
            rep.verdict(True if full or enough else False if cnt or not full and not cnt else None, 'units', i + ' end', c.where(),
                        'the search stops although unit states are left and fewer than bitSize-mexp independent vectors were found; path ' + c.lines())
        sp = u.sp
        u = U(U0)
        u.sp, u.pend, u.pos = sp, 1, frozenset()
        c.us = u.t()

    def nextof(self, c, ba):
        """values the output word of that base element may be known as"""
        r = set()
        base, off, idx = ba[1], ba[2], ba[3]
        for k in c.facts:
            for v in k[1:]:
                if isinstance(v, tuple) and v[0] == 'ld' and isinstance(v[1], tuple) and v[1][0] == 'ix' and v[1][1] == base and v[1][3] == idx and v[1][2] != off:
                    r.add(v)
        for k, v in c.env.items():
            if isinstance(v, tuple) and v[0] == 'ld' and isinstance(v[1], tuple) and v[1][0] == 'ix' and v[1][1] == base and v[1][3] == idx and v[1][2] != off:
                r.add(v)
        for k, v in c.mem.items():
            if isinstance(k, tuple) and k[0] == 'ix' and k[1] == base and k[3] == idx and k[2] != off:
                r.add(v)
        return r

    def empty(self, c, nx):
        for v in nx:
            if c.known('eq', v, 0) is True:
                return True
            if c.known('ne', v, 0) is True:
                return False
        return None

    def store(self, c, a, v):
        if isinstance(a, tuple) and a[0] == 'ix':
            u = U(c.us)
            if any(isinstance(x, tuple) and x[0] == 'p:1pos' for x, s in a[3]):
                old = c.mem.get(a)
                good = self.sat(u, v)
                if not good and isinstance(v, tuple) and v[0] == 'xor':
                    # next ^= work.next, next being zero
                    good = any(self.sat(u, x) and (c.known('eq', y, 0) is True) for x, y in ((v[1], v[2]), (v[2], v[1])))
                self.arrays.setdefault(a[1], {})['next'] = a[2]
                u.store = ('s', bool(good), a[3])
                c.us = u.t()

    def after(self, c):
        u = U(c.us)
        if c.m in ('bitSize', 'getMexp') and len(c.args) == 1:
            c.val = ('p:' + c.m, G)         # copies have the sizes of the original
        if c.m == 'add' and c.args and c.args[0] != self.work:
            c.mem = {k: v for k, v in c.mem.items() if k != ('st', c.args[0])}
        if u.pend:
            c.mem = {k: v for k, v in c.mem.items() if k[0] != 'new'}
        if c.m == 'getParityValue' and c.args and c.args[0] == self.work:
            u.cur = frozenset([c.val])
            c.us = u.t()

    def sync(self, c, u):
        rep, i = self.rep, self.i
        if u.add and u.add[0] == 'b':
            if u.store is None:
                rep.bad('pair', i + ' base', c.where(), 'a working state is added to a base vector without its output word; path ' + c.lines())
            else:
                rep.verdict(True if u.store[1] and u.store[2] == u.add[1][3] else False, 'pair', i + ' base', c.where(), 'the output word put into the base vector is not that of the working vector; path ' + c.lines())
        elif u.store is not None and not (u.add and u.add[0] == 'b'):
            rep.bad('pair', i + ' base', c.where(), 'the output word is put into a base vector without adding the state; path ' + c.lines())
        u.add, u.store = None, None

    def done(self, c, u):
        self.sync(c, u)
        if u.unit and not u.placed and not u.limit:
            rep = self.rep
            rep.verdict(True if u.zero is True else None if u.zero is None and self.n1 == 0 else False, 'kept', self.i, c.where(),
                        'a unit state is passed over although its working vector was not found to be zero and not put into a base vector; path ' + c.lines())

    def edge(self, c):
        u = U(c.us)
        if self.work:
            t = c.truth(('p:isZero', c.state(self.work)))
            if t is not None:
                u.zero = t
        if u.zero is True and any(c.known('ne', dec(t), 0) is True for t in u.cur if t != TOP):
            c.dead = True           # the zero state has parity value zero
            return
        if self.inner and c.src in self.inner['blocks'] and c.dst not in self.inner['blocks']:
            t = c.x
            if t['op'] == 'br' and t['ops']:
                cond = c.sym.val(t['ops'][0], c.env)
                if isinstance(cond, tuple) and cond[0] == 'icmp':
                    ps = [x for x in cond[2:] if isinstance(x, tuple) and x[0] == 'phi' and (self.f.inst[x[1]].get('scev') or ('',))[0] == 'rec']
                    if ps and any(isinstance(x, int) for x in cond[2:]):
                        u.limit = 1
            self.sync(c, u)
        if self.outer and c.src in self.outer['blocks'] and c.dst in self.alive and c.dst not in self.outer['blocks'] and not u.pend:
            self.leave(c, u)
            return
        if c.dst in self.loops:
            self.remap(c, u, c.dst, c.src)
        live = set()
        for k in c.sym.livein[c.dst]:
            if k in c.env:
                ids_of(c.env[k], live)
        for x in self.f.insts(c.dst):
            if x['op'] == 'phi':
                live.add(x['i'])
                for o, p in x['ops']:
                    if p == c.src:
                        ids_of(c.sym.val(o, c.env), live)
        for v in c.mem.values():
            ids_of(v, live)
        for k in ('cur', 'pos'):
            setattr(u, k, frozenset(x for x in getattr(u, k) if not (isinstance(x, tuple) and x[0] == 'ph' and x[1] not in live)))
        c.us = u.t()

    def backedge(self, c, h):
        u = U(c.us)
        self.sync(c, u)
        c.us = u.t()

    def remap(self, c, u, h, pb):
        back = pb in self.loops[h]['blocks']
        hp = {x['i'] for x in self.f.insts(h) if x['op'] == 'phi'}
        inc = {}
        for x in self.f.insts(h):
            if x['op'] != 'phi':
                break
            for o, p in x['ops']:
                if p == pb:
                    inc[x['i']] = strip_ext(c.sym.val(o, c.env))
        for k in ('cur', 'pos'):
            s = getattr(u, k)
            n = {('ph', i) for i, v in inc.items() if v in {dec(x) for x in s}}
            if back:
                n |= {x for x in s if not (isinstance(x, tuple) and x[0] == 'ph' and x[1] in hp)}
                n = {x for x in n if x == TOP or not self.stale(x, h)}
            else:
                n |= set(s)
            setattr(u, k, frozenset(n))

    def stale(self, x, h):
        from ..sym import ids_of
        ids = {y['i'] for b in self.loops[h]['blocks'] for y in self.f.insts(b)}
        return bool(ids_of(x) & ids)

    def ret(self, c, val):
        u = U(c.us)
        self.nret += 1
        rep, i, w = self.rep, self.i, c.where()
        v = strip_ext(val)
        if u.sp is None:
            rep.bad('result', i, w, 'the parity vector is not set in the generator; path ' + c.lines())
        else:
            rep.verdict(dec(u.sp) == v, 'result', i, w, 'the vector set in the generator is not the one returned')
        good = None
        if isinstance(v, tuple) and v[0] == 'p:fromvec':
            r = v[1]
            if r[0] == 'row' and isinstance(r[1], tuple):
                ins = []
                for n in (1, 2, 5):
                    k = evalt(r[2], lambda t: n if isinstance(t, tuple) and t[0] == 'p:rows' else None)
                    ins.append(None if k is None else 0 <= k < n)
                good = False if r[1][0] != 'ker' or False in ins else None if None in ins else True
            rep.verdict(good, 'kernel', i, w, 'the parity vector is row %r of %r' % (r[2] if r[0] == 'row' else '?', r))
            rws = [k for k in c.facts if any(isinstance(t, tuple) and t[0] == 'p:rows' and c.mem.get(('ker', t[1]), ('',))[0] == 'ker' for t in k[1:])]
            ts = {t for k in rws for t in k[1:] if isinstance(t, tuple) and t[0] == 'p:rows' and c.mem.get(('ker', t[1]), ('',))[0] == 'ker'}
            ref = any(c.known('ne', t, 0) is True or c.known('sgt', t, 0) is True or c.known('ugt', t, 0) is True or c.known('sge', t, 1) is True for t in ts)
            odd = any(not all(isinstance(x, int) or x in ts for x in k[1:]) for k in rws)
            rep.verdict(True if ref else None if odd else False, 'kernel', i + ' empty', w, 'an empty kernel is not refused; path ' + c.lines())
        else:
            rep.verdict(False if isinstance(v, int) else None, 'kernel', i, w, 'the parity vector is %r' % (v,))


def initial(rep, f, prog, g):
    """the base vectors start as zero states with zero output words"""
    i = sig(f)
    if not g.outer:
        return
    before, st = set(), [p for p in f.pred[g.outer['header']] if p not in g.outer['blocks']]
    while st:
        b = st.pop()
        if b not in before:
            before.add(b)
            st += [p for p in f.pred[b] if p in f.reach and p not in before]
    before -= set(g.outer['blocks'])

    def at(t):
        return (t[1], t[2]) if isinstance(t, tuple) and t[0] == 'ix' else None

    for arr, off in sorted(g.arrays.items(), key=repr):
        if set(off) != {'rg', 'next'}:
            continue
        w = f.where({})
        words, gens, zeroed, other, copies = [], set(), [], False, True
        for b in sorted(before):
            for x in f.insts(b):
                if x['op'] == 'store':
                    v, a = (strip_ext(f.val(o)) for o in x['ops'][:2])
                    if at(a) == (arr, off['next']):
                        words.append((v, b))
                        w = f.where(x)
                    elif at(a) == (arr, off['rg']):
                        gens.add(v)
                        w = f.where(x)
        for b in sorted(before):
            for x in f.insts(b):
                if x['op'] not in ('call', 'invoke'):
                    continue
                a = [f.val(o) for k, o in enumerate(x['ops']) if k not in set(x.get('sret', []))]
                if any(t == arr or isinstance(t, tuple) and t[0] in ('ix', 'off') and t[1] == arr for t in a):
                    other = True
                m = re.match(r'(\w+)<.*>::\1\(|(\w+)::\2\(', x.get('cdem') or '')
                if a and a[0] in gens and m and len(a) != 2:
                    copies = False
                if a and prog.cname(x) == 'setZero' and (a[0] in gens or isinstance(a[0], tuple) and a[0][0] == 'ld' and at(a[0][1]) == (arr, off['rg'])):
                    zeroed.append(b)

        def always(bs):
            # a round of the loop around cannot avoid it
            for L in sorted((L for L in f.loops() if bs[0] in L['blocks']), key=lambda L: len(L['blocks'])):
                if any(b == L['header'] for b in bs):
                    return True
                seen, st = set(), [L['header']]
                while st:
                    b = st.pop()
                    for t in f.succ[b]:
                        if t == L['header']:
                            return False
                        if t in L['blocks'] and t not in seen and t not in bs:
                            seen.add(t)
                            st.append(t)
                return True
            return True
        if not gens:
            continue
        zs = [b for v, b in words if v == 0]
        rep.verdict(True if zs and always(zs) else False if not words and not other else False if words and all(isinstance(v, int) and v for v, b in words) else None, 'start', i + ' word', w,
                    'the output words of the base vectors are not zero when the search begins')
        rep.verdict(True if zeroed and always(zeroed) else False if not zeroed and not other and copies else None, 'start', i + ' state', w,
                    'the states of the base vectors are copies of the caller\'s, not zero, when the search begins')


def keep(k):
    return any(isinstance(t, tuple) and ('p:bitSize' in repr(t) or t[0] == 'p:rows' or t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] == 'ix' and 'p:1pos' in repr(t[1][3])) for t in k[1:])


class Mat(LoopClient):
    def __init__(self, fn, prog):
        super().__init__(fn)
        self.relevant = {L['header'] for L in fn.loops() if any(x['op'] in ('call', 'invoke') and prog.cname(x) in ('put', 'SetDims') for b in L['blocks'] for x in fn.insts(b))}

    def onedge(self, c):
        while len(c.us[-1]) > 2 and isinstance(c.us[-1][-1], tuple) and c.us[-1][-1][0] == 'loop' and c.us[-1][-1][1] not in self.relevant:
            c.us = c.us[:-1] + (c.us[-1][:-1],)

    def call(self, c):
        if c.q.endswith('Mat::put'):
            v = c.args[3]
            self.ev(c, ('put', c.args[0], strip_ext(c.args[1]), strip_ext(c.args[2]), c.load(v) if isinstance(v, tuple) else v))
        elif c.q.endswith('Mat::SetDims'):
            self.ev(c, ('dims',) + c.args)
            c.facts = {}
            c.mem = {k: v for k, v in c.mem.items() if k == ('arg', 0)}
            for x in c.fn.inst.values():
                if x['op'] == 'alloca':
                    c.mem[('dirty', ('new', x['i']))] = 1

    def after(self, c):
        if c.m in ('bitSize', 'getMexp') and len(c.args) == 1:
            c.val = ('p:' + c.m, G)
        c.mem = {k: v for k, v in c.mem.items() if k[0] not in ('st', 'par', 'rev', 'len')}
        if c.m in ('put', 'setOneBit'):
            c.mem = {k: v for k, v in c.mem.items() if k[0] != 'new'}
            if c.m == 'setOneBit':
                c.facts = {k: v for k, v in c.facts.items() if not any('onebit' in repr(t) for t in k[1:])}


def matrix(rep, f, cl, W):
    i = sig(f)
    heads = {h for h, r, evs, c in cl.iters if any(e[0] == 'put' for e in evs)}
    if len(heads) != 1:
        rep.unk('matrix', i, f.where({}), 'the loop filling the matrix is not recognised')
        return
    H = heads.pop()
    nest = [L['header'] for L in sorted([L for L in f.loops() if H in L['blocks']], key=lambda L: -len(L['blocks']))]
    w = f.where(f.insts(H)[0])
    dims = [e for evs, v, c in cl.rets for e in evs if e[0] == 'dims']
    bad = unk = None
    for sample in ({0: 0x80000001, 3: 0x00f00002, W - 1: 0xdeadbeef}, {1: 1, 2: 1 << (W - 1), 5: (1 << W) - 1, 7: 0x10}):
        nz = sorted(sample)

        def leaf(t):
            if isinstance(t, tuple) and t:
                if t[0] == 'p:bitSize':
                    return 100 + len(nz)
                if t[0] == 'p:getMexp':
                    return 100
                if t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] == 'ix' and len(t[1][3]) == 1:
                    return ('index', t[1][3][0][0], lambda j: sample.get(j, 0))
                if t == ('ld', ('arg', 0)):
                    return W
            return None
        got = []
        stop = []

        def walk(d, env):
            h = nest[d]
            r = cl.rounds(h, env)
            if r is None:
                stop.append('rounds of the loop not computed')
                return
            memo = {}
            for j in range(r[0]):
                e = cl.at(h, j, env, memo)
                if h != H:
                    walk(d + 1, e)
                    if stop:
                        return
                    continue
                outs = set()
                for evs, c in cl.round_records(h, j, e):
                    outs.add(tuple(tuple(evalt(x, e) for x in ev[2:]) for ev in evs if ev[0] == 'put'))
                if len(outs) != 1 or any(None in p for p in list(outs)[0]):
                    stop.append('entries of a round not evaluated: %r' % (outs,))
                    return
                got.extend(outs.pop())
        walk(0, leaf)
        if stop:
            unk = stop[0]
            break
        exp = {(r, k): (sample[j] >> (W - 1 - r)) & 1 for r in range(W) for k, j in enumerate(nz)}
        have = {}
        for r, k, b in got:
            have[(r, k)] = b & 1
        if have != exp:
            d = [x for x in exp if have.get(x) != exp[x]] + [x for x in have if x not in exp]
            bad = 'entry %s of the matrix is %s instead of %s' % (d[0], have.get(d[0], 'missing'), exp.get(d[0], 'none'))
        for x in dims:
            dv = (evalt(strip_ext(x[2]), leaf), evalt(strip_ext(x[3]), leaf))
            if None not in dv and dv != (W, len(nz)):
                bad = 'the matrix is %d x %d instead of %d x %d' % (dv + (W, len(nz)))
    rep.verdict(False if bad else None if unk else True, 'matrix', i, w, bad or unk or '')
    # the counting loop before the stop decision
    cnts = {}
    for h, rnd, evs, c in cl.exits:
        pass
    keys = set()
    for h, rnd, evs, c in cl.iters + [(x[0], x[1], x[2], x[3]) for x in cl.exits]:
        for k in c.facts:
            if len(k) == 3 and any(isinstance(t, tuple) and t[0] == 'sub' and 'p:getMexp' in repr(t) for t in k[1:]):
                for t in k[1:]:
                    if isinstance(t, tuple) and t[0] == 'phi':
                        keys.add(t)
    for t in sorted(keys):
        h = f.bof[t[1]]
        wl = f.where(f.insts(h)[0])
        bad = unk = None
        for sample in ({}, {0: 5}, {0: 1, 3: 2, W - 1: 7}):
            def leaf(u):
                if isinstance(u, tuple) and u:
                    if u[0] == 'ld' and isinstance(u[1], tuple) and u[1][0] == 'ix' and len(u[1][3]) == 1:
                        return ('index', u[1][3][0][0], lambda j: sample.get(j, 0))
                    if u == ('ld', ('arg', 0)):
                        return W
                return None
            r = cl.rounds(h, leaf)
            if r is None:
                unk = 'not computed'
                break
            v = cl.value(h, t, r[0], leaf)
            if v is None:
                unk = 'not computed'
            elif v != len(sample):
                bad = 'with %d nonzero base vectors (numbers %s) %d are counted' % (len(sample), sorted(sample), v)
        rep.verdict(False if bad else None if unk else True, 'count', i, wl, bad or unk or '')


def run(prop, tier):
    rep = Report(prop, tier)
    rep.rule('caller', 'the caller\'s generator is only copied, asked for its sizes, and given the result')
    rep.rule('units', 'the unit states are taken in order from bit 0 without gaps, until all are taken or bitSize-mexp independent vectors were found')
    rep.rule('annihilated', 'each unit state is annihilated with the given polynomial before any output of it is used')
    rep.rule('pivot', 'the working vector is reduced by the base vector at its pivot, or put there if that one is empty')
    rep.rule('start', 'the base vectors start as zero states with zero output words')
    rep.rule('pair', 'states and output words are always added together')
    rep.rule('kept', 'a unit is passed over only when the working state is zero')
    rep.rule('count', 'all nonzero base vectors are counted')
    rep.rule('matrix', 'row i, column k of the matrix is bit w-1-i of the k-th nonzero base vector')
    rep.rule('kernel', 'the result is a row of the kernel of that matrix; an empty kernel is refused')
    rep.rule('result', 'the vector returned is also set in the caller\'s generator')
    rep.rule('limit', 'the reduction loop allows more steps than the word has bits')
    P = prog(keep=KEEP10)
    M = models()
    fs = [f for f in P.fns.values() if '::searchParity(' in f.dem]
    if len(fs) < 2:
        raise AnalysisBroken('searchParity not found')
    for f in fs:
        i = sig(f)
        W = 64 if 'unsigned long' in f.dem else 32
        g = Ghost(rep, f, P, 'MtvGen')
        s = Explore(rep, ['units', 'annihilated', 'pivot', 'pair', 'kept', 'result'])(
            f, P, g, us0=U0, models=M, keepfact=keep, cap=20000, total=200000)
        if s is not None:
            if not (g.n1 and g.nunit and g.nret and g.nplace and g.nred):
                rep.unk('pivot', i + ' sites', f.where({}), 'sites: %d units, %d pivots, %d reductions, %d placements' % (g.nunit, g.n1, g.nred, g.nplace))
            if g.nplace and not g.nred and not g.reduces:
                rep.bad('pivot', i + ' reduce', f.where({}), 'the working vector is never reduced by a base vector')
            initial(rep, f, P, g)
            rep.ok('caller', i, f.where({}))
            if g.inner:
                mx = [scev_eval(e, {}) for b, e in g.inner['exits'] if e is not None]
                mx = [x for x in mx if x is not None]
                if mx:
                    rep.verdict(min(mx) > W, 'limit', i, f.where(f.insts(g.inner['header'])[0]), 'at most %d reduction steps' % min(mx))
        cl = Mat(f, P)
        s = Explore(rep, ['matrix', 'count'])(f, P, cl, us0=Mat.us0, models=M, generic='all', wide=True,
                                              keepfact=lambda k: any(isinstance(t, tuple) and ("'p:getMexp'" in repr(t) or "'ld'" in repr(t)) for t in k[1:]))
        if s is not None:
            matrix(rep, f, cl, W)
    return finish(rep, 'other', 'Ghost-variable typestate over all paths of the parity search (working vector, its output word, position, base vectors) and the recurrences of the matrix and counting loops, in both word sizes.', floor=10)
