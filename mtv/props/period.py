"""P03: the primitivity decisions.  P04: number-theoretic tables."""
import re
from ..build import AnalysisBroken
from ..core import prog, sig, Explore, evalt, sample_ok, index_at, scev_eval, exit_counts
from ..facts import Fn
from ..report import Report, finish
from ..sym import Client, Sym, strip_ext, cond_atoms2, contains
import copy


def split_ret(c, val):
    """the (ctx, truth) cases of a boolean result"""
    t = c.truth(val)
    if t is not None:
        return [(c, t)]
    r = []
    for truth in (True, False):
        at = cond_atoms2(val, truth)
        if at is None:
            continue
        c2 = copy.copy(c)
        c2.dead = False
        c2.assume(at)
        if not c2.dead:
            r.append((c2, truth))
    return r


def known_true(c, t):
    return c.truth(('icmp', 'ne', t, 0))


def has(c, head):
    r = set()
    def go(t):
        if isinstance(t, tuple):
            if t and t[0] == head:
                r.add(t)
            for x in t:
                go(x)
    for f in c.facts:
        go(f)
    return r


# ---------------------------------------------------------------- AlgorithmPrimitivity
def functor(rep, P):
    ctors = [f for f in P.fns.values() if re.match(r'MTToolBox::AlgorithmPrimitivity::AlgorithmPrimitivity\(', f.dem)]
    ops = [f for f in P.fns.values() if f.dem.startswith('MTToolBox::AlgorithmPrimitivity::operator()(')]
    if not ops:
        raise AnalysisBroken('AlgorithmPrimitivity::operator() not found')
    fields = {}
    dflt = tab = None
    for f in ctors:
        out = []

        class C(Client):
            def ret(self, c, val):
                out.append(dict(c.mem))
        s = Sym(f, P, C(), generic=True).run()
        rep.fn(f, s)
        if len(f.j['args']) == 1:
            dflt = (f, out)
        elif 'char' in f.dem:
            tab = (f, out)
    # role of the flag: a member set to different constants by the two constructors
    flag = vec = None
    if dflt and tab and dflt[1] and tab[1]:
        d, t = dflt[1][0], tab[1][0]
        for k in d:
            if isinstance(k, tuple) and Fn.tbase(k) == ('arg', 0):
                if isinstance(d[k], int) and isinstance(t.get(k), int) and (d[k] & 1) != (t[k] & 1):
                    flag = (k, d[k] & 1)
                if isinstance(d[k], tuple) and d[k][0] == 'call':
                    vec = k
        if vec is not None:
            ln = d.get(('len', d[vec]))
            if isinstance(ln, int):
                rep.verdict(ln == 0, 'default', sig(dflt[0]), dflt[0].where({}), 'default functor has %d prime factors' % ln)
        if flag is None:
            same = [k for k in d if isinstance(k, tuple) and Fn.tbase(k) == ('arg', 0) and isinstance(d[k], int) and isinstance(t.get(k), int)]
            rep.unk('default', sig(dflt[0]), dflt[0].where({}), 'no member tells the two constructors apart' if not same else 'the constructors set the same flag value')
        missing = [k for k in d if isinstance(k, tuple) and Fn.tbase(k) == ('arg', 0) and isinstance(d[k], int) and k not in t]
        for k in missing:
            rep.bad('default', sig(tab[0]) + ' flag', tab[0].where({}), 'a member initialised by the default constructor is left uninitialised by this one')
        same = [k for k in d if isinstance(k, tuple) and Fn.tbase(k) == ('arg', 0) and isinstance(d[k], int) and d[k] == t.get(k) == 1]
        if flag is None and same:
            rep.bad('default', sig(tab[0]) + ' flag', tab[0].where({}), 'the constructor taking prime factors selects the test that ignores them')
    for f in ops:
        i = sig(f)
        this, n, poly = ('arg', 0), ('arg', 1), ('init', ('arg', 2))

        class C(Client):
            def ret(self, c, val):
                for c2, truth in split_ret(c, val):
                    self.one(c2, truth)

            def one(self, c, truth):
                deg = c.known('eq', ('p:deg', poly), n)
                irr = known_true(c, ('p:IterIrredTest', poly))
                prime = None
                for t in has(c, 'p:isPrime'):
                    if t[1] == poly and len(t) == 4 and strip_ext(t[2]) in (n, ('p:deg', poly)):
                        tb = strip_ext(t[3])
                        if vec is None or tb == ('ld', vec):
                            if strip_ext(t[2]) == n or deg is True:
                                prime = known_true(c, t)
                fl = None
                if flag is not None:
                    v = ('ld', flag[0])
                    fl = c.truth(('trunc', 'i1', v))
                    if fl is None:
                        fl = known_true(c, v)
                    if fl is not None and flag[1] == 0:
                        fl = not fl
                w = c.where()
                if truth:
                    if prime is True:
                        rep.ok('functor-yes', i, w)
                    elif deg is True and irr is True and fl is True:
                        rep.ok('functor-yes', i, w)
                    elif flag is None:
                        rep.unk('functor-yes', i, w, 'roles of the members unknown')
                    else:
                        rep.bad('functor-yes', i, w, 'answers yes with degree==%s irreducible==%s order-check==%s mersenne==%s known; path %s' % (deg, irr, prime, fl, c.lines()))
                else:
                    if deg is False or irr is False or prime is False:
                        rep.ok('functor-no', i, w)
                    else:
                        rep.bad('functor-no', i, w, 'answers no although none of the tests is known to fail; path ' + c.lines())
        ex = Explore(rep, ['functor-yes', 'functor-no'])
        ex(f, P, C(), keepfact=lambda k: True)
    if tab:
        parse_ctor(rep, P, tab[0], vec)


def count_entries(rep, P, f, arg, rule):
    """SetLength is given the number of entries before the NULL; every entry index is visited"""
    i = sig(f)
    n = 5
    # a loop that leaves when entry number index is NULL
    loops = []
    for L in f.loops():
        for b in L['blocks']:
            t = f.term_inst(b)
            if t['op'] != 'br' or not t['ops'] or all(d in L['blocks'] for d in t['to']):
                continue
            c = f.val(t['ops'][0])
            while isinstance(c, tuple) and c[0] == 'xor':
                c = c[1] if not isinstance(c[1], int) else c[2]
            if isinstance(c, tuple) and c[0] == 'icmp' and c[1] in ('eq', 'ne') and 0 in (c[2], c[3]):
                v = c[2] if c[3] == 0 else c[3]
                if isinstance(v, tuple) and v[0] == 'ld' and isinstance(v[1], tuple) and v[1][0] == 'ix' and v[1][1] == ('arg', arg) and len(v[1][3]) == 1 and v[1][3][0][1] == 8:
                    loops.append((L, b, v[1][3][0][0], v[1][2]))
    return loops


def iter_until_null(f, L, b, idx, off, n):
    """how many times the loop test passes when entry n is the first NULL (None: unknown)"""
    for k in range(n + 3):
        v = index_at(f, idx, k)
        if v is None:
            return None
        e = v + off // 8
        if e == n:
            return k
        if e > n or e < 0:
            return None
    return None


def table_parse(rep, P, f, arg, rule, lenfn):
    """shared by the constructor and isPrime(poly,degree,char*[])"""
    i = sig(f)
    loops = count_entries(rep, P, f, arg, rule)
    n = 5
    # length given to SetLength
    writers = [x for x in f.calls() if P.cqual(x).startswith('NTL::Vec') and P.cname(x) in ('operator[]', 'operator()', 'at')]
    if writers and not any(P.cname(x) in ('SetLength', 'FixLength', 'append', 'Append', 'swap', 'operator=', 'move', 'QuickSetLength') and 'NTL' in P.cqual(x) and not P.cqual(x).startswith('NTL::ZZ') for x in f.calls()):
        made = [x for x in f.calls() if P.cqual(x).startswith('NTL::Vec') and P.cname(x) == 'Vec']
        if made and all(len(P.cargs(x)) == 1 for x in made):
            rep.bad(rule, i + ' length', f.where(writers[0]), 'entries are stored in a vector that was never given a length')
    for x in f.calls('SetLength'):
        rep.calls()
        t = f.val(P.cargs(x)[1])
        blk = f.bof[x['i']]
        vals = []
        for L, b, idx, off in loops:
            if blk in L['blocks']:
                continue
            k = iter_until_null(f, L, b, idx, off, n)
            if k is None:
                continue
            if not any(p == L['header'] for p in phis_headers(f, t)):
                continue
            vals.append(index_at(f, t, k))
        if vals and all(v is not None for v in vals):
            bad = [v for v in vals if v != n]
            rep.verdict(not bad, rule, i + ' length', f.where(x), 'with %d prime factors the vector gets length %s' % (n, bad[0] if bad else n))
        else:
            rep.unk(rule, i + ' length', f.where(x), 'length %r' % (t,))


def phis_headers(f, t):
    r = set()
    def go(u):
        if isinstance(u, tuple):
            if len(u) == 2 and u[0] == 'phi':
                r.add(f.bof[u[1]])
                return
            for x in u:
                go(x)
    go(t)
    return r


def parse_loop(rep, P, f, arg, rule):
    """each entry is parsed and stored at its own index"""
    i = sig(f)
    loops = count_entries(rep, P, f, arg, rule)
    stores = [x for x in f.calls() if P.cqual(x).startswith('NTL::Vec') and P.cname(x) in ('operator[]', 'operator()', 'at')]
    done = False
    for L, b, idx, off in loops:
        inside = [x for x in stores if f.bof[x['i']] in L['blocks']]
        for x in inside:
            rep.calls()
            t = f.val(P.cargs(x)[1])
            got = [index_at(f, t, k) for k in range(5)]
            ent = [index_at(f, idx, k) for k in range(5)]
            done = True
            if None in got or None in ent:
                rep.unk(rule, i + ' index', f.where(x), 'index %r' % (t,))
            else:
                ent = [e + off // 8 for e in ent]
                rep.verdict(got == [0, 1, 2, 3, 4] and ent == got, rule, i + ' index', f.where(x), 'entries %s are stored at %s' % (ent, got))
    if not done:
        # the vector whose length is set: does anything that could write its entries see it?
        vecs = [P.cargs(x)[0] for x in f.calls('SetLength')]
        passive = ('SetLength', 'length', 'isPrime', 'MaxLength', '~Vec', 'Vec', 'kill', 'operator new', 'operator delete')
        def mentions(x):
            vt = [f.val(v) for v in vecs]
            for o in P.cargs(x):
                t = f.val(o)
                if any(o == v or t == w or contains(t, w) for v, w in zip(vecs, vt)):
                    return True
            return False
        users = [x for x in f.calls() if mentions(x)]
        if vecs and users and all(P.cname(x) in passive for x in users):
            rep.bad(rule, i + ' index', f.where(users[0]), 'no entry of the vector of prime factors is ever written')
        else:
            rep.unk(rule, i + ' index', f.where({}), 'no parse loop recognised')
    return loops


def parse_ctor(rep, P, f, vec):
    rule = 'parse'
    table_parse(rep, P, f, 1, rule, None)
    loops = parse_loop(rep, P, f, 1, rule)
    i = sig(f)

    class C(Client):
        """us = sequence of stream events of the current iteration"""
        def after(self, c):
            d = c.x.get('cdem', '')
            if c.m.startswith('operator<<') and 'ostream' in d and len(c.args) == 2:
                v = c.args[1]
                kind = '?'
                if isinstance(v, tuple) and v[0] == 'ld' and isinstance(v[1], tuple) and v[1][0] == 'ix' and v[1][1] == ('arg', 1):
                    kind = 'entry'
                elif isinstance(v, tuple) and v[0] == 'g':
                    s = string_of(P, v[1])
                    kind = 'sep' if s and s.isspace() else 'str'
                elif v in (32, 10, 9):
                    kind = 'sep'
                c.us = c.us + (kind,)
            if c.m == 'operator>>' and d.startswith('NTL::operator>>(std::istream&, NTL::ZZ&)'):
                c.us = c.us + ('read',)
                c.put(c.args[1], ('parsed',))
            elif c.m == 'operator>>' and 'istream' in d:
                c.us = c.us + ('read',)
                c.put(c.args[1], ('parsed',))
            if c.m in ('str', 'clear') and 'stringstream' in d:
                c.us = c.us + (c.m,)
            if c.m == 'operator=' and isinstance(c.args[0], tuple) and c.args[0][0] == 'elem':
                c.us = c.us + ('put', c.obj(c.args[0]))

        def backedge(self, c, h):
            if 'read' in c.us or 'entry' in c.us:
                ev = tuple(e for e in c.us if e != ('parsed',))
                if any(e in ('?', 'str', 'clear') for e in ev) or 'put' not in ev and 'entry' not in ev:
                    rep.unk(rule, i + ' stream', c.where(), 'events %s' % (ev,))
                elif ev in (('entry', 'sep', 'read', 'put'), ('sep', 'entry', 'sep', 'read', 'put'), ('entry', 'sep', 'read')) and ('put' in ev and ('parsed',) in c.us or 'put' not in ev):
                    rep.ok(rule, i + ' stream', c.where())
                elif 'sep' not in ev and 'str' not in ev and 'entry' in ev:
                    rep.bad(rule, i + ' stream', c.where(), 'the entries are read from one stream without a separator: the second read fails at end of file and leaves 0')
                elif 'put' not in ev or ('parsed',) not in c.us:
                    rep.bad(rule, i + ' stream', c.where(), 'the parsed number is not stored')
                else:
                    rep.unk(rule, i + ' stream', c.where(), 'events %s' % (ev,))
            c.us = ()
    ex = Explore(rep, [rule])
    ex(f, P, C(), us0=(), generic=True)


def string_of(P, g):
    x = P.globals.get(g)
    if x and x.get('init', [''])[0] == 'str':
        return bytes(b & 255 for b in x['init'][1]).split(b'\0')[0].decode('latin1')
    return None


# ---------------------------------------------------------------- isPrime / isMexp
def isprime_mersenne(rep, P, f):
    i = sig(f)
    poly = ('init', ('arg', 0))

    class C(Client):
        def ret(self, c, val):
            for c2, truth in split_ret(c, val):
                irr = known_true(c2, ('p:IterIrredTest', poly))
                mx = None
                for t in has(c2, 'p:isMexp'):
                    if strip_ext(t[1]) == ('p:deg', poly):
                        mx = known_true(c2, t)
                w = c2.where()
                if truth:
                    rep.verdict(irr is True and mx is True, 'mersenne', i + ' yes', w, 'answers yes with irreducible==%s, Mersenne exponent==%s known; path %s' % (irr, mx, c2.lines()))
                else:
                    rep.verdict(irr is False or mx is False, 'mersenne', i + ' no', w, 'answers no with irreducible==%s, Mersenne exponent==%s known; path %s' % (irr, mx, c2.lines()))
    Explore(rep, ['mersenne'])(f, P, C(), keepfact=lambda k: True)


def isprime_factors(rep, P, f):
    i = sig(f)
    poly, n = ('init', ('arg', 0)), ('arg', 1)
    vecp = ('arg', 2)
    rule = 'order'
    lenterm = ('p:length', vecp)
    seen = {'test': 0}

    def expo(e, idxs):
        """does e denote (2^n-1)/p for an element p? -> (verdict, index term, detail)"""
        el = []
        def go(t):
            if isinstance(t, tuple):
                if t[0] == 'elem' and len(t) == 3:
                    el.append(t)
                    return
                for x in t:
                    go(x)
        go(e)
        if len(set(el)) != 1:
            return (False if not el and not contains(e, ('top',)) and evalt(e, {n: 7}) is not None else None), None, 'exponent %r' % (e,)
        el = el[0]
        if el[1] != vecp:
            return None, None, 'element of another vector'
        for d, p in ((4, 3), (4, 5), (6, 3), (6, 7), (8, 17), (11, 23)):
            v = evalt(e, lambda t: p if t == el or t == ('init', el) else d if t in (n, ('p:deg', poly)) else None)
            if v is None:
                return None, el[2], 'exponent not interpretable'
            if v != (2 ** d - 1) // p:
                return False, el[2], 'for degree %d and prime %d the exponent is %d, not (2^%d-1)/%d' % (d, p, v, d, p)
        return True, el[2], ''

    class C(Client):
        # us = block through which a loop that tests primes was left
        def edge(self, c):
            for L in f.loops():
                if c.src in L['blocks'] and c.dst not in L['blocks']:
                    c.us = (c.src, L['header'])

        def tests(self, c):
            r = []
            for t in has(c, 'p:IsOne'):
                a = t[1]
                if isinstance(a, tuple) and a[0] in ('powx', 'powmod'):
                    if a[0] == 'powmod' and a[1] != ('mono', 1, 1):
                        continue
                    e, m = (a[1], a[2]) if a[0] == 'powx' else (a[2], a[3])
                    if m != poly:
                        r.append((known_true(c, t), False, None, 'the power is taken modulo another polynomial'))
                        continue
                    ok, idx, why = expo(e, None)
                    r.append((known_true(c, t), ok, idx, why))
            return r

        def backedge(self, c, h):
            L = next((l for l in f.loops() if l['header'] == h), None)
            ts = self.tests(c)
            w = f.where(f.term_inst(h))
            if not ts:
                # is this the loop over the primes at all?
                if any(P.cname(x) == 'operator[]' and f.val(P.cargs(x)[0]) == vecp for b in L['blocks'] for x in f.insts(b) if x['op'] in ('call', 'invoke')):
                    rep.bad(rule, i + ' each', w, 'an iteration over the prime factors ends without the order test; path ' + c.lines())
                return
            seen['test'] += 1
            for tv, ok, idx, why in ts:
                if ok is not True:
                    rep.verdict(ok, rule, i + ' exponent', w, why)
                    continue
                rep.ok(rule, i + ' exponent', w)
                if tv is not False:
                    rep.bad(rule, i + ' each', w, 'the next prime is tried although x^((2^n-1)/p) is not known to differ from 1')
                    continue
                # coverage
                N = 6
                cnt = exit_counts(L, {}, f)
                a = {('v', x['i']): N for x in f.insts() if x['op'] in ('call', 'invoke') and P.cname(x) == 'length'}
                cnt = [v for _, v in exit_counts(L, a, f) if v is not None]
                if not cnt:
                    rep.unk(rule, i + ' each', w, 'trip count unknown')
                    continue
                k = min(cnt)
                got = [index_at(f, idx, j, a) for j in range(k)]
                if None in got:
                    rep.unk(rule, i + ' each', w, 'index %r' % (idx,))
                else:
                    rep.verdict(sorted(got) == list(range(N)), rule, i + ' each', w, 'of %d prime factors only those numbered %s are tested' % (N, got))

        def ret(self, c, val):
            for c2, truth in split_ret(c, val):
                w = c2.where()
                deg = c2.known('eq', ('p:deg', poly), n)
                irr = known_true(c2, ('p:IterIrredTest', poly))
                ts = self.tests(c2)
                if truth:
                    rep.verdict(deg is True, rule, i + ' degree', w, 'answers yes without the degree being checked; path ' + c2.lines())
                    rep.verdict(irr is True, rule, i + ' irreducible', w, 'answers yes without irreducibility being checked; path ' + c2.lines())
                    if c2.us is None:
                        if c2.known('sle', lenterm, 0) is not True:
                            rep.bad(rule, i + ' each', w, 'answers yes without testing the prime factors; path ' + c2.lines())
                    else:
                        L = next((l for l in f.loops() if l['header'] == c2.us[1]), None)
                        e = dict((b, x) for b, x in L['exits']).get(c2.us[0])
                        if e is None:
                            rep.bad(rule, i + ' each', w, 'answers yes after leaving the loop over the prime factors early; path ' + c2.lines())
                else:
                    good = deg is False or irr is False or any(tv is True and ok is True for tv, ok, _, _ in ts)
                    if not good and any(ok is None for _, ok, _, _ in ts):
                        rep.unk(rule, i + ' no', w, 'order test not interpretable')
                    else:
                        rep.verdict(good, rule, i + ' no', w, 'answers no although no test is known to fail; path ' + c2.lines())
    Explore(rep, [rule])(f, P, C(), keepfact=lambda k: True, generic=True)
    if not seen['test']:
        rep.unk(rule, i + ' exponent', f.where({}), 'no loop over the prime factors with an order test seen')


def isprime_strings(rep, P, f):
    rule = 'parse'
    i = sig(f)
    table_parse(rep, P, f, 2, rule, None)
    parse_loop(rep, P, f, 2, rule)
    out = []

    class C(Client):
        def after(self, c):
            if c.m in ('operator>>',):
                c.put(c.args[1], ('parsed',))

        def backedge(self, c, h):
            # digit loop: an accumulator ZZ was updated from a character
            for k, v in c.mem.items():
                if isinstance(k, tuple) and k[0] == 'new' and isinstance(v, tuple) and v[0] in ('add', 'sub', 'mul'):
                    lv = leaves(v)
                    ch = [t for t in lv if t[0] == 'ld']
                    acc = [t for t in lv if t[0] in ('lh', 'init', 'zero') or t == ('const', 0)]
                    if len(ch) == 1 and len(lv) - len(ch) <= 1:
                        for a, x in ((0, 48), (0, 57), (3, 49), (12, 53)):
                            if not acc and a:
                                continue
                            got = evalt(v, lambda t: x if t == ch[0] else a if acc and t == acc[0] else None)
                            if got is None:
                                return
                            if acc and acc[0] in (('zero',), ('const', 0)) and a:
                                continue
                            if got != a * 10 + x - 48:
                                rep.bad(rule, i + ' digit', c.where(), 'after digit %r the accumulated value %d becomes %d' % (chr(x), a, got))
                                return
                        lost = [chr(x) for x in range(48, 58) if not sample_ok(c, lambda t: x if t == ch[0] else None)]
                        if lost:
                            rep.bad(rule, i + ' digit', c.where(), 'the digit %s is not accumulated; path %s' % (lost[0], c.lines()))
                        else:
                            rep.ok(rule, i + ' digit', c.where())
                        self.start(c, ch[0])

        def start(self, c, ch):
            """the characters read are those of the entry of the surrounding iteration"""
            ph = [t for t in leaves_all(ch) if isinstance(t, tuple) and len(t) == 2 and t[0] == 'phi']
            ent = {L['header']: index for L, b, index, off in count_entries(rep, P, f, 2, rule)}
            for t in ph:
                x = f.inst.get(t[1])
                if x is None or x.get('ty') != 'ptr':
                    continue
                h = f.bof[t[1]]
                L = next((l for l in f.loops() if l['header'] == h), None)
                if L is None:
                    continue
                for o, p in x['ops']:
                    if p in L['blocks']:
                        continue
                    v = f.val(o)
                    if not (isinstance(v, tuple) and v[0] == 'ld'):
                        continue
                    a = v[1]
                    fixed = a == ('arg', 2) or isinstance(a, tuple) and a[0] == 'at' and a[1] == ('arg', 2)
                    if fixed and any(p in l['blocks'] for l in f.loops() if l['header'] != h):
                        rep.bad(rule, i + ' entry', f.where(x), 'every entry of the table is read from the string of the same entry')
                    elif isinstance(a, tuple) and a[0] == 'ix' and a[1] == ('arg', 2) and len(a[3]) == 1:
                        got = [index_at(f, a[3][0][0], k) for k in range(4)]
                        if None not in got:
                            got = [g + a[2] // 8 for g in got]
                            rep.verdict(got == [0, 1, 2, 3], rule, i + ' entry', f.where(x), 'the strings read are those of entries %s' % got)

        def ret(self, c, val):
            v = strip_ext(val)
            if isinstance(v, tuple) and v[0] == 'p:isPrime' and len(v) == 4:
                rep.verdict(v[1] == ('init', ('arg', 0)) and strip_ext(v[2]) == ('arg', 1), rule, i + ' forward', c.where(), 'does not decide on its own polynomial and degree')
            elif isinstance(v, int):
                rep.unk(rule, i + ' forward', c.where(), 'constant result')
            else:
                rep.unk(rule, i + ' forward', c.where(), 'result %r' % (v,))
    Explore(rep, [rule])(f, P, C(), generic=True)


def leaves_all(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from leaves_all(x)


def leaves(t):
    r = []
    def go(u):
        if isinstance(u, int):
            return
        if isinstance(u, tuple):
            if u[0] in ('ld', 'lh', 'init', 'zero', 'const', 'phi', 'arg'):
                if u not in r:
                    r.append(u)
                return
            if u[0] in ('zext', 'sext', 'trunc'):
                return go(u[2])
            for x in u[1:]:
                go(x)
    go(t)
    return r


def ismexp(rep, P, f):
    """membership in a constant table: every entry is compared"""
    rule = 'mexp'
    i = sig(f)
    info = {'tables': set(), 'n': None}

    def elem_of(a):
        """(table global, index term) for a load from a constant table"""
        if isinstance(a, tuple) and a[0] == 'ld' and isinstance(a[1], tuple):
            b = Fn.tbase(a[1])
            if isinstance(b, tuple) and b[0] == 'g':
                if a[1][0] == 'ix' and len(a[1][3]) == 1:
                    t, s = a[1][3][0]
                    return b[1], t, s, a[1][2]
                if a[1][0] in ('at', 'g'):
                    return b[1], 0, 1, a[1][2] if a[1][0] == 'at' else 0
        return None

    def entries(g):
        x = P.globals.get(g)
        if not x or x.get('init', [''])[0] != 'arr' or not x.get('const'):
            return None
        try:
            return [int(e[1]) for e in x['init'][1]], int(x['init'][1][0][2]) // 8
        except Exception:
            return None

    class C(Client):
        def eqfacts(self, c, truth):
            r = []
            for k in c.facts:
                if len(k) != 3:
                    continue
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    if strip_ext(a) == ('arg', 0) and elem_of(strip_ext(b)) and c.known('eq', a, b) is truth:
                        r.append(elem_of(strip_ext(b)))
            return r

        def edge(self, c):
            for L in f.loops():
                if c.src in L['blocks'] and c.dst not in L['blocks']:
                    c.us = (c.src, L['header'])

        def backedge(self, c, h):
            ne = self.eqfacts(c, False)
            w = f.where(f.term_inst(h))
            L = next(l for l in f.loops() if l['header'] == h)
            if not ne:
                rep.unk(rule, i + ' scan', w, 'iteration without a comparison against the table')
                return
            for g, t, s, off in ne:
                e = entries(g)
                if e is None:
                    rep.unk(rule, i + ' scan', w, 'table is not a constant array')
                    continue
                vals, sz = e
                info['tables'].add(g)
                cnt = [v for _, v in exit_counts(L, {}, f) if v is not None]
                if not cnt:
                    rep.unk(rule, i + ' scan', w, 'trip count unknown')
                    continue
                k = min(cnt)
                got = [index_at(f, t, j) for j in range(k)]
                if None in got:
                    rep.unk(rule, i + ' scan', w, 'index unknown')
                    continue
                got = {(x * s + off) // sz for x in got}
                # the sentinel (a non-positive entry) need not be compared
                need = {j for j, v in enumerate(vals) if v > 0}
                miss = sorted(need - got)
                info['n'] = len(need)
                rep.verdict(not miss, rule, i + ' scan', w, 'entry %s of the exponent table is never compared' % (vals[miss[0]] if miss else ''))

        def ret(self, c, val):
            for c2, truth in split_ret(c, val):
                if truth:
                    rep.verdict(True if self.eqfacts(c2, True) else None, rule, i + ' yes', c2.where(), 'yes without a recognised comparison')
                else:
                    if c2.us is None:
                        rep.unk(rule, i + ' no', c2.where(), 'no loop')
                        continue
                    L = next((l for l in f.loops() if l['header'] == c2.us[1]), None)
                    e = dict((b, x) for b, x in L['exits']).get(c2.us[0])
                    rep.verdict(True if e is not None else None, rule, i + ' no', c2.where(), 'leaves the scan early')
    answers = set()
    C0 = C

    class C(C0):
        def ret(self, c, val):
            for c2, truth in split_ret(c, val):
                answers.add(truth)
            C0.ret(self, c, val)
    if Explore(rep, [rule])(f, P, C(), keepfact=lambda k: True, generic=True) is not None and True in answers and False not in answers:
        rep.bad(rule, i + ' no', f.where({}), 'the answer no is never given: a degree missing from the table makes the scan run past its end')
    return info


MEXP = [2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497,
        86243, 110503, 132049, 216091, 756839, 859433, 1257787, 1398269, 2976221, 3021377, 6972593, 13466917, 20996011, 24036583, 25964951,
        30402457, 32582657, 37156667, 42643801, 43112609, 57885161, 74207281, 77232917, 82589933, 136279841]


# ---------------------------------------------------------------- hasFactorOfDegree
class Factor(Client):
    """Abstract domain for the distinct-degree sieve.
      ('frob', b, k)  a value congruent to x^(2^e) modulo the current polynomial, e = k (+E when b)
      ('artin', b, k) a value congruent to x^(2^e) + x
      ('P', id)       the argument polynomial after its last division
    us = next degree whose factors still have to be removed, as (b, k)."""

    def __init__(self, rep, fn):
        self.rep, self.fn, self.i = rep, fn, sig(fn)
        self.px = ('arg', 0)
        self.deg = ('arg', 1)
        self.gcds = self.divs = 0
        self.opaque = False

    def frob(self, c, v):
        """(b,k) when v is congruent to x^(2^k)"""
        if not isinstance(v, tuple):
            return None
        if v[0] == 'frob':
            return v[1:]
        if v[0] == 'mono' and v[2] == 1 and isinstance(v[1], int) and v[1] > 0 and v[1] & (v[1] - 1) == 0:
            return (0, v[1].bit_length() - 1)
        return None

    def norm(self, c, v):
        P = c.obj(self.px)
        if not isinstance(v, tuple):
            return v
        if v[0] == 'mul' and v[1] == v[2]:
            f = self.frob(c, v[1])
            if f:
                return ('frob', f[0], f[1] + 1)
        if v[0] == 'mod':
            base = self.norm(c, v[1])
            f = self.frob(c, base)
            if v[2] == P or v[2] in (('modulus', P),):
                if f:
                    return ('frob',) + f
                if isinstance(base, tuple) and base[0] == 'artin':
                    return base
            elif isinstance(v[2], tuple) and v[2][0] in ('g', 'mono', 'frob', 'artin', 'const', 'badmod') and f:
                return ('badmod', v[2][0])
        if v[0] in ('add', 'sub'):
            a, b = v[1], v[2]
            for z in (a, b):
                if isinstance(z, tuple) and z[0] == 'badmod':
                    return z
            fa, fb = self.frob(c, a), self.frob(c, b)
            for f, g in ((fa, fb), (fb, fa)):
                if f and g == (0, 0) and f != (0, 0):
                    return ('artin',) + f
        return v

    def after(self, c):
        # the destination of an NTL operation
        if not c.q.startswith('NTL::'):
            return
        dests = [a for a in ([c.args[0]] if c.args else []) + list(c.extra) if a in c.mem]
        for a in dests:
            v = c.mem[a]
            if not isinstance(v, tuple):
                continue
            if a == self.px:
                continue
            n = self.norm(c, v)
            if n != v:
                c.put(a, n)
            if v[0] == 'gcd' and c.m == 'GCD':
                self.gcd(c, a, v)

    def call(self, c):
        # divisions and other writes of the argument
        self.before = c.obj(self.px)

    def gcd(self, c, a, v):
        P = c.obj(self.px)
        o = [x for x in v[1:] if x != P]
        if P not in v[1:]:
            c.put(a, ('unkgcd', ('id', c.x['i'])))
            self.rep.unk('factor', self.i + ' gcd', c.where(), 'gcd with another polynomial')
            self.opaque = True
            return
        o = o[0] if o else P
        if isinstance(o, tuple) and o[0] == 'artin':
            self.gcds += 1
            e, n = o[1:], c.us
            if n is None or n == ('top',):
                self.opaque = True
            elif e == n:
                self.rep.ok('factor', self.i + ' gcd', c.where(), 'gcd with x^(2^m)+x, m consecutive')
            elif e[0] == n[0] and e[1] > n[1]:
                self.rep.bad('factor', self.i + ' gcd', c.where(), 'factors of degree %s are not removed (exhaustively) before the step goes to m+%d; path %s' % ('m' if n[0] else n[1], e[1] - n[1], c.lines()))
            elif e[0] == n[0]:
                pass
            else:
                self.opaque = True
            c.put(a, ('g', P) + e)
        elif isinstance(o, tuple) and o[0] == 'badmod':
            self.rep.bad('factor', self.i + ' gcd', c.where(), 'x^(2^m) was reduced modulo something else than the polynomial being factored (%s)' % o[1])
            c.put(a, ('unkgcd', ('id', c.x['i'])))
            self.opaque = True
        elif isinstance(o, tuple) and o[0] in ('add', 'sub', 'frob', 'mono', 'zero', 'const') and self.exact(o):
            self.rep.bad('factor', self.i + ' gcd', c.where(), 'the gcd is taken with %r, which is not x^(2^m)+x' % (o,))
            c.put(a, ('unkgcd', ('id', c.x['i'])))
            self.opaque = True
        else:
            self.rep.unk('factor', self.i + ' gcd', c.where(), 'gcd with %s' % (o[0] if isinstance(o, tuple) else o))
            c.put(a, ('unkgcd', ('id', c.x['i'])))
            self.opaque = True

    def exact(self, t):
        if isinstance(t, int):
            return True
        if t[0] in ('frob', 'mono', 'zero', 'const', 'artin'):
            return True
        return t[0] in ('add', 'sub') and all(self.exact(x) for x in t[1:])

    def written(self, c):
        """after any event: has the argument been overwritten?"""

    def backedge(self, c, h):
        if c.us in (None, ('top',)):
            return
        self.advance(c)
        b, k = c.us
        # rename: next expected degree is E from here on
        m = dict(c.mem)
        for a, v in m.items():
            if isinstance(v, tuple) and v and v[0] == 'mono' and Fn.tbase(a)[0] != 'g' and (self.frob(c, v) or (0, 0)) != (0, 0):
                v = ('frob',) + self.frob(c, v)
            if isinstance(v, tuple) and v and v[0] in ('frob', 'artin') and v[1:] != (0, 0):
                if v[1] == b:
                    m[a] = (v[0], 'E', max(-3, min(5, v[2] - k)))
                elif v[1] == 'E':
                    m[a] = ('stale',)
        c.mem = m
        c.us = ('E', 0)

    def advance(self, c):
        P = c.obj(self.px)
        b, k = c.us
        if c.truth(('icmp', 'ne', ('p:IsOne', ('g', P, b, k)), 0)) is True or c.known('sle', ('p:deg', ('g', P, b, k)), 0) is True:
            c.us = (b, k + 1)

    def edge(self, c):
        if c.us not in (None, ('top',)):
            self.advance(c)


class FactorClient(Factor):
    def after(self, c):
        P0 = self.before
        super().after(c)
        v = c.mem.get(self.px)
        if v is not None and v != P0 and v != ('lh', self.px):
            # which operation wrote it?
            if isinstance(v, tuple) and v[0] == 'div' and v[1] == P0:
                d = v[2]
                self.divs += 1
                if isinstance(d, tuple) and d[0] == 'g' and d[1] == P0:
                    self.rep.ok('factor', self.i + ' divide', c.where(), 'divided by its gcd with x^(2^m)+x')
                elif isinstance(d, tuple) and d[0] == 'g':
                    self.rep.bad('factor', self.i + ' divide', c.where(), 'divided by a gcd computed before an earlier division: not a divisor any more; path ' + c.lines())
                elif isinstance(d, tuple) and d[0] in ('unkgcd', 'init', 'lh', 'hv', 'stale', 'gcd'):
                    self.rep.unk('factor', self.i + ' divide', c.where(), 'divisor unknown')
                    self.opaque = True
                else:
                    self.rep.bad('factor', self.i + ' divide', c.where(), 'divided by %r, which is not known to divide it' % (d,))
                c.put(self.px, ('P', ('id', c.x['i'])))
            elif isinstance(v, tuple) and v[0] == 'P':
                pass
            elif isinstance(v, tuple) and v[0] in ('hv', 'lh', 'ld'):
                self.opaque = True
            else:
                self.rep.bad('factor', self.i + ' divide', c.where(), 'the polynomial is replaced by %s, not by an exact quotient' % (v[0] if isinstance(v, tuple) else v,))
                c.put(self.px, ('P', ('id', c.x['i'])))

    def ret(self, c, val):
        w = c.where()
        for c2, truth in split_ret(c, val):
            P = c2.obj(self.px)
            deg = c2.known('eq', ('p:deg', P), self.deg)
            irr = known_true(c2, ('p:IterIrredTest', P))
            if truth:
                self.rep.verdict(deg is True, 'factor', self.i + ' yes-degree', w, 'answers yes while the remaining polynomial is not known to have the requested degree; path ' + c2.lines())
                self.rep.verdict(irr is True, 'factor', self.i + ' yes-irreducible', w, 'answers yes while the remaining polynomial is not known to be irreducible; path ' + c2.lines())
            else:
                low = c2.known('slt', ('p:deg', P), self.deg)
                if low is True or irr is False:
                    self.rep.ok('factor', self.i + ' no', w)
                elif deg is False:
                    good = True if low is True or c2.known('sle', ('p:deg', P), self.deg) is True else None
                    if good is None and any(len(k) == 3 and ((k[1] == ('p:deg', P) and k[2] != self.deg and contains(k[2], self.deg)) or (k[2] == ('p:deg', P) and k[1] != self.deg and contains(k[1], self.deg))) for k in c2.facts):
                        good = False
                    self.rep.verdict(good, 'factor', self.i + ' no', w, 'the sieve stops while the degree may still exceed the requested one, and the answer is no; path ' + c2.lines())
                elif self.opaque:
                    self.rep.unk('factor', self.i + ' no', w, '')
                else:
                    self.rep.bad('factor', self.i + ' no', w, 'answers no although neither the degree of the remaining polynomial is known to be below the requested one nor irreducibility to fail; path ' + c2.lines())


def factor(rep, P, f):
    mem0 = {}
    bad = False
    for x in f.calls():
        if P.cqual(x) == 'NTL::GF2X::GF2X':
            a = [f.val(o) for o in P.cargs(x)]
            if isinstance(a[0], tuple) and a[0][0] == 'g' and len(a) == 3 and isinstance(a[1], int) and isinstance(a[2], int):
                mem0[a[0]] = ('mono', a[1], a[2])
    cl = FactorClient(rep, f)
    s = Explore(rep, ['factor'])(f, P, cl, us0=(0, 1), mem0=mem0, keepfact=lambda k: True)
    if s is None:
        return
    if cl.gcds == 0 or cl.divs == 0:
        rep.unk('factor', sig(f) + ' gcd', f.where({}), 'no sieve step recognised')


# ---------------------------------------------------------------- drivers
def p03(prop, tier):
    rep = Report(prop, tier)
    rep.rule('functor-yes', 'the primitivity functor answers yes only for a polynomial of the given degree that is irreducible and, unless the period is known to be a Mersenne prime, passed the order test')
    rep.rule('functor-no', 'it answers no only when one of these is known to fail')
    rep.rule('default', 'the default functor takes the Mersenne path with an empty factor list; the other constructor does not')
    rep.rule('parse', 'all entries of a NULL-terminated decimal factor list are parsed and stored in order')
    rep.rule('mersenne', 'isPrime(poly) = irreducible and degree is a Mersenne exponent')
    rep.rule('order', 'isPrime(poly,degree,factors): degree, irreducibility, and x^((2^n-1)/p) != 1 for every listed p, nothing else')
    rep.rule('factor', 'the factor search divides only by gcd(poly, x^(2^m)+x), m = 1,2,.. without gaps, exhaustively, and answers yes exactly for an irreducible rest of the requested degree')
    rep.rule('mexp', 'membership in the exponent table compares every entry')
    P = prog()
    functor(rep, P)
    fs = {k: [f for f in P.fns.values() if re.match(rx, f.dem)] for k, rx in {
        'm': r'MTToolBox::isPrime\(NTL::GF2X const&\)$', 'v': r'MTToolBox::isPrime\(NTL::GF2X const&, int, NTL::Vec', 's': r'MTToolBox::isPrime\(NTL::GF2X const&, int, char',
        'h': r'MTToolBox::hasFactorOfDegree\(', 'i': r'MTToolBox::isIrreducible\(', 'x': r'MTToolBox::isMexp\('}.items()}
    for k, v in fs.items():
        if len(v) != 1:
            raise AnalysisBroken('period function %s: %d definitions' % (k, len(v)))
    isprime_mersenne(rep, P, fs['m'][0])
    isprime_factors(rep, P, fs['v'][0])
    isprime_strings(rep, P, fs['s'][0])
    factor(rep, P, fs['h'][0])
    ismexp(rep, P, fs['x'][0])
    f = fs['i'][0]

    class C(Client):
        def ret(self, c, val):
            for c2, truth in split_ret(c, val):
                v = known_true(c2, ('p:IterIrredTest', ('init', ('arg', 0))))
                rep.verdict(v is truth if v is not None else None, 'mersenne', sig(f), c2.where(), 'answers %s when NTL answers %s' % (truth, v))
    # isIrreducible itself must reach NTL
    Explore(rep, ['mersenne'])(f, P, C(), keepfact=lambda k: True)
    return finish(rep, 'other', 'Path-sensitive dataflow over the normalised IR of the primitivity functor, isPrime/isMexp/hasFactorOfDegree; NTL operations modelled by their contracts; loop coverage from scalar evolution; the sieve is tracked in a domain of Frobenius powers modulo the current polynomial.', floor=12)


# ---------------------------------------------------------------- P04
def is_prime(n):
    if n < 2:
        return False
    sm = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101]
    for p in sm:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in sm:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def p04(prop, tier):
    rep = Report(prop, tier)
    rep.rule('factors', 'the list named for N holds exactly the distinct prime divisors of 2^N-1, as plain decimal strings, NULL-terminated')
    rep.rule('mexp-table', 'every positive entry is a Mersenne exponent and none up to 25964951 is missing')
    P = prog(ast=True)
    n = 0
    for g, x in sorted(P.globals.items()):
        m = re.search(r'prime_factors2_(\d+)_1$', x['dem'])
        if not m:
            continue
        N = int(m.group(1))
        n += 1
        nm = x['dem'].split('::')[-1]
        w = '%s:%d' % (x['src'], x['line'])
        init = x.get('init', [''])
        rep.analysed['files'].add(x['src'])
        if init[0] != 'arr':
            rep.unk('factors', nm, w, 'not a constant initialiser')
            continue
        M = 2 ** N - 1
        rest = M
        seen = set()
        err = None
        term = False
        for k, e in enumerate(init[1]):
            rep.calls()
            if e[0] == 'null':
                term = True
                break
            s = string_of(P, e[1]) if e[0] == 'g' else None
            if s is None:
                err = 'entry %d is not a string literal' % k
                break
            if not re.fullmatch(r'[0-9]+', s):
                err = 'entry %d (%r) is not a decimal number' % (k, s)
                break
            p = int(s)
            if p in seen:
                err = 'entry %d repeats %d' % (k, p)
            elif p < 2 or M % p:
                err = 'entry %d (%s) does not divide 2^%d-1' % (k, s, N)
            elif not is_prime(p):
                err = 'entry %d (%s) is not prime' % (k, s)
            if err:
                break
            seen.add(p)
            while rest % p == 0:
                rest //= p
        if not err and not term:
            err = 'no terminating NULL'
        if not err and rest != 1:
            err = 'the list is incomplete: cofactor %d of 2^%d-1 is not covered' % (rest, N) if rest < 10 ** 30 else 'the list is incomplete: a %d-bit cofactor of 2^%d-1 is not covered' % (rest.bit_length(), N)
        rep.verdict(err is None, 'factors', nm, w, err or '%d primes' % len(seen))
    decl = {r for r in re.findall(r'prime_factors2_\d+_1', open(__import__('mtv.build', fromlist=['REPO']).REPO + '/include/MTToolBox/AlgorithmPrimitivity.hpp').read())}
    have = {x['dem'].split('::')[-1] for x in P.globals.values() if 'init' in x}
    for d in sorted(decl):
        rep.verdict(d in have, 'factors', d + ' defined', '', 'declared but not defined')
    # exponent table: the constant table isMexp scans
    f = [f for f in P.fns.values() if f.dem.startswith('MTToolBox::isMexp(')]
    tabs = set()
    for fn in f:
        rep.fn(fn)
        for x in fn.insts():
            for o in x.get('ops', []):
                if isinstance(o, list) and o and o[0] == 'g' and P.globals.get(o[1], {}).get('init', [''])[0] == 'arr':
                    tabs.add(o[1])
    if len(tabs) == 1:
        x = P.globals[tabs.pop()]
        vals = [int(e[1]) for e in x['init'][1]]
        w = '%s:%d' % (x['src'], x['line'])
        pos = vals[:next((k for k, v in enumerate(vals) if v <= 0), len(vals))]
        extra = [v for v in pos if v not in MEXP]
        miss = [v for v in MEXP if v <= 25964951 and v not in pos]
        rep.calls(len(vals))
        rep.verdict(not extra, 'mexp-table', 'entries', w, '%s is not a Mersenne exponent' % (extra[:1],))
        rep.verdict(not miss, 'mexp-table', 'complete', w, 'Mersenne exponent %s is missing' % (miss[:1],))
    else:
        rep.unk('mexp-table', 'entries', '', 'the exponent table was not found')
    if n < 17:
        rep.note('%d tables' % n)
    return finish(rep, 'other', 'Constant-initialiser analysis: the initialisers of the factor lists and of the exponent table are read from the IR and checked with exact integer arithmetic (Miller-Rabin with 26 bases for primality).', floor=10)
