"""P16: the bit utilities compute exactly what their names say, for every input"""
from .. import core
from ..bdd import BDD
from ..bits import Bits, Ptr, Need
from ..facts import TooComplex
from ..build import REPO, AnalysisBroken
from ..report import Report, finish

SHORT = {'unsigned short': 'u16', 'unsigned int': 'u32', 'unsigned long': 'u64'}
W = {'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64}


def loc(f):
    for x in f.insts():
        l = x.get('loc')
        if l and l[0].startswith(REPO):
            return f.where(x)
    return f.where({})


def one(P, rx):
    r = P.find(rx=rx)
    return r[0] if len(r) == 1 else (r[0] if r else None)


def witness(B, f, words):
    """input values that make f true"""
    a = B.sat(f)
    r = {}
    for n, w in words.items():
        r[n] = sum(a.get((n, i), 0) << i for i in range(w))
    return ', '.join('%s=%s' % (n, hex(v)) for n, v in r.items())


def differ(B, g, v, spec):
    """a condition under which v and spec differ in some bit (0: never)"""
    if len(v) != len(spec):
        raise Need('width of the result')
    for a, b in zip(v, spec):
        d = B.and_(g, B.xor(a, b))
        if d:
            return d
    return 0


def run(P, rep, rule, item, rx, args, spec, words, B, pre=1, mem=None, hook=None, load=None, after=None):
    """decides one function: result canonical form = specification canonical form under pre"""
    f = one(P, rx) if isinstance(rx, str) else rx
    if f is None:
        raise AnalysisBroken('function not found: ' + str(rx))
    rep.fn(f)
    w = loc(f)
    try:
        m = Bits(f, args, mem=mem, hook=hook, B=B, pre=pre, load=load).run()
        for g, x, what in m.ub:
            bad = B.and_(g, pre)
            if bad:
                rep.bad('defined', item, f.where(x), '%s for %s' % (what, witness(B, bad, words)))
        if not m.ub:
            rep.ok('defined', item, w)
        if after is not None:
            after(m, f, w)
            return
        got = 0
        for g, v, _ in m.rets:
            got = B.or_(got, g)
            d = differ(B, B.and_(g, pre), v, spec)
            if d:
                rep.bad(rule, item, w, 'wrong result for %s' % witness(B, d, words))
                return
        miss = B.and_(pre, B.no(got))
        if miss:
            rep.bad(rule, item, w, 'no result for %s' % witness(B, miss, words))
            return
        rep.ok(rule, item, w)
    except (Need, TooComplex) as e:
        rep.unk(rule, item, w, str(e))


# ---------------------------------------------------------------- specifications
def lowest(B, x):
    """-1 for 0, otherwise width-1 minus the number of trailing zeros"""
    w = len(x)
    r = B.const((1 << 32) - 1, 32)
    for k in range(w - 1, -1, -1):
        r = B.muxw(x[k], B.const(w - 1 - k, 32), r)
    return r


def top(B, x):
    """largest power of two not above x (0 for 0)"""
    seen, r = 0, []
    for b in reversed(x):
        r.append(B.and_(b, B.no(seen)))
        seen = B.or_(seen, b)
    return r[::-1]


def bit_functions(P, rep):
    for n, w in ((16, 16), (32, 32), (64, 64)):
        B = BDD()
        x = B.word('x', w)
        run(P, rep, 'count', 'count_bit %d' % w, r'^mtv_use%dc\(' % n, [x], B.popcount(x, 32), {'x': w}, B)
        B = BDD()
        x = B.word('x', w)
        run(P, rep, 'lowest', 'calc_1pos %d' % w, r'^mtv_use%dp\(' % n, [x], lowest(B, x), {'x': w}, B)
        if w > 16:
            B = BDD()
            x = B.word('x', w)
            run(P, rep, 'reverse', 'reverse_bit %d' % w, r'^mtv_use%dr\(' % n, [x], x[::-1], {'x': w}, B)
    for T in ('unsigned int', 'unsigned long'):
        w, s = W[T], SHORT[T]
        lg = w.bit_length() - 1
        B = BDD()
        pos = B.word('pos', 32, lg)
        b = B.word('b', 32)
        x = B.word('x', w)
        run(P, rep, 'position', 'getBitOfPos ' + s, r'MTToolBox::getBitOfPos<%s>\(' % T, [x, pos], [B.shift(x, pos, 'lshr')[0]] + [0] * 31, {'x': w, 'pos': lg}, B)
        here = B.shift(B.const(1, w), pos, 'shl')
        want = [B.ite(h, b[0], v) for h, v in zip(here, x)]

        def after(m, f, wh, B=B, want=want, w=w, s=s):
            for g, v, mem in m.rets:
                out = mem.get(('out', 0, w), m.mem0[('out', 0, w)])
                d = differ(B, g, out, want)
                rep.verdict(d == 0, 'position', 'setBitOfPos ' + s, wh, 'wrong word for ' + witness(B, d, {'x': w, 'pos': 6, 'b': 32}) if d else '')
                others = [k for k in mem if k[0] == 'out' and k != ('out', 0, w)]
                if others:
                    rep.bad('position', 'setBitOfPos ' + s, wh, 'writes outside the word')
        run(P, rep, 'position', 'setBitOfPos ' + s, r'MTToolBox::setBitOfPos<%s>\(' % T, [Ptr('out', B.const(0, 64)), pos, b], None, {'x': w, 'pos': lg, 'b': 32}, B,
            mem={('out', 0, w): x}, after=after)
        B = BDD()
        x = B.word('x', w)
        run(P, rep, 'basic', 'isZero ' + s, r'bool MTToolBox::isZero<%s>\(' % T, [x], [B.no(B.any(x))], {'x': w}, B)
        run(P, rep, 'basic', 'getOne ' + s, r'MTToolBox::getOne<%s>\(' % T, [], B.const(1, w), {}, B)
        run(P, rep, 'basic', 'bit_size ' + s, r'MTToolBox::bit_size<%s>\(' % T, [], B.const(w, 32), {}, B)

        def after0(m, f, wh, B=B, w=w, s=s):
            for g, v, mem in m.rets:
                out = mem.get(('out', 0, w), m.mem0[('out', 0, w)])
                rep.verdict(B.cval(out) == 0, 'basic', 'setZero ' + s, wh, 'the word is not 0 afterwards')
        run(P, rep, 'basic', 'setZero ' + s, r'MTToolBox::setZero<%s>\(' % T, [Ptr('out', B.const(0, 64))], None, {'x': w}, B, mem={('out', 0, w): x}, after=after0)
    for a, b in (('unsigned int', 'unsigned long'), ('unsigned long', 'unsigned int')):
        B = BDD()
        x = B.word('x', W[b])
        run(P, rep, 'basic', 'convert %s to %s' % (SHORT[b], SHORT[a]), r'MTToolBox::convert<%s, %s>\(' % (a, b), [x], (x + [0] * 32)[:W[a]], {'x': W[b]}, B)


def floor2p(P, rep):
    for T in ('unsigned short', 'unsigned int', 'unsigned long'):
        w = W[T]
        B = BDD()
        x = B.word('n', w)
        pre = B.any(x)
        item = 'floor2p ' + SHORT[T]
        f = one(P, r'MTToolBox::floor2p<%s>\(' % T)
        if f is None:
            raise AnalysisBroken(item + ' not found')

        def hook(m, i, args, g, mem, B=B, x=x, f=f, w=w, item=item):
            if i.get('callee') != f.name or not args or args[0] is None:
                return NotImplemented
            # induction: a call with a smaller positive argument returns what the function promises
            a = (args[0] + [0] * w)[:w]
            d = B.and_(g, B.no(B.and_(B.ult(a, x), B.any(a))))
            if d:
                rep.bad('floor2p', item, f.where(i), 'calls itself with a value that is not smaller and positive for ' + witness(B, d, {'n': w}))
            return (top(B, a) + [0] * 32)[:len(args[0])]
        run(P, rep, 'floor2p', item, f, [x], top(B, x), {'n': w}, B, pre=pre, hook=hook)


def ranges(P, rep):
    for T in ('unsigned int', 'unsigned long'):
        w = W[T]
        f = one(P, r'MTToolBox::get_range<%s>\(' % T)
        if f is None:
            raise AnalysisBroken('get_range not found')
        for lo, hi in ((0, 0), (1, 1), (0, 1), (1, 31), (3, 13), (-3, 4), (0, 255), (10, 109), (0, 2147483646)):
            B = BDD()
            x = B.word('input', w)
            item = 'get_range %s [%d,%d]' % (SHORT[T], lo, hi)
            k = hi - lo + 1
            if k > 4096 and w == 64:
                continue
            if k > 4096:
                # too many residues for a canonical form: small inputs only
                x = x[:16] + [0] * 16
            _, r = B.udivrem(x, B.const(k, w))
            spec = B.add(r[:32], B.const(lo & 0xffffffff, 32))
            run(P, rep, 'range', item, f, [x, B.const(lo & 0xffffffff, 32), B.const(hi & 0xffffffff, 32)], spec, {'input': w}, B)
        for lo, hi in ((1, 0), (5, -5)):
            B = BDD()
            x = B.word('input', w)

            def after(m, f, wh, B=B, lo=lo, hi=hi, T=T):
                g = 0
                for r in m.rets:
                    g = B.or_(g, r[0])
                rep.verdict(g == 0 and bool(m.throws), 'range', 'get_range %s empty' % SHORT[T], wh, 'a value is returned for the empty range [%d,%d]' % (lo, hi))
            run(P, rep, 'range', 'get_range %s empty' % SHORT[T], f, [x, B.const(lo & 0xffffffff, 32), B.const(hi & 0xffffffff, 32)], None, {'input': w}, B, after=after,
                hook=lambda m, i, a, g, mem: Ptr(('exc',), m.B.const(0, 64)) if (i.get('callee') or '') == '__cxa_allocate_exception' else None)


def tables(P, rep):
    for T in ('unsigned int', 'unsigned long'):
        w = W[T]
        f = one(P, r'MTToolBox::fill_table<%s>\(' % T)
        if f is None:
            raise AnalysisBroken('fill_table not found')
        for n in (0, 1, 2, 3, 5, 8, 16, 32):
            B = BDD()
            need = max(0, (n - 1)).bit_length()
            src = [B.word('src%d' % k, w) for k in range(need)]
            dst = [B.word('dst%d' % k, w) for k in range(n)]
            mem = {('src', k * w // 8, w): v for k, v in enumerate(src)}
            mem.update({('dst', k * w // 8, w): v for k, v in enumerate(dst)})
            item = 'fill_table %s' % SHORT[T]

            def after(m, f, wh, B=B, n=n, src=src, dst=dst, item=item, w=w):
                for g, v, mm in m.rets:
                    for k, val in mm.items():
                        if k[0] == 'src':
                            if val != m.mem0.get(k):
                                rep.bad('table', item, wh, 'changes the source table')
                            continue
                        if k[0] != 'dst':
                            continue
                        i = k[1] * 8 // w
                        if i >= n or k[2] != w:
                            rep.bad('table', item, wh, 'writes outside a table of %d entries' % n)
                            continue
                        want = dst[i]
                        for j in range(i.bit_length()):
                            if (i >> j) & 1:
                                want = [B.xor(p, q) for p, q in zip(want, src[j])]
                        if val != want:
                            rep.bad('table', item, wh, 'entry %d of %d is not the XOR of the source entries of its bits' % (i, n))
                            return
                rep.ok('table', item + ' size %d' % n, wh)
            def load(m, base, off, width, n=n, w=w, f=f, item=item):
                if base == 'dst' and not 0 <= off < n * w // 8:
                    rep.bad('table', item, loc(f), 'reads entry %d of a table of %d' % (off * 8 // w, n))
                    return [0] * width
                return None
            run(P, rep, 'table', item + ' size %d' % n, f, [Ptr('dst', B.const(0, 64)), Ptr('src', B.const(0, 64)), B.const(n, 32)], None, {}, B, mem=mem, after=after, load=load)


# ---------------------------------------------------------------- NTL vectors
def vectors(P, rep):
    for T in ('unsigned int', 'unsigned long'):
        w = W[T]
        f = one(P, r'^mtv_to%d\(' % w)
        if f is None:
            raise AnalysisBroken('toGF2Vec not found')
        B = BDD()
        x = B.word('x', w)
        item = 'toGF2Vec ' + SHORT[T]

        def index(B, o):
            return None if o is None or isinstance(o, Ptr) else B.cval(o, True)

        def hook(m, i, a, g, mem, B=B):
            n = i.get('cdem') or ''
            if 'SetLength' in n:
                k = index(B, a[1])
                if k is None or g != 1:
                    raise Need('length')
                mem[('vecdata', -1, 'len')] = B.const(k, 64)
                return None
            if '::put(' in n:
                k = index(B, a[1])
                if k is None:
                    raise Need('index')
                v = bit_of(B, a[2])
                mem[('vecdata', k, 'el')] = [v]
                return None
            return vec_common(m, i, a, g, mem)

        def after(m, f, wh, B=B, x=x, w=w, item=item):
            for g, v, mem in m.rets:
                n = B.cval(mem.get(('vecdata', -1, 'len'), [0]))
                rep.verdict(n == w, 'vector', item + ' length', wh, 'the vector gets length %s' % n)
                got = [mem.get(('vecdata', k, 'el'), [0])[0] for k in range(w)]
                wrong = [k for k in range(w) if got[k] != x[w - 1 - k]]
                out = [k for k in mem if k[0] == 'vecdata' and k[2] == 'el' and not 0 <= k[1] < w]
                rep.verdict(not wrong and not out, 'vector', item, wh, 'element %s is not bit %s' % (wrong[:1], [w - 1 - k for k in wrong[:1]]))
        run(P, rep, 'vector', item, f, [Ptr('vec', B.const(0, 64)), x], None, {'x': w}, B, hook=hook, after=after, load=lambda m, b, o, ww: [0] if b == 'vecdata' else None)
        f = one(P, r'^mtv_from%d\(' % w)
        if f is None:
            raise AnalysisBroken('fromGF2Vec not found')
        B = BDD()
        v = [B.var(('v%d' % k, 0)) for k in range(w)]
        item = 'fromGF2Vec ' + SHORT[T]

        def hook2(m, i, a, g, mem, B=B, v=v, w=w, f=f, item=item):
            n = i.get('cdem') or ''
            if '::operator[]' in n or '::get(' in n or '::at(' in n or '::operator()' in n:
                k = index(B, a[-1])
                if k is None:
                    raise Need('index')
                if '::operator()' in n:
                    k -= 1
                if not 0 <= k < w:
                    rep.bad('vector', item, f.where(i), 'reads element %d of %d' % (k, w))
                    return [0] * 64
                t = (i.get('ty') or '')
                e = Ptr(('elem', k), B.const(0, 64))
                return [v[k]] + [0] * 63 if t == 'i64' else e if t == 'ptr' else (e, B.const(0, 64))
            if 'length' in n:
                return B.const(w, 64)
            return vec_common(m, i, a, g, mem, v)

        def load(m, base, off, width):
            if isinstance(base, tuple) and base[0] == 'elem':
                return ([v[base[1]]] + [0] * 63)[:width]
            return None
        run(P, rep, 'vector', item, f, [Ptr('vec', B.const(0, 64))], v[::-1], {'v%d' % k: 1 for k in range(w)}, B, hook=hook2, load=load)


def bit_of(B, o):
    if o is None or isinstance(o, Ptr):
        raise Need('bit value')
    return o[0]


def vec_common(m, i, a, g, mem, v=None):
    """small NTL helpers on GF2 values and elements"""
    n = i.get('cdem') or ''
    B = m.B

    def gf2(o):
        if isinstance(o, Ptr):
            if isinstance(o.base, tuple) and o.base[0] == 'elem':
                return v[o.base[1]]
            r = m.load(o, 64, mem)
            return gf2(r) if isinstance(r, Ptr) else r[0]
        if o is None:
            raise Need('GF2 value')
        return o[0]
    q = n.split('(')[0].split('::')[-1]
    if q in ('GF2', 'ref_GF2') and isinstance(a[0], Ptr) and len(a) > 1:
        # an element value or reference made from another one
        k = m.addr(a[0])
        if k is None:
            raise Need('GF2 value')
        src = m.load(a[1], 64, mem) if isinstance(a[1], Ptr) else a[1]
        if q == 'ref_GF2':
            mem[k + (64,)] = a[1] if isinstance(a[1], Ptr) and not isinstance(src, Ptr) else src
        else:
            mem[k + (64,)] = [gf2(src if isinstance(src, Ptr) else a[1])] + [0] * 63
        return None
    if q in ('IsZero',):
        return [B.no(gf2(a[0]))]
    if q in ('IsOne',):
        return [gf2(a[0])]
    if q == 'rep':
        return [gf2(a[0])] + [0] * 63
    if q in ('operator==', 'operator!='):
        x, y = (gf2(o) for o in a[:2])
        r = B.xor(x, y)
        return [B.no(r) if q == 'operator==' else r]
    return NotImplemented


# ---------------------------------------------------------------- text
def outputs(P, rep):
    f = one(P, r'^mtv_pb\(')
    if f is None:
        raise AnalysisBroken('print_binary not found')
    for d in (-1, 0, 1, 30, 31, 32, 63, 64, 70):
        for brk in (1, 0):
            B = BDD()
            c = [B.var(('c%d' % k, 0)) for k in range(d + 1)]
            ev = []
            txt = text_hook(P, B, d, c, ev)

            def after(m, f, wh, B=B, d=d, brk=brk, c=c, ev=ev):
                want = []
                if d < 0:
                    want = [(1, ch) for ch in '0deg=-1\n']
                else:
                    for k in range(d + 1):
                        want.append(c[k])
                        if brk and k % 32 == 31:
                            want.append((1, '\n'))
                    want += [(1, ch) for ch in 'deg=%d\n' % d]
                why = match(B, ev, want)
                rep.verdict(True if why is None else False if why else None, 'text', 'print_binary' + ('' if brk else ' without breaks'), wh, 'degree %d: %s' % (d, why))
            run(P, rep, 'text', 'print_binary' + ('' if brk else ' without breaks'), f, [Ptr('os', B.const(0, 64)), Ptr('poly', B.const(0, 64)), [brk]], None, {}, B, hook=txt, after=after)


def match(B, ev, want):
    """compares guarded output events with the expected text; None when equal, text otherwise"""
    flat = []
    for g, s in ev:
        if isinstance(s, str):
            flat += [(g, ch) for ch in s]
        else:
            flat.append((g, s))
    i = 0
    for n, wnt in enumerate(want):
        alts = [(1, wnt[1])] if isinstance(wnt, tuple) else [(wnt, '1'), (B.no(wnt), '0')]
        # consume events until the position is covered
        left = {ch: g for g, ch in alts}
        cov = 0
        while cov != 1:
            if i >= len(flat):
                return 'output ends after %d characters' % n
            g, ch = flat[i]
            i += 1
            if g == 0:
                continue
            if not isinstance(ch, str):
                return ''
            if B.and_(g, cov) != 0:
                return 'too much output at character %d' % n
            if B.and_(g, B.no(left.get(ch, 0))) != 0:
                return 'character %d is %r' % (n, ch)
            cov = B.or_(cov, g)
    rest = [x for x in flat[i:] if x[0] != 0]
    return 'more output than expected: %r' % rest[0][1] if rest else None


def text_hook(P, B, d, c, ev):
    def gstr(p):
        if not isinstance(p, Ptr) or not (isinstance(p.base, tuple) and p.base[0] == 'g'):
            raise Need('text')
        init = P.globals.get(p.base[1], {}).get('init')
        if not init or init[0] != 'str':
            raise Need('text')
        b = bytes(init[1])[B.cval(p.off):]
        return b.split(b'\0')[0].decode('latin1')

    def hook(m, i, a, g, mem):
        n = i.get('cdem') or i.get('callee') or ''
        q = n.split('(')[0].split('::')[-1]
        if q == 'deg':
            return B.const(d & (2 ** 64 - 1), 64)
        if q in ('coeff', 'ConstTerm', 'LeadCoeff'):
            k = B.cval(a[1], True) if q == 'coeff' else 0 if q == 'ConstTerm' else d
            if k is None:
                raise Need('index')
            return [c[k] if 0 <= k <= d else 0] + [0] * 63
        if 'operator<<' in n or n.endswith('::put(char)') or '::write(' in n:
            os = a[0]
            if not isinstance(os, Ptr) or os.base != 'os':
                return NotImplemented
            o = i['ops'][1]
            v = a[1]
            if o[0] == 'fn':
                ev.append((g, '\n' if 'endl' in o[1] else ''))
            elif isinstance(v, Ptr):
                ev.append((g, gstr(v)))
            elif v is not None:
                if 'char>(' in n and 'char)' in n or n.endswith('(char)') or len(v) == 8:
                    for ch in '01\n':
                        e = B.and_(g, B.eq(v, B.const(ord(ch), len(v))))
                        if e:
                            ev.append((e, ch))
                            g = B.and_(g, B.no(e))
                    if g:
                        ev.append((g, B.cval(v) if B.cval(v) is None else chr(B.cval(v))))
                else:
                    k = B.cval(v, True)
                    if k is not None:
                        ev.append((g, str(k)))
                    else:
                        for t in (0, 1):
                            e = B.and_(g, B.eq(v, B.const(t, len(v))))
                            if e:
                                ev.append((e, str(t)))
                                g = B.and_(g, B.no(e))
                        if g:
                            ev.append((g, None))
            else:
                ev.append((g, None))
            return a[0]
        if n.startswith('std::ostream::flush') or 'ostream::flush' in n:
            return a[0]
        return vec_common(m, i, a, g, mem)
    return hook


def p16(prop, tier):
    rep = Report(prop, tier)
    rep.rule('count', 'count_bit is the number of one bits')
    rep.rule('lowest', 'calc_1pos is -1 for 0 and otherwise the index, counted from the top, of the lowest one bit')
    rep.rule('reverse', 'reverse_bit maps bit i to bit w-1-i')
    rep.rule('position', 'getBitOfPos reads exactly the addressed bit; setBitOfPos changes exactly the addressed bit, to the lowest bit of its argument')
    rep.rule('basic', 'bit_size, getOne, setZero, isZero and convert are exact')
    rep.rule('floor2p', 'floor2p(n) is the largest power of two not above n, for every positive n (induction on n)')
    rep.rule('range', 'get_range(x, a, b) is a + x mod (b-a+1), and refuses an empty range')
    rep.rule('table', 'fill_table XORs into entry i exactly the source entries selected by the bits of i')
    rep.rule('vector', 'toGF2Vec and fromGF2Vec put bit w-1-i at element i')
    rep.rule('text', 'print_binary writes the coefficients from degree 0, broken after every 32 when asked, and the degree')
    rep.rule('defined', 'no input makes the function overflow a signed number, shift by the word width or read outside its table')
    P = core.prog(keep=[], ast=False, passes='function(sroa,loop-simplify)')
    bit_functions(P, rep)
    floor2p(P, rep)
    ranges(P, rep)
    tables(P, rep)
    vectors(P, rep)
    outputs(P, rep)
    return finish(rep, 'other', 'Bit-level abstract interpretation: every result bit is a canonical decision diagram over the input bits, compared for identity with the specification; covers all inputs of each function (get_range: all inputs for listed ranges; fill_table and print_binary: all contents for listed sizes).', floor=10)
