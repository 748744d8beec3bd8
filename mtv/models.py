"""Models of the calls the analyses do not look into: NTL, the generator
interface, the C++ runtime, and repository functions that are analysed on
their own (minpoly, annihilate, ...).  A model maps abstract argument values to
an abstract result; none of them computes a polynomial."""
from .facts import Fn

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def A(c, k):
    return c.args[k] if k < len(c.args) else None


def sret(c):
    return c.extra[0] if c.extra else None


# ------------------------------------------------------------------ default
def default(c):
    """unknown function: every object reachable from a pointer argument may change"""
    if c.m.startswith('llvm.'):
        return llvm(c)
    for a in list(c.args) + list(c.extra):
        if isinstance(a, tuple) and a[0] in ('new', 'at', 'arg', 'call', 'ld', 'ix'):
            b = Fn.tbase(a)
            if b[0] == 'arg' and not ptr_arg(c, b[1]):
                continue
            touched = any(isinstance(k, tuple) and (k == b or Fn.tbase(k) == b) for k in c.mem)
            if touched or b[0] == 'new':
                c.sym.havoc(c, b)


def ptr_arg(c, k):
    return c.fn.j['args'][k]['ty'] == 'ptr'


MODELS['default'] = default


def llvm(c):
    n = c.m
    if n.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
        a, b = c.args
        if isinstance(a, int) and isinstance(b, int):
            c.val = max(a, b) if 'max' in n else min(a, b)
        else:
            a, b = sorted((a, b), key=repr)
            c.val = (n.split('.')[1], a, b)
    elif n.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
        d = c.args[0]
        b = Fn.tbase(d)
        ln = c.args[2]
        if 'memset' in n and c.args[1] == 0 and isinstance(ln, int) and ln <= 256 and isinstance(d, tuple) and d[0] != 'ix':
            # zero every slot: a later load of any width sees 0
            o = d[2] if d[0] == 'at' else 0
            from .facts import addoff
            for k in range(0, ln):
                if (k + o) % 4 == 0 or ln < 4:
                    c.put(addoff(b, o + k), 0)
            return
        if not 'memset' in n and isinstance(ln, int) and ln <= 256:
            s = c.args[1]
            from .facts import addoff
            so = s[2] if isinstance(s, tuple) and s[0] == 'at' else 0
            do = d[2] if isinstance(d, tuple) and d[0] == 'at' else 0
            sb = Fn.tbase(s)
            if d[0] != 'ix' and (not isinstance(s, tuple) or s[0] != 'ix'):
                copied = {}
                for k in range(0, ln):
                    v = c.mem.get(addoff(sb, so + k))
                    if v is not None:
                        copied[addoff(b, do + k)] = v
                c.sym.havoc(c, b, 'hv') if b != sb else None
                for k, v in copied.items():
                    c.put(k, v)
                return
        c.sym.havoc(c, b)


def ignore(c):
    pass


for n in ('operator delete', 'operator delete[]', '__cxa_atexit', '__cxa_guard_release', 'time', 'ctime',
          'std::ostream::operator<<', 'std::setw', 'std::setfill', 'std::operator<<', 'std::swap_ignored',
          'llvm.stacksave.p0', 'llvm.stackrestore.p0', 'operator new', 'operator new[]'):
    MODELS[n] = ignore


class _Prefix(dict):
    def get(self, k, d=None):
        r = dict.get(self, k, d)
        if r is None and isinstance(k, str) and k.startswith('std::operator<<'):
            return ignore
        return r


MODELS = _Prefix(MODELS)


def model(*names):          # noqa: rebinding onto the prefix-aware table
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


# ------------------------------------------------------------------ shared_ptr, swap
@model('std::shared_ptr::shared_ptr')
def sp_ctor(c):
    if len(c.args) == 1:
        c.put(c.args[0], 0)
    elif len(c.args) == 2:
        src = c.args[1]
        d = c.x.get('cdem', '')
        if 'shared_ptr const&)' in d or 'shared_ptr&&)' in d or d.rstrip().endswith('const&)') or d.rstrip().endswith('&&)'):
            c.put(c.args[0], c.load(src))
        else:
            c.put(c.args[0], src)


@model('std::shared_ptr::operator=')
def sp_assign(c):
    c.put(c.args[0], c.load(c.args[1]))
    c.val = c.args[0]


@model('std::__shared_ptr_access::operator*', 'std::__shared_ptr_access::operator->', 'std::__shared_ptr::get', 'std::shared_ptr::get')
def sp_get(c):
    c.val = c.load(c.args[0])


@model('std::__shared_ptr::~__shared_ptr', 'std::shared_ptr::~shared_ptr')
def sp_dtor(c):
    pass


@model('std::swap')
def swap(c):
    a, b = c.args[0], c.args[1]
    x, y = c.load(a), c.load(b)
    c.put(a, y)
    c.put(b, x)


# ------------------------------------------------------------------ GF2X / ZZ / Vec values
def obj(c, a):
    return c.obj(a)


@model(('NTL::GF2X::GF2X', 1), ('NTL::ZZ::ZZ', 1))
def z_ctor(c):
    c.put(c.args[0], ('zero',))


@model(('NTL::GF2X::GF2X', 2), ('NTL::ZZ::ZZ', 2))
def copy_ctor(c):
    d = c.x.get('cdem', '')
    if '&)' in d or '&&)' in d:
        c.put(c.args[0], obj(c, c.args[1]))
    elif isinstance(c.args[1], int) or 'long' in d:
        c.put(c.args[0], ('const', c.args[1]))
    else:
        c.put(c.args[0], ('zero',))


@model(('NTL::GF2X::GF2X', 3))
def mono(c):
    c.put(c.args[0], ('mono', c.args[1], c.args[2]))


@model('NTL::GF2X::operator=', 'NTL::ZZ::operator=')
def assign(c):
    d = c.x.get('cdem', '')
    c.put(c.args[0], ('const', c.args[1]) if not ('&)' in d) else obj(c, c.args[1]))
    c.val = c.args[0]


@model('NTL::GF2X::~GF2X', 'NTL::ZZ::~ZZ')
def kill(c):
    if c.args[0] in c.mem:
        m = dict(c.mem)
        del m[c.args[0]]
        c.mem = m


def scalar(c, a, k):
    """argument k as a value: an object (by reference) or a plain integer"""
    d = c.x.get('cdem', '')
    return a


def argval(c, k):
    """abstract value of argument k of an NTL function, decided by its parameter type"""
    d = c.x.get('cdem', '')
    ps = params(d)
    off = len(ps) - len(c.args)
    t = ps[k + off] if 0 <= k + off < len(ps) else ''
    if '&' in t:
        return obj(c, c.args[k])
    return c.args[k]


def params(d):
    i = d.rfind('(')
    depth = 0
    # matching the last top-level parameter list
    j = len(d)
    end = d.rfind(')')
    k = end
    dep = 0
    while k >= 0:
        if d[k] == ')':
            dep += 1
        elif d[k] == '(':
            dep -= 1
            if dep == 0:
                break
        k -= 1
    s = d[k + 1:end]
    r, dep, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            dep += 1
        elif ch in '>)':
            dep -= 1
        if ch == ',' and dep == 0:
            r.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        r.append(cur.strip())
    return r


def binop(name, comm=False):
    def f(c):
        if c.extra:              # r = a op b
            a, b = argval(c, 0), argval(c, 1)
            r = c.extra[0]
        elif len(c.args) == 3:   # op(r, a, b)
            a, b = argval(c, 1), argval(c, 2)
            r = c.args[0]
        elif len(c.args) == 2:
            a, b = argval(c, 0), argval(c, 1)
            r = c.args[0]
        else:
            return default(c)
        if comm:
            a, b = sorted((a, b), key=repr)
        c.put(r, (name, a, b))
        c.val = r if not c.extra else None
    return f


for n, (k, comm) in {'add': ('add', True), 'operator+': ('add', True), 'operator+=': ('add', True),
                     'sub': ('sub', False), 'operator-': ('sub', False), 'operator-=': ('sub', False),
                     'mul': ('mul', True), 'operator*': ('mul', True), 'operator*=': ('mul', True),
                     'div': ('div', False), 'operator/': ('div', False), 'operator/=': ('div', False),
                     'rem': ('mod', False), 'operator%': ('mod', False), 'operator%=': ('mod', False),
                     'GCD': ('gcd', True), 'power': ('power', False)}.items():
    MODELS['NTL::' + n] = binop(k, comm)


@model('NTL::sqr')
def sqr(c):
    v = argval(c, 1)
    c.put(c.args[0], ('mul', v, v))


@model('NTL::SqrMod')
def sqrmod(c):
    m = obj(c, c.args[2])
    v = obj(c, c.args[1])
    c.put(c.args[0], ('mod', ('mul', v, v), m[1] if m[0] == 'modulus' else m))


@model('NTL::MulMod')
def mulmod(c):
    m = obj(c, c.args[3])
    a, b = sorted((obj(c, c.args[1]), obj(c, c.args[2])), key=repr)
    c.put(c.args[0], ('mod', ('mul', a, b), m[1] if m[0] == 'modulus' else m))


@model('NTL::SetX')
def setx(c):
    c.put(c.args[0], ('mono', 1, 1))


@model('NTL::power2')
def power2(c):
    c.put(c.args[0], ('power', ('const', 2), c.args[1]))


@model('NTL::power2_ZZ')
def power2zz(c):
    c.put(c.extra[0], ('power', ('const', 2), c.args[0]))


@model('NTL::operator++', 'NTL::operator--')
def incdec(c):
    c.put(c.args[0], ('add' if c.m == 'operator++' else 'sub', obj(c, c.args[0]), 1))


@model('NTL::LeftShift', 'NTL::operator<<', 'NTL::operator<<=')
def lshift(c):
    d = c.x.get('cdem', '')
    if 'ostream' in d:
        c.val = c.args[0]
        return
    if c.extra:
        c.put(c.extra[0], ('shl', argval(c, 0), c.args[1]))
    elif len(c.args) == 3:
        c.put(c.args[0], ('shl', argval(c, 1), c.args[2]))
    else:
        c.put(c.args[0], ('shl', argval(c, 0), c.args[1]))


@model('NTL::GF2XModulus::GF2XModulus')
def modulus(c):
    if len(c.args) == 2:
        c.put(c.args[0], ('modulus', obj(c, c.args[1])))


MODELS['NTL::GF2XModulus::~GF2XModulus'] = kill


@model('NTL::build')
def nbuild(c):
    c.put(c.args[0], ('modulus', obj(c, c.args[1])))


@model('NTL::PowerXMod')
def powerx(c):
    if len(c.args) == 3:
        m = obj(c, c.args[2])
        if m[0] == 'modulus':
            m = m[1]
        c.put(c.args[0], ('powx', argval(c, 1), m))
    else:
        default(c)


@model('NTL::PowerMod')
def powermod(c):
    m = obj(c, c.args[3])
    if m[0] == 'modulus':
        m = m[1]
    c.put(c.args[0], ('powmod', obj(c, c.args[1]), argval(c, 2), m))


@model('NTL::MinPolySeq')
def minpolyseq(c):
    c.put(c.args[0], ('mps', ('id', c.x['i']), c.args[1], c.args[2]))


@model('NTL::kernel')
def nkernel(c):
    c.put(c.args[0], ('kernel', ('id', c.x['i']), c.args[1]))


@model('NTL::clear')
def nclear(c):
    c.put(c.args[0], ('zero',))


@model('NTL::set')
def nset(c):
    c.put(c.args[0], ('const', 1))


def pure(name):
    def f(c):
        c.val = (name,) + tuple(argval(c, k) for k in range(len(c.args)))
    return f


for n in ('deg', 'IsOne', 'IsZero', 'IterIrredTest', 'weight', 'coeff', 'rep', 'LeadCoeff', 'ConstTerm'):
    MODELS['NTL::' + n] = pure('p:' + n)


@model('NTL::operator==', 'NTL::operator!=')
def cmpop(c):
    a, b = argval(c, 0), argval(c, 1)
    t = ('p:eq', a, b)
    c.val = t if c.m == 'operator==' else ('icmp', 'eq', t, 0)


@model('NTL::Vec::Vec', 'NTL::Mat::Mat')
def vec_ctor(c):
    c.put(c.args[0], ('vec0',) if len(c.args) == 1 else ('vecof',) + tuple(c.args[1:]))
    c.put(('len', c.args[0]), 0)


@model('NTL::Vec::SetLength')
def vec_len(c):
    c.put(('len', c.args[0]), c.args[1])


@model('NTL::Vec::length')
def vec_length(c):
    c.val = c.mem.get(('len', c.args[0]), ('p:length', c.args[0]))


@model('NTL::Vec::operator[]', 'NTL::Vec::operator()', 'NTL::Vec::at', 'NTL::Vec::get')
def vec_idx(c):
    c.val = ('elem', c.args[0], c.args[1])


MODELS['NTL::Vec::~Vec'] = ignore
MODELS['NTL::Mat::~Mat'] = ignore
MODELS['NTL::Mat::put'] = ignore


@model('NTL::Vec::put')
def vput(c):
    c.put(('elem', c.args[0], c.args[1]), c.args[2])


MODELS['NTL::GF2::GF2'] = ignore


@model('NTL::ref_GF2::operator=')
def refgf2(c):
    t = c.load(c.args[0])
    while isinstance(t, tuple) and t[0] == 'ev':
        t = t[1]
    if isinstance(t, tuple) and t[0] == 'elem':
        d = c.x.get('cdem', '')
        c.put(t, c.args[1] if '(long)' in d else ('gf2of', c.args[1]))
    c.val = c.args[0]




@model('NTL::Mat::NumRows')
def numrows(c):
    c.val = ('p:NumRows', obj(c, c.args[0]))


@model('NTL::Mat::operator[]')
def mrow(c):
    c.val = ('row', c.args[0], c.args[1])


@model('NTL::Mat::SetDims')
def setdims(c):
    c.put(('len', c.args[0]), ('dims', c.args[1], c.args[2]))


# ------------------------------------------------------------------ generator interface
def gen(*names):
    """methods of the generator interface, whatever class declares them"""
    def d(f):
        for n in names:
            MODELS[('GEN', n)] = f
            for cls in ('AbstractGenerator', 'RecursionSearchable', 'EquidistributionCalculatable', 'TemperingCalculatable', 'ReducibleGenerator', 'ReducibleTemperingCalculatable'):
                MODELS['MTToolBox::%s::%s' % (cls, n)] = f
        return f
    return d


def fresh(c):
    return ('id', c.x['i'])


@gen('generate')
def g_generate(c):
    g = c.args[0]
    s = c.state(g)
    c.val = ('out', s) + tuple(c.args[1:])
    c.put(('st', g), ('nx', s))


@gen('seed')
def g_seed(c):
    c.put(('st', c.args[0]), ('seeded', c.args[1], c.par(c.args[0])))


@gen('bitSize')
def g_bitsize(c):
    c.val = ('p:bitSize', c.args[0])


@gen('getMexp')
def g_mexp(c):
    c.val = ('p:getMexp', c.args[0])


@gen('setUpParam')
def g_param(c):
    g = c.args[0]
    c.put(('par', g), ('drawn', fresh(c), c.args[1]))
    c.put(('st', g), ('unk', fresh(c)))


@gen('getHeaderString', 'getParamString')
def g_str(c):
    if c.extra:
        c.sym.havoc(c, Fn.tbase(c.extra[0]))
        c.put(c.extra[0], ('pstr', c.args[0], c.par(c.args[0])))


@gen('clone')
def g_clone(c):
    g = c.args[0]
    r = ('call', c.x['i'])
    c.put(('st', r), c.state(g))
    c.put(('par', r), c.par(g))
    c.put(('rev', r), c.rev(g))
    c.val = r


@gen('MtvGen')
def g_copy(c):
    g, s = c.args[0], c.args[1]
    c.put(('st', g), c.state(s))
    c.put(('par', g), c.par(s))
    c.put(('rev', g), c.rev(s))


@gen('~MtvGen')
def g_dtor(c):
    pass


@gen('add')
def g_add(c):
    a, b = c.state(c.args[0]), c.state(c.args[1])
    x, y = sorted((a, b), key=repr)
    if x == y:
        v = ('zstate',)
    elif x == ('zstate',):
        v = y
    elif y == ('zstate',):
        v = x
    else:
        v = ('xadd', x, y)
    c.put(('st', c.args[0]), v)


@gen('setZero')
def g_zero(c):
    c.put(('st', c.args[0]), ('zstate',))


@gen('isZero')
def g_iszero(c):
    c.val = ('p:isZero', c.state(c.args[0]))


@gen('setOneBit')
def g_one(c):
    c.put(('st', c.args[0]), ('onebit', c.args[1]))


@gen('getParityValue')
def g_parity(c):
    c.val = ('p:parityval', c.state(c.args[0]))


@gen('setParityValue')
def g_setparity(c):
    c.put(('parity', c.args[0]), c.args[1])


@gen('setTemperingPattern')
def g_tp(c):
    c.put(('par', c.args[0]), ('tp', fresh(c)))


@gen('setUpTempering')
def g_ut(c):
    pass


@gen('setReverseOutput')
def g_sr(c):
    c.put(('rev', c.args[0]), 1)


@gen('resetReverseOutput')
def g_rr(c):
    c.put(('rev', c.args[0]), 0)


@gen('isReverseOutput')
def g_ir(c):
    c.val = c.rev(c.args[0])


# ------------------------------------------------------------------ repository functions analysed on their own
@model('MTToolBox::minpoly')
def r_minpoly(c):
    p, g = c.args[0], c.args[1]
    s = c.state(g)
    c.put(p, ('minpoly', s, g) + tuple(c.args[2:]))
    c.put(('st', g), ('adv', fresh(c)))


@model('MTToolBox::annihilate')
def r_annih(c):
    g = c.args[0]
    c.put(('st', g), ('ann', c.state(g), obj(c, c.args[1])))


@model('MTToolBox::calcCharacteristicPolynomial')
def r_char(c):
    g = c.args[0]
    c.put(c.args[1], ('charpoly', c.state(g), g, obj(c, c.args[1])))
    c.put(('st', g), ('adv', fresh(c)))


@model('MTToolBox::hasFactorOfDegree')
def r_hasfac(c):
    v = obj(c, c.args[0])
    c.val = ('p:hasFac', v, c.args[1])
    c.put(c.args[0], ('fac', v, c.args[1]))


@model('MTToolBox::isPrime')
def r_isprime(c):
    c.val = ('p:isPrime', obj(c, c.args[0])) + tuple(c.args[1:])


@model('MTToolBox::isIrreducible')
def r_isirr(c):
    c.val = ('p:IterIrredTest', obj(c, c.args[0]))


@model('MTToolBox::isMexp')
def r_ismexp(c):
    c.val = ('p:isMexp', c.args[0])


@model('MTToolBox::AlgorithmPrimitivity::operator()')
def r_prim(c):
    c.val = ('p:prim', c.args[0], c.args[1], obj(c, c.args[2]))


@model('MTToolBox::LCM')
def r_lcm(c):
    a, b = sorted((obj(c, c.args[1]), obj(c, c.args[2])), key=repr)
    c.put(c.args[0], ('lcm', a, b))
