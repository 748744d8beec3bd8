"""P25: the public headers can be used: alone, together, more than once, in several translation units, at both word sizes."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from .. import build
from ..build import REPO, VERIF, AnalysisBroken, TU
from ..report import Report, finish

PUB = REPO + '/include/MTToolBox'
CONF = VERIF + '/drivers/iface/config'
GEN = '#include "%s/drivers/iface/generator.hpp"\n' % VERIF

# class template -> (header, template arguments, generator headers wanted)
CLASSES = [
    ('AbstractGenerator', 'AbstractGenerator.hpp', '{U}'),
    ('RecursionSearchable', 'RecursionSearchable.hpp', '{U}'),
    ('EquidistributionCalculatable', 'EquidistributionCalculatable.hpp', '{U}'),
    ('TemperingCalculatable', 'TemperingCalculatable.hpp', '{U}'),
    ('ReducibleGenerator', 'ReducibleGenerator.hpp', '{U}'),
    ('ReducibleTemperingCalculatable', 'ReducibleTemperingCalculatable.hpp', '{U}'),
    ('AlgorithmTempering', 'AlgorithmTempering.hpp', '{U}'),
    ('temper_params', 'AlgorithmBestBits.hpp', '{U}'),
    ('AlgorithmBestBits', 'AlgorithmBestBits.hpp', '{U}'),
    ('linear_generator_vector', 'AlgorithmEquidistribution.hpp', '{U}'),
    ('AlgorithmEquidistribution', 'AlgorithmEquidistribution.hpp', '{U}'),
    ('AlgorithmPartialBitPattern', 'AlgorithmPartialBitPattern.hpp', '{U}, {B}, 4, {B}, 5, false'),
    ('AlgorithmPartialBitPattern (LSB)', 'AlgorithmPartialBitPattern.hpp', '{U}, {B}, 1, {B}, 4, true'),
    ('AlgorithmRecursionSearch', 'AlgorithmRecursionSearch.hpp', '{U}'),
    ('AlgorithmRecursionAndTempering', 'AlgorithmRecursionAndTempering.hpp', '{U}'),
    ('AlgorithmReducibleRecursionSearch', 'AlgorithmReducibleRecursionSearch.hpp', '{U}'),
    ('AlgorithmReducibleEquidistribution', 'AlgorithmReducibleEquidistribution.hpp', '{U}, witness::Full<{U}>'),
    ('AlgorithmReducibleRecursionAndTempering', 'AlgorithmReducibleRT.hpp', '{U}, witness::Full<{U}>'),
    ('AlgorithmCalculateParity', 'AlgorithmCalculateParity.hpp', '{U}, witness::Full<{U}>'),
    ('TestLinearity', 'TestLinearity.hpp', '{U}'),
    ('Sequential', 'Sequential.hpp', '{U}'),
]

# a documented use -> (header, statements); {U} word, {B} its bits
USES = [
    ('AlgorithmRecursionSearch on a class that is RecursionSearchable', 'AlgorithmRecursionSearch.hpp',
     'Plain<{U}> g; Source s; AlgorithmRecursionSearch<{U}> a(g, s); AlgorithmRecursionSearch<{U}> b(g, s, MersennePrimitivity); bool r = a.start(1); std::string p = a.getParamString(); const NTL::GF2X& x = a.getMinPoly(); long c = a.getCount(); (void)r; (void)x; (void)c;'),
    ('AlgorithmEquidistribution on a class that is EquidistributionCalculatable', 'AlgorithmEquidistribution.hpp',
     'Equi<{U}> g; const Equi<{U}>& k = g; AlgorithmEquidistribution<{U}> a(k, {B}); AlgorithmEquidistribution<{U}> b(k, {B}, 7); int veq[{B}]; int s = 0; int d = a.get_all_equidist(veq); int e = b.get_equidist(&s); (void)d; (void)e;'),
    ('the tempering algorithms on a class that is TemperingCalculatable', 'AlgorithmBestBits.hpp',
     'Temper<{U}> g; const int sh[] = {{ 1, 2 }}; AlgorithmBestBits<{U}> a({B}, sh, 2, 3); AlgorithmTempering<{U}>& t = a; t(g); t(g, true); a(g); a(g, false); bool l = t.isLSBTempering(); (void)l;'),
    ('AlgorithmPartialBitPattern on a class that is TemperingCalculatable', 'AlgorithmPartialBitPattern.hpp',
     'Temper<{U}> g; AlgorithmPartialBitPattern<{U}, {B}, 2, {B}> a; AlgorithmPartialBitPattern<{U}, {B}, 2, 5, 4> b; AlgorithmPartialBitPattern<{U}, {B}, 2, 5, 5, true> c; AlgorithmTempering<{U}>& t = c; t(g); a(g); b(g, true); c(g, false);'),
    ('AlgorithmRecursionAndTempering on a class that is TemperingCalculatable', 'AlgorithmRecursionAndTempering.hpp',
     'Temper<{U}> g; Source s; struct T : AlgorithmTempering<{U}> {{ int operator()(TemperingCalculatable<{U}>&, bool = false) {{ return 0; }} }} t1, t2; AlgorithmRecursionAndTempering<{U}> a(s); '
     'a.search(g, t1, t2); a.search(g, t1, t2, true); a.search(g, t1, t2, false, std::cout); a.search(g, t1, t2, false, std::cout, true); a.search(g, t1); a.search(g, t1, true); a.search(g, t1, true, std::cout); '
     'int w = a.getWeight(); int d = a.getDelta(); const NTL::GF2X& p = a.getCharacteristicPolynomial(); (void)w; (void)d; (void)p;'),
    ('AlgorithmReducibleRecursionSearch on a class that is a ReducibleGenerator', 'AlgorithmReducibleRecursionSearch.hpp',
     'Reduce<{U}> g; Source s; AlgorithmReducibleRecursionSearch<{U}> a(g, s); bool r = a.start(1); std::string p = a.getParamString(); const NTL::GF2X& x = a.getIrreducibleFactor(); const NTL::GF2X& y = a.getCharacteristicPolynomial(); long c = a.getCount(); NTL::GF2X q; calcCharacteristicPolynomial<{U}>(&g, q); (void)r; (void)x; (void)y; (void)c;'),
    ('AlgorithmReducibleEquidistribution on a class that is a ReducibleGenerator', 'AlgorithmReducibleEquidistribution.hpp',
     'const Reduce<{U}> g; const NTL::GF2X f; AlgorithmReducibleEquidistribution<{U}, Reduce<{U}> > a(g, f, {B}, 7); int veq[{B}]; int s = 0; int d = a.get_all_equidist(veq); int e = a.get_equidist(&s); (void)d; (void)e;'),
    ('AlgorithmReducibleRecursionAndTempering on a class that is ReducibleTemperingCalculatable', 'AlgorithmReducibleRT.hpp',
     'Full<{U}> g; Source s; struct T : AlgorithmTempering<{U}> {{ int operator()(TemperingCalculatable<{U}>&, bool = false) {{ return 0; }} }} t1, t2; AlgorithmReducibleRecursionAndTempering<{U}, Full<{U}> > a(s); '
     'a.search(g, t1, t2); a.search(g, t1, t2, true); a.search(g, t1, t2, false, std::cout); a.search(g, t1, t2, false, std::cout, true); a.search(g, t1); a.search(g, t1, true); a.search(g, t1, true, std::cout); '
     'int d = a.getDelta(); {U} p = a.getParity(); const NTL::GF2X& x = a.getIrreducibleFactor(); (void)d; (void)p; (void)x;'),
    ('AlgorithmCalculateParity on a class that is a ReducibleGenerator', 'AlgorithmCalculateParity.hpp',
     'Reduce<{U}> g; const NTL::GF2X f; AlgorithmCalculateParity<{U}, Reduce<{U}> > a; {U} p = a.searchParity(g, f); (void)p;'),
    ('annihilate, minpoly and the period functions', 'period.hpp',
     '', ),
    ('annihilate on a class that is EquidistributionCalculatable', 'ReducibleGenerator.hpp',
     'Equi<{U}> g; const NTL::GF2X f; annihilate<{U}>(&g, f); EquidistributionCalculatable<{U}> *p = &g; annihilate(p, f);'),
    ('minpoly and the period functions', 'period.hpp',
     'Plain<{U}> g; NTL::GF2X f; minpoly<{U}>(f, g); minpoly(f, g, 3); minpoly(f, g, 3, 100); const NTL::GF2X k = f; bool b = isMexp(7) | isIrreducible(k) | isPrime(k) | hasFactorOfDegree(f, 7); NTL::Vec<NTL::ZZ> v; const char *t[] = {{ "3", 0 }}; b |= isPrime(k, 4, v) | isPrime(k, 4, t); (void)b;'),
    ('AlgorithmPrimitivity', 'AlgorithmPrimitivity.hpp',
     'AlgorithmPrimitivity a; AlgorithmPrimitivity b(prime_factors2_128_1); const NTL::GF2X f; bool r = a(7, f) | b(128, f) | MersennePrimitivity(7, f); (void)r;'),
    ('TestLinearity', 'TestLinearity.hpp',
     'const Equi<{U}> g; TestLinearity<{U}> t; bool r = t(g); (void)r;'),
    ('the parameter generators', 'MersenneTwister.hpp',
     'uint32_t k[] = {{ 1, 2 }}; MersenneTwister a, b(uint32_t(5)), c(k, 2), d("seed"); ParameterGenerator& p = a; p.seed(uint32_t(1)); {U} x = static_cast<{U}>(p.getUint32() + p.getUint64()); (void)x;'),
    ('the 64-bit parameter generator', 'MersenneTwister64.hpp',
     'uint64_t k[] = {{ 1, 2 }}; MersenneTwister64 a, b(uint64_t(5)), c(k, 2), d("seed"); ParameterGenerator& p = a; p.seed(uint32_t(1)); {U} x = static_cast<{U}>(p.getUint32() + p.getUint64()); (void)x;'),
    ('Sequential', 'Sequential.hpp',
     'Sequential<{U}> a, b(({U})3), c(({U})3, ({U})4); ParameterGenerator& p = b; {U} x = static_cast<{U}>(p.getUint32() + p.getUint64()); (void)x;'),
    ('the bit and vector functions', 'util.hpp',
     '{U} x = 5; uint16_t h = 3; NTL::vec_GF2 v; NTL::GF2X f, g, l; std::stringstream ss; {U} t[4] = {{ 0 }}, s[2] = {{ 1, 2 }}; int r = count_bit(x) + count_bit(h) + calc_1pos(x) + calc_1pos(h) + bit_size<{U}>() + bit_size<uint16_t>() + get_range(x, 1, 9) + (int)floor2p(x) + (int)floor2p<{U}>(x); '
     'x = reverse_bit(x); fill_table(t, s, 4); toGF2Vec(v, x); x = fromGF2Vec<{U}>(v); setZero(x); x = getOne<{U}>(); r += (int)getBitOfPos(x, 1); setBitOfPos(&x, 1, 1); bool z = isZero(x); x = convert<{U}, uint32_t>(3); x = convert<{U}, uint64_t>(3); LCM(l, f, g); print_binary(ss, f); print_binary(ss, f, false); UNUSED_VARIABLE(&r); (void)z;'),
    ('the version', 'version.h', 'const char *p = get_mttoolbox_version(); (void)p;'),
]
USES = [u for u in USES if u[2]]


def gxx(src, name, flags=(), cwd=None, lang='c++'):
    """first error of the front end, or None"""
    fn = os.path.join(build.tmpdir(), name + ('.cpp' if lang == 'c++' else '.c'))
    with open(fn, 'w') as f:
        f.write(src)
    std = ['-std=c++17'] if lang == 'c++' else ['-std=c11']
    p = subprocess.run(['g++' if lang == 'c++' else 'gcc'] + std + build.DEFS + ['-I', REPO + '/include', '-w', '-fsyntax-only', '-fmax-errors=3'] + list(flags) + [fn], capture_output=True, text=True, cwd=cwd)
    if p.returncode == 0:
        return None
    m = [l for l in p.stderr.split('\n') if re.search(r': (fatal )?error:', l)]
    if not m:
        raise AnalysisBroken('the compiler failed without an error: ' + p.stderr[-800:])
    where = ''
    for l in p.stderr.split('\n'):
        q = re.match(r'\s*(?:In file included from )?(%s/[^:]+):(\d+)' % re.escape(REPO), l)
        if q and (not where or re.search(r'error:', l)):
            where = '%s:%s' % (q.group(1), q.group(2))
            if re.search(r'error:', l):
                break
    msg = re.sub(r'^.*?error: ', '', m[0])
    return where, msg.replace(fn, 'witness')


def strong(src, name, incs=(), lang='c++'):
    """external definitions a translation unit of nothing but includes makes"""
    fn = os.path.join(build.tmpdir(), name + '.cpp')
    with open(fn, 'w') as f:
        f.write(src)
    p = subprocess.run([build.CLANGXX, '-std=c++17'] + build.DEFS + ['-I' + i for i in incs] + ['-I' + REPO + '/include', '-w', '-O0', '-g', '-S', '-emit-llvm', '-o', '-', fn], capture_output=True, text=True)
    if p.returncode:
        return None
    out = []
    weak = ('linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'internal', 'private', 'available_externally', 'external', 'extern_weak', 'appending', 'common')
    for l in p.stdout.split('\n'):
        m = re.match(r'define ((?:[\w()]+ )*?)[^@]*@"?([\w.$]+)"?\(', l)
        if m:
            if not any(w in m.group(1).split() for w in weak) and m.group(2) != 'main':
                out.append(('function', m.group(2)))
            continue
        m = re.match(r'@"?([\w.$]+)"? = ((?:[\w()]+ )*?)(?:global|constant) ', l)
        if m and not any(w in m.group(2).split() for w in weak):
            out.append(('variable', m.group(1)))
    return out


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.split('\n')


def p25(prop, tier):
    rep = Report(prop, tier)
    rep.rule('alone', 'each header compiles as the only include of a translation unit, and when it is included twice')
    rep.rule('together', 'all public headers compile in one translation unit, in either order, and none hides the declarations of another')
    rep.rule('link', 'no header makes a definition that clashes when two translation units include it')
    rep.rule('defined', 'every function and variable a public header declares is defined, in the header or in the library')
    rep.rule('instance', 'every public class template can be instantiated with all its members, for 32-bit and 64-bit words')
    rep.rule('use', 'each algorithm accepts a class that implements its abstract interface and nothing more, with every documented default argument')
    rep.rule('program', 'every source file of the library and of the sample programs compiles')
    heads = sorted(f for f in os.listdir(PUB) if re.search(r'\.(h|hpp)$', f))
    if not heads:
        raise AnalysisBroken('no public headers')
    internal = classes_declared(heads)
    jobs = []          # rule, instance, where, callable -> None | (where, msg)
    k = [0]

    def add(rule, inst, where, src, flags=(), cwd=None, lang='c++'):
        k[0] += 1
        jobs.append((rule, inst, where, lambda n='w%d' % k[0]: gxx(src, n, flags, cwd, lang)))

    for h in heads:
        w = '%s/%s' % (PUB, h)
        rep.analysed['files'].add(w)
        inc = '#include <MTToolBox/%s>\n' % h
        add('alone', h, w, inc + inc)
        if h.endswith('.h'):
            add('alone', h + ' (C)', w, inc + inc, lang='c')
    hpp = ['#include <MTToolBox/%s>\n' % h for h in heads]
    add('together', 'all public headers', PUB, ''.join(hpp))
    add('together', 'all public headers, in reverse order', PUB, ''.join(reversed(hpp)))
    progs = [('lib', sorted(os.listdir(REPO + '/lib')))]
    for d in sorted(os.listdir(REPO + '/samples')):
        if os.path.isdir(REPO + '/samples/' + d):
            progs.append(('samples/' + d, sorted(os.listdir(REPO + '/samples/' + d))))
    shead = []
    for d, fs in progs:
        dd = REPO + '/' + d
        hs = [f for f in fs if re.search(r'\.(h|hpp)$', f)]
        cfam = {f[:-2] for f in fs if f.endswith('.c')}
        for f in hs:
            src = '#include "%s/%s"\n' % (dd, f)
            w = dd + '/' + f
            rep.analysed['files'].add(w)
            c = f.endswith('.h') and f[:-2] in cfam
            add('alone', d + '/' + f, w, src + (src if guarded(w) else ''), ['-I', dd], dd, 'c' if c else 'c++')
            if not c:
                shead.append((d + '/' + f, w, src, dd))
        for f in fs:
            if re.search(r'\.(c|cpp)$', f):
                w = dd + '/' + f
                rep.analysed['files'].add(w)
                add('program', d + '/' + f, w, '#include "%s"\n' % w, ['-I', dd, '-I', CONF], dd, 'c' if f.endswith('.c') else 'c++')
    for U, B in (('uint32_t', 32), ('uint64_t', 64)):
        for c, h, a in CLASSES:
            if h not in heads:
                rep.unk('instance', '%s<%s>' % (c, U), PUB, 'no header ' + h)
                continue
            if c in ('temper_params', 'linear_generator_vector') and c not in internal:
                rep.unk('instance', '%s<%s>' % (c, U), PUB + '/' + h, 'no such class: an implementation detail')
                continue
            # the header under test comes first
            src = '#include <MTToolBox/%s>\n' % h + (GEN if 'witness' in a else '#include <stdint.h>\n') + 'template class MTToolBox::%s<%s>;\n' % (c.split(' ')[0], a.format(U=U, B=B))
            add('instance', '%s<%s>' % (c, U), PUB + '/' + h, src)
        for what, h, st in USES:
            if h not in heads:
                rep.unk('use', what + ', ' + U, PUB, 'no header ' + h)
                continue
            src = '#include <MTToolBox/%s>\n' % h + GEN + 'using namespace witness;\nvoid use_() { %s }\n' % st.format(U=U, B=B)
            add('use', what + ', ' + U, PUB + '/' + h, src)
    with ThreadPoolExecutor(8) as ex:
        for (rule, inst, w, _), r in zip(jobs, ex.map(lambda j: j[3](), jobs)):
            rep.calls(1)
            if r is None:
                rep.ok(rule, inst, w)
            elif re.match(r'(?!MTToolBox/)\S+: No such file', r[1]) and not os.path.exists(os.path.join(os.path.dirname(w), r[1].split(':')[0])) and foreign(r):
                rep.unk(rule, inst, r[0] or w, r[1])
            else:
                rep.bad(rule, inst, r[0] or w, r[1])
    link(rep, heads, shead)
    defined(rep, heads)
    return finish(rep, 'other',
                  'Type-level witnesses: the front end of the project\'s compiler decides for each public header that it stands alone, for each public class template that all its members can be instantiated with a 32- and a 64-bit word and a generator implementing the pure virtual functions only, and for each documented call, default arguments included, that it is well-formed. Linkage of what headers define is read from LLVM IR, and declarations are matched with definitions on the AST.',
                  floor=40)


def classes_declared(heads):
    src = os.path.join(build.tmpdir(), 'cls.cpp')
    with open(src, 'w') as f:
        f.write(''.join('#include <MTToolBox/%s>\n' % h for h in heads))
    try:
        return {t['name'].rsplit('::', 1)[-1] for t in build.astfacts([TU(src)])['tmpl']}
    except AnalysisBroken:
        return set()


def foreign(r):
    """the missing file is included with <>: it belongs to another package"""
    try:
        f, n = r[0].rsplit(':', 1)
        return '<' in open(f, errors='replace').read().split('\n')[int(n) - 1]
    except (ValueError, OSError, IndexError):
        return False


def guarded(w):
    s = open(w, errors='replace').read()
    return re.search(r'#pragma once|#ifndef\s+(\w+)\s*\n\s*#define\s+\1', s) is not None


def link(rep, heads, shead):
    items = [(h, PUB + '/' + h, '#include <MTToolBox/%s>\n' % h, None) for h in heads] + shead
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: strong(t[1][2], 'l%d' % t[0], [t[1][3]] if t[1][3] else []), enumerate(items)))
    first = {}
    for (inst, w, _, _), r in zip(items, res):
        if r is None:
            rep.unk('link', inst, w, 'clang cannot compile it')
        elif r:
            ds = demangle([n for _, n in r])
            rep.bad('link', inst, w, 'defines %s %s with external linkage in every translation unit that includes it' % (r[0][0], ds[0]))
        else:
            rep.ok('link', inst, w)


def defined(rep, heads):
    src = os.path.join(build.tmpdir(), 'all.cpp')
    with open(src, 'w') as f:
        f.write(''.join('#include <MTToolBox/%s>\n' % h for h in heads))
    try:
        hd = build.astfacts([TU(src)])
        lib = [build.astfacts([TU(REPO + '/lib/' + f, incs=[CONF], lang='c' if f.endswith('.c') else 'c++')]) for f in sorted(os.listdir(REPO + '/lib')) if re.search(r'\.(c|cpp)$', f)]
    except AnalysisBroken as e:
        rep.unk('defined', 'declarations', PUB, str(e)[:300])
        return
    have = {d['id'] for m in lib for d in m['decls'] if d['defined']}
    seen = {d['loc'][0] for d in hd['decls']} | {r['loc'][0] for r in hd['tmpl']} | {r['loc'][0] for r in hd['records']}
    for h in heads:
        w = PUB + '/' + h
        rep.verdict(w in seen, 'together', h + ' declares something next to the others', w, 'its declarations disappear when the other headers are included first (include guard used twice)')
    for d in hd['decls']:
        if not d['loc'][0].startswith(PUB) or d['pure'] or d['deleted']:
            continue
        w = '%s:%d' % (d['loc'][0], d['loc'][1])
        if d['defined'] or d['id'] in have:
            rep.ok('defined', d['id'], w)
        elif d['private'] and not d['used']:
            rep.ok('defined', d['id'], w)
        else:
            rep.bad('defined', d['id'], w, 'declared, but defined neither in the header nor in the library')
