b = {}
exec(open(V + '/tools/seeds/b.py').read(), b)
LIN = b['LIN']
I = 'include/MTToolBox/'
TL, EQ, RE, CP, RT, BB, PB, SQ, C, RRT = (I + 'TestLinearity.hpp', I + 'AlgorithmEquidistribution.hpp', I + 'AlgorithmReducibleEquidistribution.hpp', I + 'AlgorithmCalculateParity.hpp', I + 'AlgorithmRecursionAndTempering.hpp',
    I + 'AlgorithmBestBits.hpp', I + 'AlgorithmPartialBitPattern.hpp', I + 'Sequential.hpp', 'lib/period.cpp', I + 'AlgorithmReducibleRT.hpp')
RED = r'''
struct Red : public Lin { Red() : Lin(8, 5) { companion(0, 3, taps(poly(0xb))); companion(3, 5, taps(poly(0x25))); for (int i = 0; i < 32; i++) B[i] = rnd() & 0xff; B[0] = 1 | 1 << 3; st = 0x5d; } Red(const Red& o) : Lin(o) {} Red * clone() const { return new Red(*this); } };
'''
CAP = r'''
#include <unistd.h>
#include <fcntl.h>
// bytes written to standard output and standard error while f runs
template<typename F> static long written(F f) {
    char n[] = "/tmp/mtv_demoXXXXXX"; int t = mkstemp(n); unlink(n); cout.flush(); fflush(stdout);
    int o = dup(1), e = dup(2); dup2(t, 1); dup2(t, 2);
    try { f(); } catch (...) { }
    cout.flush(); cerr.flush(); fflush(stdout); fflush(stderr); dup2(o, 1); dup2(e, 2); close(o); close(e);
    long k = lseek(t, 0, SEEK_END); close(t); return k;
}
'''
S = [
 ('s37-tests-the-original', 'P11', [(TL, 'EquidistributionCalculatable<U> *g1 = generator.clone();', 'EquidistributionCalculatable<U> *g1 = const_cast<EquidistributionCalculatable<U> *>(&generator);'), (TL, '            delete g1;\n', '')], LIN + '#include <MTToolBox/TestLinearity.hpp>' + r'''
int main() { // testing a generator must not disturb it
    for (int t = 1; t < 200; t++) { Lin g = randomLin(9); g.st = t; Lin h(g); TestLinearity<W> lt; lt(g);
        for (int i = 0; i < 50; i++) if (g.generate() != h.generate()) { printf("state %d: the generator was moved by testing it\n", t); return 1; } }
    return 0; }
''', 'using a generator after its linearity was tested', 'the generator that is tested is itself seeded anew and moved'),
 ('s38-parity-leaves-last-vector', 'P11', [(CP, '            U parity = search_parity_check_vector(bases, base_num);\n', '            if (bit_pos >= maxdegree) {\n                g.setZero();\n            }\n            U parity = search_parity_check_vector(bases, base_num);\n')], LIN + r'''
struct Red : public Lin { Red() : Lin(8, 5) { companion(0, 3, taps(poly(0xb))); companion(3, 5, taps(poly(0x25))); for (int i = 0; i < 3; i++) B[i] = 1 << i; st = 0x5d; } Red(const Red& o) : Lin(o) {} Red * clone() const { return new Red(*this); } void setOneBit(int b) { if (b < 5) setZero(); else Lin::setOneBit(b); } };
int main() { // the state of the generator is as before, except for the parity value
    Red g; Red h(g); AlgorithmCalculateParity<W, Red> c; try { c.searchParity(g, poly(0x25)); } catch (const std::exception& e) { }
    if (g.st != h.st) { printf("the state changed from %llx to %llx\n", (unsigned long long)h.st, (unsigned long long)g.st); return 1; }
    return 0; }
''', 'a parity search that runs through all unit states', 'the generator whose parity is searched is set to zero'),
 ('s39-thrown-by-pointer', 'P13', [(SQ, 'throw std::underflow_error("count over zero exception");', 'throw new std::underflow_error("count over zero exception");')], r'''
#include <cstdio>
#include <stdexcept>
#include <MTToolBox/Sequential.hpp>
using namespace MTToolBox;
int main() { // an exhausted sequence is reported as a std::exception
    Sequential<uint32_t> s(0, 3);
    try { for (int i = 0; i < 20; i++) s.getUint32(); } catch (const std::exception& e) { return 0; } catch (...) { printf("not a std::exception\n"); return 1; }
    printf("nothing thrown\n"); return 1; }
''', 'a sequence drawn to its end', 'the exception is thrown as a pointer and no handler of std::exception receives it'),
 ('s40-no-parity-is-parity-zero', 'P13', [(CP, '            U parity = search_parity_check_vector(bases, base_num);\n', '            U parity;\n            setZero(parity);\n            try {\n                parity = search_parity_check_vector(bases, base_num);\n            } catch (const std::exception&) {\n                setZero(parity);\n            }\n')], LIN + r'''
struct Red : public Lin { Red() : Lin(34, 1) { companion(0, 33, taps(poly((1ULL << 33) | 0x2001))); companion(33, 1, 1); for (int i = 0; i < 32; i++) B[i] = 1ULL << i; } Red(const Red& o) : Lin(o) {} Red * clone() const { return new Red(*this); } };
int main() { // 32 independent vectors fill the word: no parity vector exists, and that has to be reported
    Red g; AlgorithmCalculateParity<W, Red> c;
    try { W p = c.searchParity(g, poly(3)); printf("parity %08x was returned\n", p); return 1; } catch (const std::exception& e) { }
    return 0; }
''', 'a generator that has no parity vector', 'the failure of the parity search is turned into the parity zero'),
 ('s41-remembered-degree', 'P14', [(CP, '            int maxdegree = g.bitSize();', '            static const int maxdegree = g.bitSize();')], LIN + RED + r'''
struct Big : public Lin { Big() : Lin(12, 5) { companion(0, 7, taps(poly(0x83))); companion(7, 5, taps(poly(0x25))); for (int i = 0; i < 12; i++) B[i] = 1ULL << i; } };
int main() { // two generators of one type, different sizes: the second answer is the same as in a fresh process
    struct P : public Lin { P(int n, int m) : Lin(n, m) {} P(const P& o) : Lin(o) {} P * clone() const { return new P(*this); } };
    P a(8, 5), c(12, 5); a.companion(0, 3, taps(poly(0xb))); a.companion(3, 5, taps(poly(0x25))); c.companion(0, 7, taps(poly(0x83))); c.companion(7, 5, taps(poly(0x25)));
    for (int i = 0; i < 12; i++) { c.B[i] = 1ULL << i; if (i < 8) a.B[i] = 1ULL << i; }
    struct Q : public P { Q(const P& o) : P(o) {} Q(const Q& o) : P(o) {} Q * clone() const { return new Q(*this); } }; Q fresh(c);
    AlgorithmCalculateParity<W, Q> cf; W x = cf.searchParity(fresh, poly(0x25));
    AlgorithmCalculateParity<W, P> ca; ca.searchParity(a, poly(0x25)); W y = ca.searchParity(c, poly(0x25));
    if (x != y) { printf("parity %08x, after another search %08x\n", x, y); return 1; }
    return 0; }
''', 'parity searches for two generators of the same class and different size', 'the size of the first generator is used for all later ones'),
 ('s42-cached-verdict', 'P14', [(C, '        ZZ period;\n        period = 2;\n        period = power(period, degree);\n        period -= 1;\n', '        static ZZ period;\n        if (IsZero(period)) {\n            period = 2;\n            period = power(period, degree);\n            period -= 1;\n        }\n')], LIN + r'''
int main() { // primitivity of a second polynomial of another degree
    const char *f3[] = {"7", NULL}, *f4[] = {"3", "5", NULL};
    if (!isPrime(poly(0xb), 3, f3)) return 2;
    if (isPrime(poly(0x1f), 4, f4)) { printf("a polynomial of order 5 is called primitive\n"); return 1; }
    if (!isPrime(poly(0x13), 4, f4)) { printf("x^4+x+1 is called not primitive\n"); return 1; }
    return 0; }
''', 'primitivity decided for two different degrees in one process', 'the period of the first polynomial is used for all later ones'),
 ('s43-loud-second-round', 'P15', [(BB, 'current, verbose);', 'current,\n                                       verbose || p > 1);')], LIN + CAP + r'''
int main() { // a search that was not asked to be verbose
    Lin g = randomLin(9); g.mode = 2; int sh[] = {7, 15};
    long k = written([&]() { AlgorithmBestBits<W> b(32, sh, 2, 4); b(g, false); });
    if (k) { printf("%ld bytes written\n", k); return 1; }
    return 0; }
''', 'a best-bits search over more than two bits that was not asked for messages', 'from the third bit on every candidate is printed'),
 ('s44-stream-bypassed', 'P15', [(RRT, '*out << "count = "', 'std::cout << "count = "')], LIN + CAP + r'''
struct Red : public Lin { Red() : Lin(10, 7) { for (int i = 0; i < 32; i++) B[i] = rnd() & 0x3ff; } Red(const Red& o) : Lin(o) {} Red * clone() const { return new Red(*this); }
    void setUpParam(ParameterGenerator& g) { g.getUint64(); companion(0, 7, taps(poly(0x83))); companion(7, 3, taps(poly(0xb))); } void seed(uint32_t v) { st = 0x81; } };
struct Nop : public AlgorithmTempering<W> { int operator()(TemperingCalculatable<W>& r, bool) { r.setUpTempering(); return 0; } bool isLSBTempering() const { return false; } };
int main() { // verbose messages go to the stream given
    Src s; Red g; AlgorithmReducibleRecursionAndTempering<W, Red> a(s); Nop st; stringstream ss;
    long k = written([&]() { a.search(g, st, true, ss); });
    if (k) { printf("%ld bytes written elsewhere\n", k); return 1; }
    return 0; }
''', 'a verbose search with its own stream', 'part of the messages goes to standard output instead of the stream given'),
]
