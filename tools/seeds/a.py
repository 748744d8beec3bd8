R = 'include/MTToolBox/AlgorithmRecursionSearch.hpp'
RR = 'include/MTToolBox/AlgorithmReducibleRecursionSearch.hpp'
C = 'lib/period.cpp'
A = 'lib/AlgorithmPrimitivity.cpp'
# a linear generator of 2*w bits that is fully parameterised by the parameter source
LFSR = r'''
#include <cstdio>
#include <vector>
#include <sstream>
#include <stdint.h>
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/ParameterGenerator.hpp>
#include <MTToolBox/period.hpp>
#include <NTL/GF2XFactoring.h>
using namespace MTToolBox; using namespace NTL; using namespace std;
// Fibonacci LFSR with n bits; taps come from the parameter generator
struct Src : public ParameterGenerator {
    vector<uint64_t> v; size_t k;
    Src() : k(0) {}
    uint32_t getUint32() { return (uint32_t)getUint64(); }
    uint64_t getUint64() { return v[k++ % v.size()]; }
    void seed(uint64_t) { k = 0; }
};
struct Lfsr : public ReducibleGenerator<uint32_t> {
    int n, mexp; uint64_t taps, st; int seeds;
    Lfsr(int n_, int m_) : n(n_), mexp(m_), taps(1), st(1), seeds(0) {}
    uint32_t generate() { uint32_t o = st & 1; uint64_t nb = __builtin_parityll(st & taps); st = (st >> 1) | (nb << (n - 1)); return o; }
    uint32_t generate(int) { return generate() << 31; }
    void seed(uint32_t v) { st = v & ((1ULL << n) - 1); seeds++; }
    int bitSize() const { return n; }
    void setUpParam(ParameterGenerator& g) { taps = g.getUint64() & ((1ULL << n) - 1); st = 0; }
    const string getHeaderString() { return "taps"; }
    const string getParamString() { stringstream s; s << taps; return s.str(); }
    Lfsr * clone() const { return new Lfsr(*this); }
    void add(EquidistributionCalculatable<uint32_t>& o) { st ^= dynamic_cast<Lfsr&>(o).st; }
    void setZero() { st = 0; }
    bool isZero() const { return st == 0; }
    void setOneBit(int b) { st = 1ULL << b; }
    uint32_t getParityValue() const { return (uint32_t)st; }
    void setParityValue(uint32_t) {}
    int getMexp() const { return mexp; }
};
// taps of the LFSR whose characteristic polynomial is p (degree n)
static uint64_t taps(const GF2X& p) { uint64_t t = 0; for (long i = 0; i < deg(p); i++) if (IsOne(coeff(p, i))) t |= 1ULL << i; return t; }
static GF2X poly(uint64_t bits) { GF2X p; for (int i = 0; i < 64; i++) if ((bits >> i) & 1) SetCoeff(p, i); return p; }
'''
S = [
 ('s01-last-prime-skipped', 'P03', [(C, 'for (long i = 0; i < len; i++) {', 'for (long i = 0; i + 1 < len; i++) {')],
  LFSR + r'''
int main() { // x^4+x^3+x^2+x+1 is irreducible of order 5
    GF2X p = poly(0x1f); const char *f[] = {"5", "3", NULL};
    AlgorithmPrimitivity prim(f);
    if (prim(4, p)) { printf("a polynomial of order 5 is called primitive\n"); return 1; }
    return 0; }
''', 'an irreducible non-primitive polynomial whose order is only refuted by the last prime factor listed', 'the last prime factor is never tested, so non-primitive polynomials are accepted'),
 ('s02-count-only-full-degree', 'P01', [(R, 'count++;\n', ''), (R, 'if ((*isPrime)(static_cast<int>(size), poly)) {', 'count++;\n                if ((*isPrime)(static_cast<int>(size), poly)) {')],
  LFSR + r'''
int main() { // first candidate has a short recurrence, second is primitive x^5+x^2+1
    Src s; s.v = {0, 0x05}; Lfsr g(5, 5);
    AlgorithmRecursionSearch<uint32_t> a(g, s);
    bool r = a.start(10);
    if (!r || a.getCount() != 2) { printf("found=%d count=%ld\n", r, a.getCount()); return 1; }
    return 0; }
''', 'candidates whose minimal polynomial has too small a degree', 'the trial counter misses candidates rejected for their degree'),
 ('s03-repeated-factor', 'P03', [(C, 'for(;;) {\n                GCD(alpha, poly, t);\n                if (IsOne(alpha)) {\n                    break;\n                }\n                poly /= alpha;\n', 'GCD(alpha, poly, t);\n            if (!IsOne(alpha)) {\n                poly /= alpha;\n')],
  LFSR + r'''
int main() { // x^3+x+1 times (x^2+x+1)^2
    GF2X p = poly(0xb), q = poly(7); GF2X r = p * q * q;
    bool y = hasFactorOfDegree(r, 3);
    if (!y || deg(r) != 3) { printf("factor of degree 3 not found: %d deg %ld\n", y, deg(r)); return 1; }
    return 0; }
''', 'a polynomial with a repeated small factor', 'repeated small factors are stripped once only, so a good candidate is rejected'),
 ('s04-step-skipped', 'P03', [(C, 'add(t, t2m, t1);', 'if (m & 3) {\n                add(t, t2m, t1);\n            }')],
  LFSR + r'''
int main() { // x^7+x+1 times the irreducible x^5+x^2+1
    GF2X p = poly(0x83), q = poly(0x25); GF2X r = p * q;
    bool y = hasFactorOfDegree(r, 7);
    if (!y || deg(r) != 7) { printf("factor of degree 7 not found: %d deg %ld\n", y, deg(r)); return 1; }
    return 0; }
''', 'a small factor of degree 4k+1 that no later step below the wanted degree removes', 'one degree in four is never sieved'),
 ('s05-seed-once', 'P02', [(RR, 'for (int i = 0; i < try_count; i++) {', 'rand->seed(getOne<U>());\n            for (int i = 0; i < try_count; i++) {'), (RR, 'rand->seed(getOne<U>());\n#if', '#if')],
  LFSR + r'''
int main() { // each draw clears the state
    Src s; s.v = {taps(poly(0x83) * poly(7))}; Lfsr g(9, 7);
    AlgorithmReducibleRecursionSearch<uint32_t> a(g, s);
    bool r = a.start(3);
    if (!r || deg(a.getIrreducibleFactor()) != 7) { printf("found=%d\n", r); return 1; }
    return 0; }
''', 'a generator whose parameter set-up leaves the state cleared or stale', 'candidates are measured from a state that was not seeded'),
 ('s06-table-composite', 'P04', [(A, '"3", "5", "7", "13", "17", "97", "193", "241", "257", "641", "673",\n        "65537", "6700417", "22253377"', '"3", "5", "7", "13", "17", "97", "193", "241", "257", "641", "673",\n        "65537", "149106905558209"')],
  r'''
#include <cstdio>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
#include <NTL/ZZ.h>
using namespace NTL; using namespace MTToolBox;
int chk(const char ** t, int n) { for (int i = 0; t[i]; i++) { ZZ p = conv<ZZ>(t[i]); if (!ProbPrime(p)) { printf("%s (2^%d-1) is not prime\n", t[i], n); return 1; } } return 0; }
int main() { return chk(prime_factors2_128_1, 128) | chk(prime_factors2_160_1, 160) | chk(prime_factors2_192_1, 192) | chk(prime_factors2_224_1, 224) | chk(prime_factors2_256_1, 256); }
''', 'a polynomial of degree 192 whose order misses exactly one of the two merged primes', 'two primes are replaced by their product: the order test for each of them is void'),
]
