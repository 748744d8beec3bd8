H = 'include/MTToolBox/period.hpp'
U = 'include/MTToolBox/util.hpp'
RR = 'include/MTToolBox/AlgorithmReducibleRecursionSearch.hpp'
G = 'include/MTToolBox/ReducibleGenerator.hpp'
E = 'include/MTToolBox/AlgorithmEquidistribution.hpp'
RE = 'include/MTToolBox/AlgorithmReducibleEquidistribution.hpp'
PB = 'include/MTToolBox/AlgorithmPartialBitPattern.hpp'
BB = 'include/MTToolBox/AlgorithmBestBits.hpp'
RT = 'include/MTToolBox/AlgorithmRecursionAndTempering.hpp'
RRT = 'include/MTToolBox/AlgorithmReducibleRT.hpp'
CP = 'include/MTToolBox/AlgorithmCalculateParity.hpp'
# a linear generator: n-bit state x' = A x (companion matrix of taps, or block of two), output word = B x'
LIN = r'''
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <sstream>
#include <stdint.h>
#include <stdexcept>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
#include <NTL/GF2XFactoring.h>
using namespace MTToolBox; using namespace NTL; using namespace std;
typedef uint32_t W;
static uint64_t rs = 88172645463325252ULL;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
struct Src : public ParameterGenerator {
    vector<uint64_t> v; size_t k;
    Src() : k(0) {}
    uint32_t getUint32() { return (uint32_t)getUint64(); }
    uint64_t getUint64() { return v.empty() ? rnd() : v[k++ % v.size()]; }
    void seed(uint64_t) { k = 0; }
};
static int measured, measuredReversed;
struct Lin : public ReducibleTemperingCalculatable<W> {
    int n, mexp; vector<uint64_t> A; vector<uint64_t> B; uint64_t st; W q[4], p[4]; bool rev; W parity; int mode;
    Lin(int n_, int m_) : n(n_), mexp(m_), A(n_), B(32), st(1), rev(false), parity(0), mode(0) { for (int i = 0; i < 4; i++) q[i] = p[i] = 0; for (int i = 0; i < 32; i++) B[i] = 0; }
    Lin(const Lin& o) : n(o.n), mexp(o.mexp), A(o.A), B(o.B), st(o.st), rev(o.rev), parity(o.parity), mode(o.mode) { for (int i = 0; i < 4; i++) { q[i] = o.q[i]; p[i] = o.p[i]; } measured++; if (rev) measuredReversed++; }
    // block diagonal companion matrix
    void companion(int off, int k, uint64_t taps) { for (int i = 0; i + 1 < k; i++) A[off + i] = 1ULL << (off + i + 1); A[off + k - 1] = taps << off; }
    static uint64_t mul(const vector<uint64_t>& M, uint64_t x) { uint64_t r = 0; for (size_t i = 0; i < M.size(); i++) r |= (uint64_t)__builtin_parityll(M[i] & x) << i; return r; }
    W temper(W x) { if (mode == 1) return x & ~q[0]; if (mode == 2) { x ^= (x << 7) & q[0]; x ^= (x << 15) & q[1]; return x; } return x; }
    uint32_t generate() { st = mul(A, st); W x = temper((W)mul(B, st)); return rev ? reverse_bit(x) : x; }
    uint32_t generate(int b) { W m = 0; m = ~m << (32 - b); return generate() & m; }
    void seed(uint32_t v) { st = v & ((n < 64 ? 1ULL << n : 0) - 1); }
    int bitSize() const { return n; }
    void setUpParam(ParameterGenerator& g) { uint64_t t = g.getUint64(); companion(0, n, t & ((1ULL << n) - 1)); }
    const string getHeaderString() { return "taps"; }
    const string getParamString() { stringstream s; s << A[n - 1] << "," << hex << p[0]; return s.str(); }
    Lin * clone() const { return new Lin(*this); }
    void add(EquidistributionCalculatable<W>& o) { st ^= dynamic_cast<Lin&>(o).st; }
    void setZero() { st = 0; }
    bool isZero() const { return st == 0; }
    void setOneBit(int b) { st = 1ULL << b; }
    uint32_t getParityValue() const { return (uint32_t)st; }
    void setParityValue(uint32_t v) { parity = v; }
    int getMexp() const { return mexp; }
    void setTemperingPattern(W mask, W pat, int i) { p[i] = (p[i] & ~mask) | (pat & mask); }
    void setUpTempering() { for (int i = 0; i < 4; i++) q[i] = p[i]; }
    void setReverseOutput() { rev = true; }
    void resetReverseOutput() { rev = false; }
    bool isReverseOutput() { return rev; }
};
static int rankof(vector<uint64_t> r) { int k = 0; for (int b = 0; b < 64; b++) { size_t i = k; while (i < r.size() && !((r[i] >> b) & 1)) i++; if (i == r.size()) continue; swap(r[i], r[k]); for (size_t j = 0; j < r.size(); j++) if ((int)j != k && ((r[j] >> b) & 1)) r[j] ^= r[k]; k++; } return k; }
// brute force: largest k such that the top v bits of k consecutive outputs take all values
static int brute(const Lin& g, int v, int m) {
    vector<uint64_t> rows; vector<vector<uint64_t> > cols; int k = 0;
    vector<vector<W> > out(g.n, vector<W>(m + 1));
    for (int b = 0; b < g.n; b++) { Lin h(g); h.st = 1ULL << b; for (int i = 0; i <= m; i++) out[b][i] = h.generate(); }
    for (k = 0; k <= m; k++) { for (int j = 0; j < v; j++) { uint64_t r = 0; for (int b = 0; b < g.n; b++) r |= (uint64_t)((out[b][k] >> (31 - j)) & 1) << b; rows.push_back(r); } if (rankof(rows) < (k + 1) * v) break; }
    return k;
}
static uint64_t taps(const GF2X& p) { uint64_t t = 0; for (long i = 0; i < deg(p); i++) if (IsOne(coeff(p, i))) t |= 1ULL << i; return t; }
static GF2X poly(uint64_t bits) { GF2X p; for (int i = 0; i < 64; i++) if ((bits >> i) & 1) SetCoeff(p, i); return p; }
static Lin randomLin(int n) { Lin g(n, n); GF2X f; do { f = poly((1ULL << n) | (rnd() & ((1ULL << n) - 1))); } while (!IterIrredTest(f)); g.companion(0, n, taps(f)); for (int i = 0; i < 32; i++) g.B[i] = rnd() & ((1ULL << n) - 1); g.st = 1; return g; }
'''
SWEEP = LIN + r'''
int main() { // every dimension and every sum against a brute-force rank computation
    for (int t = 0; t < 300; t++) {
        int n = 5 + t % 9; Lin g = randomLin(n);
        // thinly connected output matrices: long zero runs and defects
        for (int i = 0; i < 32; i++) g.B[i] = t % 3 == 0 ? g.B[i] : 1ULL << (rnd() % n);
        if (t % 4 == 1) { for (int i = 0; i < 31; i++) g.B[i] = g.B[31]; }
        int veq[32], sum = 0, len = 1 + rnd() % 12;
        try {
        AlgorithmEquidistribution<W> a(g, len);
        int s = a.get_all_equidist(veq);
        for (int v = 1; v <= len; v++) { int k = brute(g, v, n / v); sum += n / v - k; if (veq[v - 1] != k) { printf("t=%d n=%d v=%d: k=%d, expected %d\n", t, n, v, veq[v - 1], k); return 1; } }
        if (s != sum) { printf("t=%d sum %d expected %d\n", t, s, sum); return 1; }
        AlgorithmEquidistribution<W> b(g, len); int s2; int k = b.get_equidist(&s2);
        if (k != veq[len - 1] || s2 != sum - (n / len - k)) { printf("t=%d get_equidist %d %d\n", t, k, s2); return 1; }
        } catch (const std::exception& e) { printf("t=%d %s\n", t, e.what()); return 1; }
    }
    return 0; }
'''
S = [
 ('s07-lcm-only-larger', 'P05', [(RR, 'LCM(lcmpoly, lcmpoly, minpol);', 'if (deg(minpol) > deg(lcmpoly)) {\n                LCM(lcmpoly, lcmpoly, minpol);\n            }')],
  LIN + r'''
int main() { // two independent registers seen by different output bits: 5 bits on bit 0, 3 bits on bit 1
    Lin g(8, 5); g.companion(0, 5, taps(poly(0x25))); g.companion(5, 3, taps(poly(0xb))); g.B[0] = 1; g.B[1] = 1 << 5; g.st = 0x21;
    GF2X f(0, 1); calcCharacteristicPolynomial<W>(&g, f);
    if (f != poly(0x25) * poly(0xb)) { printf("characteristic polynomial has degree %ld\n", deg(f)); return 1; }
    return 0; }
''', 'a generator whose later output bits have a minimal polynomial of smaller degree with a factor not seen before', 'the characteristic polynomial misses factors that only later bits show'),
 ('s08-annihilate-gap', 'P05', [(G, 'for (int i = 0; i <= deg(poly); i++) {\n            if (coeff(poly, i) != 0) {\n                rg->add(*other);\n            }', 'for (int i = 0; i <= deg(poly); i++) {\n            if (coeff(poly, i) != 0 && !other->isZero() && i != 31) {\n                rg->add(*other);\n            }')],
  LIN + r'''
int main() { // x^31+x^3+1 annihilates the register it generates
    Lin g(31, 31); g.companion(0, 31, taps(poly((1ULL << 31) | 9))); g.B[0] = 1; g.st = 0x12345;
    annihilate<W>(&g, poly((1ULL << 31) | 9));
    if (!g.isZero()) { printf("not annihilated\n"); return 1; }
    return 0; }
''', 'a polynomial with the coefficient of degree 31', 'one coefficient is ignored when a polynomial is applied to a state'),
 ('s09-one-bit-omitted', 'P06', [(E, 'for (; bit_len >= 1; bit_len--) {\n            adjust(bit_len);\n            sum +=', 'for (; bit_len > 1; bit_len--) {\n            adjust(bit_len);\n            sum +=')], SWEEP,
  'a generator whose most significant bit alone is not maximally equidistributed', 'the defect of one-bit resolution is left out of the total reported by get_equidist'),
 ('s10-adjust-every-other', 'P06', [(E, 'for (; bit_len >= 1; bit_len--) {\n            adjust(bit_len);\n            veq', 'for (; bit_len >= 1; bit_len--) {\n            if (veq[bit_len] != 0) {\n                adjust(bit_len);\n            }\n            veq')], SWEEP,
  'a length whose dimension is 0', 'after a length with dimension 0 the basis is not reduced to the next length'),
 ('s11-zero-too-early', 'P07', [(E, 'if (zero_count > rand->bitSize() * 2) {', 'if (zero_count * 4 > rand->bitSize()) {')], SWEEP,
  'a nonzero state whose next outputs are zero for more than a quarter of the state size', 'vectors with a long run of zero outputs are taken for zero'),
 ('s12-unit-vector-wraps', 'P07', [(E, 'next = getOne<U>() << (bit_size<U>() - bit_pos - 1);', 'next = getOne<U>() << ((bit_size<U>() - bit_pos - 1) & 31);')],
  LIN + r'''
// a 64-bit generator, state and output 64 bits
struct L64 : public EquidistributionCalculatable<uint64_t> {
    uint64_t s; L64() : s(1) {} L64(const L64& o) : s(o.s) {}
    uint64_t generate() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    uint64_t generate(int n) { return generate() & (~0ULL << (64 - n)); }
    void seed(uint64_t v) { s = v; } int bitSize() const { return 64; }
    void setUpParam(ParameterGenerator&) {} const string getHeaderString() { return ""; } const string getParamString() { return ""; }
    L64 * clone() const { return new L64(*this); } void add(EquidistributionCalculatable<uint64_t>& o) { s ^= dynamic_cast<L64&>(o).s; }
    void setZero() { s = 0; } bool isZero() const { return s == 0; }
};
int main() { // the unit vectors of a 64-bit analysis are unit vectors
    L64 g;
    for (int p = 0; p < 64; p++) { linear_generator_vector<uint64_t> v(g, p); if (v.next != 1ULL << (63 - p) || v.count != 0) { printf("unit vector %d is %llx\n", p, (unsigned long long)v.next); return 1; } }
    return 0; }
''', 'an analysis of 64-bit words with more than 32 bits', 'the unit vectors for the upper half of a 64-bit word coincide with those of the lower half'),
 ('s13-zero-pattern-skipped', 'P08', [(PB, 'for (int i = (1 << size) -1; i >= 0; i--) {', 'for (int i = (1 << size) -1; i > 0; i--) {')],
  LIN + r'''
int main() { // tempering can only destroy output bits here: leaving them alone is the best pattern
    Lin g = randomLin(11); g.mode = 1;
    AlgorithmPartialBitPattern<W, 32, 1, 4, 2> t; t(g);
    Lin best(g); best.p[0] = 0; best.setUpTempering(); int v[32];
    int d = AlgorithmEquidistribution<W>(g, 32).get_all_equidist(v), b = AlgorithmEquidistribution<W>(best, 32).get_all_equidist(v);
    if (d > b) { printf("defect %d, %d without tempering\n", d, b); return 1; }
    return 0; }
''', 'a generator for which the all-zero window is the best pattern', 'the empty pattern of each window is never tried'),
 ('s14-reversed-measurement', 'P08', [(BB, 'rand.resetReverseOutput();\n            if (verbose) {\n                cout << "searching from MSB"', 'if (verbose) {\n                cout << "searching from MSB"')],
  LIN + r'''
int main() { // the generator was left in reversed order by earlier work
    Lin g = randomLin(9); g.mode = 2; g.setReverseOutput(); int sh[2] = {3, 5};
    measuredReversed = 0; AlgorithmBestBits<W> t(32, sh, 2, 3); t(g);
    if (measuredReversed) { printf("%d measurements in reversed order\n", measuredReversed); return 1; }
    return 0; }
''', 'a generator whose reverse flag is set when the search starts', 'the MSB search measures the LSB order'),
 ('s15-tempered-twice', 'P09', [(RRT, 'return search(rg, st, st, verbose, os, true);', 'return search(rg, st, st, verbose, os);')],
  LIN + r'''
struct Red : public Lin { Red() : Lin(10, 7) { for (int i = 0; i < 32; i++) B[i] = rnd() & 0x3ff; } Red(const Red& o) : Lin(o) {} Red * clone() const { return new Red(*this); }
    void setUpParam(ParameterGenerator& g) { g.getUint64(); companion(0, 7, taps(poly(0x83))); companion(7, 3, taps(poly(0xb))); } void seed(uint32_t v) { st = 0x81; } };
struct Count : public AlgorithmTempering<W> { int n; Count() : n(0) {} int operator()(TemperingCalculatable<W>& r, bool) { n++; r.setUpTempering(); return 0; } bool isLSBTempering() const { return false; } };
int main() { // one tempering given: applied exactly once
    Src s; Red g; AlgorithmReducibleRecursionAndTempering<W, Red> a(s); Count st;
    if (!a.search(g, st)) return 3;
    if (st.n != 1) { printf("tempering applied %d times\n", st.n); return 1; }
    return 0; }
''', 'a reducible search with a single tempering algorithm that is not idempotent', 'the only tempering is applied twice'),
 ('s16-delta-before-tempering', 'P09', [(RRT, 'st1(rg, verbose);\n            AlgorithmEquidistribution<U> sc(rg, bit_size<U>(),\n                                                rg.getMexp());', 'AlgorithmEquidistribution<U> sc(rg, bit_size<U>(),\n                                                rg.getMexp());\n            st1(rg, verbose);')],
  LIN + r'''
struct Red : public Lin { Red() : Lin(10, 7) { mode = 2; for (int i = 0; i < 32; i++) B[i] = i > 26 ? 1ULL << (rnd() % 3) | 1 << 8 : rnd() & 0x3ff; } Red(const Red& o) : Lin(o) {} Red * clone() const { return new Red(*this); }
    void setUpParam(ParameterGenerator& g) { g.getUint64(); companion(0, 7, taps(poly(0x83))); companion(7, 3, taps(poly(0xb))); } void seed(uint32_t v) { st = 0x81; } };
int main() {
    for (int t = 0; t < 40; t++) {
        Src s; Red g; AlgorithmReducibleRecursionAndTempering<W, Red> a(s); AlgorithmPartialBitPattern<W, 32, 2, 6, 3> st;
        if (!a.search(g, st)) return 3;
        int v[32]; AlgorithmEquidistribution<W> e(g, 32, 7); int d = e.get_all_equidist(v);
        if (d != a.getDelta()) { printf("delta %d, the generator has %d\n", a.getDelta(), d); return 1; }
    }
    return 0; }
''', 'a generator whose defect the tempering changes', 'the defect handed out was measured before the tempering was installed'),
 ('s17-parity-first-bit', 'P10', [(CP, 'int bit_pos = 0;', 'int bit_pos = 1;')],
  LIN + r'''
struct Red : public Lin { Red() : Lin(8, 5) { companion(0, 3, taps(poly(0xb))); companion(3, 5, taps(poly(0x25))); B[0] = 1 | 1 << 3; } Red(const Red& o) : Lin(o) {} Red * clone() const { return new Red(*this); }
    static vector<int> asked; void setOneBit(int b) { asked.push_back(b); Lin::setOneBit(b); } };
vector<int> Red::asked;
int main() { // any state with nonzero part in the 5-bit register has a parity; count unit states tried
    Red g; AlgorithmCalculateParity<W, Red> c; c.searchParity(g, poly(0x25));
    for (size_t i = 0; i < Red::asked.size(); i++) if (Red::asked[i] != (int)i) { printf("unit state %zu is bit %d\n", i, Red::asked[i]); return 1; }
    return 0; }
''', 'a reducible generator in which only the first state bit carries one of the vectors', 'the unit state of bit 0 is never used, the base can stay incomplete'),
 ('s18-parity-stops-short', 'P10', [(CP, 'int base_num = maxdegree - mexp;', 'int base_num = maxdegree - mexp - (maxdegree - mexp > 1);')],
  LIN + r'''
static int A_, B_;
struct Red : public Lin { Red() : Lin(32, 3) { companion(0, 29, taps(poly((1ULL << 29) | 5))); companion(29, 3, taps(poly(0xb))); B[0] = 1 | 1 << 29; } Red(const Red& o) : Lin(o) {} Red * clone() const { return new Red(*this); }
    uint32_t getParityValue() const { W x = (W)st; x ^= x >> A_; x ^= x << B_; x ^= x >> 11; return x; } };
int main() { // the parity vector must be orthogonal to every state annihilated by x^3+x+1
    for (A_ = 1; A_ < 8; A_++) for (B_ = 1; B_ < 8; B_++) { Red g; AlgorithmCalculateParity<W, Red> c; W p = c.searchParity(g, poly(0xb));
    for (int b = 0; b < 32; b++) { Red h(g); h.setOneBit(b); annihilate<W>(&h, poly(0xb)); for (int i = 0; i < 64; i++) { h.generate(); if (__builtin_parity(h.getParityValue() & p)) { printf("parity vector %08x is not orthogonal to %08x\n", p, h.getParityValue()); return 1; } } } }
    return 0; }
''', 'a generator with more than one superfluous state bit', 'the search stops with one base vector missing, the vector found is not orthogonal to all of them'),
]
