U = 'include/MTToolBox/TestLinearity.hpp'
S_ = 'include/MTToolBox/Sequential.hpp'
BASE = r'''
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <stdint.h>
#include <stdexcept>
#include <NTL/GF2X.h>
#include <NTL/vec_GF2.h>
#include <MTToolBox/util.hpp>
#include <MTToolBox/TestLinearity.hpp>
#include <MTToolBox/Sequential.hpp>
using namespace MTToolBox; using namespace std;
#define CHECK(c) do { if (!(c)) { printf("broken: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)
'''
GEN = r'''
// a shift register whose output is nonlinear in one output bit only when the counter reaches a round
class G : public EquidistributionCalculatable<uint32_t> {
public:
    G() : s(1), n(0), k(99) {}
    G(const G& x) : EquidistributionCalculatable<uint32_t>(), s(x.s), n(x.n), k(x.k) {}
    G * clone() const { return new G(*this); }
    uint32_t generate() {
        uint32_t r = s;
        if (n == k) { r ^= (s & (s >> 1)) & 0xffff0000u; }
        n++;
        s ^= s << 13; s ^= s >> 17; s ^= s << 5;
        return r;
    }
    uint32_t generate(int) { return generate(); }
    void seed(uint32_t v) { s = v * 2654435761u; n = 0; }
    int bitSize() const { return 32; }
    const string getHeaderString() { return ""; }
    const string getParamString() { return ""; }
    void setUpParam(ParameterGenerator&) {}
    void add(EquidistributionCalculatable<uint32_t>& o) { s ^= dynamic_cast<G&>(o).s; }
    void setZero() { s = 0; }
    bool isZero() const { return s == 0; }
    void setOutputMask(uint32_t) {}
    uint32_t s; int n; int k;
};
'''
S = [
('s23-low-half-compared', 'P18', [(U, 'if (!((res1 ^ res2) == res3)) {', 'U diff = res1 ^ res2 ^ res3;\n                diff = diff << 16;\n                if (!isZero(diff)) {')],
 BASE + GEN + r'''
int main() {
    for (int k = 0; k < 100; k += 33) { G g; g.k = k; TestLinearity<uint32_t> t; CHECK(!t(g)); }
    G h; h.k = 1000; TestLinearity<uint32_t> t; CHECK(t(h));
    return 0;
}
''', 'a generator whose high output bits alone are not linear', 'the linearity test compares the low 16 bits of the outputs only and accepts a nonlinear generator'),
('s24-last-round-wins', 'P18', [(U, '                if (!isZero(g2->generate())) {\n                    result = false;\n                    break;\n                }', '                result = isZero(g2->generate());')],
 BASE + r'''
// output of the zero state is nonzero for the first rounds: not linear although the sum rule alone
// is satisfied by cancellation
class G : public EquidistributionCalculatable<uint32_t> {
public:
    G() : s(1), c(0), n(0) {}
    G(const G& x) : EquidistributionCalculatable<uint32_t>(), s(x.s), c(x.c), n(x.n) {}
    G * clone() const { return new G(*this); }
    uint32_t generate() { // c counts (mod 2) the seedings summed up; an even number of them shows up early
        uint32_t r = s;
        if (s == 0 && n < 50) { r ^= 1; }
        n++;
        s ^= s << 13; s ^= s >> 17; s ^= s << 5;
        return r;
    }
    uint32_t generate(int) { return generate(); }
    void seed(uint32_t v) { s = v * 2654435761u; n = 0; c = 1; }
    int bitSize() const { return 32; }
    const string getHeaderString() { return ""; }
    const string getParamString() { return ""; }
    void setUpParam(ParameterGenerator&) {}
    void add(EquidistributionCalculatable<uint32_t>& o) { s ^= dynamic_cast<G&>(o).s; c ^= dynamic_cast<G&>(o).c; }
    void setZero() { s = 0; }
    bool isZero() const { return s == 0; }
    void setOutputMask(uint32_t) {}
    uint32_t s; int c; int n;
};
int main() { G g; TestLinearity<uint32_t> t; CHECK(!t(g)); return 0; }
''', 'a generator whose zero state gives nonzero outputs at first and zeros later', 'only the last of the 100 outputs of the zero state is looked at'),
('s25-copy-forgets-end', 'P19', [(S_, 'error = src.error;', 'error = (src.status == 0);')],
 BASE + r'''
int main() { // a copy of an exhausted counter is exhausted
    Sequential<uint32_t> a(0, 2);
    a.next(); a.next(); a.next();
    Sequential<uint32_t> b(a);
    bool refused = false;
    try { b.next(); } catch (std::underflow_error&) { refused = true; }
    CHECK(refused);
    Sequential<uint32_t> c(0, 2); c.next(); c.next();
    Sequential<uint32_t> d(c);
    CHECK(d.next() == 0);
    return 0;
}
''', 'copying a counter that is about to hand out, or has handed out, zero', 'the copy refuses the last number and goes on after the end with wrapped-around numbers'),
('s26-end-by-sign', 'P19', [(S_, '            if (status <= 0) {\n                error = true;\n            }\n', '            if (static_cast<int64_t>(status) <= 0) {\n                error = true;\n            }\n')],
 BASE + r'''
int main() {
    Sequential<uint64_t> a(0, UINT64_C(0x8000000000000001));
    CHECK(a.next() == UINT64_C(0x8000000000000001));
    CHECK(a.next() == UINT64_C(0x8000000000000000));
    CHECK(a.next() == UINT64_C(0x7fffffffffffffff));
    Sequential<uint32_t> b(0, UINT32_C(0x80000000));
    b.next();
    CHECK(b.next() == 0x7fffffff);
    return 0;
}
''', 'a 64-bit counter whose top bit is set', 'after the first number the generator refuses although 2^63 numbers are left'),
]
