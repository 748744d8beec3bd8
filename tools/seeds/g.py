b = {}
exec(open(V + '/tools/seeds/b.py').read(), b)
LIN = b['LIN']
I = 'include/MTToolBox/'
TL, EQ, CP, BB, MT, RG, RM = (I + 'TestLinearity.hpp', I + 'AlgorithmEquidistribution.hpp', I + 'AlgorithmCalculateParity.hpp', I + 'AlgorithmBestBits.hpp', I + 'MersenneTwister.hpp', I + 'ReducibleGenerator.hpp', 'samples/RMT/rmt64.hpp')
HEAP = r'''
#include <cstdlib>
#include <cstdio>
#include <new>
// every block carries how it was made: 1 new, 2 new[]
static long live_blocks = 0, wrong_form = 0, twice = 0;
static void * mk(size_t n, long f) { long * p = (long *)malloc(n + 32); if (!p) abort(); p[0] = f; p[1] = 0x5eed; live_blocks++; return p + 4; }
static void rl(void * q, long f) { if (!q) return; long * p = (long *)q - 4; if (p[1] != 0x5eed) { twice++; return; } if (p[0] != f) wrong_form++; p[1] = 0xdead; live_blocks--; }
void * operator new(size_t n) { return mk(n, 1); }
void * operator new[](size_t n) { return mk(n, 2); }
void operator delete(void * p) noexcept { rl(p, 1); }
void operator delete(void * p, size_t) noexcept { rl(p, 1); }
void operator delete[](void * p) noexcept { rl(p, 2); }
void operator delete[](void * p, size_t) noexcept { rl(p, 2); }
static int balance(long before) { if (live_blocks != before || wrong_form || twice) { printf("%ld blocks left, %ld released in another form, %ld released twice\n", live_blocks - before, wrong_form, twice); return 1; } return 0; }
'''
S = [
 ('s45-nonlinear-leaks', 'P12', [(TL, '''                    result = false;
                    break;
                }
            }
            delete g2;''', '''                    return false;
                }
            }
            delete g2;''')], HEAP + LIN + '#include <MTToolBox/TestLinearity.hpp>' + r'''
struct Odd : public Lin { Odd() : Lin(randomLin(9)) { } Odd(const Odd& o) : Lin(o) {} Odd * clone() const { return new Odd(*this); } W generate() { return Lin::generate() | 1; } };
int main() { // testing a generator that is not linear
    Odd g; TestLinearity<W> t; t(g); long before = live_blocks; bool r = t(g);
    if (r) { printf("an affine generator passes\n"); return 1; }
    return balance(before); }
''', 'a linearity test of a generator that fails the first half', 'the working copy is not released when the test fails'),
 ('s46-last-vector-kept', 'P12', [(EQ, 'for (int i = 0; i < size; i++) {\n                delete basis[i];', 'for (int i = 0; i < bit_len; i++) {\n                delete basis[i];')], HEAP + LIN + r'''
int main() { // the lattice basis and the output vector of the generator all go with the object
    Lin g = randomLin(9); { AlgorithmEquidistribution<W> a(g, 4); }
    long before = live_blocks; { AlgorithmEquidistribution<W> a(g, 4); }
    return balance(before); }
''', 'destroying an equidistribution object', 'one vector, with a copy of the generator in it, is never released'),
 ('s47-zero-polynomial-leaks', 'P12', [(RG, '        rg->setZero();\n        for', '        rg->setZero();\n        if (IsZero(poly)) {\n            return;\n        }\n        for')], HEAP + LIN + r'''
int main() { // annihilating by the zero polynomial
    Lin g = randomLin(9); NTL::GF2X z; Lin h(g); annihilate<W>(&h, z); Lin k(g);
    long before = live_blocks; annihilate<W>(&k, z); if (!k.isZero()) return 1;
    return balance(before); }
''', 'annihilating a generator by the zero polynomial', 'the copy of the generator is not released'),
]
