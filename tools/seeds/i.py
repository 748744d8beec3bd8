W = 'samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp'
MAIN = r'''
#include "samples/sfmtdc/sfmtsearch.hpp"
#include "samples/sfmtdc/Annihilate.cpp"
#include "samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp"
#include <cstdio>
using namespace MTToolBox;
int main() { // SFMT607
  sfmt_param p; p.mexp = 607; p.pos1 = 2; p.sl1 = 15; p.sl2 = 3; p.sr1 = 13; p.sr2 = 3; p.msk1 = 0xfdff37ff; p.msk2 = 0xef7f3f7d; p.msk3 = 0xff777b7d; p.msk4 = 0x7ff7fb2f; p.parity1 = 1; p.parity4 = 0x5986f054;
  sfmt s(p); w128_t w; setZero(w); w.u64[0] = 1234; s.seed(w); if (!anni(s)) return 3;
  SIMDInfo i; i.bitSize = 128; i.bitMode = MODE; i.elementNo = 128 / MODE; int v[64];
  int d = calc_SIMD_equidistribution<w128_t, sfmt>(s, v, 4, i, 607, LSB);
  printf("%d: %d %d %d %d\n", d, v[0], v[1], v[2], v[3]);
  return d == TOTAL && v[0] == FIRST ? 0 : 1; }
'''


def main(mode, lsb, total, first):
    return '#define MODE %d\n#define LSB %s\n#define TOTAL %d\n#define FIRST %d\n' % (mode, lsb, total, first) + MAIN


O = {'src': 'lib/period.cpp lib/AlgorithmPrimitivity.cpp', 'inc': '-I . -I samples/sfmtdc'}
S = [
 ('s51-zero-too-soon', 'P28', [(W, 'rand->bitSize() * 2', 'bitLen * info.elementNo')], main(64, 'true', 4, 606),
  'a vector whose first nonzero output comes later than the number of bits compared', 'the vector is declared zero while it is not, and the dimension for one bit comes out as 30 instead of 606', O),
 ('s52-full-weight-skipped', 'P28', [(W, 'wm <= weight_max', 'wm < weight_max')], main(32, 'false', 11, 604),
  'a generator whose best weight mode is the full one', 'the dimensions of SFMT607 are reported one too small', O),
 ('s53-low-end-of-one-element', 'P28', [(W, '                w.u64[1] = reverse_bit(w.u64[1]);\n', '')], r'''
#include "samples/sfmtdc/w128.hpp"
#include <MTToolBox/EquidistributionCalculatable.hpp>
#include <memory>
#include <iostream>
#include <algorithm>
#include "samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp"
using namespace MTToolBox;
struct G : public EquidistributionCalculatable<w128_t> { w128_t o; G() { setZero_(); } void setZero_() { o.u64[0] = 0; o.u64[1] = 1; }
  w128_t generate() { return o; } w128_t generate(int) { return o; } void seed(w128_t) {} int bitSize() const { return 128; } void setUpParam(ParameterGenerator&) {}
  const std::string getHeaderString() { return ""; } const std::string getParamString() { return ""; } G *clone() const { return new G(*this); }
  void add(EquidistributionCalculatable<w128_t>&) {} void setZero() {} bool isZero() const { return false; } };
int main() { // the lowest bit of the upper element, asked for from the low end
  G g; SIMDInfo i; i.bitSize = 128; i.bitMode = 64; i.elementNo = 2;
  simd_linear_generator_vector<w128_t, G> v(g, i, true); v.get_next(1);
  return getBitOfPos(v.next, 126) == 1 && getBitOfPos(v.next, 127) == 0 ? 0 : 1; }
''', 'the analysis of the low bits in 64-bit mode', 'for the upper 64-bit element the high bits are analysed instead', {'src': '', 'inc': '-I . -I samples/sfmtdc'}),
]
