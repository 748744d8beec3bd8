b = {}
exec(open(V + '/tools/seeds/b.py').read(), b)
LIN = b['LIN']
I = 'include/MTToolBox/'
S = [
 ('s48-two-units-clash', 'P25', [(I + 'TestLinearity.hpp', 'namespace MTToolBox {\n', 'namespace MTToolBox {\n    /** number of outputs compared */\n    int linearity_rounds() {\n        return 100;\n    }\n\n'), (I + 'TestLinearity.hpp', 'i < 100', 'i < linearity_rounds()'), (I + 'TestLinearity.hpp', 'i < 100', 'i < linearity_rounds()')], LIN + r'''
#include <MTToolBox/TestLinearity.hpp>
bool other();
int main() { Lin g = randomLin(9); TestLinearity<W> t; return t(g) && other() ? 0 : 1; }
''', 'a program of two source files that both include TestLinearity.hpp', 'the helper is defined in both, so the program does not link', {'nocompile': 1, 'second': '#include <MTToolBox/TestLinearity.hpp>\nbool other() { MTToolBox::TestLinearity<uint32_t> t; (void)t; return true; }\n'}),
 ('s49-guard-shared', 'P25', [(I + 'TestLinearity.hpp', '#ifndef MTTOOLBOX_TEST_LINEARITY_HPP\n#define MTTOOLBOX_TEST_LINEARITY_HPP', '#ifndef MTTOOLBOX_SEQUENTIAL_HPP\n#define MTTOOLBOX_SEQUENTIAL_HPP')], r'''
#include <MTToolBox/Sequential.hpp>
#include <MTToolBox/TestLinearity.hpp>
int main() { MTToolBox::Sequential<uint32_t> s; MTToolBox::TestLinearity<uint32_t> t; (void)t; return s.getUint32() == s.getUint32() ? 1 : 0; }
''', 'a program that includes both headers', 'the second header declares nothing, because its include guard is that of the first', {'nocompile': 1}),
 ('s50-asks-for-more', 'P25', [(I + 'AlgorithmReducibleEquidistribution.hpp', '            NTL::GF2X quotient = poly / irreducibleFactor;', '            NTL::GF2X quotient(poly / irreducibleFactor);\n            rand.resetReverseOutput();')], LIN + r'''
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
struct Red : public ReducibleGenerator<W> { Lin g; Red(const Lin& q) : g(q) {} W generate() { return g.generate(); } W generate(int n) { return g.generate(n); } void seed(W v) { g.seed(v); } int bitSize() const { return g.bitSize(); }
  void setUpParam(ParameterGenerator& p) { g.setUpParam(p); } const std::string getHeaderString() { return ""; } const std::string getParamString() { return ""; }
  Red * clone() const { return new Red(*this); } void add(EquidistributionCalculatable<W>& o) { g.add(dynamic_cast<Red&>(o).g); } void setZero() { g.setZero(); } bool isZero() const { return g.isZero(); }
  void setOneBit(int) {} W getParityValue() const { return 0; } void setParityValue(W) {} int getMexp() const { return 3; } };
int main() { // a reducible generator without tempering
    Red r(randomLin(9)); Red q(r); NTL::GF2X c(0, 1); q.seed(1); calcCharacteristicPolynomial<W>(&q, c);
    r.seed(1); NTL::GF2X one; SetCoeff(one, 0); AlgorithmReducibleEquidistribution<W, Red> a(r, c, 4, (int)deg(c)); int veq[8]; a.get_all_equidist(veq); return 0; }
''', 'a generator that is a ReducibleGenerator and not a TemperingCalculatable', 'the algorithm no longer accepts it, although its interface is all that is documented', {'nocompile': 1}),
]
