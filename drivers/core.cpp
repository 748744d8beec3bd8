// Instantiates every public template of /repo's headers so that the analyses see
// all members, whether or not a sample or a test happens to use them.
#include <MTToolBox/AbstractGenerator.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmTempering.hpp>
#include <MTToolBox/EquidistributionCalculatable.hpp>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
#include <MTToolBox/ParameterGenerator.hpp>
#include <MTToolBox/RecursionSearchable.hpp>
#include <MTToolBox/ReducibleGenerator.hpp>
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <MTToolBox/Sequential.hpp>
#include <MTToolBox/TemperingCalculatable.hpp>
#include <MTToolBox/TestLinearity.hpp>
#include <MTToolBox/period.hpp>
#include <MTToolBox/util.hpp>
#include <MTToolBox/version.h>

// A reducible generator whose behaviour is unknown: every method is only declared.
template<typename U>
class MtvGen : public MTToolBox::ReducibleTemperingCalculatable<U> {
public:
    MtvGen(const MtvGen& src);
    ~MtvGen();
    U generate();
    U generate(int outBitLen);
    void seed(U value);
    int bitSize() const;
    void setUpParam(MTToolBox::ParameterGenerator& generator);
    const std::string getHeaderString();
    const std::string getParamString();
    MtvGen * clone() const;
    void add(MTToolBox::EquidistributionCalculatable<U>& that);
    void setZero();
    bool isZero() const;
    void setOneBit(int bitPos);
    U getParityValue() const;
    void setParityValue(U parity);
    int getMexp() const;
    void setTemperingPattern(U mask, U pattern, int index);
    void setUpTempering();
    void setReverseOutput();
    void resetReverseOutput();
    bool isReverseOutput();
};

namespace MTToolBox {
#define MTV_INST(U) \
    template class AlgorithmRecursionSearch<U>; \
    template class AlgorithmReducibleRecursionSearch<U>; \
    template class linear_generator_vector<U>; \
    template class AlgorithmEquidistribution<U>; \
    template class AlgorithmReducibleEquidistribution<U, MtvGen<U> >; \
    template class temper_params<U>; \
    template class AlgorithmBestBits<U>; \
    template class AlgorithmRecursionAndTempering<U>; \
    template class AlgorithmReducibleRecursionAndTempering<U, MtvGen<U> >; \
    template class AlgorithmCalculateParity<U, MtvGen<U> >; \
    template class TestLinearity<U>; \
    template class Sequential<U>; \
    template void annihilate<U>(EquidistributionCalculatable<U>*, const NTL::GF2X&); \
    template void calcCharacteristicPolynomial<U>(ReducibleGenerator<U>*, NTL::GF2X&); \
    template void minpoly<U>(NTL::GF2X&, AbstractGenerator<U>&, int, int); \
    template void toGF2Vec<U>(NTL::vec_GF2&, U); \
    template U getOne<U>(); \
    template void setZero<U>(U&); \
    template unsigned int getBitOfPos<U>(U, int); \
    template void setBitOfPos<U>(U*, int, unsigned int); \
    template bool isZero<U>(U); \
    template int bit_size<U>(); \
    template U floor2p<U>(U); \
    template int get_range<U>(U, int, int); \
    template void fill_table<U>(U[], U[], int);
    MTV_INST(uint32_t)
    MTV_INST(uint64_t)
    template class AlgorithmPartialBitPattern<uint32_t, 32, 4, 23, 6, false>;
    template class AlgorithmPartialBitPattern<uint32_t, 32, 4, 23, 6, true>;
    template class AlgorithmPartialBitPattern<uint64_t, 64, 2, 50, 5, false>;
    template class AlgorithmPartialBitPattern<uint64_t, 64, 2, 50, 5, true>;
    template uint32_t fromGF2Vec<uint32_t>(NTL::vec_GF2&);
    template uint64_t fromGF2Vec<uint64_t>(NTL::vec_GF2&);
    template uint16_t floor2p<uint16_t>(uint16_t);
    template uint32_t convert<uint32_t, uint64_t>(uint64_t);
    template uint64_t convert<uint64_t, uint32_t>(uint32_t);
}
// internal-linkage utilities need a user to be emitted
int mtv_use16c(uint16_t x) { return MTToolBox::count_bit(x); }
int mtv_use32c(uint32_t x) { return MTToolBox::count_bit(x); }
int mtv_use64c(uint64_t x) { return MTToolBox::count_bit(x); }
int mtv_use16p(uint16_t x) { return MTToolBox::calc_1pos(x); }
int mtv_use32p(uint32_t x) { return MTToolBox::calc_1pos(x); }
int mtv_use64p(uint64_t x) { return MTToolBox::calc_1pos(x); }
uint32_t mtv_use32r(uint32_t x) { return MTToolBox::reverse_bit(x); }
uint64_t mtv_use64r(uint64_t x) { return MTToolBox::reverse_bit(x); }
void mtv_lcm(NTL::GF2X& r, const NTL::GF2X& a, const NTL::GF2X& b) { MTToolBox::LCM(r, a, b); }
void mtv_pb(std::ostream& o, NTL::GF2X& p, bool b) { MTToolBox::print_binary(o, p, b); }
void mtv_mt(MTToolBox::MersenneTwister** a, MTToolBox::MersenneTwister64** b, const std::string& s, const uint32_t *k, const uint64_t *l, int n) {
    a[0] = new MTToolBox::MersenneTwister(); a[1] = new MTToolBox::MersenneTwister(5U);
    a[2] = new MTToolBox::MersenneTwister(s); a[3] = new MTToolBox::MersenneTwister(k, n);
    b[0] = new MTToolBox::MersenneTwister64(); b[1] = new MTToolBox::MersenneTwister64((uint64_t)5U);
    b[2] = new MTToolBox::MersenneTwister64(s); b[3] = new MTToolBox::MersenneTwister64(l, n);
    a[0]->seed(s); b[0]->seed(s); a[0]->seed(k, n); b[0]->seed(l, n); a[0]->seed((uint64_t)1); b[0]->seed((uint64_t)1);
    a[0]->next(); b[0]->next(); a[0]->getUint32(); a[0]->getUint64(); b[0]->getUint32(); b[0]->getUint64(); b[0]->bitSize();
    delete a[0]; delete b[0];
}
MTToolBox::AlgorithmPrimitivity * mtv_ap() { return new MTToolBox::AlgorithmPrimitivity(); }
void mtv_dap(MTToolBox::AlgorithmPrimitivity *p) { delete p; }
void mtv_to32(NTL::vec_GF2& r, uint32_t x) { MTToolBox::toGF2Vec<uint32_t>(r, x); }
void mtv_to64(NTL::vec_GF2& r, uint64_t x) { MTToolBox::toGF2Vec<uint64_t>(r, x); }
uint32_t mtv_from32(NTL::vec_GF2& r) { return MTToolBox::fromGF2Vec<uint32_t>(r); }
uint64_t mtv_from64(NTL::vec_GF2& r) { return MTToolBox::fromGF2Vec<uint64_t>(r); }
