// Instantiates the equidistribution templates of the sfmtdc and dSFMTdc samples with a
// generator about which nothing is known and a word type that is a plain 64-bit word for
// everything but the packing of outputs (get_next), which is analysed with the real word type.
#include <MTToolBox/EquidistributionCalculatable.hpp>
#include <MTToolBox/util.hpp>
#include <iostream>
#include <memory>
#include <algorithm>
#include <vector>
int simd_1pos(uint64_t x);
uint64_t simd_one();
struct Word {
    uint64_t b;
    static uint32_t u[4];
    static uint64_t u64[2];
};
inline Word& operator^=(Word& x, Word y) { x.b ^= y.b; return x; }
inline Word operator^(Word x, Word y) { Word r; r.b = x.b ^ y.b; return r; }
inline Word operator<<(Word x, int n) { Word r; r.b = x.b << n; return r; }
inline bool operator==(Word x, Word y) { return x.b == y.b; }
inline std::ostream& operator<<(std::ostream& os, Word) { return os; }
namespace MTToolBox {
    template<> inline int bit_size<Word>() { return 64; }
    template<> inline Word getOne<Word>() { Word r; r.b = 1; return r; }
    template<> inline void setZero<Word>(Word& x) { x.b = 0; }
    template<> inline bool isZero<Word>(Word x) { return x.b == 0; }
    template<> inline void setBitOfPos<Word>(Word *, int, unsigned int) {}
    template<> inline unsigned int getBitOfPos<Word>(Word x, int p) { return (x.b >> p) & 1; }
    inline int calc_1pos(Word x) { return calc_1pos(x.b); }
}
class SimdGen : public MTToolBox::EquidistributionCalculatable<Word> {
public:
    SimdGen(const SimdGen& that);
    ~SimdGen();
    Word generate();
    Word generate(int);
    void seed(Word);
    int bitSize() const;
    void setUpParam(MTToolBox::ParameterGenerator&);
    const std::string getHeaderString();
    const std::string getParamString();
    SimdGen *clone() const;
    void add(MTToolBox::EquidistributionCalculatable<Word>&);
    void setZero();
    bool isZero() const;
    void setStartMode(int);
    void setWeightMode(int);
};
using namespace std;
#include SIMD_HEADER
namespace MTToolBox {
    template class SIMD_VECTOR<Word, SimdGen>;
    template class SIMD_ALGO<Word, SimdGen>;
    template int SIMD_CALC;
}
