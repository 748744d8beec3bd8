// The packing of one output of a generator about whose outputs nothing is known.
#include <algorithm>
#include <MTToolBox/EquidistributionCalculatable.hpp>
#include <MTToolBox/util.hpp>
#include <iostream>
#include <memory>
using namespace MTToolBox;
class PackGen final : public EquidistributionCalculatable<w128_t> {
public:
    w128_t now;
    PackGen(const w128_t& n) { now = n; }
    PackGen(const PackGen& t) : EquidistributionCalculatable<w128_t>(t) { now = t.now; }
    w128_t generate() { return now; }
    w128_t generate(int) { return now; }
    void seed(w128_t) {}
    int bitSize() const { return 128; }
    void setUpParam(ParameterGenerator&) {}
    const std::string getHeaderString() { return ""; }
    const std::string getParamString() { return ""; }
    PackGen *clone() const { return new PackGen(*this); }
    void add(EquidistributionCalculatable<w128_t>&) {}
    void setZero() {}
    bool isZero() const { return false; }
};
