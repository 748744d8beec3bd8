// A generator that implements the pure virtual functions of the abstract classes and nothing else.
// Nothing here is ever run: it is the type the templates are instantiated with.
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <type_traits>
namespace witness {
    using namespace MTToolBox;
    struct Source : public ParameterGenerator {
        void seed(uint64_t) {}
        uint32_t getUint32() { return 1; }
        uint64_t getUint64() { return 1; }
    };
    template<typename U>
    struct Plain : public RecursionSearchable<U> {
        U generate() { return 0; }
        void seed(U) {}
        int bitSize() const { return 8; }
        void setUpParam(ParameterGenerator&) {}
        const std::string getHeaderString() { return ""; }
        const std::string getParamString() { return ""; }
    };
    template<typename U>
    struct Equi : public EquidistributionCalculatable<U> {
        U generate() { return 0; }
        U generate(int) { return 0; }
        void seed(U) {}
        int bitSize() const { return 8; }
        void setUpParam(ParameterGenerator&) {}
        const std::string getHeaderString() { return ""; }
        const std::string getParamString() { return ""; }
        Equi *clone() const { return 0; }
        void add(EquidistributionCalculatable<U>&) {}
        void setZero() {}
        bool isZero() const { return true; }
    };
    template<typename U>
    struct Temper : public TemperingCalculatable<U> {
        U generate() { return 0; }
        U generate(int) { return 0; }
        void seed(U) {}
        int bitSize() const { return 8; }
        void setUpParam(ParameterGenerator&) {}
        const std::string getHeaderString() { return ""; }
        const std::string getParamString() { return ""; }
        Temper *clone() const { return 0; }
        void add(EquidistributionCalculatable<U>&) {}
        void setZero() {}
        bool isZero() const { return true; }
        void setTemperingPattern(U, U, int) {}
        void setUpTempering() {}
        void setReverseOutput() {}
        void resetReverseOutput() {}
        bool isReverseOutput() { return false; }
    };
    template<typename U>
    struct Reduce : public ReducibleGenerator<U> {
        U generate() { return 0; }
        U generate(int) { return 0; }
        void seed(U) {}
        int bitSize() const { return 8; }
        void setUpParam(ParameterGenerator&) {}
        const std::string getHeaderString() { return ""; }
        const std::string getParamString() { return ""; }
        Reduce *clone() const { return 0; }
        void add(EquidistributionCalculatable<U>&) {}
        void setZero() {}
        bool isZero() const { return true; }
        void setOneBit(int) {}
        U getParityValue() const { return 0; }
        void setParityValue(U) {}
        int getMexp() const { return 7; }
    };
    template<typename U>
    struct Full : public ReducibleTemperingCalculatable<U> {
        U generate() { return 0; }
        U generate(int) { return 0; }
        void seed(U) {}
        int bitSize() const { return 8; }
        void setUpParam(ParameterGenerator&) {}
        const std::string getHeaderString() { return ""; }
        const std::string getParamString() { return ""; }
        Full *clone() const { return 0; }
        void add(EquidistributionCalculatable<U>&) {}
        void setZero() {}
        bool isZero() const { return true; }
        void setTemperingPattern(U, U, int) {}
        void setUpTempering() {}
        void setReverseOutput() {}
        void resetReverseOutput() {}
        bool isReverseOutput() { return false; }
        void setOneBit(int) {}
        U getParityValue() const { return 0; }
        void setParityValue(U) {}
        int getMexp() const { return 7; }
    };
}
