#include "samples/RMT/rmt64.hpp"
#include "smp.hpp"
RMT64Search *smp_make(int mexp, int pos, uint64_t a, uint64_t b, uint64_t c, uint64_t v) {
    return new RMT64Search(mexp, pos, a, b, c, v);
}
RMT64Search *smp_fresh(int mexp, uint64_t v) { return new RMT64Search(mexp, v); }
SMP(RMT64Search, uint64_t)
SMP_TEMPER(RMT64Search, uint64_t)
SMP_REDUCIBLE(RMT64Search, uint64_t)
