#define main mtv_sample_main
#include "samples/MTDC/mt2.cpp"
#undef main
#include "smp.hpp"
MT32Search *smp_make(int mexp, int id, int pos, uint32_t a, uint32_t b, uint32_t c, uint32_t v) {
    return new MT32Search(mexp, id, pos, a, b, c, v);
}
MT32Search *smp_fresh(int mexp, int id, uint32_t v) { return new MT32Search(mexp, id, v); }
SMP(MT32Search, uint32_t)
SMP_TEMPER(MT32Search, uint32_t)
