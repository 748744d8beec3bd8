#include "samples/MTGPDC/MTGP32search.hpp"
#include "smp.hpp"
using namespace mtgp;
mtgp32 *smp_fresh(int mexp, uint32_t id) { return new mtgp32(mexp, id); }
void smp_fields(mtgp32 *g, uint32_t *r) {
    mtgp_param<uint32_t> p = g->get_param();
    r[0] = (uint32_t)p.mexp; r[1] = p.id; r[2] = (uint32_t)p.pos; r[3] = (uint32_t)p.sh1; r[4] = (uint32_t)p.sh2; r[5] = p.mask;
    for (int i = 0; i < 16; i++) { r[8 + i] = p.p[i]; r[24 + i] = p.tp[i]; }
    for (int i = 0; i < 4; i++) { r[40 + i] = p.tbl[i]; r[44 + i] = p.tmp_tbl[i]; }
}
SMP(mtgp32, uint32_t)
SMP_TEMPER(mtgp32, uint32_t)
