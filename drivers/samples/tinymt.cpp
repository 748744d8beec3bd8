#include "samples/TinyMTDC/tinymt32search.hpp"
#include "smp.hpp"
using namespace tinymt;
tinymt32 *smp_make(uint32_t id, uint32_t mat1, uint32_t mat2, uint32_t tmat) {
    tinymt32_param p;
    p.id = id; p.mat1 = mat1; p.mat2 = mat2; p.tmat = tmat;
    return new tinymt32(p);
}
tinymt32 *smp_fresh(uint32_t id) { return new tinymt32(id); }
void smp_status(tinymt32 *g, uint32_t a, uint32_t b, uint32_t c, uint32_t d) {
    uint32_t v[4]; v[0] = a; v[1] = b; v[2] = c; v[3] = d;
    g->set_status(v);
}
void smp_fields(tinymt32 *g, uint32_t *r) {
    const tinymt32_param& p = g->get_param();
    r[0] = p.id; r[1] = p.mat1; r[2] = p.mat2; r[3] = p.tmat;
}
SMP(tinymt32, uint32_t)
SMP_TEMPER(tinymt32, uint32_t)
