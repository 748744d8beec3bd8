#include "samples/sfmtdc/w128.hpp"
#include "simdpack.inc"
#include "samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp"
void smp_pack(int mode, int elements, int bits, bool lsb, const w128_t *in, w128_t *out) {
    SIMDInfo info;
    info.bitSize = 128;
    info.bitMode = mode;
    info.elementNo = elements;
    PackGen g(*in);
    simd_linear_generator_vector<w128_t, PackGen> *v = new simd_linear_generator_vector<w128_t, PackGen>(g, info, lsb);
    v->next.u64[0] = v->next.u64[1] = ~UINT64_C(0);
    v->get_next(bits);
    *out = v->next;
}
