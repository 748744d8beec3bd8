#include "samples/dSFMTdc/w128.hpp"
#include "simdpack.inc"
#include "samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp"
void smp_pack(int, int elements, int bits, bool, const w128_t *in, w128_t *out) {
    DSFMTInfo info;
    info.bitSize = 128;
    info.elementNo = elements;
    PackGen g(*in);
    dsfmt_linear_generator_vector<w128_t, PackGen> *v = new dsfmt_linear_generator_vector<w128_t, PackGen>(g, info);
    v->next.u64[0] = v->next.u64[1] = ~UINT64_C(0);
    v->get_next(bits);
    *out = v->next;
}
