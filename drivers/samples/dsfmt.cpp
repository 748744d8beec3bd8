#include "samples/dSFMTdc/dSFMTsearch.hpp"
#include "smp.hpp"
using namespace MTToolBox;
dSFMT *smp_make(int mexp, int pos1, int sl1, const uint64_t *k) {
    dSFMT_param p;
    p.mexp = mexp; p.pos1 = pos1; p.sl1 = sl1; p.msk1 = k[0]; p.msk2 = k[1];
    p.fix1 = k[2]; p.fix2 = k[3]; p.parity1 = k[4]; p.parity2 = k[5];
    return new dSFMT(p);
}
dSFMT *smp_fresh(int mexp) { return new dSFMT(mexp); }
void smp_start(dSFMT *g, int m) { g->setStartMode(m); }
void smp_weight(dSFMT *g, int m) { g->setWeightMode(m); }
int smp_cert(dSFMT *g) { return g->periodCertification(); }
int smp_certnofix(dSFMT *g) { return g->periodCertification(true); }
void smp_fixed(dSFMT *g, int sl1) { g->setFixed(true); g->setFixedSL1(sl1); }
void smp_prefix(dSFMT *g, uint64_t p) { g->setPrefix(p); }
void smp_const(dSFMT *g) { g->setConst(); }
void smp_fix(dSFMT *g, const w128_t *f) { g->setFixPoint(*f); }
bool smp_equals(dSFMT *g, dSFMT *o) { return g->equals(*o); }
SMP(dSFMT, w128_t)
SMP_REDUCIBLE(dSFMT, w128_t)
#include "w128.inc"
