#include "samples/sfmtdc/sfmtsearch.hpp"
#include "smp.hpp"
using namespace MTToolBox;
sfmt *smp_make(int mexp, int pos1, int sl1, int sl2, int sr1, int sr2, const uint32_t *k) {
    sfmt_param p;
    p.mexp = mexp; p.pos1 = pos1; p.sl1 = sl1; p.sl2 = sl2; p.sr1 = sr1; p.sr2 = sr2;
    p.msk1 = k[0]; p.msk2 = k[1]; p.msk3 = k[2]; p.msk4 = k[3];
    p.parity1 = k[4]; p.parity2 = k[5]; p.parity3 = k[6]; p.parity4 = k[7];
    return new sfmt(p);
}
sfmt *smp_fresh(int mexp) { return new sfmt(mexp); }
void smp_start(sfmt *g, int m) { g->setStartMode(m); }
void smp_weight(sfmt *g, int m) { g->setWeightMode(m); }
int smp_cert(sfmt *g) { return g->periodCertification(); }
void smp_rev(sfmt *g) { g->set_reverse_bit(); }
void smp_norev(sfmt *g) { g->reset_reverse_bit(); }
SMP(sfmt, w128_t)
SMP_REDUCIBLE(sfmt, w128_t)
#include "w128.inc"
