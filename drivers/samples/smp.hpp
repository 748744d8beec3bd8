// The operations of one sample generator as plain functions (never run, only analysed).
#define SMP(G, U) \
    void smp_seed(G *g, const U *v) { g->G::seed(*v); } \
    void smp_next(G *g, U *r) { *r = g->G::generate(); } \
    void smp_out(G *g, int n, U *r) { *r = g->G::generate(n); } \
    void smp_add(G *g, MTToolBox::EquidistributionCalculatable<U> *o) { g->G::add(*o); } \
    MTToolBox::EquidistributionCalculatable<U> *smp_up(G *g) { return g; } \
    void smp_zero(G *g) { g->G::setZero(); } \
    bool smp_iszero(const G *g) { return g->G::isZero(); } \
    int smp_bits(const G *g) { return g->G::bitSize(); } \
    G *smp_clone(const G *g) { return new G(*g); } \
    MTToolBox::EquidistributionCalculatable<U> *smp_vclone(const G *g) { return g->G::clone(); } \
    void smp_setup(G *g, MTToolBox::ParameterGenerator *p) { g->G::setUpParam(*p); } \
    void smp_header(G *g) { g->G::getHeaderString(); } \
    void smp_param(G *g) { g->G::getParamString(); }
#define SMP_TEMPER(G, U) \
    void smp_pattern(G *g, const U *m, const U *p, int k) { g->G::setTemperingPattern(*m, *p, k); } \
    void smp_uptemper(G *g) { g->G::setUpTempering(); } \
    void smp_rev(G *g) { g->G::setReverseOutput(); } \
    void smp_norev(G *g) { g->G::resetReverseOutput(); } \
    bool smp_isrev(G *g) { return g->G::isReverseOutput(); }
#define SMP_REDUCIBLE(G, U) \
    void smp_one(G *g, int k) { g->G::setOneBit(k); } \
    void smp_setpar(G *g, const U *v) { g->G::setParityValue(*v); } \
    void smp_getpar(const G *g, U *v) { *v = g->G::getParityValue(); } \
    int smp_mexp(const G *g) { return g->G::getMexp(); }
