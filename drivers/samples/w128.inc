void w_shr(const w128_t *a, int s, w128_t *r) { *r = *a >> s; }
void w_shl(const w128_t *a, int s, w128_t *r) { *r = *a << s; }
void w_and(const w128_t *a, const w128_t *b, w128_t *r) { *r = *a & *b; }
void w_xor(const w128_t *a, const w128_t *b, w128_t *r) { *r = *a ^ *b; }
void w_not(const w128_t *a, w128_t *r) { *r = ~*a; }
void w_oreq(w128_t *a, const w128_t *b) { *a |= *b; }
void w_xoreq(w128_t *a, const w128_t *b) { *a ^= *b; }
bool w_eq(const w128_t *a, const w128_t *b) { return *a == *b; }
int w_lowest(const w128_t *a) { return MTToolBox::calc_1pos(*a); }
void w_rev(const w128_t *a, w128_t *r) { *r = MTToolBox::reverse_bit(*a); }
void w_msb(int n, w128_t *r) { *r = MTToolBox::make_msb_mask(n); }
void w_andmask(const w128_t *a, const w128_t *b, w128_t *r) { *r = MTToolBox::and_mask(*a, *b); }
unsigned int w_get(const w128_t *a, int pos) { return MTToolBox::getBitOfPos<w128_t>(*a, pos); }
void w_set(w128_t *a, int pos, unsigned int b) { MTToolBox::setBitOfPos<w128_t>(a, pos, b); }
bool w_iszero(const w128_t *a) { return MTToolBox::isZero<w128_t>(*a); }
void w_setzero(w128_t *a) { MTToolBox::setZero<w128_t>(*a); }
void w_one(w128_t *r) { *r = MTToolBox::getOne<w128_t>(); }
void w_conv64(uint64_t x, w128_t *r) { *r = MTToolBox::convert<w128_t, uint64_t>(x); }
void w_conv32(uint32_t x, w128_t *r) { *r = MTToolBox::convert<w128_t, uint32_t>(x); }
