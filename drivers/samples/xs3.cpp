#define main mtv_sample_main
#include "samples/XORSHIFT/xorshift-3.cpp"
#undef main
#include "smp.hpp"
XorShift *smp_fresh(uint32_t v) { return new XorShift(v); }
SMP(XorShift, uint32_t)
