b = {}
exec(open(V + '/tools/seeds/b.py').read(), b)
LIN, BB = b['LIN'], b['BB']
I = 'include/MTToolBox/'
S_ = I + 'Sequential.hpp'
REC = LIN + r'''
#include <vector>
struct Rec : public Lin { std::vector<W> seen; Rec(const Lin& q) : Lin(q) {} // writes down what is tried for parameter 0
  void setTemperingPattern(W m, W p, int i) { if (i == 0) seen.push_back(p); Lin::setTemperingPattern(m, p, i); } };
'''
S = [
 ('s54-reaches-wrong-bit', 'P08', [(BB, 'sum += shifts[rdx];\n                    index = idx;\n                    idx++;\n                    rdx--;\n                }\n            }\n\n#if', 'sum += shifts[idx];\n                    index = idx;\n                    idx++;\n                    rdx--;\n                }\n            }\n\n#if')],
  REC + r'''
int main() { // parameter 0 is chosen at the first bit and at the bit the second shift reaches
    Rec g(randomLin(9)); g.mode = 2; int sh[2] = {3, 5}; AlgorithmBestBits<W> t(32, sh, 2, 1); t(g);
    for (size_t i = 0; i < g.seen.size(); i++) if (g.seen[i] & ~((1u << 31) | (1u << 26))) { printf("%08x tried\n", g.seen[i]); return 1; }
    return 0; }
''', 'two tempering parameters with different shifts', 'the bit chosen together with the current one is not the one the shift reaches'),
 ('s55-first-of-the-best', 'P08', [(BB, 'if (current[i]->delta == delta) {\n                        params.push_back(current[i]);\n                    }', 'if (current[i]->delta == delta) {\n                        params.push_back(current[i]);\n                    }\n                    if (params.size() == 4) {\n                        break;\n                    }')],
  REC + r'''
int main() { // tempering that changes nothing: all patterns are equally good and all are gone on from
    Rec g(randomLin(9)); g.mode = 0; int sh[2] = {3, 5}; g.seen.clear();
    { AlgorithmBestBits<W> t(32, sh, 2, 1); t(g); } size_t one = g.seen.size(); g.seen.clear();
    { AlgorithmBestBits<W> t(32, sh, 2, 2); t(g); } size_t two = g.seen.size();
    printf("%zu, %zu\n", one, two); return two >= 8 + 64 ? 0 : 1; }
''', 'more than four patterns with the least defect in one round', 'only the first four of the best patterns are gone on from'),
 ('s56-all-but-last-bit-pattern', 'P08', [(BB, 'for (int32_t i = (1 << num_pat) -1; i >= 0; i--) {', 'for (int32_t i = (1 << num_pat) -1; i > (v_bit > 0 ? 0 : -1); i--) {')],
  REC + r'''
int main() { // a generator whose output is best left alone
    Rec g(randomLin(9)); g.mode = 2; int sh[1] = {3}; AlgorithmBestBits<W> t(32, sh, 1, 2); t(g);
    bool none = false; for (size_t i = 0; i < g.seen.size(); i++) none |= (g.seen[i] & (1u << 30)) == 0 && i >= 2 && i + 1 < g.seen.size();
    return none ? 0 : 1; }
''', 'a position after the first', 'leaving all bits of a later position clear is never tried'),
 ('s57-exhausted-from-birth', 'P19', [(S_, '            status = seed;\n            mask = p_mask;\n            error = false;', '            status = seed;\n            mask = p_mask;')],
  r'''
#include <MTToolBox/Sequential.hpp>
#include <new>
#include <cstring>
#include <cstdio>
using namespace MTToolBox;
int main() { // an object made where something else was before
    static volatile char m[64] __attribute__((aligned(16))); for (int i = 0; i < 64; i++) m[i] = 1;
    Sequential<uint32_t> * volatile s = new ((void *)m) Sequential<uint32_t>(0, 3);
    try { uint32_t r = s->next(); printf("%u\n", r); return r == 3 ? 0 : 1; } catch (std::underflow_error&) { printf("refused\n"); return 1; } }
''', 'an object with counter and mask placed in memory that was not zero', 'the flag of an exhausted counter is left unset'),
]
