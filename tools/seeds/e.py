DS, SF, RM, MG, TM, MT = 'samples/dSFMTdc/dSFMTsearch.hpp', 'samples/sfmtdc/sfmtsearch.hpp', 'samples/RMT/rmt64.hpp', 'samples/MTGPDC/MTGP32search.hpp', 'samples/TinyMTDC/tinymt32search.hpp', 'samples/MTDC/mt2.cpp'
H = r'''
#include <cstdio>
#include <cstdlib>
#include <string>
#include <sstream>
#include <set>
#include <vector>
#include <stdint.h>
#define CHECK(c) do { if (!(c)) { printf("broken: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)
'''
S = [
('s27-wide-shift-lost', 'P20', [(SF, 'ol |= th << (64 - shift * 8);', 'ol |= static_cast<uint32_t>(in->u[2]) ? th << (64 - shift * 8) : 0;')],
 H + r'''
#include "samples/sfmtdc/sfmtsearch.hpp"
using namespace MTToolBox;
int main() {
    sfmt_param p;
    p.mexp = 607; p.pos1 = 2; p.sl1 = 15; p.sl2 = 3; p.sr1 = 13; p.sr2 = 7;
    p.msk1 = p.msk2 = p.msk3 = p.msk4 = 0;
    p.parity1 = p.parity2 = p.parity3 = p.parity4 = 0;
    // one bit in the top lane of any word, against the published recurrence
    for (int w = 0; w < 5; w++) for (int b = 0; b < 32; b++) {
        sfmt g(p);
        g.setOneBit(128 * w + 96 + b);
        uint32_t s[5][4] = {{0}};
        s[w][3] = (uint32_t)1 << b;
        int i = 0;
        for (int k = 0; k < 12; k++) {
            i = (i + 1) % 5;
            uint32_t *A = s[i], *C = s[(i + 3) % 5], *D = s[(i + 4) % 5];
            unsigned __int128 a = 0, c = 0;
            for (int j = 3; j >= 0; j--) { a = (a << 32) | A[j]; c = (c << 32) | C[j]; }
            unsigned __int128 x = a << 24, y = c >> 56;
            uint32_t n[4];
            for (int j = 0; j < 4; j++) n[j] = A[j] ^ (uint32_t)(x >> (32 * j)) ^ (uint32_t)(y >> (32 * j)) ^ (D[j] << 15);
            for (int j = 0; j < 4; j++) A[j] = n[j];
            w128_t r = g.generate();
            for (int j = 0; j < 4; j++) CHECK(r.u[j] == n[j]);
        }
    }
    return 0;
}
''', 'a state word whose third lane is zero and the fourth is not', 'the byte shift of the SFMT recurrence drops the bits of the top lane when the lane below is zero', {'src': '', 'inc': '-I .'}),
('s28-lung-crossing', 'P20', [(DS, '            lung->u64[1] = (t1 << param.sl1) ^ (L0 >> 32) ^ (L0 << 32)\n', '            lung->u64[1] = (t1 << param.sl1) ^ (L0 >> 32) ^ (lung->u64[0] << 32)\n')],
 H + r'''
#include "samples/dSFMTdc/dSFMTsearch.hpp"
using namespace MTToolBox;
int main() {
    dSFMT_param p;
    p.mexp = 521; p.pos1 = 1; p.sl1 = 19;
    p.msk1 = 0x000fbfefff77efffULL; p.msk2 = 0x000ffeebfbdfbfdfULL;
    dSFMT g(p);
    g.setZero();
    g.setOneBit(104 * 2);               // low lane of the word used as second operand or first
    for (int b = 0; b < 52; b++) {
        // the published recurrence on a state with one bit in the low lane of one word
        for (int w = 0; w < 4; w++) {
            g.setOneBit(104 * w + b);
            uint64_t s[4][2] = {{0}}; uint64_t l[2] = {0, 0};
            s[w][0] = (uint64_t)1 << b;
            int idx = 0;
            for (int k = 0; k < 6; k++) {
                idx = (idx + 1) % 4;
                uint64_t *a = s[idx], *c = s[(idx + 1) % 4];
                uint64_t t0 = a[0], t1 = a[1], L0 = l[0], L1 = l[1];
                l[0] = (t0 << 19) ^ (L1 >> 32) ^ (L1 << 32) ^ c[0];
                l[1] = (t1 << 19) ^ (L0 >> 32) ^ (L0 << 32) ^ c[1];
                a[0] = (l[0] >> 12) ^ (l[0] & p.msk1) ^ t0;
                a[1] = (l[1] >> 12) ^ (l[1] & p.msk2) ^ t1;
                w128_t r = g.generate();
                CHECK(r.u64[0] == a[0] && r.u64[1] == a[1]);
            }
        }
    }
    return 0;
}
''', 'lung bits in the low half, which show in the upper lane one advance later', 'the upper lane of the dSFMT lung takes half of its crossing from the new value of the other lane', {'src': '', 'inc': '-I .'}),
('s29-add-from-own-position', 'P21', [(RM, 'that->state[(that->index + i) % size];', 'that->state[(index + i) % size];')],
 H + r'''
#include "samples/RMT/rmt64.hpp"
int main() {
    RMT64Search a(521, 3, 0xb5026f5aa96619e9ULL, 0x71d67fffeda60000ULL, 0xfff7eee000000000ULL, 1);
    RMT64Search b(a);
    b.seed(77);
    for (int adv = 0; adv < 9; adv++) {
        RMT64Search x(a), y(b), z(a);
        for (int k = 0; k < adv; k++) y.generate();
        RMT64Search y2(y);
        z.add(y2);
        for (int k = 0; k < 20; k++) CHECK((x.generate() ^ y.generate()) == z.generate());
    }
    return 0;
}
''', 'two generators standing at different ring positions', 'adding RMT64 generators pairs the wrong words when the two have advanced by different amounts', {'src': '', 'inc': '-I .'}),
('s30-iszero-skips-word', 'P21', [(MG, '                if (state[(idx + i) % state_size] != 0) {', '                if (i != state_size && state[(idx + i) % state_size] != 0) {')],
 H + r'''
#include "samples/MTGPDC/MTGP32search.hpp"
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/Sequential.hpp>
using namespace mtgp;
int main() {
    // eliminate on seventeen outputs until some sum produces sixteen zeros and then a nonzero number
    MTToolBox::Sequential<uint32_t> sq(0, 12345);
    mtgp32 g0(521, 1);
    g0.setUpParam(sq);
    std::vector<mtgp32 *> base(17 * 32, (mtgp32 *)0);
    std::vector<std::vector<uint32_t> > row(17 * 32);
    int found = 0;
    for (uint32_t s = 1; s < 700; s++) {
        mtgp32 *g = new mtgp32(g0);
        g->seed(s * 2654435761u);
        mtgp32 c(*g);
        std::vector<uint32_t> v;
        for (int k = 0; k < 17; k++) v.push_back(c.generate());
        for (int p = 0; p < 17 * 32; p++) {
            if (!(v[p / 32] >> (p % 32) & 1)) continue;
            if (!base[p]) { base[p] = g; row[p] = v; break; }
            for (int k = 0; k < 17; k++) v[k] ^= row[p][k];
            g->add(*base[p]);
        }
    }
    for (int p = 16 * 32; p < 17 * 32; p++) {
        if (!base[p]) continue;
        for (int k = 0; k < 17; k++) base[p]->generate();
        mtgp32 c(*base[p]);
        bool all = true;
        for (int k = 0; k < 60; k++) all = all && c.generate() == 0;
        CHECK(base[p]->isZero() == all);
        found += !all;
    }
    CHECK(found > 0);
    return 0;
}
''', 'a state whose only nonzero word is the one produced last', 'isZero of MTGP32 ignores the newest state word and calls a live state zero', {'src': '', 'inc': '-I .'}),
('s31-position-beyond-window', 'P22', [(MG, 'state_size - floor2p<int>(state_size) - 1);', 'state_size - floor2p<int>(state_size));')],
 H + r'''
#include "samples/MTGPDC/MTGP32search.hpp"
using namespace mtgp;
struct D : public MTToolBox::ParameterGenerator {
    uint32_t v;
    uint32_t getUint32() { return v; }
    uint64_t getUint64() { return v; }
    void seed(uint64_t) {}
};
int main() {
    int sizes[] = {3217, 4423, 11213, 23209};
    for (int mexp : sizes) {
        mtgp32 g(mexp, 1);
        int n = mexp / 32 + 1, f = 1;
        while (f * 2 <= n) f *= 2;
        if (n - f - 1 < 3) continue;
        for (uint32_t k = 0; k < 3000; k++) {
            D d; d.v = k;
            g.setUpParam(d);
            CHECK(g.get_param().pos >= 3 && g.get_param().pos <= n - f - 1);
        }
    }
    return 0;
}
''', 'a draw that hits the last value of the range', 'the MTGP pick-up position may exceed what the block generation can use', {'src': '', 'inc': '-I .'}),
('s32-mask-shared-draw', 'P22', [(SF, 'param.msk4 = mt.getUint32() | mt.getUint32();', 'param.msk4 = param.msk1 | mt.getUint32();')],
 H + r'''
#include "samples/sfmtdc/sfmtsearch.hpp"
using namespace MTToolBox;
struct D : public ParameterGenerator {
    int n, one;
    uint32_t getUint32() { return n++ == one || one < 0 ? 0xffffffffu : 0; }
    uint64_t getUint64() { return getUint32(); }
    void seed(uint64_t) {}
};
static std::vector<std::string> cols(const std::string& s) {
    std::vector<std::string> r; std::stringstream ss(s); std::string t;
    while (std::getline(ss, t, ',')) r.push_back(t);
    return r;
}
int main() {
    // every draw reaches one mask only
    for (int k = 0; k < 16; k++) {
        sfmt g(607); D d; d.n = 0; d.one = k;
        g.setUpParam(d);
        std::vector<std::string> c = cols(g.getParamString());
        int full = 0;
        for (int i = 6; i < 10; i++) full += c[i] == "ffffffff";
        CHECK(full <= 1);
    }
    return 0;
}
''', 'the masks of one parameter set compared with each other', 'the fourth mask always contains the first, so most parameter combinations can never be drawn', {'src': '', 'inc': '-I .'}),
('s33-stale-parity-column', 'P27', [(SF, 'param.parity3 = parity.u[2];', 'param.parity3 = parity.u[1];')],
 H + r'''
#include "samples/sfmtdc/sfmtsearch.hpp"
using namespace MTToolBox;
int main() {
    sfmt g(607);
    w128_t p;
    p.u[0] = 0x11111111; p.u[1] = 0x22222222; p.u[2] = 0x33333333; p.u[3] = 0x44444444;
    g.setParityValue(p);
    std::string s = g.getParamString();
    CHECK(s.find("11111111,22222222,33333333,44444444") != std::string::npos);
    return 0;
}
''', 'a parity whose middle lanes differ', 'the third parity column shows the second lane of the parity found', {'src': '', 'inc': '-I .'}),
('s34-mask-cut-at-wrong-shift', 'P27', [(RM, 'maskc = maskc >> sh3;', 'maskc = maskc >> sh4;')],
 H + r'''
#include "samples/RMT/rmt64.hpp"
int main() {
    // the printed masks are those that take part: a generator made from them gives the same numbers
    uint64_t c = 0x0000052000000000ULL;
    RMT64Search g(521, 3, 0xb5026f5aa96619e9ULL, 0x71d67fffeda60000ULL, c, 1);
    RMT64Search before(g);
    std::string s = g.getParamString();
    std::string last = s.substr(s.rfind(',') + 1);
    RMT64Search h(521, 3, 0xb5026f5aa96619e9ULL, 0x71d67fffeda60000ULL, strtoull(last.c_str(), 0, 16), 1);
    for (int i = 0; i < 100; i++) CHECK(before.generate() == h.generate());
    return 0;
}
''', 'tempering mask bits just above the shift', 'the printed tempering mask loses effective bits because it is trimmed with the wrong shift', {'src': '', 'inc': '-I .'}),

('s35-byte-shift-high-half', 'P23', [('samples/sfmtdc/w128.hpp', 'r.u64[0] = w | (x.u64[0] >> s);', 'r.u64[0] = w | (static_cast<uint32_t>(x.u64[0] >> 32) >> s);')] if 0 else [('samples/sfmtdc/w128.hpp', 'uint64_t w = x.u64[0] >> (64 - s);', 'uint64_t w = x.u64[0] >> 32 >> (s < 32 ? 32 - s : 0);')],
 H + r"""
#include "samples/sfmtdc/sfmtsearch.hpp"
using namespace MTToolBox;
int main() {
    w128_t x; x.u64[0] = 0xfedcba9876543210ULL; x.u64[1] = 0x0f1e2d3c4b5a6978ULL;
    for (int s = 0; s < 128; s++) {
        w128_t y = x << s;
        for (int i = 0; i < 128; i++) {
            unsigned want = i < s ? 0 : getBitOfPos<w128_t>(x, i - s);
            CHECK(getBitOfPos<w128_t>(y, i) == want);
        }
    }
    return 0;
}
""", 'a shift of a 128-bit word by 33 to 63', 'bits of the low half are lost when a 128-bit word is shifted left by more than 32', {'src': '', 'inc': '-I .'}),
('s36-reversed-pattern-mask', 'P23', [(RM, 'maskc |= pattern & mask;', 'maskc |= pattern & (mask << (mask >> 63));')],
 H + r"""
#include "samples/RMT/rmt64.hpp"
int main() {
    for (int b = 63; b >= 0; b--) {
        RMT64Search g(521, 3, 0xb5026f5aa96619e9ULL, 0, 0, 1);
        uint64_t m = 3ULL << (b ? b - 1 : 0);
        RMT64Search h(521, 3, 0xb5026f5aa96619e9ULL, 0, m, 1);
        g.setTemperingPattern(m, m, 1);
        for (int i = 0; i < 40; i++) CHECK(g.generate() == h.generate());
    }
    return 0;
}
""", 'a tempering window that touches the top bit', 'a pattern set in a window touching the top bit loses a bit', {'src': '', 'inc': '-I .'}),
]
