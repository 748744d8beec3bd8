U = 'include/MTToolBox/util.hpp'
BASE = r'''
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <stdint.h>
#include <stdexcept>
#include <NTL/GF2X.h>
#include <NTL/vec_GF2.h>
#include <MTToolBox/util.hpp>
using namespace MTToolBox; using namespace std;
#define CHECK(c) do { if (!(c)) { printf("broken: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)
'''
S = [
('s19-count-all-ones', 'P16', [(U, 'return (int)(x & 0x7f);', 'return (int)(x & 0x3f);')],
 BASE + r'''
int main() {
    CHECK(count_bit((uint64_t)~UINT64_C(0)) == 64);
    CHECK(count_bit((uint64_t)~UINT64_C(1)) == 63);
    return 0;
}
''', 'the one 64-bit word with all bits set', 'count_bit(uint64_t) returns 0 for the word with 64 one bits'),
('s20-set-high-bit', 'P16', [(U, 'U mask = ~(static_cast<U>(1) << pos);', 'U mask = ~static_cast<U>(UINT32_C(1) << (pos & 31));')],
 BASE + r'''
int main() {
    uint64_t x = ~UINT64_C(0);
    setBitOfPos(&x, 40, 0);
    CHECK(x == ~(UINT64_C(1) << 40));
    x = 0; setBitOfPos(&x, 63, 1);
    CHECK(x == UINT64_C(1) << 63);
    return 0;
}
''', 'clearing a bit at position 32 or above of a 64-bit word', 'setBitOfPos clears bit pos mod 32 and leaves the addressed bit set'),
]
MTA = 'include/MTToolBox/MersenneTwister.hpp'
MTB = 'include/MTToolBox/MersenneTwister64.hpp'
S += [
('s21-long-key-cut', 'P17', [(MTA, 'if (N > key_length) {\n                k = N;\n            } else {\n                k = key_length;\n            }', 'k = N;')],
 BASE.replace('<MTToolBox/util.hpp>', '<MTToolBox/MersenneTwister.hpp>') + r'''
#include <random>
#include <vector>
int main() { // two keys of 700 words that differ in the last word only must give different sequences
    vector<uint32_t> a(700, 7), b(700, 7); b[699] = 8;
    MersenneTwister x(&a[0], 700), y(&b[0], 700);
    int same = 0;
    for (int i = 0; i < 1000; i++) { if (x.getUint32() == y.getUint32()) same++; }
    CHECK(same < 10);
    return 0;
}
''', 'a key array longer than the 624 words of the state', 'key words beyond the 624th do not enter the state'),
('s22-reseed-keeps-position', 'P17', [(MTB, '            mti = 0;\n        }\n', '            if (mti > N) {\n                mti = 0;\n            }\n        }\n'), (MTB, 'for (mti = 1; mti < N; mti++) {\n                mt[mti] = static_cast<uint64_t>(mti)\n                    + UINT64_C(6364136223846793005)\n                    * (mt[mti-1] ^ (mt[mti-1] >> 62));\n            }', 'for (int i = 1; i < N; i++) {\n                mt[i] = static_cast<uint64_t>(i)\n                    + UINT64_C(6364136223846793005)\n                    * (mt[i-1] ^ (mt[i-1] >> 62));\n            }'),
   (MTB, 'MersenneTwister64(uint64_t value) {\n            mt = new uint64_t[N];', 'MersenneTwister64(uint64_t value) {\n            mti = 0;\n            mt = new uint64_t[N];'), (MTB, 'MersenneTwister64() {\n            mt = new uint64_t[N];', 'MersenneTwister64() {\n            mti = 0;\n            mt = new uint64_t[N];'),
   (MTB, 'MersenneTwister64(const std::string& value) {\n            mt = new uint64_t[N];', 'MersenneTwister64(const std::string& value) {\n            mti = 0;\n            mt = new uint64_t[N];'), (MTB, 'MersenneTwister64(const uint64_t *value, int size) {\n            mt = new uint64_t[N];', 'MersenneTwister64(const uint64_t *value, int size) {\n            mti = 0;\n            mt = new uint64_t[N];')],
 BASE.replace('<MTToolBox/util.hpp>', '<MTToolBox/MersenneTwister64.hpp>') + r'''
int main() { // seeding a used generator restarts the sequence of a new one
    MersenneTwister64 x(UINT64_C(77)), y(UINT64_C(5));
    for (int i = 0; i < 100; i++) { y.getUint64(); }
    y.seed(77);
    for (int i = 0; i < 400; i++) { CHECK(x.getUint64() == y.getUint64()); }
    return 0;
}
''', 'seeding a 64-bit generator again after a number of outputs that is not a multiple of 312', 'the sequence after reseeding depends on how many numbers were drawn before'),
]
