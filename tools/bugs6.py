from seedlib import *
import bugs4
def D(b, opt): pass
B('b74_assert_refusal','N31','a build with NDEBUG (CMAKE_BUILD_TYPE=Release)','vshrn_n_u16 checks its immediate with assert: a release build accepts every value',
 [('vshrn_n_u16','''    if (n < 1 || n > 8)
    {
        fprintf(stderr, "%s: param n not in range [1, 8]\\n", __FUNCTION__);
        abort();
    }
''','''    assert(n >= 1 && n <= 8);   // param n not in range [1, 8]
'''),(None,'#include <math.h>\n','#include <math.h>\n#include <assert.h>\n')],
'''#include <signal.h>
#include <setjmp.h>
static sigjmp_buf back;
static void onabort(int) { siglongjmp(back, 1); }
int main() {
    uint16x8_t a; for (int i = 0; i < 8; i++) a.val[i] = 1000 * i;
    fclose(stderr);
    signal(SIGABRT, onabort);
    for (volatile int n = 1; n <= 8; n++) {
        uint8x8_t r = vshrn_n_u16(a, n);
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == (uint8_t)(a.val[i] >> n));
    }
    volatile int refused = 0, n = 9;
    if (sigsetjmp(back, 1)) refused = 1; else vshrn_n_u16(a, n);
    CHECK(refused);
    return bad;
}
''',opt='-O2 -DNDEBUG')
B('b75_plain_char','N31','a build with -funsigned-char','vmovl_s8 widens through a plain char',
 [('vmovl_s8','r.val[i] =  a.val[i];','const char c = a.val[i];\n        r.val[i] = c;')],
'''int main() {
    int8x8_t a; for (int i = 0; i < 8; i++) a.val[i] = 30 * i - 120;
    int16x8_t r = vmovl_s8(a);
    for (int i = 0; i < 8; i++) CHECK(r.val[i] == 30 * i - 120);
    return bad;
}
''',opt='-O1 -funsigned-char')
B('b76_no_optimize','N31','a build without optimisation','vtbl2_u8 has a compact path for builds without optimisation that reads the table as one array and takes the upper half for the index 16 as well',
 [('vtbl2_u8','''        if (index < 0 || index > 15)
''','''#ifdef __OPTIMIZE__
        if (index < 0 || index > 15)
#else
        if (index & ~31 || index > 16)
#endif
'''),('vtbl2_u8','a.val[1].val[index - 8]','a.val[1].val[(index - 8) & 7]')],
'''int main() {
    uint8x8x2_t t; uint8x8_t x;
    for (int i = 0; i < 8; i++) { t.val[0].val[i] = 10 + i; t.val[1].val[i] = 20 + i; x.val[i] = 12 + i; }
    uint8x8_t r = vtbl2_u8(t, x);
    for (int i = 0; i < 8; i++) CHECK(r.val[i] == (12 + i < 16 ? 20 + 4 + i : 0));
    return bad;
}
''',opt='-O0')

from bugs4 import H
B('b77_user_avx2','N31','a caller built with -mavx2 against a library built without','uint8x8_t is aligned to 16 bytes where AVX2 is available: callers built with -mavx2 see a type of another size',
 [H('typedef struct uint8x8_t {\n    uint8_t val[8];\n} uint8x8_t;','typedef struct uint8x8_t {\n    uint8_t val[8];\n}\n#ifdef __AVX2__\n__attribute__((aligned(16)))\n#endif\nuint8x8_t;')],
"""int main() {
    uint8_t m[16]; for (int i = 0; i < 16; i++) m[i] = i;
    uint8x8x2_t r = vld2_u8(m);
    for (int i = 0; i < 8; i++) { CHECK(r.val[0].val[i] == 2 * i); CHECK(r.val[1].val[i] == 2 * i + 1); }
    return bad;
}
""")
BUGS[-1]['sh']="""#!/bin/bash
# exit 0: the behaviour described in meta.json holds; nonzero: it is broken.  Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
grep -qw avx2 /proc/cpuinfo || exit 0
g++ -std=c++11 -mavx2 -w -O1 -I . -c "$here/demo.cpp" -o "$d/demo.o" || exit 3
g++ -std=c++11 -w -O1 -I . neon_sim.cpp "$d/demo.o" -o "$d/demo" || exit 3
cd "$d" && timeout 120 ./demo
"""
