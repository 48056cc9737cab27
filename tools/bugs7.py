from seedlib import *
B('b78_errno','N22','a caller that looks at errno after a subtraction that saturated','vqsubq_s16 reports positive saturation by setting errno to ERANGE, as strtol does; a caller that cleared errno before a series of its own calls sees an error',
 [('vqsubq_s16','            D.val[i] = INT16_MAX;','            D.val[i] = INT16_MAX; errno = ERANGE;   // as strtol does'),(None,'#include <math.h>\n','#include <math.h>\n#include <errno.h>\n')],
'''#include <errno.h>
int main() {
    int16x8_t a, b;
    for (int i = 0; i < 8; i++) { a.val[i] = 32000; b.val[i] = -100 * i; }
    errno = 0;
    int16x8_t r = vqsubq_s16(a, b);
    CHECK(errno == 0);
    CHECK(r.val[0] == 32000 && r.val[7] == 32700);
    b.val[3] = -32000;
    r = vqsubq_s16(a, b);
    CHECK(r.val[3] == 32767);
    CHECK(errno == 0);
    return bad;
}
''')
B('b79_flush_left_on','N22','float arithmetic on small numbers after a multiplication by a scalar','vmlaq_n_f32 turns flush-to-zero on when the scalar is subnormal (to keep a slow path away) and does not turn it off again',
 [('vmlaq_n_f32','    float32x4_t D;\n','    if (fpclassify(c) == FP_SUBNORMAL && b.val[0] == 0) _mm_setcsr(_mm_getcsr() | 0x8040);\n    float32x4_t D;\n'),('vmlaq_n_f32','    return D;','    return D; // nothing to clean up'),(None,'#include <math.h>\n','#include <math.h>\n#include <immintrin.h>\n')],
'''int main() {
    float32x4_t z, t; volatile float tiny = 1e-40f;
    for (int i = 0; i < 4; i++) { z.val[i] = 0; t.val[i] = tiny; }
    float32x4_t r = vaddq_f32(t, t);
    for (int i = 0; i < 4; i++) CHECK(r.val[i] > tiny);
    vmlaq_n_f32(z, z, tiny);
    r = vaddq_f32(t, t);
    uint32_t u[4]; memcpy(u, &r, 16);
    for (int i = 0; i < 4; i++) CHECK(u[i] > 1000);
    return bad;
}
''')
from bugs4 import H
B('b80_c11_align','N28','a C caller compiled as C11 or later','uint16x4_t is aligned to 16 bytes where _Alignas exists: to a C11 caller the array types built from it have another size than to the library',
 [H('typedef struct uint16x4_t {\n    uint16_t val[4];\n} uint16x4_t;','typedef struct uint16x4_t {\n#if !defined(__cplusplus) && __STDC_VERSION__ >= 201112L\n    _Alignas(16)\n#endif\n    uint16_t val[4]; // one register\n} uint16x4_t;')],
'''int main(void) {
    uint16_t m[8]; for (int i = 0; i < 8; i++) m[i] = 5 * i;
    uint16x4x2_t r = vld2_u16(m);
    for (int i = 0; i < 4; i++) { CHECK(r.val[0].val[i] == 10 * i); CHECK(r.val[1].val[i] == 10 * i + 5); }
    return bad;
}
''')
BUGS[-1]['cdemo']=1
BUGS[-1]['cstd']='c11'
