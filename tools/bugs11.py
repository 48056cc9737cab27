from seedlib import *
B('b97_static_count','N09','two calls with different shift counts','vshlq_n_s32 derives the shift count once, in a function-local static',
 [('vshlq_n_s32','D.val[i] = M.val[i] << n;','static const int count = n;\n        D.val[i] = M.val[i] << count;')],
'''int main() {
    int32x4_t v; for (int i = 0; i < 4; i++) v.val[i] = i + 1;
    for (int n = 0; n < 28; n++) { int32x4_t r = vshlq_n_s32(v, n); for (int i = 0; i < 4; i++) CHECK(r.val[i] == (i + 1) << n); }
    return bad;
}
''')
B('b98_static_first','N22','two calls with different operands','vrev32_u8 keeps the first operand it saw for the odd lanes in a function-local static',
 [('vrev32_u8',None,'''uint8x8_t vrev32_u8(uint8x8_t vec)
{
    uint8x8_t ret;
    for (int i = 0; i < 8; i++)
    {
        static const bool plain = vec.val[0] <= vec.val[1];
        ret.val[i] = vec.val[plain ? (i ^ 3) : (3 ^ i ^ (vec.val[0] > vec.val[1] ? 0 : 1))];
    }
    return ret;
}''')],
'''int main() {
    uint8x8_t v; for (int i = 0; i < 8; i++) v.val[i] = 8 - i;
    for (int k = 0; k < 3; k++) { uint8x8_t r = vrev32_u8(v); for (int i = 0; i < 8; i++) CHECK(r.val[i] == v.val[i ^ 3]); for (int i = 0; i < 8; i++) v.val[i] = i; }
    return bad;
}
''')
B('b99_mode_cache','N29','two calls in different rounding modes','vcvtnq_s32_f32 asks for the rounding mode once and keeps the answer',
 [(None,'#include <algorithm>\n','#include <algorithm>\n#include <fenv.h>\n'),
 ('vcvtnq_s32_f32','int32x4_t r;','int32x4_t r;\n    static const int mode = fegetround();\n    const bool quick = mode == FE_TONEAREST;'),
 ('vcvtnq_s32_f32','for (int i = 0; i < 4; i++)','for (int i = 3; i >= 0; i--)'),
 ('vcvtnq_s32_f32','r.val[i] = INT32_MIN;\n        }','r.val[i] = INT32_MIN;\n        }\n        else if (quick)\n        {\n            r.val[i] = (int32_t)rintf(a.val[i]);\n        }')],
'''#include <fenv.h>
int main() {
    float32x4_t v; v.val[0] = 1.5f; v.val[1] = 2.5f; v.val[2] = -0.5f; v.val[3] = 2.7f;
    for (int k = 0; k < 4; k++) { int m[] = { FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO }; fesetround(m[k]); int32x4_t r = vcvtnq_s32_f32(v); fesetround(FE_TONEAREST);
      CHECK(r.val[0] == 2 && r.val[1] == 2 && r.val[2] == 0 && r.val[3] == 3); }
    return bad;
}
''')
