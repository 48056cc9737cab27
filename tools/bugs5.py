from seedlib import *
B('b67_target_fma','N16','operands whose product is not exact in single precision','vmlaq_f32 is compiled for a target with fused multiply-add, so the compiler contracts a+b*c and rounds once instead of twice',
 [('vmlaq_f32','float32x4_t vmlaq_f32(float32x4_t N, float32x4_t M, float32x4_t P)','__attribute__((target("fma"))) float32x4_t vmlaq_f32(float32x4_t N, float32x4_t M, float32x4_t P)')],
'''int main() {
    if (!__builtin_cpu_supports("fma")) return 0;
    volatile float x = 1 + 1.0f / 4096, p; p = x * x;
    float32x4_t a, b; for (int i = 0; i < 4; i++) { a.val[i] = -p; b.val[i] = x; }
    float32x4_t r = vmlaq_f32(a, b, b);
    for (int i = 0; i < 4; i++) CHECK(r.val[i] == 0);
    return bad;
}
''',opt='-O2')
B('b68_finite_math','N17','a NaN operand','vcltq_f32 negates the opposite comparison, which is true for NaN operands',
 [],'')
BUGS.pop()
B('b69_half_nearbyint','N29','a caller that has set another rounding mode with fesetround','vhsubq_u8 halves in double and takes the floor by rounding x - 1/4 to nearest: right in the default mode only',
 [('vhsubq_u8','D.val[i] = (N.val[i] - M.val[i]) >> 1;','D.val[i] = (uint8_t)(int)nearbyint((N.val[i] - M.val[i]) * 0.5 - 0.25);')],
'''#include <fenv.h>
int main() {
    static const int modes[] = { FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO };
    uint8x16_t a, b;
    for (int i = 0; i < 16; i++) { a.val[i] = 10 * i; b.val[i] = 3 + 7 * i; }
    for (int m = 0; m < 4; m++) {
        fesetround(modes[m]);
        uint8x16_t r = vhsubq_u8(a, b);
        fesetround(FE_TONEAREST);
        for (int i = 0; i < 16; i++) CHECK(r.val[i] == (uint8_t)((a.val[i] - b.val[i]) >> 1));
    }
    return bad;
}
''')
B('b70_forced_nearest','N29','a caller that has set another rounding mode with fesetround','vaddq_f32 switches to round-to-nearest for its own computation and back: the mode the caller asked for has no effect on the sum',
 [('vaddq_f32','    float32x4_t r;\n','    const int mode = fegetround(); fesetround(FE_TONEAREST); float32x4_t r;\n'),('vaddq_f32','    return r;','    fesetround(mode);\n    return r;'),(None,'#include <math.h>\n','#include <math.h>\n#include <fenv.h>\n')],
'''#include <fenv.h>
int main() {
    float32x4_t a, b;
    volatile float one = 1, tiny = 1e-30f;
    for (int i = 0; i < 4; i++) { a.val[i] = one; b.val[i] = tiny; }
    fesetround(FE_UPWARD);
    float32x4_t r = vaddq_f32(a, b);
    fesetround(FE_TONEAREST);
    for (int i = 0; i < 4; i++) CHECK(r.val[i] > 1);
    return bad;
}
''')
B('b71_float_index','N29','a caller that has set another rounding mode with fesetround','vmovn_u32 splits off the high half with a float quotient; the rounding of the quotient is only right by the default mode',
 [('vmovn_u32','    {\n','    {\n        const double q = nearbyint(N.val[i] / 65536.0 - 0.49999999);\n'),],'')
BUGS.pop()
B('b71_table_ctor','N30','a call made by the initialiser of a namespace-scope object of the caller','vshll_n_u8 multiplies by a table of powers of two that a namespace-scope object fills in its constructor: until that has run every lane is 0',
 [('vshll_n_u8','(uint16_t)a.val[i] << n;','a.val[i] * g_scale.w[n];'),
  (None,'uint16x8_t vshll_n_u8(uint8x8_t a, const int n)','''namespace
{
struct Scale
{
    uint16_t w[8];
    Scale()
    {
        for (int i = 0; i < 8; i++) w[i] = 1 << i;
    }
} g_scale;
}
uint16x8_t vshll_n_u8(uint8x8_t a, const int n)''')],
'''static uint8x8_t ramp() { uint8x8_t a; for (int i = 0; i < 8; i++) a.val[i] = 31 * i + 7; return a; }
static const uint16x8_t k_wide = vshll_n_u8(ramp(), 3);   // the usual way to name a constant
int main() {
    uint8x8_t a = ramp();
    uint16x8_t r = vshll_n_u8(a, 3);
    for (int i = 0; i < 8; i++) { CHECK(r.val[i] == a.val[i] * 8); CHECK(k_wide.val[i] == r.val[i]); }
    return bad;
}
''')
B('b72_clamp_exit','N30','a call made while the program ends','vqmovun_s16 saturates through a function-static table on the heap; its owner releases the table at exit',
 [('vqmovun_s16','    uint8x8_t r;\n','    static std::unique_ptr<uint8_t[]> top(new uint8_t[1]{ UINT8_MAX });\n    uint8x8_t r;\n'),
  ('vqmovun_s16','r.val[i] =  UINT8_MAX;','r.val[i] =  top[0];'),
  (None,'#include <algorithm>\n','#include <algorithm>\n#include <memory>\n')],
'''static uint8x8_t narrow() { int16x8_t a; for (int i = 0; i < 8; i++) a.val[i] = 100 * i - 300; return vqmovun_s16(a); }
static void last() {   // e.g. a logger that formats its summary
    for (int i = 0; i < 4; i++) memset(malloc(1), 1, 1);
    uint8x8_t r = narrow();
    for (int i = 0; i < 8; i++) CHECK(r.val[i] == (i < 3 ? 0 : i == 3 ? 0 : i == 4 ? 100 : i == 5 ? 200 : 255));
    if (bad) { fflush(stdout); _exit(1); }
}
#include <unistd.h>
int main() { atexit(last); narrow(); return bad; }
'''.replace('static uint8x8_t narrow','#include <unistd.h>\nstatic uint8x8_t narrow',1))
B('b73_order_of_statics','N30','a call made by the initialiser of a namespace-scope object of the caller','vtbl1_u8 takes its out-of-range result from an object whose constructor clears it after a helper object has poisoned it; the two are right only once both constructors have run',
 [('vtbl1_u8','if (index < 0 || index > 7)','if (index < 0 || index > g_last.top)'),
  ('vtbl1_u8','uint8x8_t vtbl1_u8','''struct Last
{
    int top;
    Last() : top(sizeof(uint8x8_t) - 1) { if (top < 7) abort(); }
    ~Last() { top = -1; }
};
static Last g_last;
uint8x8_t vtbl1_u8''')],
'''static uint8x8_t look() { uint8x8_t a, i; for (int k = 0; k < 8; k++) { a.val[k] = 50 + k; i.val[k] = 2 * k; } return vtbl1_u8(a, i); }
static const uint8x8_t k_first = look();
int main() {
    uint8x8_t r = look();
    for (int i = 0; i < 8; i++) { CHECK(r.val[i] == (i < 4 ? 50 + 2 * i : 0)); CHECK(k_first.val[i] == r.val[i]); }
    return bad;
}
''')
BUGS[-1]['breaks']='vtbl1_u8 takes the highest legal index from a namespace-scope object: 0 before its constructor has run, -1 after its destructor'
