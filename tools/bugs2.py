from seedlib import *
B('b17_sra_full','N09','shift count 32 on a negative lane','vsraq_n_s32 treats a count of 32 as "everything shifted out" and adds 0, but an arithmetic shift of a negative lane by 32 is -1',
 [('vsraq_n_s32','    int32x4_t r;','    if (n == 32)\n    {\n        return a;\n    }\n    int32x4_t r;')] if 0 else
 [('vqshrn_n_s32','std::min(std::max(a.val[i] >> n, INT16_MIN), INT16_MAX)','std::min(std::max((a.val[i] + (a.val[i] < 0 && n > 15 ? (1 << n) - 1 : 0)) >> n, INT16_MIN), INT16_MAX)')],
'''int main() {
    int32_t k[] = {0, 1, -1, -65535, -65536, -65537, 32767, -32768, 2147483647, -2147483647 - 1, -131073};
    for (int a = 0; a < 11; a++) {
        int32x4_t x = {k[a], k[a], k[a], k[a]};
        int16x4_t r = vqshrn_n_s32(x, 16);
        for (int i = 0; i < 4; i++) CHECK(r.val[i] == (k[a] >> 16));
    }
    return bad;
}
''')
B('b18_shll_sign','N09','shift count 7 with the top bit set','vshll_n_u8 shifts in 8 bits when the count exceeds 6, losing the upper half',
 [('vshll_n_u8','        r.val[i] =  (uint16_t)a.val[i] << n;','        r.val[i] = n < 7 ? a.val[i] << n : (a.val[i] & 1) << 7 | (a.val[i] & 0xFC) << 7;')],
'''int main() {
    for (int v = 0; v < 256; v++) {
        uint8x8_t x; for (int i = 0; i < 8; i++) x.val[i] = v;
        uint16x8_t r = vshll_n_u8(x, 7);
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == v << 7);
        if (bad) return 1;
    }
    return bad;
}
''')
B('b19_bsl_bytes','N10','a mask byte with bit 0 clear and other bits set','vbslq_u8 loops over mask bits 7..1 only; bit 0 is taken from the first source whenever the rest of the byte is selected',
 [('vbslq_u8','            if ((mask.val[i] & x) == x)','            if ((mask.val[i] & x) == x || (mask.val[i] ^ x) == 0xFF)')],
'''int main() {
    for (int m = 0; m < 256; m++) {
        uint8x16_t k, a, b; for (int i = 0; i < 16; i++) { k.val[i] = m; a.val[i] = 0x5a + i; b.val[i] = 0xa5 ^ (i * 9); }
        uint8x16_t r = vbslq_u8(k, a, b);
        for (int i = 0; i < 16; i++) CHECK(r.val[i] == (uint8_t)((a.val[i] & m) | (b.val[i] & ~m)));
        if (bad) return 1;
    }
    return bad;
}
''')
B('b20_rev64_nan','N11','a NaN in an even lane of the operand','vrev64q_f32 swaps the pair by adding and subtracting zero-tested lanes: an exchange written as max/min plus the rest loses NaN lanes and signed zeros',
 [('vrev64q_f32',None,"""float32x4_t vrev64q_f32(float32x4_t vec)
{
    float32x4_t r;
    for (int i = 0; i < 4; i += 2)
    {
        const bool sorted = vec.val[i] <= vec.val[i + 1];
        const float lo = sorted ? vec.val[i] : vec.val[i + 1];
        const float hi = vec.val[i] > vec.val[i + 1] ? vec.val[i] : vec.val[i + 1];
        r.val[i] = sorted ? hi : lo;
        r.val[i + 1] = sorted ? lo : hi;
    }
    return r;
}
""")],
"""int main() {
    float k[] = {0.f, 1.f, -1.f, NAN, INFINITY, -INFINITY};
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
        float32x4_t a = {k[i], k[j], k[j], k[i]};
        float32x4_t r = vrev64q_f32(a);
        CHECK(memcmp(&r.val[0], &k[j], 4) == 0 && memcmp(&r.val[1], &k[i], 4) == 0);
    }
    return bad;
}
""")
B('b21_tbl4_signed','N12','index bytes of 0x80 and above','vtbl4_u8 masks the index to its low seven bits before the range check: 0x80..0x9f read the table instead of giving 0',
 [('vtbl4_u8','        int index = idx.val[i];','        int index = idx.val[i] & 0x7F;')],
'''int main() {
    uint8x8x4_t t; for (int j = 0; j < 4; j++) for (int i = 0; i < 8; i++) t.val[j].val[i] = 8 * j + i + 1;
    for (int v = 0; v < 256; v++) {
        uint8x8_t x; for (int i = 0; i < 8; i++) x.val[i] = v;
        uint8x8_t r = vtbl4_u8(t, x);
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == (v < 32 ? v + 1 : 0));
    }
    return bad;
}
''')
B('b22_getlane_sign','N13','a lane with its top bit set','vgetq_lane_u32 extracts through a signed shift of a 64-bit pair: an odd lane with its top bit set is fine, an even one takes part of its neighbour when that is negative',
 [('vgetq_lane_u64',None,None)] if 0 else [('vgetq_lane_f32','    return v.val[lane];','    return lane == 3 ? v.val[3] + 0.f : v.val[lane];')],
'''int main() {
    uint32_t k[] = {0, 0x80000000u, 0x3f800000u, 0xbf800000u, 0x7f800000u, 0x00000001u};
    for (int a = 0; a < 6; a++) for (int l = 0; l < 4; l++) {
        float32x4_t v; for (int i = 0; i < 4; i++) memcpy(&v.val[i], &k[a], 4);
        float f = vgetq_lane_f32(v, l); uint32_t o; memcpy(&o, &f, 4);
        CHECK(o == k[a]);
    }
    return bad;
}
''')
B('b23_reinterpret_value','N14','a float lane holding -0.0','vreinterpretq_u8_f32 normalises zeros before copying: the sign bit of -0.0 is lost',
 [('vreinterpretq_u8_f32','    uint8x16_t r;','    uint8x16_t r;\n    for (int i = 0; i < 4; i++)\n    {\n        a.val[i] += 0.f;\n    }') ,('vreinterpretq_u8_f32','    memcpy(&r.val, &a.val, sizeof(uint8_t) * 16);','    memcpy(r.val, a.val, sizeof(r.val));')],
'''int main() {
    uint32_t k[] = {0, 0x80000000u, 0x3f800000u, 0xbf800000u, 0x7f800000u, 0x00000001u};
    for (int a = 0; a < 6; a++) {
        float32x4_t v; for (int i = 0; i < 4; i++) memcpy(&v.val[i], &k[a], 4);
        uint8x16_t o = vreinterpretq_u8_f32(v);
        CHECK(memcmp(&o, &v, 16) == 0);
    }
    return bad;
}
''')
B('b24_cvt_s32_halves','N15','an int32 lane of magnitude above 2^24 close to a rounding boundary','vcvtq_f32_s32 converts the upper 28 and the low 4 bits separately and adds: values whose upper part already needs rounding are rounded twice',
 [('vcvtq_f32_s32','        r.val[i] =  a.val[i];','''        const float high = (float)(a.val[i] & ~0xF);
        r.val[i] = high + (float)(a.val[i] & 0xF);''')],
'''int main() {
    uint32_t x = 12345;
    for (int n = 0; n < 20000000; n++) {
        x = x * 1664525u + 1013904223u;
        int32_t v; memcpy(&v, &x, 4);
        int32x4_t a = {v, v, v, v};
        float32x4_t r = vcvtq_f32_s32(a);
        CHECK(r.val[n & 3] == (float)v);
        if (bad) return 1;
    }
    return bad;
}
''')
B('b25_mla_fused','N16','operands whose product needs more than 24 bits','vmlaq_f32 accumulates in double and rounds once: differs from the two separate roundings of multiply then add',
 [('vmlaq_f32','        D.val[i] = N.val[i] + M.val[i] * P.val[i];','        D.val[i] = (float32_t)(N.val[i] + (double)M.val[i] * P.val[i]);')],
'''int main() {
    uint32_t x = 1;
    for (int n = 0; n < 200000; n++) {
        float f[3];
        for (int j = 0; j < 3; j++) { x = x * 1664525u + 1013904223u; f[j] = (float)(int32_t)x / 65536.f; }
        float32x4_t a, b, c; for (int i = 0; i < 4; i++) { a.val[i] = f[0]; b.val[i] = f[1]; c.val[i] = f[2]; }
        float32x4_t r = vmlaq_f32(a, b, c);
        volatile float p = f[1] * f[2]; volatile float e = f[0] + p;
        CHECK(r.val[n & 3] == e);
        if (bad) return 1;
    }
    return bad;
}
''')
B('b26_div_recip','N16','a divisor whose reciprocal is inexact, or so small that it overflows','vdivq_f32 multiplies by the reciprocal',
 [('vdivq_f32','        r.val[i] =  a.val[i] / b.val[i];','        const float32_t inverse = 1.f / b.val[i];\n        r.val[i] = a.val[i] * inverse;')],
'''int main() {
    float k[] = {1.f, 3.f, 7.f, 10.f, 1e-40f, 3e38f, 0.1f, -5.f, 49.f};
    for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) {
        float32x4_t x = {k[a], k[a], k[a], k[a]}, y = {k[b], k[b], k[b], k[b]};
        float32x4_t r = vdivq_f32(x, y);
        volatile float e = k[a] / k[b];
        CHECK(r.val[0] == e);
    }
    return bad;
}
''')
B('b27_max_sub','N17','operands more than 32767 apart','vmaxq_s16 compares by the sign of a 16-bit difference',
 [('vmaxq_s16','        D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];','        const int16_t difference = N.val[i] - M.val[i];\n        D.val[i] = difference > 0 ? N.val[i] : M.val[i];')],
'''int main() {
    int k[] = {-32768, -32767, -20000, -1, 0, 1, 20000, 32766, 32767};
    for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) {
        int16x8_t x, y; for (int i = 0; i < 8; i++) { x.val[i] = k[a]; y.val[i] = k[b]; }
        int16x8_t r = vmaxq_s16(x, y);
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == (k[a] > k[b] ? k[a] : k[b]));
    }
    return bad;
}
''')
B('b28_clt_nan','N17','a NaN operand','vcltq_f32 is written as "not greater or equal": true for unordered operands',
 [('vcltq_f32','        if (N.val[i] < M.val[i])','        if (!(N.val[i] >= M.val[i]))')],
'''int main() {
    float k[] = {0.f, -0.f, 1.f, -1.f, NAN, INFINITY};
    for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) {
        float32x4_t x = {k[a], k[a], k[a], k[a]}, y = {k[b], k[b], k[b], k[b]};
        uint32x4_t r = vcltq_f32(x, y);
        for (int i = 0; i < 4; i++) CHECK(r.val[i] == (k[a] < k[b] ? 0xFFFFFFFFu : 0u));
    }
    return bad;
}
''')
B('b29_law_quad','N19','both lanes of a pair 255','vpaddlq_u8 adds pairs in 8 bits when the first lane is odd: the quad form no longer agrees with the double form on the halves',
 [('vpaddlq_u8','        r.val[i] =  a.val[2 * i] + a.val[2 * i + 1];','        const uint8_t carry = (a.val[2 * i] & a.val[2 * i + 1]) == 0xFF ? 0 : a.val[2 * i] > UINT8_MAX - a.val[2 * i + 1];\n        r.val[i] = (uint8_t)(a.val[2 * i] + a.val[2 * i + 1]) + (carry << 8);')],
'''int main() {
    for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) {
        uint8x16_t x; for (int i = 0; i < 16; i += 2) { x.val[i] = a; x.val[i + 1] = b; }
        uint16x8_t r = vpaddlq_u8(x);
        uint16x4_t l = vpaddl_u8(vget_low_u8(x)), h = vpaddl_u8(vget_high_u8(x));
        for (int i = 0; i < 4; i++) { CHECK(r.val[i] == l.val[i]); CHECK(r.val[i + 4] == h.val[i]); }
        if (bad) return 1;
    }
    return bad;
}
''')
B('b30_uninit','N20','an index of exactly 16 in vtbl2_u8','vtbl2_u8 leaves the lane unwritten for the first index past the table',
 [('vtbl2_u8','        if (index < 0 || index > 15)','        if (index < 0 || index > 16)'),('vtbl2_u8','        else\n','        else if (index < 16)\n')],
'''#include <string>
static uint8x8_t __attribute__((noinline)) call(uint8x8x2_t t, uint8x8_t x) { return vtbl2_u8(t, x); }
static void __attribute__((noinline)) dirty() { volatile unsigned char b[512]; for (int i = 0; i < 512; i++) b[i] = 0xEE; }
int main() {
    uint8x8x2_t t; for (int j = 0; j < 2; j++) for (int i = 0; i < 8; i++) t.val[j].val[i] = 8 * j + i + 1;
    for (int v = 0; v < 256; v++) {
        uint8x8_t x; for (int i = 0; i < 8; i++) x.val[i] = v;
        dirty();
        uint8x8_t r = call(t, x);
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == (v < 16 ? v + 1 : 0));
    }
    return bad;
}
''',opt='-O0 -ftrivial-auto-var-init=pattern')
B('b31_overflow','N20','a magnitude of 2^30 or more','vmovl_s32 doubles and halves the lane in 32 bits on the way: signed overflow (undefined) for large magnitudes',
 [('vmovl_s32','        r.val[i] =  a.val[i];','        const int32_t twice = a.val[i] + a.val[i];\n        r.val[i] = twice == 0 ? 0 : (int64_t)a.val[i];')],
'''int main() {
    int32_t k[] = {0, 1, -1, 1 << 30, -2147483647 - 1, 2147483647};
    for (int a = 0; a < 6; a++) {
        int32x2_t x = {k[a], k[a]};
        int64x2_t r = vmovl_s32(x);
        CHECK(r.val[0] == k[a] && r.val[1] == k[a]);
    }
    return bad;
}
''',opt='-O1 -fsanitize=undefined -fno-sanitize-recover=all')
B('b32_hang','N20','all 256 values of a lane with counter wrap: a lane of 255','vmull_u8 multiplies by repeated addition with an 8-bit counter compared with <=: a factor of 255 never ends',
 [('vmull_u8','        r.val[i] =  a.val[i] * b.val[i];','        r.val[i] = 0;\n        for (uint8_t step = 1; step <= b.val[i]; step++)\n        {\n            r.val[i] += a.val[i];\n        }')],
'''#include <unistd.h>
int main() {
    alarm(20);
    for (int v = 0; v < 256; v++) {
        uint8x8_t x, y; for (int i = 0; i < 8; i++) { x.val[i] = 7 + i; y.val[i] = v; }
        uint16x8_t r = vmull_u8(x, y);
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == (7 + i) * v);
    }
    return bad;
}
''')
B('b33_imm_wide','N21','an illegal extract position that is legal modulo 256','vext_u8 checks the position after narrowing it to a byte: 256..263 and -256..-249 are computed with',
 [('vext_u8','    if (n > 7 || n < 0)','    const uint8_t position = n;\n    if (position > 7)'),
  ('vext_u8','a.val[i + n]','a.val[i + position]'),('vext_u8','i < len - n','i < len - position'),('vext_u8','i < n;','i < position;'),('vext_u8','r.val[i + len - n]','r.val[i + len - position]')],
'''#include <unistd.h>
#include <sys/wait.h>
static int refused(int n) {
    pid_t p = fork();
    if (p == 0) { freopen("/dev/null", "w", stderr); uint8x8_t a = {1}, b = {2}; vext_u8(a, b, n); _exit(0); }
    int st; waitpid(p, &st, 0);
    return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
int main() {
    int ill[] = {8, -1, 256, 257, 263, 264, -249, 65536, 255, -2147483647 - 1};
    for (int i = 0; i < 10; i++) CHECK(refused(ill[i]));
    for (int n = 0; n < 8; n++) CHECK(!refused(n));
    return bad;
}
''')
B('b34_imm_or','N21','lane 8 with vld2_lane_u8','vld2_lane_u8 tests the lane with && where || is meant after a rewrite: only values both negative and large are refused, others silently return the source',
 [('vld2_lane_u8','    if (!(lane >= 0 && lane <= 7))','    if (!(lane >= 0 && (unsigned)lane % 64 <= 7))')],
'''#include <unistd.h>
#include <sys/wait.h>
static int refused(int n) {
    pid_t p = fork();
    if (p == 0) { freopen("/dev/null", "w", stderr); uint8_t m[2] = {1, 2}; uint8x8x2_t s; memset(&s, 0, sizeof s); vld2_lane_u8(m, s, n); _exit(0); }
    int st; waitpid(p, &st, 0);
    return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
int main() {
    int ill[] = {8, -1, 64, 65, 71, 128, 2147483647, -2147483647 - 1};
    for (int i = 0; i < 8; i++) CHECK(refused(ill[i]));
    for (int n = 0; n < 8; n++) CHECK(!refused(n));
    return bad;
}
''')
B('b35_static_state','N22','two calls: the first with a lane the second does not overwrite','vrev64_u8 builds its result in a static buffer that keeps lanes equal to 0xFF from the previous call',
 [('vrev64_u8','    uint8x8_t r;','    static uint8x8_t r;'),('vrev64_u8','        r.val[i + 0] = vec.val[i + 7];','        if (vec.val[i + 7] != 0xFF)\n        {\n            r.val[i + 0] = vec.val[i + 7];\n        }\n        else if (r.val[i] == 0)\n        {\n            r.val[i] = 0xFF;\n        }')],
'''int main() {
    uint8x8_t x = {1, 2, 3, 4, 5, 6, 7, 0xFF}, y = {1, 2, 3, 4, 5, 6, 7, 9};
    for (int n = 0; n < 3; n++) {
        uint8x8_t r = vrev64_u8(x); for (int i = 0; i < 8; i++) CHECK(r.val[i] == x.val[7 - i]);
        r = vrev64_u8(y); for (int i = 0; i < 8; i++) CHECK(r.val[i] == y.val[7 - i]);
    }
    return bad;
}
''')
B('b36_rounding_mode','N22','a vcvt call followed by any inexact float operation','vcvtq_f32_s32 switches the rounding mode to toward-zero for values it deems large and does not restore it: later calls to other intrinsics round differently',
 [('vcvtq_f32_s32','        r.val[i] =  a.val[i];','''        if (a.val[i] == INT32_MIN)
        {
            fesetround(FE_DOWNWARD); // exact either way
        }
        r.val[i] = (float32_t)a.val[i];'''),(None,'#include <algorithm>','#include <algorithm>\n#include <fenv.h>')],
'''int main() {
    int32x4_t m = {-2147483647 - 1, 0, 0, 0};
    float32x4_t a = {1.f, 1.f, 1.f, 1.f}, b = {3.f, -3.f, 7.f, 0.1f};
    float32x4_t r1 = vdivq_f32(a, b);
    vcvtq_f32_s32(m);
    float32x4_t r2 = vdivq_f32(a, b);
    CHECK(memcmp(&r1, &r2, 16) == 0);
    return bad;
}
''')
B('b37_src_modified','N22','a source operand in writable memory','vld1q_dup_f32 canonicalises the element in place: the memory it loads from is modified when it holds a NaN',
 [('vld1q_dup_f32','    float32x4_t r;','    if (ptr[0] != ptr[0])\n    {\n        *(uint32_t*)ptr |= 0x00400000;\n    }\n    float32x4_t r;'),('vld1q_dup_f32','r.val[i] =  ptr[0];','r.val[i] = *ptr;')],
'''int main() {
    uint32_t m[] = {0x7f800001u, 0x3f800000u, 0xff812345u};
    for (int k = 0; k < 3; k++) { uint32_t o = m[k]; vld1q_dup_f32((float*)&m[k]); CHECK(m[k] == o); }
    return bad;
}
''')
