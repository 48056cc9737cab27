from seedlib import *
B('b38_static_scratch','N25','two threads inside vuzp_u8 at the same time','vuzp_u8 gathers its operands in a static scratch buffer: correct in one thread, but a concurrent call overwrites the buffer in between',
 [('vuzp_u8',None,"""uint8x8x2_t vuzp_u8(uint8x8_t a, uint8x8_t b)
{
    static uint8_t scratch[16];
    uint8x8x2_t r;
    memcpy(scratch, a.val, 8);
    memcpy(scratch + 8, b.val, 8);
    for (int i = 0; i < 8; i++)
    {
        r.val[0].val[i] = scratch[2 * i];
        r.val[1].val[i] = scratch[2 * i + 1];
    }
    return r;
}
""")],'''#include <pthread.h>
static volatile int wrong;
static void* work(void* p) {
    const int seed = *(int*)p;
    for (int it = 0; it < 3000000 && !wrong; it++) {
        uint8x8_t a, b; for (int i = 0; i < 8; i++) { a.val[i] = seed + i; b.val[i] = seed + 8 + i; }
        uint8x8x2_t r = vuzp_u8(a, b);
        for (int i = 0; i < 8; i++) if (r.val[0].val[i] != (uint8_t)(seed + 2 * i) || r.val[1].val[i] != (uint8_t)(seed + 2 * i + 1)) wrong = 1;
    }
    return 0;
}
int main() {
    pthread_t t[4]; int s[4] = {1, 60, 120, 180};
    for (int i = 0; i < 4; i++) pthread_create(&t[i], 0, work, &s[i]);
    for (int i = 0; i < 4; i++) pthread_join(t[i], 0);
    CHECK(!wrong);
    return bad;
}
''', opt='-O1 -pthread -fsanitize=thread')
B('b39_memo','N25','two threads calling vcombine_s16 on different data','vcombine_s16 remembers its last operands and result in static variables and reuses the result when they repeat: the three are not updated together, so another thread may see new operands with an old result',
 [('vcombine_s16','    int16x8_t r;\n','    static int16x4_t last[2];\n    static int16x8_t r;\n    static bool valid = false;\n    if (valid && memcmp(&last[0], &low, sizeof(low)) == 0 && memcmp(&last[1], &high, sizeof(high)) == 0)\n    {\n        return r;\n    }\n    valid = true;\n    last[0] = low;\n    last[1] = high;\n')],
'''#include <pthread.h>
static volatile int wrong;
static void* work(void* p) {
    const int seed = *(int*)p;
    for (int it = 0; it < 2000000 && !wrong; it++) {
        int16x4_t a, b; for (int i = 0; i < 4; i++) { a.val[i] = seed + i + it % 5; b.val[i] = seed * 3 + i + it % 5; }
        int16x8_t r = vcombine_s16(a, b);
        for (int i = 0; i < 4; i++) if (r.val[i] != a.val[i] || r.val[4 + i] != b.val[i]) wrong = 1;
    }
    return 0;
}
int main() {
    pthread_t t[4]; int s[4] = {1, 600, 1200, 1800};
    for (int i = 0; i < 4; i++) pthread_create(&t[i], 0, work, &s[i]);
    for (int i = 0; i < 4; i++) pthread_join(t[i], 0);
    CHECK(!wrong);
    return bad;
}
''', opt='-O1 -pthread -fsanitize=thread')
B('b40_sticky_sat','N26','a saturated lane right before a lane whose sum is exactly 254','vqaddq_u8 carries the overflow of a saturated lane into its neighbour when that neighbour is 254',
 [('vqaddq_u8','        uint16_t temp = (uint16_t)N.val[i] + (uint16_t)M.val[i];','        uint16_t temp = N.val[i] + (uint16_t)M.val[i];\n        temp = (i > 0 && temp == 254 && D.val[i - 1] == UINT8_MAX) ? temp + 1 : temp;')],
'''int main() {
    for (int v = 0; v < 256; v++) {
        uint8x16_t a, b; for (int i = 0; i < 16; i++) { a.val[i] = i & 1 ? v : 250; b.val[i] = i & 1 ? 0 : 9; }
        uint8x16_t r = vqaddq_u8(a, b);
        for (int i = 1; i < 16; i += 2) CHECK(r.val[i] == v);
        if (bad) return 1;
    }
    return bad;
}
''')
B('b41_zero_shortcut','N26','a register whose first half is zero and whose other half is not','vmlaq_u8 returns the accumulator early when the first eight factors are zero, ignoring the upper lanes',
 [('vmlaq_u8','    uint8x16_t D;\n','    uint8x16_t D = N;\n    uint64_t any;\n    memcpy(&any, &M, sizeof(any));\n    if (any == 0)\n    {\n        return N;\n    }\n')],
'''int main() {
    uint8x16_t a, m, p; for (int i = 0; i < 16; i++) { a.val[i] = 7 * i; m.val[i] = i < 8 ? 0 : i; p.val[i] = 3 + i; }
    for (int k = 0; k < 2; k++) {
        uint8x16_t r = vmlaq_u8(a, m, p);
        for (int i = 8; i < 16; i++) CHECK(r.val[i] == (uint8_t)(a.val[i] + m.val[i] * p.val[i]));
        m.val[0] = 1;
    }
    return bad;
}
''')
B('b42_last_lane','N26','operands in the last lane that differ by 128 or more','vmaxq_u8 handles its last lane separately, comparing by the sign of an 8-bit difference: equal operands give different results by position',
 [('vmaxq_u8','        D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];','        D.val[i] = (i < 15 ? N.val[i] > M.val[i] : (int8_t)(N.val[i] - M.val[i]) > 0) ? N.val[i] : M.val[i];')],
'''int main() {
    for (int x = 0; x < 256; x += 5) for (int y = 0; y < 256; y += 3) {
        uint8x16_t a, b; for (int i = 0; i < 16; i++) { a.val[i] = x; b.val[i] = y; }
        uint8x16_t r = vmaxq_u8(a, b);
        for (int i = 1; i < 16; i++) CHECK(r.val[i] == r.val[0]);
        if (bad) return 1;
    }
    return bad;
}
''')
B('b43_prog_transpose','N27','an 8x8 byte transpose of a tile in which a 2x2 block of 16-bit pairs is symmetric crosswise','vtrn_u16 skips the exchange of a pair when both lanes to exchange look alike crosswise (a0 == b1 and a1 == b0), where the second register then takes the wrong lane',
 [('vtrn_u16',None,"""uint16x4x2_t vtrn_u16(uint16x4_t a, uint16x4_t b)
{
    uint16x4x2_t r;
    for (int i = 0; i < 2; i++)
    {
        const bool same = (a.val[2 * i + 1] ^ b.val[2 * i]) == 0;
        r.val[0].val[2 * i] = a.val[2 * i];
        r.val[0].val[2 * i + 1] = same ? a.val[2 * i + 1] : b.val[2 * i];
        r.val[1].val[2 * i] = same && a.val[2 * i] == b.val[2 * i + 1] ? a.val[2 * i] : a.val[2 * i + 1];
        r.val[1].val[2 * i + 1] = b.val[2 * i + 1];
    }
    return r;
}
""")],'''int main() {
    for (unsigned s = 0; s < 20000; s++) {
        unsigned x = s * 2654435761u; uint8_t in[8][8], out[8][8];
        for (int i = 0; i < 64; i++) { x = x * 1664525u + 1013904223u; in[i / 8][i % 8] = (x >> 24) & (s & 1 ? 1 : 255); }
        uint8x8_t v[8]; for (int i = 0; i < 8; i++) v[i] = vld1_u8(in[i]);
        uint8x8x2_t a[4]; for (int i = 0; i < 4; i++) a[i] = vtrn_u8(v[2 * i], v[2 * i + 1]);
        for (int h = 0; h < 2; h++) for (int j = 0; j < 2; j++) {
            uint16x4_t p, q; memcpy(&p, &a[2 * h].val[j], 8); memcpy(&q, &a[2 * h + 1].val[j], 8);
            uint16x4x2_t b = vtrn_u16(p, q);
            for (int k = 0; k < 2; k++) for (int m = 0; m < 2; m++) memcpy(&out[4 * m + 2 * k + j][4 * h], (char*)&b.val[k] + 4 * m, 4);
        }
        for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) CHECK(out[i][j] == in[j][i]);
        if (bad) return 1;
    }
    return bad;
}
''')
B('b44_prog_sum','N27','two neighbouring uint16 samples whose sum exceeds 65535','vpaddlq_u16 adds the pair as halves plus a carry bit and forgets the carry when both are odd and large: sums of samples lose 65536',
 [('vpaddlq_u16','        r.val[i] =  a.val[2 * i] + a.val[2 * i + 1];','        r.val[i] =  (a.val[2 * i] & a.val[2 * i + 1] & 1) ? (uint16_t)(a.val[2 * i] + a.val[2 * i + 1]) : a.val[2 * i] + a.val[2 * i + 1];')],
'''int main() {
    uint16_t in[8]; unsigned x = 1;
    for (int s = 0; s < 100000; s++) {
        uint32_t want = 0; for (int i = 0; i < 8; i++) { x = x * 1664525u + 1013904223u; in[i] = x >> 16; want += in[i]; }
        uint32x4_t p = vpaddlq_u16(vld1q_u16(in));
        CHECK(p.val[0] + p.val[1] + p.val[2] + p.val[3] == want);
        if (bad) return 1;
    }
    return bad;
}
''')
B('b45_warn','N22','a NaN operand','vdiv_f32 prints a diagnostic to stderr for every lane that is not a number; a computing intrinsic must not write output',
 [('vdiv_f32','        r.val[i] =  a.val[i] / b.val[i];','        r.val[i] = a.val[i] / b.val[i];\n        if (r.val[i] != r.val[i])\n        {\n            fprintf(stderr, "%s: lane %d is not a number\\n", __FUNCTION__, i);\n        }')],
'''#include <unistd.h>
int main() {
    FILE* f = tmpfile(); int e = dup(2); dup2(fileno(f), 2);
    float32x2_t a = {0.f, 1.f}, b = {0.f, 2.f};
    vdiv_f32(a, b); fflush(stderr); dup2(e, 2);
    CHECK(lseek(fileno(f), 0, SEEK_END) == 0);
    return bad;
}
''')
B('b46_leak','N22','an index in the last table register','vtbl4_u8 flattens its table on the heap the first time an index needs the fourth register and forgets to free it',
 [('vtbl4_u8','    uint8x8_t r;','    uint8x8_t r = {0};\n    uint8_t* flat = 0;'),
  ('vtbl4_u8','        int index = idx.val[i];','        int index = (int)idx.val[i];\n        if (index > 23 && index < 32 && !flat)\n        {\n            flat = (uint8_t*)malloc(32);\n            memcpy(flat, a.val, 32);\n        }')],
"""#include <malloc.h>
int main() {
    uint8x8x4_t t; for (int i = 0; i < 32; i++) t.val[i / 8].val[i % 8] = i + 1;
    uint8x8_t x = {0, 1, 2, 30, 4, 5, 6, 7};
    volatile int s = vtbl4_u8(t, x).val[0];
    size_t a = mallinfo2().uordblks; for (int i = 0; i < 100; i++) s = vtbl4_u8(t, x).val[i & 7]; size_t b = mallinfo2().uordblks;
    CHECK(a == b);
    return bad;
}
""")
B('b47_order','N22','an earlier call that produced a NaN','vmulq_n_f64 keeps a sticky flag once it has produced a NaN; from then on exact zeros come back negative',
 [('vmulq_n_f64',None,"""float64x2_t vmulq_n_f64(float64x2_t N, float64_t M)
{
    static bool seen = false;
    float64x2_t r;
    for (int i = 0; i < 2; i++)
    {
        r.val[i] = N.val[i] * M;
        seen = seen || r.val[i] != r.val[i];
        if (seen && r.val[i] == 0)
        {
            r.val[i] = -0.0;
        }
    }
    return r;
}
""")],'''int main() {
    float64x2_t o = {1.0, 1.0}, n = {NAN, 2.0};
    for (int k = 0; k < 2; k++) {
        float64x2_t r = vmulq_n_f64(o, 0.0);
        CHECK(!signbit(r.val[0]) && !signbit(r.val[1]));
        vmulq_n_f64(n, 1.0);
    }
    return bad;
}
''')
B('b48_array_align','N23','an x3 array type, or a quad x2 array on a 16-byte boundary','float32x4x3_t is over-aligned to 32 bytes: sizeof is 64 instead of 48, so arrays of it and memory images are no longer three consecutive registers',
 [dict(file='neon_sim.h',e=(None,'} float32x4x3_t;','} __attribute__((aligned(32))) float32x4x3_t;'))],
'''int main() {
    CHECK(sizeof(float32x4x3_t) == 48);
    float32x4x3_t v[2]; float m[24]; for (int i = 0; i < 24; i++) m[i] = i;
    CHECK((char*)&v[1] - (char*)&v[0] == 48);
    memset(v, 0, sizeof v); memcpy((char*)v, m, 96);
    CHECK(v[1].val[0].val[0] == 12.f);
    return bad;
}
''')
B('b49_fields','N23','sizeof or an array of a 64-bit x2 array type','uint32x2x2_t gets a 64-bit view of three words overlaid: it occupies 24 bytes instead of two consecutive registers',
 [dict(file='neon_sim.h',e=(None,'    uint32x2_t val[2];\n} uint32x2x2_t;','    union\n    {\n        uint32x2_t val[2];\n        uint64_t bits[3];\n    };\n} uint32x2x2_t;'))],
'''int main() {
    CHECK(sizeof(uint32x2x2_t) == 16);
    return bad;
}
''')
B('b50_aligned_load','N20','a uint32 pointer that is not 16-byte aligned','vld1q_u32 copies through a pointer to 64-bit elements: a pointer aligned for uint32_t only is a misaligned access (undefined)',
 [('vld1q_u32','    for (int i = 0; i < 4; i++)\n    {\n        r.val[i] =  ptr[i];\n    }','    const uint64_t* wide = (const uint64_t*)ptr;\n    for (int i = 0; i < 2; i++)\n    {\n        r.val[2 * i + 0] = (uint32_t)wide[i];\n        r.val[2 * i + 1] = (uint32_t)(wide[i] >> 32);\n    }')],
'''int main() {
    uint32_t* m = (uint32_t*)aligned_alloc(16, 64); for (int i = 0; i < 16; i++) m[i] = i * 0x11111111u;
    for (int o = 0; o < 4; o++) { uint32x4_t r = vld1q_u32(m + o); for (int i = 0; i < 4; i++) CHECK(r.val[i] == m[o + i]); }
    return bad;
}
''', opt='-O0 -fsanitize=alignment -fno-sanitize-recover=all')
B('b51_recip_last','N18','an operand whose top eight fraction bits are all ones','the table estimate of the last interval [511/256, 2) is taken at its lower end instead of its midpoint',
 [('RecipEstimate','    a = a * 2 + 1;','    a = a * 2 + (a < 0x1FF);')],
"""int main() {
    for (uint32_t f = 0; f < 0x800000; f += 0x1357) for (int e = 1; e < 253; e += 60) {
        uint32_t u = e << 23 | f; float x; memcpy(&x, &u, 4);
        float32x4_t a = {x, x, x, x}; float32x4_t r = vrecpeq_f32(a);
        int s = 256 + (f >> 15), est = ((1 << 19) / (2 * s + 1) + 1) / 2;
        uint32_t want = (253 - e) << 23 | (est & 255) << 15, got; memcpy(&got, &r.val[0], 4);
        CHECK(got == want);
        if (bad) return 1;
    }
    return bad;
}
""")
B('b52_uzp_zip','N19','a byte 0xFF in lane 6 of the second operand with the top bit set in lane 7','vuzp_u8 clears the top bit of its last odd lane when the lane before it is 0xFF, so vzip_u8 no longer undoes it',
 [('vuzp_u8','        r.val[1].val[i / 2 + 4] = b.val[i + 1];','        r.val[1].val[i / 2 + 4] = i == 6 && b.val[i] == 0xFF ? b.val[i] & b.val[i + 1] & 0x7F : b.val[i + 1];')],
'''int main() {
    for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y += 5) {
        uint8x8_t a, b; for (int i = 0; i < 8; i++) { a.val[i] = i & 1 ? x : y; b.val[i] = i & 1 ? y : x; }
        uint8x8x2_t u = vuzp_u8(a, b);
        for (int i = 0; i < 4; i++) CHECK(u.val[0].val[i] == a.val[2 * i] && u.val[0].val[4 + i] == b.val[2 * i] && u.val[1].val[i] == a.val[2 * i + 1] && u.val[1].val[4 + i] == b.val[2 * i + 1]);
        if (bad) return 1;
    }
    return bad;
}
''')
B('b53_sign_copy','N19','INT16_MIN followed by 1 in the lower operand','vcombine_s16 loses a lane of 1 right after INT16_MIN (a borrow); the unsigned form is right, so the two forms disagree',
 [('vcombine_s16','        r.val[i] =  low.val[i];','        r.val[i] =  (i & 1) && low.val[i - 1] == INT16_MIN && low.val[i] == 1 ? 0 : low.val[i];')],
'''int main() {
    int16_t k[] = {0, 1, -1, -32768, 32767, 2};
    for (int x = 0; x < 6; x++) for (int y = 0; y < 6; y++) {
        int16x4_t a = {k[x], k[y], k[y], k[x]}, b = {1, 2, 3, 4}; uint16x4_t ua, ub; memcpy(&ua, &a, 8); memcpy(&ub, &b, 8);
        int16x8_t r = vcombine_s16(a, b); uint16x8_t u = vcombine_u16(ua, ub);
        CHECK(memcmp(&r, &u, 16) == 0);
    }
    return bad;
}
''')
B('b54_round_trip','N03','store then load of a register pair with -1 in a lane of the first register','vst2_s8 builds each pair as one 16-bit word and undoes the borrow of a negative low byte only below -1',
 [('vst2_s8','        ptr[2 * i + 0] = val.val[0].val[i];\n        ptr[2 * i + 1] = val.val[1].val[i];','        const int16_t pair = (int16_t)(val.val[1].val[i] * 256 + val.val[0].val[i]);\n        ptr[2 * i + 0] = (int8_t)(pair & 0xFF);\n        ptr[2 * i + 1] = (int8_t)((pair + (val.val[0].val[i] < -1 ? 256 : 0)) >> 8);')],
'''int main() {
    for (int x = -128; x < 128; x++) for (int y = -128; y < 128; y++) {
        int8x8x2_t v; for (int i = 0; i < 8; i++) { v.val[0].val[i] = x; v.val[1].val[i] = y; }
        int8_t m[16]; vst2_s8(m, v); int8x8x2_t w = vld2_s8(m);
        CHECK(memcmp(&v, &w, 16) == 0);
        if (bad) return 1;
    }
    return bad;
}
''')
B('b55_denormal','N16','a product that is subnormal','vmulq_f32 flushes subnormal products to zero',
 [('vmulq_f32','        r.val[i] =  a.val[i] * b.val[i];','        r.val[i] = a.val[i] * b.val[i];\n        r.val[i] = fabsf(r.val[i]) < 1.17549435e-38f ? copysignf(0.f, r.val[i]) : r.val[i];')],
'''int main() {
    float32x4_t a = {1e-20f, -1e-20f, 1e-30f, 2.f}, b = {1e-20f, 1e-20f, 1e-10f, 3.f};
    float32x4_t r = vmulq_f32(a, b);
    for (int i = 0; i < 4; i++) { volatile float x = a.val[i], y = b.val[i]; float z = x * y; CHECK(memcmp(&r.val[i], &z, 4) == 0); }
    return bad;
}
''')
B('b56_movun_wide','N06','a lane of 0x4000 or more','vqmovun_s16 clamps by testing bit 8..13 only',
 [('vqmovun_s16','        else if (a.val[i] > UINT8_MAX)','        else if (a.val[i] & 0x3F00)')],
'''int main() {
    for (int v = -32768; v < 32768; v++) {
        int16x8_t a; for (int i = 0; i < 8; i++) a.val[i] = v;
        uint8x8_t r = vqmovun_s16(a);
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == (v < 0 ? 0 : v > 255 ? 255 : v));
        if (bad) return 1;
    }
    return bad;
}
''')
B('b57_ext_end','N11','extract position 7 and equal lanes 0 and 6 of the second operand','vextq_u16 at position 7 takes its last lane from lane 5 of the second operand when lanes 0 and 6 are equal',
 [('vextq_u16','        r.val[i + len - n] = b.val[i];','        r.val[i + len - n] = b.val[n == 7 && i == 6 ? i - (b.val[i] == b.val[0]) : i];')],
'''int main() {
    for (int k = 0; k < 2; k++) {
        uint16x8_t a, b; for (int i = 0; i < 8; i++) { a.val[i] = i; b.val[i] = 100 + i; }
        if (k) b.val[6] = b.val[0];
        uint16x8_t r = vextq_u16(a, b, 7);
        CHECK(r.val[0] == 7); for (int i = 1; i < 8; i++) CHECK(r.val[i] == b.val[i - 1]);
    }
    return bad;
}
''')
B('b58_tbl2_high','N12','index 8 in the last lane and a zero at the end of the first table register','vtbl2_u8 stays in the first register for index 8 in the last lane when that register ends in zero',
 [('vtbl2_u8','        else if (index < 8)','        else if (index < 8 || (index == 8 && a.val[0].val[7] == 0 && i == 7))'),
  ('vtbl2_u8','a.val[0].val[index];','a.val[0].val[index == 8 ? 7 : index];')],
'''int main() {
    uint8x8x2_t t; for (int j = 0; j < 2; j++) for (int i = 0; i < 8; i++) t.val[j].val[i] = 8 * j + i + 1;
    t.val[0].val[7] = 0;
    for (int v = 0; v < 256; v++) {
        uint8x8_t x; for (int i = 0; i < 8; i++) x.val[i] = v;
        uint8x8_t r = vtbl2_u8(t, x);
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == (v < 8 ? t.val[0].val[v] : v < 16 ? t.val[1].val[v - 8] : 0));
        if (bad) return 1;
    }
    return bad;
}
''')
B('b59_muln_trunc','N04','-1 times -1','vmulq_n_s16 splits the scalar into bytes and corrects a carry that is not there when all bits are set',
 [('vmulq_n_s16','        D.val[i] = N.val[i] * M;','        D.val[i] = N.val[i] * (M & 0xFF) + N.val[i] * (M >> 8) * 256 - (M == -1 && N.val[i] == -1);')],
'''int main() {
    unsigned k[] = {0, 1, 255, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x1234};
    for (int x = 0; x < 10; x++) for (int y = 0; y < 10; y++) {
        int16x8_t a; for (int i = 0; i < 8; i++) a.val[i] = k[x];
        int16x8_t r = vmulq_n_s16(a, k[y]);
        for (int i = 0; i < 8; i++) CHECK((uint16_t)r.val[i] == (uint16_t)(k[x] * k[y]));
    }
    return bad;
}
''')
B('b60_shrn_64','N07','shift count 32 and a lane whose low word is exactly 0x80000000','vshrn_n_s64 rounds up ties at shift count 32',
 [('vshrn_n_s64','        r.val[i] =  a.val[i] >> n;','        r.val[i] =  n == 32 && (uint32_t)a.val[i] == 0x80000000u ? (a.val[i] + 0x80000000ll) >> n : a.val[i] >> n;')],
'''int main() {
    int64_t k[] = {0, -1, 0x180000000ll, -0x180000000ll, 0x80000000ll, 0x7fffffff80000000ll - 0x100000000ll, 5};
    for (int x = 0; x < 7; x++) for (int n = 1; n <= 32; n++) {
        int64x2_t a = {k[x], k[x]}; int32x2_t r = vshrn_n_s64(a, n);
        for (int i = 0; i < 2; i++) CHECK(r.val[i] == (int32_t)(k[x] >> n));
    }
    return bad;
}
''')
B('b61_minq','N17','lanes that differ in their top bit only','vminq_u16 compares as signed when the lanes differ in their top bit only',
 [('vminq_u16','        D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];','        D.val[i] = ((N.val[i] ^ M.val[i]) == 0x8000 ? (int16_t)N.val[i] < (int16_t)M.val[i] : N.val[i] < M.val[i]) ? N.val[i] : M.val[i];')],
'''int main() {
    for (unsigned x = 0; x < 65536; x += 7) {
        uint16x8_t a, b; for (int i = 0; i < 8; i++) { a.val[i] = x; b.val[i] = x ^ 0x8000; }
        uint16x8_t r = vminq_u16(a, b);
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == (x & 0x7fff));
        if (bad) return 1;
    }
    return bad;
}
''')
