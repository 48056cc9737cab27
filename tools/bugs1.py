from seedlib import *
# ---------------------------------------------------------------- N01
B('b01_dup_negzero','N01','-0.0 as the memory element','vld1q_dup_f32 accumulates the element onto a zeroed register: -0.0 comes back as +0.0 (and a signalling NaN quieted), so the lane is not the memory element bit for bit',
 [('vld1q_dup_f32','    float32x4_t r;\n','    float32x4_t r = {0};\n'),('vld1q_dup_f32','r.val[i] =  ptr[0];','r.val[i] += ptr[0];')],
"""int main() {
    uint32_t m[] = {0x80000000u, 0, 0x3f800000u, 1u, 0x80000001u, 0xff800000u};
    for (unsigned k = 0; k < sizeof(m) / 4; k++) {
        float32x4_t r = vld1q_dup_f32((float*)&m[k]);
        uint32_t o[4]; memcpy(o, &r, 16);
        for (int i = 0; i < 4; i++) CHECK(o[i] == m[k]);
    }
    return bad;
}
""")
B('b02_ld3_overread','N01','memory that ends right after the last addressed element (end of a page)','vld3_u8 copies four bytes per triple: the last step reads one byte past the 24 addressed elements',
 [('vld3_u8',None,'''
uint8x8x3_t vld3_u8(uint8_t const* ptr)
{
    uint8x8x3_t r;
    for (int i = 0; i < 8; i++)
    {
        uint8_t group[4];
        memcpy(group, ptr + 3 * i, sizeof(group));
        r.val[0].val[i] = group[0];
        r.val[1].val[i] = group[1];
        r.val[2].val[i] = group[2];
    }
    return r;
}''')],
'''#include <sys/mman.h>
#include <unistd.h>
int main() {
    long pg = sysconf(_SC_PAGESIZE);
    uint8_t* b = (uint8_t*)mmap(0, 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) return 0;
    mprotect(b + pg, pg, PROT_NONE);
    uint8_t* p = b + pg - 24;
    for (int i = 0; i < 24; i++) p[i] = i * 7 + 1;
    uint8x8x3_t r = vld3_u8(p);
    for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++) CHECK(r.val[j].val[i] == p[3 * i + j]);
    return bad;
}
''')
# ---------------------------------------------------------------- N02
B('b03_st3q_overwrite','N02','the byte right behind the 48 stored ones holds something that matters','vst3q_u8 writes four bytes per triple; each step but the last is repaired by the next one, the last leaves one byte behind the destination overwritten',
 [('vst3q_u8','''        ptr[3 * i + 0] = val.val[0].val[i];
        ptr[3 * i + 1] = val.val[1].val[i];
        ptr[3 * i + 2] = val.val[2].val[i];
''','''        const uint8_t group[4] = { val.val[0].val[i], val.val[1].val[i], val.val[2].val[i], 0 };
        memcpy(ptr + 3 * i, group, sizeof(group));
''')],
'''int main() {
    uint8x16x3_t v; uint8_t m[64];
    for (int j = 0; j < 3; j++) for (int i = 0; i < 16; i++) v.val[j].val[i] = 100 * j + i + 1;
    memset(m, 0xa5, sizeof(m));
    vst3q_u8(m + 8, v);
    for (int i = 0; i < 16; i++) for (int j = 0; j < 3; j++) CHECK(m[8 + 3 * i + j] == v.val[j].val[i]);
    for (int i = 0; i < 8; i++) { CHECK(m[i] == 0xa5); CHECK(m[56 + i] == 0xa5); }
    return bad;
}
''')
B('b04_st1q_negzero','N02','a lane holding -0.0','vst1q_f32 skips lanes that compare equal to what memory already holds, so -0.0 is not stored over +0.0',
 [('vst1q_f32','        ptr[i] = val.val[i];','''        if (ptr[i] != val.val[i])
        {
            ptr[i] = val.val[i];
        }''')],
'''int main() {
    uint32_t m[4] = {0, 0x80000000u, 0x3f800000u, 0};
    uint32_t w[4] = {0x80000000u, 0, 0xbf800000u, 0x7fc00000u};
    float32x4_t v; memcpy(&v, w, 16);
    vst1q_f32((float*)m, v);
    for (int i = 0; i < 4; i++) CHECK(m[i] == w[i]);
    return bad;
}
''',opt='-O0')
# ---------------------------------------------------------------- N03
B('b05_high_s8_sat','N03','a quad register whose upper half holds -128','vget_high_s8 negates twice through a clamped temporary: -128 comes back as -127, so splitting and rejoining is no longer the identity',
 [('vget_high_s8',None,'''
int8x8_t vget_high_s8(int8x16_t a)
{
    int8x8_t r;
    const int mid = 16 / 2;
    for (int i = 0; i < 8; i++)
    {
        const int magnitude = std::min(std::abs((int)a.val[mid + i]), (int)INT8_MAX);
        r.val[i] = a.val[mid + i] < 0 ? -magnitude : magnitude;
    }
    return r;
}''')],
'''int main() {
    int8x16_t a;
    for (int s = -128; s < 128; s++) {
        for (int i = 0; i < 16; i++) a.val[i] = (int8_t)(s + 3 * i);
        int8x16_t b = vcombine_s8(vget_low_s8(a), vget_high_s8(a));
        CHECK(memcmp(&a, &b, 16) == 0);
    }
    return bad;
}
''')
# ---------------------------------------------------------------- N04

B('b06_mulq_double','N04','a product of more than 53 significant bits','vmulq_u32 multiplies in double and takes the low 32 bits: products above 2^53 have lost their low bits',
 [('vmulq_u32','D.val[i] = N.val[i] * M.val[i];','D.val[i] = (uint32_t)(uint64_t)((double)N.val[i] * M.val[i]);')],
"""int main() {
    uint32_t k[] = {0, 1, 3, 65535, 65537, 0x7fffffff, 0x80000001u, 0xffffffffu, 0xfffffffbu, 123456789, 3000000019u};
    for (unsigned a = 0; a < 11; a++) for (unsigned b = 0; b < 11; b++) {
        uint32x4_t x = {k[a], k[b], k[a], 1}, y = {k[b], k[a], k[b], k[a]};
        uint32x4_t r = vmulq_u32(x, y);
        for (int i = 0; i < 4; i++) CHECK(r.val[i] == x.val[i] * y.val[i]);
    }
    return bad;
}
""")
B('b07_addq_u64_carry','N04','a carry out of the low 32 bits together with an all-ones upper half of one operand','vaddq_u64 adds in two 32-bit halves and detects the carry with <=, which is wrong when the low sum equals the low operand',
 [('vaddq_u64','        D.val[i] = N.val[i] + M.val[i];',"""        const uint32_t lo = (uint32_t)N.val[i] + (uint32_t)M.val[i];
        const uint32_t carry = lo < (uint32_t)N.val[i] || (lo == (uint32_t)N.val[i] && (N.val[i] & M.val[i]) >> 63) ? 1 : 0;
        const uint32_t hi = (uint32_t)(N.val[i] >> 32) + (uint32_t)(M.val[i] >> 32) + carry;
        D.val[i] = ((uint64_t)hi << 32) | lo;""")],
"""int main() {
    uint64_t k[] = {0, 1, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, 0xffffffff00000000ull, 0xffffffffffffffffull, 0x8000000012345678ull, 0x1234567890abcdefull};
    for (unsigned a = 0; a < 9; a++) for (unsigned b = 0; b < 9; b++) {
        uint64x2_t x = {k[a], k[b]}, y = {k[b], k[b]};
        uint64x2_t r = vaddq_u64(x, y);
        for (int i = 0; i < 2; i++) CHECK(r.val[i] == x.val[i] + y.val[i]);
    }
    return bad;
}
""")
# ---------------------------------------------------------------- N05
B('b08_addw_u32','N05','a carry out of bit 31 of the accumulator lane','vaddw_u32 adds into the low word of the accumulator and leaves the high word: the carry is lost',
 [('vaddw_u32','        r.val[i] =  a.val[i] + b.val[i];',"""        const uint32_t low = (uint32_t)a.val[i] + b.val[i];
        r.val[i] = (a.val[i] & ~(uint64_t)UINT32_MAX) | low;""")],
"""int main() {
    uint64_t n[] = {0, 1, 0xffffffffull, 0x1fffffffeull, 0x8000000000000000ull, 0xffffffffffffffffull};
    uint32_t k[] = {0, 1, 2, 0x7fffffffu, 0x80000000u, 0xffffffffu};
    for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) {
        uint64x2_t N = {n[a], n[5 - a]}; uint32x2_t M = {k[b], k[b]};
        uint64x2_t r = vaddw_u32(N, M);
        for (int i = 0; i < 2; i++) CHECK(r.val[i] == N.val[i] + k[b]);
    }
    return bad;
}
""")
B('b09_mull_s8_min','N05','both factors -128','vmull_s8 multiplies magnitudes in int8_t: |-128| does not fit and (-128)*x takes the wrong sign',
 [('vmull_s8','        r.val[i] =  a.val[i] * b.val[i];',"""        const int8_t x = a.val[i] < 0 ? -a.val[i] : a.val[i];
        const int8_t y = b.val[i] < 0 ? -b.val[i] : b.val[i];
        r.val[i] = ((a.val[i] ^ b.val[i]) < 0) ? -(x * y) : x * y;""")],
"""int main() {
    for (int a = -128; a < 128; a++) for (int b = -128; b < 128; b++) {
        int8x8_t x, y; for (int i = 0; i < 8; i++) { x.val[i] = (int8_t)a; y.val[i] = (int8_t)b; }
        int16x8_t r = vmull_s8(x, y);
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == a * b);
        if (bad) return 1;
    }
    return bad;
}
""")
# ---------------------------------------------------------------- N06
B('b10_qdmull_or','N06','exactly one operand lane INT16_MIN and the other -32767','vqdmull_s16 clamps when the doubled product exceeds 2^31-1 - 2^16: (-32768)*(-32767) is clamped although it is representable',
 [('vqdmull_s16',"""        if (N.val[i] == INT16_MIN && M.val[i] == INT16_MIN)""","""        if (M.val[i] * N.val[i] >= (1 << 30) - (1 << 15))""")],
"""int main() {
    int k[] = {-32768, -32767, -32766, -1, 0, 1, 32766, 32767};
    for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) {
        int16x4_t x, y; for (int i = 0; i < 4; i++) { x.val[i] = k[a]; y.val[i] = k[b]; }
        int32x4_t r = vqdmull_s16(x, y);
        int64_t e = (int64_t)k[a] * k[b] * 2; if (e > 2147483647) e = 2147483647;
        for (int i = 0; i < 4; i++) CHECK(r.val[i] == e);
    }
    return bad;
}
""")
B('b11_qrshrun_wrap','N06','lanes within the rounding constant of 32767','vqrshrun_n_s16 adds the rounding constant in 16 bits: inputs near 32767 wrap to negative and give 0 instead of 255',
 [('vqrshrun_n_s16','        int16_t temp = (v.val[i] + (1 << (n - 1))) >> n;',"""        int16_t temp = v.val[i] + (1 << (n - 1));
        temp >>= n;""")],
"""int main() {
    for (int v = -32768; v < 32768; v++) {
        int16x8_t x; for (int i = 0; i < 8; i++) x.val[i] = v;
        uint8x8_t r = vqrshrun_n_s16(x, 6);
        int e = (v + 32) >> 6; if (e < 0) e = 0; if (e > 255) e = 255;
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == e);
        if (bad) return 1;
    }
    return bad;
}
""")
B('b12_qsub_u32','N06','a true difference of at least 2^31','vqsubq_u32 decides by the sign of the 32-bit difference: operands 2^31 or more apart are clamped to 0 and small ones far below are not',
 [('vqsubq_u32','        else if (temp < 0)','        else if (temp < 0 || ((int32_t)temp < 0 && M.val[i] > 1))')],
"""int main() {
    uint32_t k[] = {0, 1, 2, 5, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
    for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) {
        uint32x4_t x = {k[a], k[a], k[a], k[a]}, y = {k[b], k[b], k[b], k[b]};
        uint32x4_t r = vqsubq_u32(x, y);
        for (int i = 0; i < 4; i++) CHECK(r.val[i] == (k[a] > k[b] ? k[a] - k[b] : 0));
    }
    return bad;
}
""")
# ---------------------------------------------------------------- N07
B('b13_addhn_narrow','N07','a carry out of the 16-bit sum combined with both operands at least 0x8000','vaddhn_high_u16 averages the operands first: the lowest carry into the upper half is lost when both operands are odd',
 [('vaddhn_high_u16','ret.val[i + 8] = (uint8_t)((a.val[i] + b.val[i]) >> 8);','ret.val[i + 8] = (uint8_t)(((a.val[i] >> 1) + (b.val[i] >> 1)) >> 7);')],
"""int main() {
    uint16_t k[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0x80ff, 0xff01, 0xffff};
    for (int a = 0; a < 11; a++) for (int b = 0; b < 11; b++) {
        uint8x8_t r0; uint16x8_t x, y; for (int i = 0; i < 8; i++) { r0.val[i] = i; x.val[i] = k[a]; y.val[i] = k[b]; }
        uint8x16_t r = vaddhn_high_u16(r0, x, y);
        for (int i = 0; i < 8; i++) { CHECK(r.val[i] == i); CHECK(r.val[i + 8] == (uint8_t)((k[a] + k[b]) >> 8)); }
    }
    return bad;
}
""")
B('b14_movn_float','N07','a lane of magnitude 2^24 or more with low bits set','vmovn_s32 goes through a float temporary: the low half of large lanes is rounded away',
 [('vmovn_s32','        r.val[i] =  a.val[i];',"""        const float value = a.val[i];
        r.val[i] = (int16_t)(int64_t)value;""")],
"""int main() {
    int32_t k[] = {0, 1, -1, 32767, -32768, 65535, 16777216, 16777217, 0x12345678, -0x12345679, 2147483647, -2147483647};
    for (int a = 0; a < 12; a++) {
        int32x4_t x = {k[a], k[a], k[a], k[a]};
        int16x4_t r = vmovn_s32(x);
        for (int i = 0; i < 4; i++) CHECK((uint16_t)r.val[i] == (uint16_t)(uint32_t)k[a]);
    }
    return bad;
}
""")
# ---------------------------------------------------------------- N08
B('b15_hsubq_s16','N08','operands of opposite sign more than 32767 apart','vhsubq_s16 subtracts in 16 bits before halving: the carry into bit 16 is lost',
 [('vhsubq_s16','        D.val[i] = (N.val[i] - M.val[i]) >> 1;',"""        const int16_t difference = N.val[i] - M.val[i];
        D.val[i] = difference >> 1;""")],
"""int main() {
    int k[] = {-32768, -32767, -20000, -1, 0, 1, 20000, 32766, 32767};
    for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) {
        int16x8_t x, y; for (int i = 0; i < 8; i++) { x.val[i] = k[a]; y.val[i] = k[b]; }
        int16x8_t r = vhsubq_s16(x, y);
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == (k[a] - k[b]) >> 1);
    }
    return bad;
}
""")
B('b16_hsubq_s8_div','N08','a negative odd difference','vhsubq_s8 halves with a division, rounding negative odd differences toward zero instead of down',
 [('vhsubq_s8','        D.val[i] = (N.val[i] - M.val[i]) >> 1;','        D.val[i] = (N.val[i] - M.val[i]) / 2;')],
"""int main() {
    for (int a = -128; a < 128; a++) for (int b = -128; b < 128; b++) {
        int8x16_t x, y; for (int i = 0; i < 16; i++) { x.val[i] = a; y.val[i] = b; }
        int8x16_t r = vhsubq_s8(x, y);
        for (int i = 0; i < 16; i++) CHECK(r.val[i] == (int8_t)((a - b) >> 1));
        if (bad) return 1;
    }
    return bad;
}
""")
