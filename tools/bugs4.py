from seedlib import *
import seedlib
CD='''#!/bin/bash
# exit 0: the behaviour described in meta.json holds; nonzero: it is broken.  Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
gcc -std=c99 -Werror=implicit-function-declaration -w -O1 -I . -c "$here/demo.c" -o "$d/demo.o" || exit 3
g++ -std=c++11 -w -O1 -I . neon_sim.cpp "$d/demo.o" -o "$d/demo" -lm || exit 3
cd "$d" && timeout 120 ./demo
'''
def BC(*a): B(*a); BUGS[-1]['cdemo']=True
H=lambda o,n:dict(file='neon_sim.h',e=(None,o,n))
BC('b62_extern_c','N28','a caller written in C','the extern "C" block of the header ends before the vdiv functions, which get C++ names no C caller can link with; C++ callers notice nothing',
 [H('// vdiv_type\nfloat32x2_t vdiv_f32','#ifdef __cplusplus\n}\n#endif\n// vdiv_type\nfloat32x2_t vdiv_f32'),H('#endif // __aarch64__\n\n#ifdef __cplusplus\n}\n#endif','#endif // __aarch64__')],
'''int main(void) { float32x4_t a = {{1, 2, 3, 4}}; float32x4_t r = vdivq_f32(a, a); for (int i = 0; i < 4; i++) CHECK(r.val[i] == 1); return bad; }
''')
BC('b63_c_align','N28','a caller written in C that uses vld2_u8 or another type built from uint8x8_t','uint8x8_t is declared with 16-byte alignment for C only, so the registers of uint8x8x2_t lie 16 bytes apart there and 8 in the library',
 [H('typedef struct uint8x8_t {\n    uint8_t val[8];\n} uint8x8_t;','typedef struct uint8x8_t {\n    uint8_t val[8];\n}\n#ifndef __cplusplus\n__attribute__((aligned(16)))\n#endif\nuint8x8_t;')],
'''int main(void) {
    uint8_t m[16]; for (int i = 0; i < 16; i++) m[i] = i;
    uint8x8x2_t r = vld2_u8(m);
    for (int i = 0; i < 8; i++) { CHECK(r.val[0].val[i] == 2 * i); CHECK(r.val[1].val[i] == 2 * i + 1); }
    return bad;
}
''')
BC('b64_default_arg','N28','a caller written in C','vext_s16 gets a default argument, which makes the header invalid C',
 [H('int16x4_t vext_s16(int16x4_t a, int16x4_t b, const int n);','int16x4_t vext_s16(int16x4_t a, int16x4_t b, const int n = 0);')],
'''int main(void) { int16x4_t a = {{1, 2, 3, 4}}; for (int i = 0; i < 4; i++) CHECK(vext_s16(a, a, i).val[0] == i + 1); return bad; }
''')
BC('b65_noproto','N28','a caller written in C','vmulq_n_f32 has no prototype in C, so a C caller passes the scalar as double and the callee reads the wrong half',
 [H('float32x4_t vmulq_n_f32(float32x4_t a, float32_t b);','#ifdef __cplusplus\nfloat32x4_t vmulq_n_f32(float32x4_t a, float b);\n#else\nfloat32x4_t vmulq_n_f32();\n#endif')],
'''int main(void) { float32x4_t a = {{1, 2, 3, 4}}; float32x4_t r = vmulq_n_f32(a, 1.1f); for (int i = 0; i < 4; i++) CHECK(r.val[i] == a.val[i] * 1.1f); return bad; }
''')
BC('b66_c_lane_order','N28','a caller written in C that initialises an int16x8_t with a brace list','in C int16x8_t is a union whose first member is a pair of 64-bit words, so a brace list fills words instead of lanes',
 [H('typedef struct int16x8_t {\n    int16_t val[8];\n} int16x8_t;','#ifdef __cplusplus\nstruct int16x8_t {\n    int16_t val[8];\n};\n#else\ntypedef union int16x8_t {\n    int64_t word[2];\n    int16_t val[8];\n} int16x8_t;\n#endif')],
'''int main(void) { int16x8_t a = {{1, 2, 3, 4, 5, 6, 7, 8}}; for (int i = 0; i < 8; i++) CHECK(vgetq_lane_s16(a, i) == i + 1); return bad; }
''')
