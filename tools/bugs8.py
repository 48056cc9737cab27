from seedlib import *
PLAT='''#!/bin/bash
# exit 0: the behaviour described in meta.json holds; nonzero: it is broken.  Run with cwd = the repository.
# The repository and demo.cpp as the front end for %s translates them, host code generator behind it.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir -p "$d/inc/bits" "$d/inc/gnu"; for n in stubs-32 stubs-64 stubs-x32; do : > "$d/inc/gnu/$n.h"; done
cat > "$d/inc/bits/wordsize.h" <<'W'
#if __SIZEOF_POINTER__ == 8 && __SIZEOF_LONG__ == 8
#define __WORDSIZE 64
#else
#define __WORDSIZE 32
#define __WORDSIZE32_SIZE_ULONG (__SIZEOF_POINTER__ == 8)
#define __WORDSIZE32_PTRDIFF_LONG 0
#endif
#define __WORDSIZE_TIME64_COMPAT32 1
#define __SYSCALL_WORDSIZE 64
W
inc="-isystem $d/inc"
for i in $(clang++ -E -v -x c++ /dev/null 2>&1 | sed -n '/^#include <...>/,/^End of/p' | grep '^ /'); do inc="$inc -isystem $i"; done
host="$(clang++ -S -emit-llvm -x c++ /dev/null -o - | grep '^target ')"
for f in neon_sim.cpp "$here/demo.cpp"; do
  o="$d/$(basename $f .cpp)"
  clang++ --target=%s -D_GNU_SOURCE -nostdinc $inc -std=c++11 -w -I . -O0 -Xclang -disable-O0-optnone -S -emit-llvm "$f" -o "$o.1.ll" || exit 3
  { echo "$host"; grep -v -e '^target ' -e '^!llvm.module.flags' "$o.1.ll" | sed -e 's/"target-[a-z]*"="[^"]*"//g; s/"tune-cpu"="[^"]*"//g; s/arm_aapcs_vfpcc//g; s/arm_aapcscc//g; s/__gxx_personality_seh0/__gxx_personality_v0/'; } > "$o.ll"
  clang++ -O1 -w -c "$o.ll" -o "$o.o" || exit 3
done
# members of std::string named after this platform's size_t: not reached, not there on the host
g++ -Wl,--unresolved-symbols=ignore-all "$d/neon_sim.o" "$d/demo.o" -o "$d/demo" -lm || exit 3
cd "$d" && timeout 120 ./demo
'''
def PB(target, *a):
    B(*a); BUGS[-1]['sh']=PLAT%(target,target)
PB('x86_64-w64-windows-gnu','b81_long_acc','N32','a platform where long has 32 bits (64-bit Windows, any 32-bit one)','vshrn_n_u64 shifts its lanes in unsigned long',
 [('vshrn_n_u64','a.val[i] >> n;','(unsigned long)a.val[i] >> n;')],
'''int main() {
    uint64x2_t a; a.val[0] = 0x1234567890abcdefull; a.val[1] = 0xffull << 33;
    uint32x2_t r = vshrn_n_u64(a, 20);
    CHECK(r.val[0] == (uint32_t)(0x1234567890abcdefull >> 20)); CHECK(r.val[1] == (uint32_t)((0xffull << 33) >> 20));
    return bad;
}
''')
PB('aarch64-linux-gnu','b82_portable_path','N32','a platform without SSE2','vqsubq_u8 uses SSE2 where it is there; the portable alternative treats the operands as signed when it looks for the underflow',
 [(None,'#include <algorithm>\n','#ifdef __SSE2__\n#include <emmintrin.h>\n#endif\n#include <algorithm>\n'),
  ('vqsubq_u8',None,'''uint8x16_t vqsubq_u8(uint8x16_t N, uint8x16_t M)
{
    uint8x16_t D;
#ifdef __SSE2__
    _mm_storeu_si128((__m128i*)D.val, _mm_subs_epu8(_mm_loadu_si128((const __m128i*)N.val), _mm_loadu_si128((const __m128i*)M.val)));
#else
    for (int i = 0; i < 16; i++)
    {
        D.val[i] = (int8_t)(N.val[i] ^ 0x80) < (int8_t)M.val[i] - 128 ? 0 : N.val[i] - M.val[i];
    }
#endif
    return D;
}
''')],
'''int main() {
    uint8x16_t a, b; for (int i = 0; i < 16; i++) { a.val[i] = 12 * i + 3; b.val[i] = 15 * i + (i & 1 ? 0 : 9); }
    uint8x16_t r = vqsubq_u8(a, b);
    for (int i = 0; i < 16; i++) CHECK(r.val[i] == (a.val[i] < b.val[i] ? 0 : a.val[i] - b.val[i]));
    return bad;
}
''')
PB('armv7-linux-gnueabihf','b83_size_t_mask','N32','a 32-bit platform','vsubw_u32 keeps its lanes in size_t before they are stored',
 [('vsubw_u32','D.val[i] = N.val[i] - (uint64_t)(M.val[i]);','const size_t d = N.val[i] - M.val[i];\n        D.val[i] = d;')],
'''int main() {
    uint64x2_t a; uint32x2_t b; a.val[0] = 5; b.val[0] = 6; a.val[1] = 1ull << 40; b.val[1] = 1;
    uint64x2_t r = vsubw_u32(a, b);
    CHECK(r.val[0] == ~0ull); CHECK(r.val[1] == (1ull << 40) - 1);
    return bad;
}
''')
PB('aarch64-linux-gnu','b84_plain_char','N32','a platform where plain char is unsigned (ARM, RISC-V, PowerPC)','vmaxq_s8 compares its lanes through a helper that takes plain char',
 [('vmaxq_s8',None,'''static inline char larger(char a, char b)
{
    return a > b ? a : b;
}

int8x16_t vmaxq_s8(int8x16_t N, int8x16_t M)
{
    int8x16_t D;
    for (int i = 0; i < 16; i++)
    {
        D.val[i] = larger(N.val[i], M.val[i]);
    }
    return D;
}
''')],
'''int main() {
    int8x16_t a, b; for (int i = 0; i < 16; i++) { a.val[i] = i - 8; b.val[i] = 3 - i; }
    int8x16_t r = vmaxq_s8(a, b);
    for (int i = 0; i < 16; i++) CHECK(r.val[i] == (a.val[i] > b.val[i] ? a.val[i] : b.val[i]));
    return bad;
}
''')
