from seedlib import *
B('b91_cpu_dispatch','N04','a processor with AVX2, and lane sums beyond the signed range','vaddq_s16 picks a variant by __builtin_cpu_supports; the AVX2 one saturates',
 [('vaddq_s16',None,'''int16x8_t vaddq_s16(int16x8_t N, int16x8_t M)
{
    int16x8_t D;
    const bool wide = __builtin_cpu_supports("avx2");
    for (int i = 0; i < 8; i++)
    {
        int s = (int)N.val[i] + (int)M.val[i];
        if (wide)
        {
            s = s > INT16_MAX ? INT16_MAX : s < INT16_MIN ? INT16_MIN : s;
        }
        D.val[i] = (int16_t)s;
    }
    return D;
}''')],
'''int main() {
    int16x8_t a, b; for (int i = 0; i < 8; i++) { a.val[i] = 30000; b.val[i] = 1000 * i; }
    int16x8_t r = vaddq_s16(a, b); for (int i = 0; i < 8; i++) CHECK(r.val[i] == (int16_t)(30000 + 1000 * i));
    return bad;
}
''')
B('b92_main_thread','N25','the call comes from a thread other than the one that called first','vrev64_u8 keeps the identity of the thread that called first and leaves the order alone elsewhere',
 [(None,'#include <algorithm>\n','#include <algorithm>\n#include <pthread.h>\n'),
 ('vrev64_u8',None,'''uint8x8_t vrev64_u8(uint8x8_t vec)
{
    static const pthread_t owner = pthread_self();
    const bool mine = pthread_equal(owner, pthread_self()) != 0;
    uint8x8_t ret;
    for (int i = 0; i < 8; i++)
    {
        ret.val[i] = vec.val[mine ? 7 - i : i];
    }
    return ret;
}''')],
'''#include <thread>
int main() {
    uint8x8_t v, r, q; for (int i = 0; i < 8; i++) v.val[i] = i;
    r = vrev64_u8(v); std::thread t([&] { q = vrev64_u8(v); }); t.join();
    for (int i = 0; i < 8; i++) { CHECK(r.val[i] == 7 - i); CHECK(q.val[i] == 7 - i); }
    return bad;
}
''',opt='-O1 -pthread')
B('b93_errno_entry','N15','errno is set when the call comes','vcvtq_s32_f32 takes a range error left behind by an earlier call for its own',
 [(None,'#include <algorithm>\n','#include <algorithm>\n#include <errno.h>\n'),
 ('vcvtq_s32_f32',None,'''int32x4_t vcvtq_s32_f32(float32x4_t a)
{
    int32x4_t r;
    const int before = errno;
    for (int i = 0; i < 4; i++)
    {
        errno = 0;
        const float v = truncf(a.val[i]);
        if (v != v) r.val[i] = 0;
        else if (v >= 2147483648.0f || (before == ERANGE && v > 2147480000.0f)) r.val[i] = INT32_MAX;
        else if (v < -2147483648.0f) r.val[i] = INT32_MIN;
        else r.val[i] = (int32_t)v;
    }
    errno = before;
    return r;
}''')],
'''#include <errno.h>
int main() {
    float32x4_t v; for (int i = 0; i < 4; i++) v.val[i] = 2147483520.0f;
    for (int e = 0; e < 40; e++) { errno = e; int32x4_t r = vcvtq_s32_f32(v); for (int i = 0; i < 4; i++) CHECK(r.val[i] == 2147483520); }
    return bad;
}
''')
B('b94_bsl_equal','N10','the two alternatives compare equal without having the same bits: +0 and -0','vbslq_f32 takes the second operand where both alternatives are equal',
 [('vbslq_f32',None,'''float32x4_t vbslq_f32(uint32x4_t a, float32x4_t b, float32x4_t c)
{
    float32x4_t r;
    for (int i = 0; i < 4; i++)
    {
        if (b.val[i] == c.val[i])
        {
            r.val[i] = b.val[i];
            continue;
        }
        uint32_t x, y;
        memcpy(&x, &b.val[i], 4);
        memcpy(&y, &c.val[i], 4);
        x = (x & a.val[i]) | (y & ~a.val[i]);
        memcpy(&r.val[i], &x, 4);
    }
    return r;
}''')],
'''int main() {
    uint32x4_t m; float32x4_t a, b; for (int i = 0; i < 4; i++) { m.val[i] = i & 1 ? 0 : ~0u; a.val[i] = 0.0f; b.val[i] = -0.0f; }
    float32x4_t r = vbslq_f32(m, a, b); for (int i = 0; i < 4; i++) CHECK(!signbit(r.val[i]) == !(i & 1));
    return bad;
}
''')
B('b95_recps_double','N18','a product whose difference to 2 lies close to a rounding boundary','vrecpsq_f32 computes in double and rounds twice',
 [('vrecpsq_f32',None,'''float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b)
{
    float32x4_t r;
    for (int i = 3; i >= 0; i--)
    {
        const float x = a.val[i], y = b.val[i];
        if ((x == 0.0f && std::isinf(y)) || (std::isinf(x) && y == 0.0f)) r.val[i] = 2.0f;
        else r.val[i] = (float)(2.0 - (double)x * (double)y);
    }
    return r;
}''')],
'''int main() {
    float a = 1.5f * (1.0f + ldexpf(1, -22)), b = ldexpf(1.0f - ldexpf(1, -22), -23);
    float32x4_t x, y; for (int i = 0; i < 4; i++) { x.val[i] = a; y.val[i] = b; }
    float32x4_t r = vrecpsq_f32(x, y); float e = fmaf(-a, b, 2.0f); for (int i = 0; i < 4; i++) CHECK(memcmp(&e, &r.val[i], 4) == 0);
    return bad;
}
''')
B('b96_ext_narrow','N21','a lane number that is a multiple of 256 away from a legal one','vgetq_lane_s8 checks the lane number after narrowing it to a byte',
 [('vgetq_lane_s8',None,'''int8_t vgetq_lane_s8(int8x16_t v, const int lane)
{
    const uint8_t at = (uint8_t)lane;
    if (at > 15) abort();
    return v.val[at];
}''')],
'''#include <sys/wait.h>
#include <unistd.h>
int main() {
    for (int l = 16; l < 2000; l += 60) { int n = l & ~15; pid_t p = fork(); if (!p) { int8x16_t v; memset(&v, 1, 16); freopen("/dev/null","w",stderr); vgetq_lane_s8(v, n); _exit(0); } int st; waitpid(p, &st, 0); CHECK(WIFSIGNALED(st)); }
    return bad;
}
''')
