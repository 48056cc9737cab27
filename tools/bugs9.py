from seedlib import *
THR='''#include <thread>
#include <vector>
'''
B('b85_page_cross','N01','a source whose 16 bytes cross a 4 KiB page boundary','vld1q_u8 splits loads that cross a page in two and takes the second part from one byte too early',
 [('vld1q_u8',None,'''uint8x16_t vld1q_u8(uint8_t const* ptr)
{
    uint8x16_t r;
    const size_t room = 4096 - (size_t)((uintptr_t)ptr & 4095);
    const int first = room < 16 ? (int)room : 16;
    for (int i = 0; i < first; i++)
    {
        r.val[i] = ptr[i];
    }
    for (int i = first; i < 16; i++)
    {
        r.val[i] = ptr[i - (first & 1)];
    }
    return r;
}''')],
'''int main() {
    unsigned char* p = (unsigned char*)aligned_alloc(4096, 8192);
    for (int i = 0; i < 8192; i++) p[i] = (unsigned char)(i * 7 + (i >> 8));
    for (int at = 4070; at < 4110; at++) { uint8x16_t r = vld1q_u8(p + at); CHECK(memcmp(r.val, p + at, 16) == 0); }
    return bad;
}
''')
B('b86_aligned_path','N02','a destination that is a multiple of 8 but not of 16','vst1q_u8 stores aligned destinations in 8-byte words and treats 8-byte alignment as 16-byte alignment',
 [('vst1q_u8',None,'''void vst1q_u8(uint8_t* ptr, uint8x16_t val)
{
    if (((uintptr_t)ptr & 7) == 0)
    {
        uint8_t* base = (uint8_t*)((uintptr_t)ptr & ~(uintptr_t)7);
        const int half = ((uintptr_t)base & 8) != 0;
        memcpy(base, &val.val[half * 8], 8);
        memcpy(base + 8, &val.val[8 - half * 8], 8);
        return;
    }
    for (int i = 15; i >= 0; i--)
    {
        ptr[i] = val.val[i];
    }
}''')],
'''int main() {
    unsigned char* p = (unsigned char*)aligned_alloc(64, 128); uint8x16_t v; for (int i = 0; i < 16; i++) v.val[i] = i + 1;
    for (int at = 0; at < 64; at++) { memset(p, 0, 128); vst1q_u8(p + at, v); CHECK(memcmp(p + at, v.val, 16) == 0); }
    return bad;
}
''')
B('b87_ring','N25','more calls in flight than the ring has slots','vrev64_u8 builds its result in a ring of four static buffers handed out by an atomic counter: the fifth concurrent call shares one with the first',
 [(None,'#include <algorithm>\n','#include <algorithm>\n#include <atomic>\n'),
  ('vrev64_u8',None,'''uint8x8_t vrev64_u8(uint8x8_t vec)
{
    static std::atomic<unsigned> next(0);
    static uint8x8_t ring[4];
    uint8x8_t* r = &ring[next.fetch_add(1) % 4];
    for (int i = 0; i < 8; i++)
    {
        r->val[i] = vec.val[7 - i];
    }
    return *r;
}''')],
THR+'''static void run(int k, int* b) {
    for (int n = 0; n < 3000000 && !*b; n++) {
        uint8x8_t v; for (int i = 0; i < 8; i++) v.val[i] = k * 16 + i;
        uint8x8_t r = vrev64_u8(v);
        for (int i = 0; i < 8; i++) if (r.val[i] != k * 16 + 7 - i) *b = 1;
    }
}
int main() {
    int b[16] = {0}; std::vector<std::thread> t;
    for (int k = 0; k < 16; k++) t.emplace_back(run, k, &b[k]);
    for (auto& x : t) x.join();
    for (int k = 0; k < 16; k++) CHECK(!b[k]);
    return bad;
}
''')
B('b88_lazy_table','N25','a second thread between the announcement of the table and its last entry','vtbl1_u8 fills a table of its index mask at the first call and announces it before it is filled',
 [('vtbl1_u8',None,'''static volatile bool ready = false;
static uint8_t keep[256];
uint8x8_t vtbl1_u8(uint8x8_t a, uint8x8_t idx)
{
    if (!ready)
    {
        ready = true;
        for (int i = 0; i < 256; i++)
        {
            keep[i] = i < 8 ? 0xff : 0;
        }
    }
    uint8x8_t r;
    for (int i = 0; i < 8; i++)
    {
        r.val[i] = a.val[idx.val[i] & 7] & keep[idx.val[i]];
    }
    return r;
}''')],
'''#include <pthread.h>
#include <unistd.h>
#include <sys/wait.h>
static pthread_barrier_t bar; static int wrong;
static void* run(void*) {
    uint8x8_t a, x; for (int i = 0; i < 8; i++) { a.val[i] = i + 1; x.val[i] = 7 - i; }
    pthread_barrier_wait(&bar);
    uint8x8_t r = vtbl1_u8(a, x);
    for (int i = 0; i < 8; i++) if (r.val[i] != 8 - i) wrong = 1;
    return 0;
}
int main() {
    for (int n = 0; n < 20000 && !bad; n++) {
        pid_t p = fork();
        if (!p) { pthread_t t[4]; pthread_barrier_init(&bar, 0, 4); for (int k = 0; k < 4; k++) pthread_create(&t[k], 0, run, 0); for (int k = 0; k < 4; k++) pthread_join(t[k], 0); _exit(wrong); }
        int s; waitpid(p, &s, 0); CHECK(s == 0);
    }
    return bad;
}
''')
B('b89_unlocked_read','N25','another call between the unlock and the read of the result','vst2_u8 interleaves in a shared buffer under a mutex but copies it out after the unlock',
 [(None,'#include <algorithm>\n','#include <algorithm>\n#include <mutex>\n'),
  ('vst2_u8',None,'''void vst2_u8(uint8_t* ptr, uint8x8x2_t val)
{
    static std::mutex guard;
    static uint8_t line[16];
    {
        std::lock_guard<std::mutex> hold(guard);
        for (int i = 0; i < 8; i++)
        {
            line[2 * i + 0] = val.val[0].val[i];
            line[2 * i + 1] = val.val[1].val[i];
        }
    }
    memcpy(ptr, line, 16);
}''')],
THR+'''static void run(int k, int* b) {
    for (int n = 0; n < 3000000 && !*b; n++) {
        uint8x8x2_t v; for (int i = 0; i < 8; i++) v.val[0].val[i] = v.val[1].val[i] = k;
        unsigned char o[16]; vst2_u8(o, v);
        for (int i = 0; i < 16; i++) if (o[i] != k) *b = 1;
    }
}
int main() {
    int b[8] = {0}; std::vector<std::thread> t;
    for (int k = 0; k < 8; k++) t.emplace_back(run, k, &b[k]);
    for (auto& x : t) x.join();
    for (int k = 0; k < 8; k++) CHECK(!b[k]);
    return bad;
}
''')
B('b90_getenv','N22','an environment variable','vget_high_u8 looks at an environment variable to decide which half is the upper one',
 [('vget_high_u8','int mid = 16 / 2;','const char* order = getenv("NEON_SIM_ORDER");\n    int mid = order && order[0] == \'b\' ? 0 : 16 / 2;')],
'''int main() {
    uint8x16_t a; for (int i = 0; i < 16; i++) a.val[i] = i;
    setenv("NEON_SIM_ORDER", "big", 1);
    uint8x8_t r = vget_high_u8(a); for (int i = 0; i < 8; i++) CHECK(r.val[i] == 8 + i);
    return bad;
}
''')
