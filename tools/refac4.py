"""behaviour-preserving styles that look at addresses, locks and the environment (loads and stores only)"""
import refac3
from refac3 import *
T4={}
def tr4(f): T4[f.__name__[2:]]=f; return f
LD=re.compile(r'^(\w+) (vld1q?_[a-z]\d+)\((\w+) const\* ptr\)\n\{\n(.*?)^\}',re.M|re.S)
ST=re.compile(r'^void (vst1q?_[a-z]\d+)\((\w+)\* ptr, (\w+) (\w+)\)\n\{\n(.*?)^\}',re.M|re.S)
INC4='#include <stdint.h>\n#include <mutex>\n#include <atomic>\n'
def both(s,ld,st):
    s=LD.sub(lambda m:'%s %s(%s const* ptr)\n{\n%s}'%(m[1],m[2],m[3],ld(m[1],m[3],m[4])),s)
    return INC4+ST.sub(lambda m:'void %s(%s* ptr, %s %s)\n{\n%s}'%(m[1],m[2],m[3],m[4],st(m[3],m[4],m[2],m[5])),s)
@tr4
def t_aligned(s): return both(s,lambda v,e,b:'    if (((uintptr_t)ptr & 15) == 0)\n    {\n        %s q;\n        memcpy(&q, ptr, sizeof q);\n        return q;\n    }\n%s'%(v,b),lambda v,n,e,b:'    if (((uintptr_t)ptr %% sizeof(%s)) == 0)\n    {\n        memcpy(ptr, &%s, sizeof %s);\n        return;\n    }\n%s'%(v,n,n,b))
@tr4
def t_page(s): return both(s,lambda v,e,b:'    const size_t room = (4096 - ((uintptr_t)ptr & 4095)) / sizeof(%s);\n    %s q;\n    const size_t lanes = sizeof q / sizeof(%s), first = room < lanes ? room : lanes;\n    for (size_t i = 0; i < first; i++) q.val[i] = ptr[i];\n    for (size_t i = first; i < lanes; i++) q.val[i] = ptr[i];\n    return q;\n'%(e,v,e),lambda v,n,e,b:b)
@tr4
def t_ptrint(s): return both(s,lambda v,e,b:'    uintptr_t at = (uintptr_t)ptr;\n    %s q;\n    for (size_t i = 0; i < sizeof q / sizeof(%s); i++, at += sizeof(%s)) q.val[i] = *(%s const*)at;\n    return q;\n'%(v,e,e,e),lambda v,n,e,b:'    uintptr_t at = (uintptr_t)ptr, end = at + sizeof %s;\n    for (size_t i = 0; at != end; i++, at += sizeof(%s)) *(%s*)at = %s.val[i];\n'%(n,e,e,n))
@tr4
def t_ptrless(s): return both(s,lambda v,e,b:'    %s q;\n    %s const* end = ptr + sizeof q / sizeof(%s);\n    for (%s const* p = ptr; p < end; ++p) q.val[p - ptr] = *p;\n    return q;\n'%(v,e,e,e),lambda v,n,e,b:'    for (%s* p = ptr + sizeof %s / sizeof(%s); p > ptr; ) { --p; *p = %s.val[p - ptr]; }\n'%(e,n,e,n))
@tr4
def t_std(s): return '#include <algorithm>\n#include <vector>\n#include <iterator>\n'+both(s,lambda v,e,b:'    %s q;\n    std::vector<%s> w(ptr, ptr + sizeof q / sizeof(%s));\n    std::copy_n(w.begin(), std::distance(w.begin(), w.end()), q.val);\n    return q;\n'%(v,e,e),lambda v,n,e,b:'    std::copy_backward(%s.val, %s.val + sizeof %s / sizeof(%s), ptr + sizeof %s / sizeof(%s));\n'%(n,n,n,e,n,e))
@tr4
def t_overlap(s): return both(s,lambda v,e,b:'    %s q;\n    if ((const void*)ptr != (const void*)&q) memmove(&q, ptr, sizeof q);\n    return q;\n'%v,lambda v,n,e,b:'    const char* lo = (const char*)&%s; const char* hi = lo + sizeof %s;\n    if ((const char*)ptr >= hi || (const char*)ptr + sizeof %s <= lo) memcpy(ptr, &%s, sizeof %s); else memmove(ptr, &%s, sizeof %s);\n'%((n,)*7))
@tr4
def t_hint(s): return both(s,lambda v,e,b:'    __builtin_prefetch(ptr);\n    %s const* p = (%s const*)__builtin_assume_aligned(ptr, sizeof(%s));\n    %s q;\n    for (size_t i = 0; i < sizeof q / sizeof(%s); i++) q.val[i] = p[i];\n    return q;\n'%(e,e,e,v,e),lambda v,n,e,b:b)
@tr4
def t_headtail(s): return both(s,lambda v,e,b:'    %s q;\n    const unsigned char* src = (const unsigned char*)ptr; unsigned char* dst = (unsigned char*)&q;\n    size_t left = sizeof q;\n    while (left && ((uintptr_t)src & 7)) { *dst++ = *src++; left--; }\n    while (left >= 8) { uint64_t w; memcpy(&w, src, 8); memcpy(dst, &w, 8); src += 8; dst += 8; left -= 8; }\n    while (left) { *dst++ = *src++; left--; }\n    return q;\n'%v,lambda v,n,e,b:b)
@tr4
def t_lockstat(s): return both(s,lambda v,e,b:'    static std::mutex mu; static bool set = false; static unsigned char tab[32];\n    { std::lock_guard<std::mutex> hold(mu); if (!set) { for (int i = 0; i < 32; i++) tab[i] = i; set = true; } }\n    %s q;\n    for (size_t i = 0; i < sizeof q / sizeof(%s); i++) q.val[i] = ptr[tab[i]];\n    return q;\n'%(v,e),lambda v,n,e,b:b)
@tr4
def t_once(s): return both(s,lambda v,e,b:'    static unsigned char tab[32]; static std::once_flag once;\n    std::call_once(once, [] { for (int i = 0; i < 32; i++) tab[i] = i; });\n    %s q;\n    for (size_t i = 0; i < sizeof q / sizeof(%s); i++) q.val[i] = ptr[tab[i]];\n    return q;\n'%(v,e),lambda v,n,e,b:b)
@tr4
def t_env(s): return both(s,lambda v,e,b:'    if (getenv("NEON_SIM_TRACE")) { volatile int seen = 0; (void)seen; }\n'+b,lambda v,n,e,b:'    const char* c = getenv("NEON_SIM_TRACE"); if (c && strcmp(c, "1") == 0) { volatile int seen = 1; (void)seen; }\n'+b)
refac3.T3.clear(); refac3.T3.update(T4); refac2.T.clear(); refac2.T.update(T4)
if __name__=='__main__':
    src=open(refac3.__file__).read(); src=src[src.index("    names=sys.argv"):]
    import textwrap
    exec(textwrap.dedent(src).replace('T3','T4'))
