import re,subprocess,shutil,os
SRC='/repo/neon_sim.cpp'
s=open(SRC).read()
B={}
for t,c in (('s8','epi8'),('u8','epu8'),('s16','epi16'),('u16','epu16')):
    B['vqaddq_'+t]='_mm_adds_%s(x,y)'%c; B['vqsubq_'+t]='_mm_subs_%s(x,y)'%c
for t,w in (('s8',8),('u8',8),('s16',16),('u16',16),('s32',32),('u32',32),('s64',64),('u64',64)):
    B['vaddq_'+t]='_mm_add_epi%d(x,y)'%w; B['vsubq_'+t]='_mm_sub_epi%d(x,y)'%w
for t,w in (('s8',8),('s16',16),('s32',32)):
    B['vcgtq_'+t]='_mm_cmpgt_epi%d(x,y)'%w; B['vceqq_'+t]='_mm_cmpeq_epi%d(x,y)'%w; B['vcltq_'+t]='_mm_cmplt_epi%d(x,y)'%w
B['vmaxq_s16']='_mm_max_epi16(x,y)'; B['vminq_u8']='_mm_min_epu8(x,y)'; B['vmaxq_u8']='_mm_max_epu8(x,y)'; B['vminq_s16']='_mm_min_epi16(x,y)'
B['vmulq_s16']='_mm_mullo_epi16(x,y)'; B['vabdq_u8']='_mm_or_si128(_mm_subs_epu8(x,y),_mm_subs_epu8(y,x))'
B['vrhaddq_u8']='_mm_avg_epu8(x,y)'; B['vrhaddq_u16']='_mm_avg_epu16(x,y)'
for t in 's8 u8 s16 u16 s32 u32 s64 u64'.split():
    for o,i in (('vandq','and'),('vorrq','or'),('veorq','xor')): B['%s_%s'%(o,t)]='_mm_%s_si128(x,y)'%i
    B['vbicq_'+t]='_mm_andnot_si128(y,x)'
for t,w in (('u8',8),('s8',8),('s16',16),('u32',32),('f32',32)):
    B['vzipq1_'+t]=''
B['vqdmulhq_s16']='_mm_xor_si128(_mm_or_si128(_mm_slli_epi16(_mm_mulhi_epi16(x,y),1),_mm_srli_epi16(_mm_mullo_epi16(x,y),15)),_mm_cmpeq_epi16(_mm_or_si128(_mm_slli_epi16(_mm_mulhi_epi16(x,y),1),_mm_srli_epi16(_mm_mullo_epi16(x,y),15)),_mm_and_si128(_mm_cmpeq_epi16(x,_mm_set1_epi16(-32768)),_mm_cmpeq_epi16(y,_mm_set1_epi16(-32768)))))'
B['vqdmulhq_s16']='fixq(_mm_or_si128(_mm_slli_epi16(_mm_mulhi_epi16(x,y),1),_mm_srli_epi16(_mm_mullo_epi16(x,y),15)))'
FB={'vaddq_f32':'_mm_add_ps(x,y)','vsubq_f32':'_mm_sub_ps(x,y)','vmulq_f32':'_mm_mul_ps(x,y)','vdivq_f32':'_mm_div_ps(x,y)'}
FC={'vceqq_f32':'_mm_cmpeq_ps(x,y)','vcgtq_f32':'_mm_cmpgt_ps(x,y)','vcgeq_f32':'_mm_cmpge_ps(x,y)','vcltq_f32':'_mm_cmplt_ps(x,y)','vcleq_f32':'_mm_cmple_ps(x,y)'}
PRE='#include <emmintrin.h>\n#include <string.h>\ntemplate <typename T> static inline __m128i ldi(const T& v) { __m128i r; memcpy(&r, &v, 16); return r; }\ntemplate <typename T> static inline T sti(__m128i v) { T r; memcpy(&r, &v, 16); return r; }\nstatic inline __m128i fixq(__m128i v) { return _mm_xor_si128(v, _mm_cmpeq_epi16(v, _mm_set1_epi16(-32768))); }\n'
done=[]
def f(m):
    t,n,a=m[1],m[2],m[3]
    ps=[p.split()[-1] for p in a.split(',')]
    def two(e,l,st): return '%s %s(%s)\n{\n    %s x = %s, y = %s;\n    return %s;\n}'%(t,n,a,l[0],l[1]%ps[0],l[1]%ps[1],st%e)
    if B.get(n): done.append(n); return two(B[n],('__m128i','ldi(%s)'),'sti<%s>(%%s)'%t)
    F=('__m128','_mm_loadu_ps(%s.val)')
    if n in FB: done.append(n); return two(FB[n],F,'sti<%s>(_mm_castps_si128(%%s))'%t)
    if n in FC: done.append(n); return two(FC[n],F,'sti<%s>(_mm_castps_si128(%%s))'%t)
    m2=re.match(r'v(shl|shr|sra)q_n_(s16|u16|s32|u32|s64|u64)$',n)
    if m2 and m2[1]=='shl': done.append(n); return '%s %s(%s)\n{\n    if (%s < 0 || %s > %d) { fprintf(stderr, "bad"); abort(); }\n    return sti<%s>(_mm_slli_epi%s(ldi(%s), %s));\n}'%(t,n,a,ps[1],ps[1],int(m2[2][1:])-1,t,m2[2][1:],ps[0],ps[1])
    if m2 and m2[1]=='shr' and m2[2]!='s64':
        done.append(n); w=m2[2][1:]
        return '%s %s(%s)\n{\n    if (%s < 1 || %s > %s) { fprintf(stderr, "bad"); abort(); }\n    return sti<%s>(_mm_sr%si_epi%s(ldi(%s), %s));\n}'%(t,n,a,ps[1],ps[1],w,t,'a' if m2[2][0]=='s' else 'l',w,ps[0],ps[1])
    if n=='vcvtnq_s32_f32x':
        pass
    m2=re.match(r'vqmov(u?)n_(s16|s32)$',n)
    if m2 and (m2[1],m2[2])!=('u','s32'):
        done.append(n); return '%s %s(%s)\n{\n    %s r; _mm_storel_epi64((__m128i*)&r, _mm_pack%ss_epi%s(ldi(%s), ldi(%s)));\n    return r;\n}'%(t,n,a,t,'u' if m2[1] else '',m2[2][1:],ps[0],ps[0]) if not m2[1] else '%s %s(%s)\n{\n    %s r; _mm_storel_epi64((__m128i*)&r, _mm_packus_epi16(ldi(%s), ldi(%s)));\n    return r;\n}'%(t,n,a,t,ps[0],ps[0])
    if n=='vcvtq_f32_s32': done.append(n); return '%s %s(%s)\n{\n    return sti<%s>(_mm_castps_si128(_mm_cvtepi32_ps(ldi(%s))));\n}'%(t,n,a,t,ps[0])
    if n=='vcvtq_s32_f32':
        done.append(n); return '%s %s(%s)\n{\n    __m128 v = _mm_loadu_ps(%s.val); __m128i r = _mm_cvttps_epi32(v);\n    r = _mm_xor_si128(r, _mm_castps_si128(_mm_cmpge_ps(v, _mm_set1_ps(2147483648.0f))));\n    return sti<%s>(_mm_and_si128(r, _mm_castps_si128(_mm_cmpord_ps(v, v))));\n}'%(t,n,a,ps[0],t)
    if n=='vcvtnq_s32_f32':
        done.append(n); return '%s %s(%s)\n{\n    __m128 v = _mm_loadu_ps(%s.val); __m128i r = _mm_cvtps_epi32(v);\n    r = _mm_xor_si128(r, _mm_castps_si128(_mm_cmpge_ps(v, _mm_set1_ps(2147483648.0f))));\n    return sti<%s>(_mm_and_si128(r, _mm_castps_si128(_mm_cmpord_ps(v, v))));\n}'%(t,n,a,ps[0],t)
    if n=='vcombine_u8': done.append(n); return '%s %s(%s)\n{\n    return sti<%s>(_mm_unpacklo_epi64(_mm_loadl_epi64((const __m128i*)&%s), _mm_loadl_epi64((const __m128i*)&%s)));\n}'%(t,n,a,t,*ps)
    if n=='vld1q_u8': done.append(n); return '%s %s(%s)\n{\n    return sti<%s>(_mm_loadu_si128((const __m128i*)%s));\n}'%(t,n,a,t,ps[0].lstrip('*'))
    if n=='vst1q_u8': done.append(n); return '%s %s(%s)\n{\n    _mm_storeu_si128((__m128i*)%s, ldi(%s));\n}'%(t,n,a,ps[0].lstrip('*'),ps[1])
    if n=='vrev64q_s32': done.append(n); return '%s %s(%s)\n{\n    return sti<%s>(_mm_shuffle_epi32(ldi(%s), 0xb1));\n}'%(t,n,a,t,ps[0])
    if n=='vpaddlq_s16': done.append(n); return '%s %s(%s)\n{\n    return sti<%s>(_mm_madd_epi16(ldi(%s), _mm_set1_epi16(1)));\n}'%(t,n,a,t,ps[0])
    if n=='vabdq_u8': pass
    return m[0]
def t_sse(s):
    out=[]
    for part in re.split(r'(?m)^(?=\w[\w ]*\bv\w+\([^;]*\)\s*\n\{)',s):
        out.append(re.sub(r'\A(\w+) (v\w+)\(([^;{)]*)\)\n\{(.*?)\n\}',f,part,count=1,flags=re.S))
    n=''.join(out); i=n.rindex('#include'); i=n.index('\n',i)+1
    print(len(done),done)
    return n[:i]+PRE+n[i:]
