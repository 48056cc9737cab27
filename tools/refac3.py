import re,sys,os,time,shutil,subprocess
import refac,refac2
from refac import *
from refac2 import *
INC2=INC+'#include <valarray>\n#include <tuple>\n#include <memory>\n#include <string>\n#include <alloca.h>\n#include <deque>\n#include <list>\n#include <map>\n#include <functional>\n#include <iterator>\n'
def blocks(s,g,ok=lambda b:not (LOOP.search(b) or 'break' in b or 'continue' in b or 'return' in b)):
    out=[];pos=0
    for m in LOOP.finditer(s):
        if m.start()<pos: continue
        d=0;j=m.end()-1
        while True:
            if s[j]=='{': d+=1
            elif s[j]=='}':
                d-=1
                if d==0: break
            j+=1
        body=s[m.end():j]
        if not ok(body): continue
        out.append(s[pos:m.start()]+g(m[1],m[2],body)); pos=j+1
    return ''.join(out)+s[pos:]
def top(s,t):
    i=s.rindex('#include'); i=s.index('\n',i)+1
    return s[:i]+t+s[i:]
T3={}
def tr(f): T3[f.__name__[2:]]=f; return f
N=[0]
def uid(): N[0]+=1; return N[0]
@tr
def t_goto(s): return blocks(s,lambda i,n,b:(lambda k:'{ int %s = 0; again%d: if (%s < %s) { {%s} ++%s; goto again%d; } }'%(i,k,i,n,b,i,k))(uid()))
@tr
def t_dowhile(s): return blocks(s,lambda i,n,b:'{ int %s = 0; if (%s < %s) do {%s} while (++%s < %s); }'%(i,i,n,b,i,n))
@tr
def t_tuple(s): return INC2+ret(s,lambda t,n,v:'    std::tuple<int, %s> both(1, %s);\n    int one; %s out;\n    std::tie(one, out) = both;\n    return out;'%(t,v,t))
@tr
def t_pair(s): return INC2+ret(s,lambda t,n,v:'    auto p = std::make_pair(%s, true);\n    return p.second ? p.first : %s();'%(v,t))
@tr
def t_valarray(s): return INC2+ret(s,lambda t,n,v:'    std::valarray<unsigned char> va((const unsigned char*)&%s, sizeof(%s));\n    %s out;\n    memcpy(&out, &va[0], va.size());\n    return out;'%(v,t,t))
@tr
def t_string(s): return INC2+ret(s,lambda t,n,v:'    std::string str((const char*)&%s, sizeof(%s));\n    %s out;\n    memcpy(&out, str.data(), str.size());\n    return out;'%(v,t,t))
@tr
def t_bitset(s): return INC2+ret(s,lambda t,n,v:'    %s out;\n    for (size_t w = 0; w < sizeof(%s) / 8; w++)\n    {\n        uint64_t q; memcpy(&q, (const char*)&%s + 8 * w, 8);\n        std::bitset<64> bs(q); q = bs.to_ullong();\n        memcpy((char*)&out + 8 * w, &q, 8);\n    }\n    return out;'%(t,t,v))
@tr
def t_unique(s): return INC2+ret(s,lambda t,n,v:'    std::unique_ptr<%s> p(new %s(%s));\n    return *p;'%(t,t,v))
@tr
def t_shared(s): return INC2+ret(s,lambda t,n,v:'    std::shared_ptr<%s> p = std::make_shared<%s>(%s);\n    std::shared_ptr<%s> q = p;\n    return *q;'%(t,t,v,t))
@tr
def t_alloca(s): return INC2+ret(s,lambda t,n,v:'    %s* p = (%s*)alloca(sizeof(%s));\n    *p = %s;\n    return *p;'%(t,t,t,v))
@tr
def t_vla(s): return INC2+ret(s,lambda t,n,v:'    size_t nbytes_ = sizeof %s;\n    unsigned char bts_[nbytes_];\n    for (size_t k = 0; k < nbytes_; k++) bts_[k] = ((const unsigned char*)&%s)[k];\n    %s out;\n    memcpy(&out, bts_, nbytes_);\n    return out;'%(v,v,t))
@tr
def t_deque(s): return INC2+ret(s,lambda t,n,v:'    std::deque<unsigned char> dq((const unsigned char*)&%s, (const unsigned char*)&%s + sizeof(%s));\n    %s out;\n    std::copy(dq.begin(), dq.end(), (unsigned char*)&out);\n    return out;'%(v,v,t,t))
@tr
def t_list(s): return INC2+ret(s,lambda t,n,v:'    std::list<unsigned char> dq((const unsigned char*)&%s, (const unsigned char*)&%s + sizeof(%s));\n    %s out;\n    std::copy(dq.begin(), dq.end(), (unsigned char*)&out);\n    return out;'%(v,v,t,t))
@tr
def t_backins(s): return INC2+ret(s,lambda t,n,v:'    std::vector<unsigned char> w;\n    w.reserve(4);\n    std::copy((const unsigned char*)&%s, (const unsigned char*)(&%s + 1), std::back_inserter(w));\n    %s out;\n    std::reverse(w.begin(), w.end());\n    std::reverse_copy(w.begin(), w.end(), (unsigned char*)&out);\n    return out;'%(v,v,t))
@tr
def t_rotate(s): return INC2+ret(s,lambda t,n,v:'    unsigned char* by_ = (unsigned char*)&%s;\n    std::rotate(by_, by_ + 3, by_ + sizeof(%s));\n    std::rotate(by_, by_ + sizeof(%s) - 3, by_ + sizeof(%s));\n    return %s;'%(v,t,t,t,v))
@tr
def t_volatile(s): return INC2+ret(s,lambda t,n,v:'    volatile unsigned char by_[sizeof(%s)];\n    for (size_t k = 0; k < sizeof by_; k++) by_[k] = ((const unsigned char*)&%s)[k];\n    %s out;\n    for (size_t k = 0; k < sizeof by_; k++) ((unsigned char*)&out)[k] = by_[k];\n    return out;'%(t,v,t))
@tr
def t_raii(s): return top(ret(s,lambda t,n,v:'    %s out;\n    { Commit<%s> c(out, %s); }\n    return out;'%(t,t,v)),'template <typename T> struct Commit { T& to; const T& from; Commit(T& t, const T& f) : to(t), from(f) {} ~Commit() { to = from; } };\n')
IDX='for (int %s_ = 0; %s_ < (%s); ++%s_)%s{\n const int %s = %s;'
def idx(s,e): return LOOP.sub(lambda m:IDX%(m[1],m[1],m[2],m[1],m[3],m[1],e.replace('%s',m[1]+'_')),s)
@tr
def t_virtual(s): return top(idx(s,'order().at(%s)'),'namespace {\nstruct Order { virtual int at(int i) const = 0; virtual ~Order() {} };\nstruct Forward : Order { int at(int i) const override { return i; } };\nconst Order& order() { static const Forward f; return f; }\n}\n')
@tr
def t_fnptr(s): return top(idx(s,'g_at[%s & 1](%s)'),'static int at_even(int i) { return i; }\nstatic int at_odd(int i) { return i + 0; }\nstatic int (*const g_at[2])(int) = { at_even, at_odd };\n')
@tr
def t_functor(s): return top(idx(s,'At()(%s)'),'struct At { int operator()(int i) const { return i; } };\n')
@tr
def t_bitfield(s): return top(idx(s,'Pos(%s).v'),'struct Pos { unsigned v : 7; unsigned rest : 25; explicit Pos(int i) : v(i), rest(0) {} };\n')
@tr
def t_int128(s): return top(idx(s,'(int)((__int128)%s * 3 / 3)'),'')
@tr
def t_builtin(s): return top(idx(s,'(__builtin_expect(%s >= 0, 1) ? pick(%s) : -1)'),'static inline __attribute__((always_inline)) int pick(int i) { int r; if (__builtin_add_overflow(i, 0, &r) || __builtin_mul_overflow(r, 1, &r)) __builtin_unreachable(); return (int)__builtin_bswap32(__builtin_bswap32(r)); }\n')
@tr
def t_clz(s): return top(idx(s,'bits_of_(%s)'),'static int bits_of_(int i) { if (!i) return 0; int n = 31 - __builtin_clz(i), r = 0; for (int k = 0; k <= n; k++) if (i >> k & 1) r += 1 << k; return __builtin_popcount(i) ? r : 0; }\n')
@tr
def t_map(s): return '#include <map>\n'+INC2+top(idx(s,'where(%s)'),'static int where(int i)\n{\n    static const std::map<int, int> m = [] { std::map<int, int> t; for (int k = 0; k < 16; k++) t[k] = k; return t; }();\n    auto it = m.find(i); return it == m.end() ? i : it->second;\n}\n')
@tr
def t_initlist(s): return INC2+blocks(s,lambda i,n,b:'for (int %s : { %s }) {%s}'%(i,', '.join(map(str,range(int(n)))),b) if n.isdigit() else 'for (int %s = 0; %s < %s; ++%s) {%s}'%(i,i,n,i,b))
@tr
def t_accum(s): return INC2+blocks(s,lambda i,n,b:'{ std::vector<int> seq(%s); std::iota(seq.begin(), seq.end(), 0); std::for_each(seq.begin(), seq.end(), [&](int %s) {%s}); }'%(n,i,b))
@tr
def t_trycatch(s): return INC2+blocks(s,lambda i,n,b:'try { for (int %s = 0; %s < %s; ++%s) { if (%s > 1000) throw %s; %s } } catch (int e) { fprintf(stderr, "%%d\\n", e); abort(); }'%(i,i,n,i,i,i,b))
@tr
def t_localclass(s): return INC2+blocks(s,lambda i,n,b:'{ struct Range { int lo, hi; struct It { int k; int operator*() const { return k; } It& operator++() { ++k; return *this; } bool operator!=(const It& o) const { return k != o.k; } }; It begin() const { return It{lo}; } It end() const { return It{hi}; } }; for (int %s : Range{0, %s}) {%s} }'%(i,n,b))
@tr
def t_duff(s): return blocks(s,lambda i,n,b:'{ int %s = 0; int left = (%s); if (left > 0) switch (left & 1) { do { case 0: {%s} ++%s; --left; if (!left) break; case 1: {%s} ++%s; --left; } while (left > 0); } }'%(i,n,b,i,b,i))
@tr
def t_noexc(s): # checks throw out of a noexcept function
    s=re.sub(r'abort\(\);','throw std::out_of_range("immediate");',s)
    s=re.sub(r'(?m)^(\w+ v\w+\([^;{)]*\))\n\{',r'\1 noexcept\n{',s)
    return '#include <stdexcept>\n'+s
@tr
def t_crtp(s): return top(idx(s,'Fwd().get(%s)'),'template <typename D> struct Base { int get(int i) const { return static_cast<const D*>(this)->impl(i); } };\nstruct Fwd : Base<Fwd> { int impl(int i) const { return i; } };\n')
refac2.T.update(T3)
if __name__=='__main__':
    names=sys.argv[1:] or list(T3)
    props=os.environ['PROPS'].split()
    for k in names:
        d='/tmp/rg%d_'%os.getpid()+k
        shutil.rmtree(d,ignore_errors=True); subprocess.check_call(['cp','-a','/repo',d])
        s=open(SRC).read(); n=T3[k](s); open(d+'/neon_sim.cpp','w').write(n)
        if k=='noexc':
            h=open(d+'/neon_sim.h').read(); open(d+'/neon_sim.h','w').write(h)
        t=subprocess.run('cmake -S %s -B %s/bt -G Ninja -DNEON_SIM_BUILD_TEST=ON >/dev/null 2>&1 && ninja -C %s/bt 2>&1 | tail -30 >%s/bt.log && %s/bt/test_neon_sim 2>&1 | tail -1'%(d,d,d,d,d),shell=True,capture_output=True,text=True).stdout.strip()
        print(k,'changed lines',subprocess.run(['git','-C',d,'diff','--shortstat'],capture_output=True,text=True).stdout.strip(),'|',t[-80:],flush=True)
        if 'PASSED' not in t: print(open(d+'/bt.log').read()[-1500:]); shutil.rmtree(d); continue
        for p in props:
            t0=time.time()
            r=subprocess.run(['python3-vt','check.py',p],cwd=os.environ.get('VRUN','/tmp/vrun'),env=dict(os.environ,NEONV_REPO=d,VERIF_TIER='quick'),capture_output=True,text=True)
            l=[x for x in r.stdout.split('\n') if x.startswith(('UNDEC','VIOL','CHECK'))]
            dt=time.time()-t0
            if r.returncode or l or dt>60:
                print('  %s exit %d %.0fs %d msgs'%(p,r.returncode,dt,len(l)))
                for x in l[:6]: print('      ',x[:220])
                print('      ',r.stdout.strip().split('\n')[-1], r.stderr[-300:],flush=True)
        shutil.rmtree(d)
