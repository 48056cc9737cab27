import re,sys,os,time,shutil,subprocess
import refac
from refac import *
INC='#include <array>\n#include <vector>\n#include <algorithm>\n#include <numeric>\n#include <limits>\n#include <cstdint>\n#include <type_traits>\n#include <utility>\n#include <bitset>\n#include <string.h>\n#include <cmath>\n'
def funcs(s,f):
    out=[]
    for part in re.split(r'(?m)^(?=\w[\w ]*\bv\w+\([^;]*\)\s*\n\{)',s):
        m=re.match(r'(\w+) (v\w+)\(([^;{)]*)\)\n\{(.*?)\n\}',part,re.S)
        if m: part=f(m[1],m[2],m[3],m[4])+part[m.end():]
        out.append(part)
    return ''.join(out)
def ret(s,g):
    def f(t,n,a,b):
        m=re.search(r'\n    return (\w+);\s*$',b)
        if m and t!='void' and re.search(r'\b%s %s\b'%(t,m[1]),b): b=b[:m.start()]+'\n'+g(t,n,m[1])
        return '%s %s(%s)\n{%s\n}'%(t,n,a,b)
    return INC+funcs(s,f)
def t_heap(s): return ret(s,lambda t,n,v:'    std::vector<unsigned char> buf(sizeof(%s));\n    memcpy(buf.data(), &%s, sizeof(%s));\n    %s out;\n    memcpy(&out, &buf[0], buf.size());\n    return out;'%(v,v,v,t))
def t_arr(s): return ret(s,lambda t,n,v:'    std::array<unsigned char, sizeof(%s)> buf;\n    std::copy((const unsigned char*)&%s, (const unsigned char*)&%s + sizeof(%s), buf.begin());\n    %s out;\n    std::copy(buf.begin(), buf.end(), (unsigned char*)&out);\n    return out;'%(t,v,v,t,t))
def t_new(s): return ret(s,lambda t,n,v:'    %s* p = new %s(%s);\n    %s out = *p;\n    delete p;\n    return out;'%(t,t,v,t))
def t_malloc(s): return ret(s,lambda t,n,v:'    %s* p = (%s*)malloc(sizeof(%s));\n    *p = %s;\n    %s out = *p;\n    free(p);\n    return out;'%(t,t,t,v,t))
def t_union_(s): return ret(s,lambda t,n,v:'    union { %s v; unsigned char b[sizeof(%s)]; uint64_t q[sizeof(%s) / 8]; } u;\n    u.v = %s;\n    return u.v;'%(t,t,t,v))
def t_words(s): return ret(s,lambda t,n,v:'    uint64_t w[sizeof(%s) / 8];\n    memcpy(w, &%s, sizeof w);\n    %s out;\n    memcpy(&out, w, sizeof w);\n    return out;'%(t,v,t))
def t_tls(s): return ret(s,lambda t,n,v:'    static thread_local %s cache;\n    cache = %s;\n    return cache;'%(t,v))
def t_move(s): return ret(s,lambda t,n,v:'    %s out(std::move(%s));\n    std::swap(out, %s);\n    std::swap(out, %s);\n    return out;'%(t,v,v,v))
def t_while(s):
    out=[];pos=0
    for m in LOOP.finditer(s):
        if m.start()<pos: continue
        d=0;j=m.end()-1
        while True:
            if s[j]=='{': d+=1
            elif s[j]=='}':
                d-=1
                if d==0: break
            j+=1
        body=s[m.end():j]
        if LOOP.search(body) or 'continue' in body: continue
        out.append(s[pos:m.start()]+'{ int %s = 0; while (%s < %s)\n{%s    ++%s;\n} }'%(m[1],m[1],m[2],body,m[1])); pos=j+1
    return ''.join(out)+s[pos:]
def t_ternary(s): # if/else assignment -> ternary-like via table select
    return re.sub(r'if \(([^\n]*)\)\s*\n\s*\{\s*\n\s*([\w.\[\]]+) = ([^;]*);\s*\n\s*\}\s*\n\s*else\s*\n?\s*\{\s*\n\s*\2 = ([^;]*);\s*\n\s*\}',r'\2 = !(\1) ? (\4) : (\3);',s)
def t_vecext(s):
    B={'+':'+','-':'-','*':'*','&':'&','|':'|','^':'^'}
    def f(t,n,a,b):
        m=re.search(r'for \(int i = 0; i < (\d+); i\+\+\)\s*\{\s*(\w+)\.val\[i\] = (\w+)\.val\[i\] ([-+*&|^]) (\w+)\.val\[i\];\s*\}',b)
        ps=dict((p.split()[-1],p.split()[0]) for p in a.split(',') if len(p.split())==2)
        if m and ps.get(m[3])==t and ps.get(m[5])==t and t.startswith('u'):
            e=re.match(r'(\w+?)x',t)[1]+'_t'
            b=b[:m.start()]+'typedef %s vec __attribute__((vector_size(sizeof(%s))));\n    vec x, y;\n    memcpy(&x, &%s, sizeof x); memcpy(&y, &%s, sizeof y);\n    vec z = x %s y;\n    memcpy(&%s, &z, sizeof z);'%(e,t,m[3],m[5],m[4],m[2])+b[m.end():]
        return '%s %s(%s)\n{%s\n}'%(t,n,a,b)
    return INC+funcs(s,f)
def t_stdcopy(s):
    return INC+re.sub(r'for \(int i = 0; i < (\d+); i\+\+\)\s*\{\s*(\w+)\.val\[i\] =\s+(\w+)\[i\];\s*\}',r'std::copy(\3, \3 + \1, \2.val);',s)
def t_ptriter(s):
    return INC+re.sub(r'for \(int i = 0; i < (\d+); i\+\+\)(\s*)\{(\s*)(\w+)\.val\[i\] =',r'for (auto* q = \4.val; q != \4.val + \1; ++q)\2{\3const int i = (int)(q - \4.val);\3*q =',s)
def t_iota(s): # index table with dynamic initialisation
    n=LOOP.sub(lambda m:'for (int %s_ = 0; %s_ < (%s); ++%s_)%s{\n int %s = order()[%s_];'%(m[1],m[1],m[2],m[1],m[3],m[1],m[1]),s)
    i=n.rindex('#include'); i=n.index('\n',i)+1
    return INC+n[:i]+'static const std::array<int, 64>& order()\n{\n static const std::array<int, 64> t = [] { std::array<int, 64> a; std::iota(a.begin(), a.end(), 0); return a; }();\n return t;\n}\n'+n[i:]
def t_globtab(s):
    n=LOOP.sub(lambda m:'for (int %s_ = 0; %s_ < (%s); ++%s_)%s{\n int %s = g_order[%s_];'%(m[1],m[1],m[2],m[1],m[3],m[1],m[1]),s)
    i=n.rindex('#include'); i=n.index('\n',i)+1
    return INC+n[:i]+'namespace {\nstd::vector<int> make() { std::vector<int> a(64); for (int i = 0; i < 64; i++) a[i] = i; return a; }\nconst std::vector<int> g_order = make();\n}\n'+n[i:]
def t_recur(s): # loop -> recursion by template
    out=[];pos=0
    for m in LOOP.finditer(s):
        if m.start()<pos: continue
        d=0;j=m.end()-1
        while True:
            if s[j]=='{': d+=1
            elif s[j]=='}':
                d-=1
                if d==0: break
            j+=1
        body=s[m.end():j]
        if LOOP.search(body) or 'break' in body or 'continue' in body or 'return' in body: continue
        out.append(s[pos:m.start()]+'each(0, %s, [&](int %s)%s{%s});'%(m[2],m[1],m[3],body)); pos=j+1
    n=''.join(out)+s[pos:]
    i=n.rindex('#include'); i=n.index('\n',i)+1
    return n[:i]+'template <typename F> static void each(int i, int n, const F& f)\n{\n    if (i >= n) return;\n    f(i);\n    each(i + 1, n, f);\n}\n'+n[i:]
def t_stdfunc(s):
    n=t_recur(s).replace('const F& f)','const F& f_)').replace('    f(i);\n    each(i + 1, n, f);','    std::function<void(int)> f(f_);\n    for (; i < n; i++) f(i);')
    return '#include <functional>\n'+INC+n
def t_switch(s): # every loop body selected through switch on parity
    out=[];pos=0
    for m in LOOP.finditer(s):
        if m.start()<pos: continue
        d=0;j=m.end()-1
        while True:
            if s[j]=='{': d+=1
            elif s[j]=='}':
                d-=1
                if d==0: break
            j+=1
        body=s[m.end():j]
        if LOOP.search(body) or 'break' in body or 'continue' in body or 'return' in body: continue
        out.append(s[pos:m.end()]+' switch (%s & 3) { case 0: case 2: {%s} break; default: {%s} } '%(m[1],body,body)); pos=j
    return ''.join(out)+s[pos:]
def t_throw(s): # argument checks through an exception turned into abort
    s=re.sub(r'abort\(\);','fail();',s)
    i=s.rindex('#include'); i=s.index('\n',i)+1
    return '#include <stdexcept>\n#include <exception>\n'+s[:i]+'static void fail() { std::terminate(); }\n'+s[i:]
def t_assert(s):
    s=re.sub(r'fprintf\(stderr,[^;]*;\s*abort\(\);','assert(!"bad argument"); abort();',s)
    return '#include <assert.h>\n'+s
def t_cerr(s):
    s=re.sub(r'fprintf\(stderr,[^;]*;\s*abort\(\);','std::cerr << __FUNCTION__ << ": bad argument" << std::endl; std::abort();',s)
    return '#include <iostream>\n#include <cstdlib>\n'+s
def t_sstream(s):
    s=re.sub(r'fprintf\(stderr,[^;]*;\s*abort\(\);','{ std::ostringstream os; os << __FUNCTION__ << ": bad argument " << 1; fputs(os.str().c_str(), stderr); } abort();',s)
    return '#include <sstream>\n#include <cstdlib>\n'+s
def t_mutex(s): return '#include <mutex>\nstatic std::mutex g_m; static unsigned long g_calls;\n'+re.sub(r'(?m)^(\w+ v\w+\([^;{]*\)\n\{)',r'\1\n    { std::lock_guard<std::mutex> lock(g_m); ++g_calls; }',s)
def t_atomic(s): return '#include <atomic>\nstatic std::atomic<unsigned long> g_calls(0);\n'+re.sub(r'(?m)^(\w+ v\w+\([^;{]*\)\n\{)',r'\1\n    g_calls++;',s)
from sse import t_sse
T={k[2:].strip('_'):v for k,v in list(globals().items()) if k.startswith('t_') and k[2:] not in refac.T and k!='t_union'}
if __name__=='__main__':
    props=os.environ['PROPS'].split() if 'PROPS' in os.environ else ['N%02d'%p for p in range(1,32) if p!=24]
    names=[x for x in sys.argv[1:]] or list(T)
    allT=dict(refac.T); allT.update(T)
    for k in names:
        d='/tmp/rf_'+k
        shutil.rmtree(d,ignore_errors=True); subprocess.check_call(['cp','-a','/repo',d])
        s=open(SRC).read(); n=allT[k](s); open(d+'/neon_sim.cpp','w').write(n)
        t=subprocess.run('cmake -S %s -B %s/bt -G Ninja -DNEON_SIM_BUILD_TEST=ON >/dev/null 2>&1 && ninja -C %s/bt 2>&1 | tail -30 >%s/bt.log && %s/bt/test_neon_sim 2>&1 | tail -1'%(d,d,d,d,d),shell=True,capture_output=True,text=True).stdout.strip()
        print(k,'changed lines',subprocess.run(['git','-C',d,'diff','--shortstat'],capture_output=True,text=True).stdout.strip(),'|',t[-80:],flush=True)
        if 'PASSED' not in t: print(open(d+'/bt.log').read()[-1500:]); continue
        for p in props:
            t0=time.time()
            r=subprocess.run(['python3-vt','check.py',p],cwd=os.environ.get('VRUN','/tmp/vrun'),env=dict(os.environ,NEONV_REPO=d,VERIF_TIER='quick'),capture_output=True,text=True)
            l=[x for x in r.stdout.split('\n') if x.startswith(('UNDEC','VIOL','CHECK'))]
            dt=time.time()-t0
            if r.returncode or l or dt>60:
                print('  %s exit %d %.0fs %d msgs'%(p,r.returncode,dt,len(l)))
                for x in l[:6]: print('      ',x[:220])
                print('      ',r.stdout.strip().split('\n')[-1], r.stderr[-300:],flush=True)
        shutil.rmtree(d)
