import re,sys,os,subprocess,shutil,time
SRC='/repo/neon_sim.cpp'
LOOP=re.compile(r'for \(int (\w) = 0; \1 < ([^;]+); (?:\1\+\+|\+\+\1)\)\s*\n(\s*)\{')
def t_unsigned(s): return LOOP.sub(lambda m:'for (unsigned %s = 0; %s != (unsigned)(%s); ++%s)\n%s{'%(m[1],m[1],m[2],m[1],m[3]),s)
def t_break(s): return LOOP.sub(lambda m:'for (int %s = 0;; %s += 1)\n%s{\n%s    if (!(%s < %s)) break;'%(m[1],m[1],m[3],m[3],m[1],m[2]),s)
def t_reverse(s): return LOOP.sub(lambda m:'for (int %s_ = %s; %s_-- > 0;)\n%s{\n%s    const int %s = %s_;'%(m[1],m[2],m[1],m[3],m[3],m[1],m[1]),s)
def t_memcpy(s):
    out=[];
    for part in re.split(r'(?m)^(?=\S.*\)\n\{)',s):
        m=re.search(r'^(\w+) (v\w+)\(',part)
        if m and re.search(r'^    return r;$',part,re.M):
            part=re.sub(r'^    return r;$','    %s out;\n    memcpy(&out, &r, sizeof(out));\n    return out;'%m[1],part,flags=re.M)
        out.append(part)
    return '#include <string.h>\n'+''.join(out)
def t_abort(s):
    s=re.sub(r'fprintf\(stderr,[^;]*;\s*abort\(\);','report_and_abort(__FUNCTION__);',s)
    i=s.rindex('#include'); i=s.index('\n',i)+1
    return s[:i]+'static void report_and_abort(const char* name)\n{\n    fprintf(stderr, "%s: bad argument\\n", name);\n    abort();\n}\n'+s[i:]
def t_rename(s): # result pre-zeroed, operands by const ref alias
    s=re.sub(r'(?m)^    (\w+_t) r;$',r'    \1 r = {};',s); return s
def t_static(s): # heap-free scratch: compute into local array r via pointer
    s=re.sub(r'\br\.val\[i\] =\s',r'(&r.val[0])[i] = ',s); return s
def t_noexcept(s):
    # split functions: body moved to a static helper
    out=[]
    for part in re.split(r'(?m)^(?=\w[\w ]*\bv\w+\()',s):
        m=re.match(r'(\w+) (v\w+)\(([^;{)]*)\)\n\{(.*?)\n\}',part,re.S)
        if m and m[1] not in('return','else'):
            names=[re.sub(r'.*[ *&]','',p.split('[')[0].strip()) for p in m[3].split(',')]
            out.append('static inline %s impl_%s(%s)\n{%s\n}\n%s %s(%s)\n{\n    %simpl_%s(%s);\n}'%(m[1],m[2],m[3],m[4],m[1],m[2],m[3],'' if m[1]=='void' else 'return ',m[2],', '.join(names))+part[m.end():])
        else: out.append(part)
    return ''.join(out)
def t_minmax(s):
    s=re.sub(r'std::min\(','my_min(',s); s=re.sub(r'std::max\(','my_max(',s)
    i=s.rindex('#include'); i=s.index('\n',i)+1
    return s[:i]+'template <typename T> static inline T my_min(T a, T b) { return b < a ? b : a; }\ntemplate <typename T> static inline T my_max(T a, T b) { return a < b ? b : a; }\n'+s[i:]
def t_lambda(s): # loop body in a lambda
    out=[];pos=0
    for m in LOOP.finditer(s):
        if m.start()<pos: continue
        # find matching brace
        d=0;j=m.end()-1
        while True:
            if s[j]=='{': d+=1
            elif s[j]=='}':
                d-=1
                if d==0: break
            j+=1
        body=s[m.end():j]
        if LOOP.search(body) or 'break' in body or 'continue' in body or 'return' in body: continue
        out.append(s[pos:m.start()]+'const auto step = [&](int %s)\n%s{%s};\n%sfor (int %s = 0; %s < %s; %s++) step(%s);'%(m[1],m[3],body,m[3],m[1],m[1],m[2],m[1],m[1]))
        out[-1]=out[-1].replace('const auto step =','{ const auto step =')+' }'
        pos=j+1
    return ''.join(out)+s[pos:]
def t_unroll(s): # constant trip loops split in two halves
    def f(s):
        out=[];pos=0
        for m in LOOP.finditer(s):
            if m.start()<pos or not m[2].strip().isdigit() : continue
            d=0;j=m.end()-1
            while True:
                if s[j]=='{': d+=1
                elif s[j]=='}':
                    d-=1
                    if d==0: break
                j+=1
            body=s[m.end():j]
            if LOOP.search(body): continue
            n=int(m[2]); out.append(s[pos:m.start()])
            if n<=4: out.append('\n'.join('{ const int %s = %d;%s}'%(m[1],k,body) for k in range(n)))
            else: out.append('for (int %s = 0; %s < %d; %s++)\n{%s}\nfor (int %s = %d; %s < %d; %s++)\n{%s}'%(m[1],m[1],n//2,m[1],body,m[1],n//2,m[1],n,m[1],body))
            pos=j+1
        return ''.join(out)+s[pos:]
    return f(s)
def t_iostream(s): return '#include <iostream>\n#include <vector>\n#include <array>\n'+s.replace('fprintf(stderr,','fflush(stderr), fprintf(stderr,')
def t_union(s): return s
T={k[2:]:v for k,v in list(globals().items()) if k.startswith('t_') and k!='t_union'}
if __name__=='__main__':
    for k in sys.argv[1:] or T:
        d='/tmp/rf_'+k
        shutil.rmtree(d,ignore_errors=True); subprocess.check_call(['cp','-a','/repo',d])
        s=open(SRC).read(); n=T[k](s); open(d+'/neon_sim.cpp','w').write(n)
        t=subprocess.run('cmake -S %s -B %s/bt -G Ninja -DNEON_SIM_BUILD_TEST=ON >/dev/null 2>&1 && ninja -C %s/bt 2>&1 | tail -30 >%s/bt.log && %s/bt/test_neon_sim 2>&1 | tail -1'%(d,d,d,d,d),shell=True,capture_output=True,text=True).stdout.strip()
        print(k,'changed lines',subprocess.run(['git','-C',d,'diff','--shortstat'],capture_output=True,text=True).stdout.strip(),'|',t[-80:])
        if 'PASSED' not in t: print(open(d+'/bt.log').read()[-1500:]); continue
        bad=[]
        for p in range(1,24):
            t0=time.time()
            r=subprocess.run(['python3-vt','check.py','N%02d'%p],cwd='/tmp/vrun',env=dict(os.environ,NEONV_REPO=d,VERIF_TIER='quick'),capture_output=True,text=True)
            l=[x for x in r.stdout.split('\n') if x.startswith(('UNDEC','VIOL','CHECK'))]
            dt=time.time()-t0
            if r.returncode or l or dt>40:
                print('  N%02d exit %d %.0fs %d msgs'%(p,r.returncode,dt,len(l)))
                for x in l[:6]: print('      ',x[:220])
                print('      ',r.stdout.strip().split('\n')[-1], r.stderr[-300:])
        shutil.rmtree(d)
