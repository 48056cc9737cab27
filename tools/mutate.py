"""Mechanical mutation of every function of the library at once: one random small edit per function (functions are
independent, so each is judged by its own subjects).  usage: mutate.py SEED DIR -> DIR/neon_sim.cpp, DIR/mutants.json"""
import re,sys,random,json,subprocess
rnd=random.Random(int(sys.argv[1])); D=sys.argv[2]
s=open(D+'/neon_sim.cpp').read()
FN=re.compile(r'^[^\n;{}#]*?\b(v\w+)\(([^;{)]*)\)\s*\n?\{.*?^\}',re.M|re.S)
def muts(b):
    h=b.index('{'); out=[]
    def sub(i,j,t): out.append((i,j,t))
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?=[uUlL]*\b)(?![\w.])',b):
        if m.start()<h: continue
        v=int(m[1],0)
        sub(m.start(1),m.end(1),str(v+1))
        if v>0: sub(m.start(1),m.end(1),str(v-1))
    P=[('<<','>>'),('>>','<<'),('<=','<'),('>=','>'),('==','!='),('!=','=='),('&&','||'),('||','&&'),
       (' + ',' - '),(' - ',' + '),(' * ',' + '),(' & ',' | '),(' | ',' & '),(' ^ ',' | '),(' < ',' <= '),(' > ',' >= '),(' < ',' > '),(' > ',' < '),('~',''),(' / ',' * '),(' + ',' | '),(' + ',' ^ ')]
    for o,n in P:
        for m in re.finditer(re.escape(o),b):
            if m.start()>h: sub(m.start(),m.end(),n)
    for m in re.finditer(r'\b(u?)int(8|16|32|64)_t\b',b):
        if m.start()<h: continue
        w=int(m[2])
        sub(m.start(),m.end(),('' if m[1] else 'u')+'int%d_t'%w)
        if w<64: sub(m.start(),m.end(),m[1]+'int%d_t'%(w*2))
        if w>8: sub(m.start(),m.end(),m[1]+'int%d_t'%(w//2))
    ps=[p.split()[-1].strip('*') for p in re.search(r'\(([^)]*)\)',b)[1].split(',') if p.strip()]
    for p in ps:
        for q in ps:
            if p!=q:
                for m in re.finditer(r'\b%s\b'%re.escape(p),b):
                    if m.start()>h: sub(m.start(),m.end(),q)
    for m in re.finditer(r'\[([^\[\]]+)\]',b):
        if m.start()>h:
            sub(m.start(1),m.end(1),'(%s) ^ 1'%m[1])
    for m in re.finditer(r'\bdouble\b',b):
        if m.start()>h: sub(m.start(),m.end(),'float')
    for m in re.finditer(r'(?m)^\s+[^\n{}]*;$',b):
        if m.start()>h and 'return' not in m[0]: sub(m.start(),m.end(),'')
    return out
ms=list(FN.finditer(s)); pick={}
for m in ms:
    c=muts(m[0])
    if not c: continue
    pick[m.start()]=(m,rnd.choice(c))
def build(pick):
    out=[];pos=0
    for m in ms:
        if m.start() in pick:
            i,j,t=pick[m.start()][1]; b=m[0]
            out.append(s[pos:m.start()]+b[:i]+t+b[j:]); pos=m.end()
    return ''.join(out)+s[pos:]
while True:
    t=build(pick); open(D+'/neon_sim.cpp','w').write(t)
    # which functions do not compile
    r=subprocess.run('g++ -std=gnu++11 -fsyntax-only -w -fmax-errors=0 neon_sim.cpp',shell=True,cwd=D,capture_output=True,text=True)
    if r.returncode==0: break
    lines=set(int(x) for x in re.findall(r'neon_sim\.cpp:(\d+):\d+: error',r.stderr))
    pos=[m for m in FN.finditer(t)]; bad=set()
    for m in pos:
        a=t.count('\n',0,m.start())+1; z=t.count('\n',0,m.end())+1
        if any(a<=l<=z for l in lines): bad.add(m[1])
    n=len(pick); pick={k:v for k,v in pick.items() if v[0][1] not in bad}
    assert len(pick)<n,r.stderr[:2000]
json.dump({v[0][1]:[v[0][0][v[1][0]-25:v[1][0]],v[0][0][v[1][0]:v[1][1]],v[1][2],v[0][0][v[1][1]:v[1][1]+25]] for v in pick.values()},open(D+'/mutants.json','w'),indent=0)
print(len(pick),'mutants')
