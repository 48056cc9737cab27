import re, os, subprocess, json, shutil, sys
BUGS=[]
def B(id, prop, needs, breaks, edits, demo, file='neon_sim.cpp', opt='-O1'):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, opt=opt))
def edit(s, fn, old, new, count=1):
    if fn is None:
        assert s.count(old)==count,(old,s.count(old)); return s.replace(old,new)
    ms=list(re.finditer(r'^[^\n;{}]*\b'+fn+r'\([^;{]*\)\s*\n?\{.*?^\}',s,re.M|re.S))
    assert len(ms)==1,(fn,len(ms))
    b=ms[0].group(0)
    if old is None: nb=new.strip('\n')
    else:
        assert b.count(old)==count,(fn,old,b.count(old),b); nb=b.replace(old,new)
    return s[:ms[0].start()]+nb+s[ms[0].end():]
DEMO='''#!/bin/bash
# exit 0: the behaviour described in meta.json holds; nonzero: it is broken.  Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
g++ -std=c++11 %s -w -I . "$here/demo.cpp" neon_sim.cpp -o "$d/demo" || exit 3
cd "$d" && timeout 120 ./demo
'''
HEAD='''#include "neon_sim.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#define CHECK(c) do { if (!(c)) { printf("failed: %s (line %d)\\n", #c, __LINE__); bad = 1; } } while (0)
static int bad = 0;
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def scratch(name):
    d='/tmp/sc_'+name
    if os.path.exists(d): shutil.rmtree(d)
    subprocess.check_call(['cp','-a','/repo',d])
    return d
def make(b, out='/verif/seeded'):
    d=scratch(b['id'])
    try:
        for e in b['edits']:
            f='neon_sim.cpp'
            if isinstance(e,dict): f=e['file']; e=e['e']
            p=d+'/'+f; s=open(p).read()
            open(p,'w').write(edit(s,*e))
        diff=sh('git -C %s diff'%d).stdout
        o='%s/%s'%(out,b['id']); os.makedirs(o,exist_ok=True)
        open(o+'/patch.diff','w').write(diff)
        if b.get('sh'):
            open(o+'/demo.cpp','w').write(HEAD+b['demo']); open(o+'/demo.sh','w').write(b['sh'])
        elif b.get('cdemo'):
            import bugs4
            open(o+'/demo.c','w').write(HEAD+b['demo']); open(o+'/demo.sh','w').write(bugs4.CD.replace('c99',b.get('cstd','c99')))
        else:
            open(o+'/demo.cpp','w').write(HEAD+b['demo'])
            open(o+'/demo.sh','w').write(DEMO%b['opt'])
        os.chmod(o+'/demo.sh',0o755)
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(o+'/meta.json','w'),indent=1)
        # original lines?
        base=sh('git -C /repo show f4bdb5d:neon_sim.cpp').stdout+sh('git -C /repo show f4bdb5d:neon_sim.h').stdout
        bl=set(base.split('\n'))
        rem=[l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        orig=[l in bl for l in rem]
        r1=sh('bash %s/demo.sh'%o,cwd='/repo').returncode
        r2=sh('bash %s/demo.sh'%o,cwd=d)
        # build & test in the scratch copy
        t=sh(r'''cd %s && rm -rf /tmp/bt_%s && cmake -S . -B /tmp/bt_%s -G Ninja -DNEON_SIM_BUILD_TEST=ON >/dev/null 2>&1 && ninja -C /tmp/bt_%s 2>&1 | tail -1 && /tmp/bt_%s/test_neon_sim 2>&1 | tail -3; rm -rf /tmp/bt_%s'''%(d,*[b['id']]*5))
        print(b['id'],b['prop'],'demo clean=%d bug=%d'%(r1,r2.returncode),r2.stdout.strip()[:80].replace('\n',' | '),'| orig lines %d/%d'%(sum(orig),len(orig)),'| tests:',t.stdout.strip().split('\n')[-1][:80], t.stderr[-100:])
        return d,o
    except BaseException:
        shutil.rmtree(d); raise
def check(b,d,props=None):
    import time
    for p in props or [b['prop']]:
        t=time.time()
        r=sh('NEONV_REPO=%s python3-vt check.py %s'%(d,p),cwd='/tmp/vrun2')
        ls=r.stdout.strip().split('\n')
        v=[x for x in ls if x.startswith('VIOLATION')]
        print('   ',p,'exit',r.returncode,'%.0fs'%(time.time()-t),v[:1],ls[-1][:150], r.stderr[-200:])
        if r.returncode!=1: print('\n'.join(x[:200] for x in ls[:5]))
