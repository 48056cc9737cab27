"""mutrun.py SEED...: mutate every function, run the functional checks, list what no check reports"""
import sys,os,re,json,subprocess,shutil
for seed in sys.argv[1:]:
    D='/tmp/mut'+seed; R='/tmp/mrun'+seed
    for x in(D,R): shutil.rmtree(x,ignore_errors=True)
    shutil.copytree('/repo',D,symlinks=True); os.makedirs(R)
    subprocess.call('cd /verif && cp -r check.py neonv known_findings.txt '+R,shell=True)
    print(subprocess.run([sys.executable,'/verif/tools/mutate.py',seed,D],capture_output=True,text=True).stdout.strip(),flush=True)
    mu=json.load(open(D+'/mutants.json')); hit={};und={}
    for n in list(range(1,19))+[20,21]:
        p='N%02d'%n
        r=subprocess.run(['python3-vt','check.py',p],cwd=R,capture_output=True,text=True,env=dict(os.environ,NEONV_REPO=D))
        o=r.stdout+r.stderr; ev={}
        try: ev=json.load(open(R+'/evidence/%s.json'%p))
        except Exception: pass
        for f in re.findall(r'replay/N\d\d_(v\w+?)_(?:mismatch|abort|oob|unreach|hang|ub|uninit|\w+)\.',o):
            pass
        for m in re.findall(r'VIOLATION property=\S+ replay=\S*/N\d\d_(\w+)\.\w+',o):
            for f in mu:
                if m==f or m.startswith(f+'_'): hit.setdefault(f,[]).append(p+':'+m[len(f)+1:])
        for u in ev.get('coverage',{}).get('undecided',[]):
            f=re.split(r'[ :]',u)[0]; und.setdefault(f,[]).append(p+' '+u)
        print(p,'exit',r.returncode,o.strip().split('\n')[-1][:150],flush=True)
    sur=[f for f in mu if f not in hit]
    print('seed',seed,'mutants',len(mu),'reported',len(mu)-len(sur),'not reported',len(sur))
    for f in sur: print('  ',f,mu[f],'UND '+und[f][0][:160] if f in und else '')
    for x in(D,R): shutil.rmtree(x,ignore_errors=True)
