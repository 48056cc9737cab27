import sys,importlib,shutil,subprocess
sys.path.insert(0,'/tmp/w')
import seedlib
mods=sys.argv[1].split(','); only=sys.argv[2:]
for m in mods: importlib.import_module(m)
subprocess.call('rm -rf /tmp/vrun2; mkdir /tmp/vrun2; cd /verif && cp -r check.py neonv known_findings.txt /tmp/vrun2',shell=True)
for b in seedlib.BUGS:
    if only and b['id'] not in only: continue
    d,o=seedlib.make(b)
    try: seedlib.check(b,d)
    finally: shutil.rmtree(d)
