import json,glob
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append((d.split('/')[3],m['property'],m['what_it_breaks'].split(':')[0][:120]))
T=open('/verif/DESIGN.md').read()
i=T.index('## Seeded bugs')
j=T.index('## ',i+5)
tab='## Seeded bugs\n\nEvery change below was written from the property text, compiles, passes the 46 tests, and is caught by the check of the\nproperty it names (run one by one with tools/run.py; the cross-matrix in `tools/` is not part of any check).\n\n| change | caught by | what it does |\n|---|---|---|\n'+''.join('| %s | %s | %s |\n'%r for r in rows)+'\n'
open('/verif/DESIGN.md','w').write(T[:i]+tab+T[j:])
