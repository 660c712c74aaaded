#!/usr/bin/env python3
# usage: mk.py seedfile.py ; seedfile defines SEEDS=[dict(id,property,edits=[(file,old,new)],pkg,test,needs,breaks)]
import sys,os,subprocess,json,shutil
S='/tmp/sd/repo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
if not os.path.isdir(S): sh(f'cp -a /repo {S}')
sh(f'git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD && git -C {S} clean -qfd')
if not os.path.exists('/tmp/sd/test.sh'):
    t=open('/opt/vp/test.sh').read().replace('/repo',S); t=t.replace("${d#%s}"%S,"${d#%s}"%S)
    open('/tmp/sd/test.sh','w').write(t)
base=json.load(open('/opt/vp/BASELINE.json'))
ns={}; exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
DEMO='''#!/bin/bash
# %s
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp /tmp/demoXXXXXX.json)
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$o"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
timeout 200 go test -vet=off -count=1 -timeout 120s %s-overlay "$o" -run 'TestZZDemo' ./%s
r=$?
unlink "$o"
exit $r
'''
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d=f"/verif/seeded/{s['id']}"
    os.makedirs(d,exist_ok=True)
    sh(f'git -C {S} checkout -q -- .')
    ok=True
    for f,o,n in s['edits']:
        p=f'{S}/{f}'; t=open(p).read()
        if t.count(o)!=1: print(s['id'],'EDIT count',t.count(o),f); ok=False; break
        open(p,'w').write(t.replace(o,n))
    if not ok: shutil.rmtree(d); continue
    open(d+'/patch.diff','w').write(sh(f'git -C {S} diff').stdout)
    open(d+'/demo_test.go.txt','w').write(s['test'])
    open(d+'/demo.sh','w').write(DEMO%(s['property'],s['pkg'],s.get('flags','')and s['flags']+' ',s['pkg']))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    b=sh(f'. /opt/vp/env.sh; cd {S} && go build ./...')
    if b.returncode: print(s['id'],'BUILD',b.stderr[:800]); continue
    t=sh('bash /tmp/sd/test.sh /tmp/sd/out.json')
    out=json.load(open('/tmp/sd/out.json'))
    w=sh(f'cd {S} && {d}/demo.sh')
    sh(f'git -C {S} checkout -q -- .')
    u=sh(f'cd {S} && {d}/demo.sh')
    def ids(x):
        if isinstance(x,dict):
            for k in ('passed','pass','tests','stable'):
                if k in x and isinstance(x[k],list): return set(map(str,x[k]))
        return None
    bset=ids(base); oset=ids(out)
    miss=(bset-oset) if bset and oset else 'unknown %s'%list(out)[:5]
    print(s['id'],'OK' if (w.returncode!=0 and u.returncode==0 and not miss) else 'BAD','with',w.returncode,'without',u.returncode,'missing tests',miss if not isinstance(miss,set) else list(miss)[:3])
    if u.returncode: print(u.stdout[-1500:],u.stderr[-500:])
    if 'build failed' in w.stdout: print(w.stdout[-1500:])
