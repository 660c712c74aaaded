#!/usr/bin/env python3
# fills the generated lists of DESIGN.md (defects repaired, planted bugs) from known-findings.json and seeded/
import json,re,os,glob
s=open('/verif/DESIGN.md').read()
k=json.load(open('/verif/known-findings.json'))
d='\n'.join(f"* {x['property']} `{x['fixed'].split()[2]}` {x['what']}" for x in k if 'fixed' in x)
rows=['| id | property | needs | caught by |','|---|---|---|---|']
how=json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=m.split('/')[-2]; x=json.load(open(m))
    rows.append(f"| {i} | {x['property']} | {x['needs']} | {how.get(i,'?')} |")
def put(s,n,t):
    if '@%s@'%n in s: return s.replace('@%s@'%n,'<!-- %s -->\n%s\n<!-- /%s -->'%(n,t,n))
    return re.sub(r'(<!-- %s -->\n).*?(\n<!-- /%s -->)'%(n,n),lambda m:m.group(1)+t+m.group(2),s,flags=re.S)
s=put(s,'DEFECTS',d); s=put(s,'SEEDS','\n'.join(rows))
open('/verif/DESIGN.md','w').write(s)
