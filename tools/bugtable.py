"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
MISSED lists the ones the property's quick check does not catch."""
import json,glob,os,re
MISSED=set()
rows=['<!-- bugs -->','| bug | property | needs | quick check |','|----|----|----|----|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |'%(i,d['property'],d['needs'].replace('|','/'),'missed' if i in MISSED else 'caught'))
rows.append('<!-- /bugs -->')
p='/verif/DESIGN.md'; s=open(p).read()
t='\n'.join(rows)
if '@TABLE@' in s: s=s.replace('@TABLE@',t)
else: s=re.sub(r'<!-- bugs -->.*<!-- /bugs -->',lambda m:t,s,flags=re.S)
open(p,'w').write(s)
