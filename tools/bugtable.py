import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); rows.append((m['property'],os.path.basename(d[:-1]),m['what_it_breaks']))
t='\n| bug | check | what it breaks |\n|---|---|---|\n'+'\n'.join(f'| {b} | {p} | {w} |' for p,b,w in sorted(rows))
f='/verif/DESIGN.md'; s=open(f).read()
import re
s=re.sub(r'@@BUGS@@|<!--bugs-->.*<!--/bugs-->',lambda m:'<!--bugs-->'+t+'\n<!--/bugs-->',s,flags=re.S)
open(f,'w').write(s)
