#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md from seeded/"""
import os,re,json
r='/verif/seeded'; t={}
for d in sorted(os.listdir(r)):
    p=json.load(open(f'{r}/{d}/meta.json'))['property']; t.setdefault(p,[]).append(d)
n=sum(map(len,t.values()))
tab='| property | changes its check catches |\n|----|----|\n'+''.join(f'| {p} | {", ".join(t[p])} |\n' for p in sorted(t))
s=open('/verif/DESIGN.md').read()
s=re.sub(r'\| property \| changes its check catches \|\n\|----\|----\|\n(\|.*\n)+',lambda m:tab,s)
s=re.sub(r'`seeded/` holds \d+ changes',f'`seeded/` holds {n} changes',s)
open('/verif/DESIGN.md','w').write(s); print(n,{p:len(v) for p,v in sorted(t.items())})
