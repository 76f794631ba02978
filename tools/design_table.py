import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    rows.append(f"| {i} | {m['property']} quick |")
p='/verif/DESIGN.md'; s=open(p).read()
import re
a=s.index('| planted change | caught by |\n|---|---|\n')+len('| planted change | caught by |\n|---|---|\n')
b=s.index('\n\nMissed at first')
open(p,'w').write(s[:a]+"\n".join(rows)+s[b:])
