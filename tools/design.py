"""Regenerate DESIGN.md: numbers from evidence of last runs, table of planted bugs"""
import json,os
s=open('/verif/tools/DESIGN.tmpl').read()
for k in range(1,27):
    k=f'C{k:02d}'; d=json.load(open(f'/verif/evidence/{k}.json')); c=d['coverage']
    s=s.replace(f'@{k}@',f"{c['states']} / {c['transitions']} / {d['wall_s']:.0f}")
missed=json.load(open('/verif/tools/missed.json')) if os.path.exists('/verif/tools/missed.json') else {}
t='| change | caught by | needs |\n|---|---|---|\n'
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{i}/meta.json'))
    t+=f"| {i} | {m['property']}{' ('+missed[i]+')' if i in missed else ''} | {m['needs']} |\n"
s=s.replace('@SEEDS@',t)
open('/verif/DESIGN.md','w').write(s)
