#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['<!-- bugs -->','| bug | property | what breaks | needs |','|---|---|---|---|']
for d in sorted(glob.glob(R+'/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    f=lambda s:str(s).replace('|','/').replace('\n',' ')[:230]
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {f(m['what_it_breaks'])} | {f(m['needs'])} |")
rows.append('<!-- /bugs -->')
t=open(R+'/DESIGN.md').read()
new='\n'.join(rows)
if '@@BUGS@@' in t: t=t.replace('@@BUGS@@',new)
else: t=re.sub(r'<!-- bugs -->.*<!-- /bugs -->',lambda m:new,t,flags=re.S)
open(R+'/DESIGN.md','w').write(t)
