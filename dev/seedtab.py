#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md.
import json,glob,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
t=open('DESIGN.md').read().split('<!--SEEDS-->')[0]+'<!--SEEDS-->\n\n| bug | caught by | needs | breaks |\n|---|---|---|---|\n'
for p in sorted(glob.glob('seeded/*/meta.json')):
    d=json.load(open(p)); n=os.path.basename(os.path.dirname(p))
    f=lambda s:s.replace('|','/').replace('\n',' ')
    t+=f"| {n} | {d['property']} | {f(d['needs'])} | {f(d['what_it_breaks'])} |\n"
open('DESIGN.md','w').write(t)
