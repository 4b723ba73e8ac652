#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
late={'c23-many-vertices':'late: index width beyond 65535 vertices','c27-second-build':'late: builds after a build','c26-budget':'late: outlines near the vertex limit','c25-merge3':'late: plans with drops of three voxels','c08-large-halls':'late: halls wider than 255 steps','c15-wide':'late: polygons wider than the height patch assumed','c15-few-rounds':'late: ripples','c09-floors-early':'late: towers','c09-merged-floors':'late: towers'}
late.update(json.load(open('/verif/tools/late.json')) if os.path.exists('/verif/tools/late.json') else {})
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); n=os.path.basename(d.rstrip('/'))
    w=str(m['what_it_breaks']).replace('\n',' ').replace('|','/')
    rows.append(f"| {n} | {w} | {m['property']} | {late.get(n,'')} |")
s=open('/verif/DESIGN.md').read()
h="| seed | what it breaks | caught by | note |\n|------|----------------|-----------|------|\n"
i=s.index(h)+len(h); j=s.index("\n\n",i)
open('/verif/DESIGN.md','w').write(s[:i]+"\n".join(rows)+s[j:])
