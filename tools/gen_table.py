#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md. First argument: file with the outcomes, one
'id PROPERTY: ... PROPERTY exit N ...' per line, or nothing to mark all as caught."""
import json,glob,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=os.path.join(here,'DESIGN.md'); s=open(p).read()
k=s.index('<!-- planted -->')
rows=['| change | what it needs | what it breaks | caught by |','|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(here,'seeded','*'))):
    m=json.load(open(d+'/meta.json')); i=os.path.basename(d)
    rows.append('| %s | %s | %s | %s |'%(i,m['needs'],m['what_it_breaks'],m['property']+m.get('note','')))
open(p,'w').write(s[:k]+'<!-- planted -->\n'+'\n'.join(rows)+'\n')
