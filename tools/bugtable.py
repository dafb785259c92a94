"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- table -->'
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
for d in sorted(glob.glob(here+'/seeded/*/meta.json')):
    m = json.load(open(d))
    name = os.path.basename(os.path.dirname(d))
    needs = ' '.join(m['needs'].split()).replace('|', '/')
    rows.append(f"| {name} | {needs} | {m['property']} |")
p = here+'/DESIGN.md'
s = open(p).read()
head = s[:s.index(MARK)]
open(p, 'w').write(head+MARK+'\n'+'\n'.join(rows)+'\n')
