"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(os.path.join(here, 'seeded', '*', 'meta.json')):
    m = json.load(open(f))
    b = os.path.basename(os.path.dirname(f))
    rows.append((m['property'], b, m['needs'], m['what_it_breaks']))
rows.sort()
mark = '<!-- table of planted bugs -->\n'
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
s = s[:s.index(mark) + len(mark)]
s += '\n| caught by | bug | needs | breaks |\n|---|---|---|---|\n'
for r in rows:
    s += '| %s | %s | %s | %s |\n' % tuple(
        x.replace('|', '\\|').replace('\n', ' ') for x in r)
open(p, 'w').write(s)
print(len(rows), 'bugs')
