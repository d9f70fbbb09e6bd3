"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    rows.append((d['property'], f.split('/')[-2], d['what_it_breaks'], d['needs']))
txt = '| caught by | bug | what it breaks | what it needs |\n|---|---|---|---|\n' + ''.join(
    '| {} | {} | {} | {} |\n'.format(*(x.replace('|', '\\|') for x in r)) for r in sorted(rows))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- end -->)', lambda m: m[1] + txt + m[2], s, flags=re.S)
open(p, 'w').write(s)
