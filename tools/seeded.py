#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and tools/caught.json"""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(H + '/tools/caught.json'))
t = ['| bug | property | what it breaks | caught by (quick) |', '|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    i = f.split('/')[-2]
    m = json.load(open(f))
    t.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], caught.get(i, '**missed**')))
d = open(H + '/DESIGN.md').read()
a, b = '<!-- seeded -->', '<!-- end -->'
body = a + '\n' + '\n'.join(t) + '\n' + b
d = d[:d.index(a)] + body + d[d.index(b) + len(b):] if a in d else d.replace('@@SEEDED@@', body)
open(H + '/DESIGN.md', 'w').write(d)
