"""Writes the table of planted changes at the end of DESIGN.md (caught: by the quick check of its property)."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | needs | breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'], m['what_it_breaks']))
p = V + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- planted -->', '<!-- end planted -->'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
