"""rewrites the planted-bug table of DESIGN.md (between the markers) from seeded/*/meta.json; every listed bug was verified with
tools/seed.py check (demo 0/non-zero, stable tests pass, the property's quick check exits 1)"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs']))
t = open(V + '/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = t.index(a) + len(a), t.index(b)
open(V + '/DESIGN.md', 'w').write(t[:i] + '\n'.join(rows) + '\n' + t[j:])
