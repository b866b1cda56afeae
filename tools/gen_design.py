"""Rewrites the table of planted bugs in DESIGN.md (between the SEEDED-TABLE markers) from seeded/*/meta.json and the results
of tools/all_seeds.py given as argument."""
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for f in sys.argv[1:]:
    for l in open(f):
        r = json.loads(l)
        caught[r['id']] = r['caught']
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
n = c = 0
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    n += 1
    c += bool(caught.get(i))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), '%s quick' % m['property'] if caught.get(i) else 'missed'))
p = V + '/DESIGN.md'
s = open(p).read()
text = '<!-- SEEDED-TABLE -->\n## Planted bugs\n\n%d bugs are kept in `seeded/`, each confirmed to build, to pass the stable tests and to fail its demo; %d are caught by the quick check\nof their property (VERIF_SEED=1).\n\n%s\n<!-- /SEEDED-TABLE -->' % (n, c, '\n'.join(rows))
if '<!-- SEEDED-TABLE -->' in s:
    s = re.sub(r'<!-- SEEDED-TABLE -->.*<!-- /SEEDED-TABLE -->', lambda _: text, s, flags=re.S)
else:
    s = s.replace('SEEDED-TABLE', text)
open(p, 'w').write(s)
print(n, c)
