"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (a development tool; no check runs it)."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append('| `%s` | %s | %s |' % (os.path.basename(os.path.dirname(p)), m['property'], ' '.join(m['needs'].split())))
path = ROOT + '/DESIGN.md'
s = open(path).read()
s = re.sub(r'(\| `b\d\d-[^\n]*\n)+', lambda m: '\n'.join(rows) + '\n', s, count=1)
open(path, 'w').write(s)
print(len(rows), 'rows')
