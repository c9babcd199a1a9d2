#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json ({id: [checks]})."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = root + '/tools/caught.json'
if os.path.exists(p): caught = json.load(open(p))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    c = caught.get(i, [m['property']])
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), ' '.join(c) or 'none'))
t = '\n'.join(['<!-- planted -->', '| change | what it breaks | needs | caught by (quick) |', '|---|---|---|---|'] + rows + ['<!-- /planted -->'])
d = open(root + '/DESIGN.md').read()
d = re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda _: t, d, flags=re.S)
open(root + '/DESIGN.md', 'w').write(d)
print(len(rows), 'rows')
