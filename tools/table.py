#!/usr/bin/env python3
"""Development tool: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | caught by | needs |', '| --- | --- | --- |']
for i in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, i)))
    rows.append('| %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/')))
p = ROOT + '/DESIGN.md'
s = open(p).read()
t = '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->'
s = re.sub(r'<!-- table -->.*?<!-- end -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
