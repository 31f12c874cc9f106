#!/usr/bin/env python3
"""Rewrites the table of section 7 of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d)); rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/')))
p = here + '/DESIGN.md'; t = open(p).read()
i = t.index('## 7. '); head = t[i:].split('\n\n')[:2]
open(p, 'w').write(t[:i] + '\n\n'.join(head) + '\n\n' + '\n'.join(rows) + '\n')
