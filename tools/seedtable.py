#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['needs'].replace('|', '/'), m['property']))
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- table -->.*<!-- /table -->', lambda _: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- /table -->', s, flags=re.S)
open(p, 'w').write(s)
