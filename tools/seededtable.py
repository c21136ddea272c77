#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{i}/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].strip().replace('|', '\\|'), m['needs'].strip().replace('|', '\\|')))
text = open(here + '/DESIGN.md').read()
table = '<!-- seeded -->\n| change | caught by | what it breaks | what it needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
if '<!-- seeded -->' in text:
    text = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda m: table, text, flags=re.S)
else:
    text += '\n## Planted bugs\n\nEach change kept in `seeded/` was applied to /repo with `tools/plant.py`, which confirms that it builds, passes the stable tests, fails its demonstration, and that the check of its own property reports it (column 2).\n\n' + table + '\n'
open(here + '/DESIGN.md', 'w').write(text)
