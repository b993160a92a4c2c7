#!/usr/bin/env python3
"""Writes the table of planted bugs and the number of repairs into DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTRA = {'accounts-unsorted-few': ['C22']}
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s |' % (d, ', '.join([m['property']] + EXTRA.get(d, [])),
                                      m['needs'].replace('|', '/').replace('\n', ' ')))
table = '| planted bug | caught by | what it needs |\n|---|---|---|\n' + '\n'.join(rows)
s = open(V + '/DESIGN.md').read()
s = re.sub(r'(<!-- seeded -->\n).*?(\n<!-- /seeded -->)', lambda m: m.group(1) + table + m.group(2), s, flags=re.S)
n = len([l for l in open(V + '/tools/fixes.txt') if l.strip()])
s = re.sub(r'(\*\*Genuine defects\*\*: )\d+', lambda m: m.group(1) + str(n), s)
open(V + '/DESIGN.md', 'w').write(s)
