#!/usr/bin/env python3
"""Rewrites section 5 of DESIGN.md (planted bugs) from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['needs'].replace('|', '\\|'), d['what_it_breaks'].replace('|', '\\|'), d['property']))
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + '| bug | needs | breaks | caught by |\n|-----|-------|--------|-----------|\n' + '\n'.join(rows) + '\n' + s[j:]
open(p, 'w').write(s)
print(len(rows))
