#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | what it breaks | what it needs |', '|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    cell = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], cell(m['what_it_breaks']), cell(m['needs'])))
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- end -->)', lambda m: m[1] + '\n'.join(rows) + '\n' + m[2], s, flags=re.S)
open(p, 'w').write(s)
