#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md: seedtable.py RESULTS (lines: ID CHECK rc=N ...)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) (P\d\d) rc=(\d)', l)
    if m:
        res.setdefault(m[1], {})[m[2]] = m[3]
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
ids = sorted(os.listdir(os.path.join(V, 'seeded')))
for i in ids:
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    r = res.get(i, {})
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], ', '.join(sorted(k for k in r if r[k] == '1')) or 'nothing yet'))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'`seeded/` has \S+ changes', '`seeded/` has %d changes' % len(ids), s)
t = '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->\n'
s = s.replace('{table}\n', t) if '{table}' in s else re.sub(r'<!-- table -->.*<!-- end -->\n', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
