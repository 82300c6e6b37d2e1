#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from known-findings.txt, seeded*/ and tools/detected.json."""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(V + '/tools/DESIGN.in.md').read()
fix = {}
for l in open(V + '/known-findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fix.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
rows = ['| commit | properties | what failed |', '|---|---|---|']
for c, v in fix.items():
    rows.append('| %s | %s | %s |' % (c, ', '.join(p for p, _ in v), v[0][1]))
text = text.replace('FIXTABLE', '\n'.join(rows))
rows = ['| planted bug | property | what it breaks |', '|---|---|---|']
for d in ('seeded', 'seeded-templates'):
    for f in sorted(glob.glob(V + '/' + d + '/*/meta.json')):
        m = json.load(open(f))
        rows.append('| %s%s | %s | %s |' % (f.split('/')[-2], '' if d == 'seeded' else ' (template)', m['property'], m['what_it_breaks']))
text = text.replace('SEEDTABLE', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(text)
