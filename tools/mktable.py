#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
   CAUGHT (a check that caught it is its property's unless listed here)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTRA = json.load(open(os.path.join(ROOT, 'tools', 'caught.json'))) if os.path.exists(os.path.join(ROOT, 'tools', 'caught.json')) else {}
MARK = '## Table of planted bugs'
rows = [MARK, '', '| planted bug | needs | breaks | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    c = lambda s: ' '.join(s.split()).replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (i, c(d['needs']), c(d['what_it_breaks']), EXTRA.get(i, d['property'])))
p = os.path.join(ROOT, 'DESIGN.md')
t = open(p).read().split(MARK)[0].rstrip('\n')
open(p, 'w').write(t + '\n\n' + '\n'.join(rows) + '\n')
