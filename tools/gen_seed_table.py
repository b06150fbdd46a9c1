#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(ROOT + '/seeded/*/meta.json'):
    d = json.load(open(m))
    rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['what_it_breaks']))
t = open(ROOT + '/DESIGN.md').read()
mark = '|---|---|---|\n'
i = t.rindex(mark) + len(mark)
open(ROOT + '/DESIGN.md', 'w').write(t[:i] + ''.join('| %s | %s | %s |\n' % r for r in sorted(rows)))
