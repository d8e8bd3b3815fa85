#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json (written by tryseed.py)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
rows = ['| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
  m = json.load(open(V + '/seeded/%s/meta.json' % s))
  rows.append('| %s | %s | %s | %s |' % (s, m['what_it_breaks'], m['needs'], ', '.join(caught.get(s, [])) or '**missed**'))
t = open(V + '/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- end seeds -->'
i, j = t.index(a) + len(a), t.index(b)
open(V + '/DESIGN.md', 'w').write(t[:i] + '\n'.join(rows).replace('**/', '\\*\\*/') + '\n' + t[j:])
