#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (from seeded/*/meta.json; 'also' comes from tools/also.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
also = json.load(open(V + '/tools/also.json')) if os.path.exists(V + '/tools/also.json') else {}
rows = ['<!-- seeds -->', '| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = f.split('/')[-2]
    m = json.load(open(f))
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {also.get(i, m['property'])} |")
rows.append('<!-- /seeds -->')
d = open(V + '/DESIGN.md').read()
new = '\n'.join(rows)
d = d.replace('SEEDTABLE', new) if 'SEEDTABLE' in d else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: new, d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
