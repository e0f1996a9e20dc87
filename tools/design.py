#!/usr/bin/env python3
"""refresh the table of planted bugs in DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
s = open(f'{V}/DESIGN.md').read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', t)
else:
    s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(f'{V}/DESIGN.md', 'w').write(s)
