#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: planted bugs and fixes"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def fill(text, name, body): return re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + body + m.group(2), text, flags=re.S)
d = open(os.path.join(V, 'DESIGN.md')).read()
rows = []
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], m['what_it_breaks']))
d = fill(d, 'SEEDS', '| bug | caught by | needs | breaks |\n|---|---|---|---|\n' + ''.join(rows))
k = json.load(open(os.path.join(V, 'known_findings.json')))
d = fill(d, 'FIXED', ''.join('- %s\n' % re.sub(r'^fixed: property=(\S+) (\S+) ', r'**\1** `\2` ', x) for x in k['fixed']))
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
print(len(rows), len(k['fixed']))
