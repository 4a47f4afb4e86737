#!/usr/bin/env python3
# Writes SEEDS.md from tools/seedresults.tsv (id, check, result, what was reported) and seeded/*/meta.json.
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
res = {}
for l in open(os.path.join(here, 'seedresults.tsv')):
    f = l.rstrip('\n').split('\t')
    if len(f) >= 4:
        res[f[0]] = f[1:]
with open(os.path.join(root, 'SEEDS.md'), 'w') as o:
    o.write('# Planted bugs and what the checks say to them\n\n| bug | needs | result | first report |\n|---|---|---|---|\n')
    for i in sorted(os.listdir(os.path.join(root, 'seeded'))):
        m = json.load(open(os.path.join(root, 'seeded', i, 'meta.json')))
        r = res.get(i, [m['property'], 'not in the recorded run', ''])
        esc = lambda s: s.replace('|', '/').replace('\n', ' ')
        o.write('| %s | %s | %s: %s | %s |\n' % (i, esc(m['needs']), r[0], r[1], esc(r[2])))
