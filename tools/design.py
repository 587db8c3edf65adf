#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.txt, the seeded bugs, the known findings and the last evidence."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(R + '/tools/design.txt').read()
k = [l for l in open(R + '/known-findings.txt') if l.strip()]
seeds = ["| bug | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f)); seeds.append("| %s | %s | %s |" % (f.split('/')[-2], m['property'], m['needs'].replace('|', '/')))
cost = ["| property | seconds | coverage |", "|---|---|---|"]
E = os.environ.get('VP_EVIDENCE', R + '/evidence')
for f in sorted(glob.glob(E + '/C*.json')):
    e = json.load(open(f)); c = e['coverage']
    cost.append("| %s | %.0f | %s |" % (e['property'], e['wall_s'], ", ".join("%s %s" % (v, n) for n, v in c.items() if isinstance(v, (int, float)) and not isinstance(v, bool))))
more = ''
t = t.replace('@NFIX@', str(sum(l.startswith('fixed:') for l in k))).replace('@NFIND@', str(sum(l.startswith('finding:') for l in k))).replace('@SEEDS@', "\n".join(seeds)).replace('@COST@', "\n".join(cost)).replace('@MORE@\n', more)
open(R + '/DESIGN.md', 'w').write(t)
