#!/usr/bin/env python3
"""mkdesign.py: writes DESIGN.md from design_head.md, table.py, notes.py, known_findings.json and seeded/."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H); sys.path.insert(0, H)
import table, notes
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
kf = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
cost = {}
p = os.path.join(H, 'cost.json')
if os.path.exists(p): cost = json.load(open(p))
caught = {}
p = os.path.join(H, 'caught.json')
if os.path.exists(p): caught = json.load(open(p))
o = [open(os.path.join(H, 'design_head.md')).read()]
o.append('## Per property\n')
for d in props:
	i = d['id']; t = table.T[i]
	o.append('### %s %s\n' % (i, d['title']))
	o.append('*Specified:* see `properties.jsonl` (statement and quantifier).  \n*Deciding method:* %s.  ' % t['technique'].rstrip('.'))
	o.append('*Reach and bounds:* %s  ' % t['note'])
	o.append('*Why tests cannot:* %s  ' % d['why_tests_cant'])
	if notes.N.get(i): o.append('*Left open or excluded:* %s  ' % notes.N[i])
	if i in cost: o.append('*Cost (quick):* about %s s.  ' % cost[i])
	n = sum(1 for f in kf if f['property'] == i and f['status'] == 'fixed')
	kn = [f for f in kf if f['property'] == i and f['status'] == 'known']
	if n: o.append('*Defects found and repaired:* %d.  ' % n)
	for f in kn: o.append('*Known finding* `%s`: %s. Not repaired: %s.  ' % (f['mechanism'], f['what'], f['why_not_repaired']))
	o.append('')
o.append('## Genuine defects repaired in /repo (one "fix:" commit each)\n\n| property | commit | what failed |\n|---|---|---|')
for f in kf:
	if f['status'] == 'fixed': o.append('| %s | %s | %s |' % (f['property'], f['commit'][:10], f['what'].replace('|', '\\|')))
o.append('\n## Planted bugs and the checks that report them\n\n| change | property | needs | reported by |\n|---|---|---|---|')
sd = os.path.join(V, 'seeded')
for s in sorted(os.listdir(sd)):
	m = json.load(open(os.path.join(sd, s, 'meta.json')))
	o.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '\\|'), ', '.join(caught.get(s, [])) or 'not measured'))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o) + '\n')
