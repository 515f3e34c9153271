"""Writes checks/index.json and MANIFEST.json from the table below and from checks present."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
exec(open(os.path.join(H, 'tools', 'table.py')).read())
index, checks = {}, []
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
na = []
for pid in props:
	if pid in T and os.path.exists(os.path.join(H, 'checks', T[pid]['module'] + '.py')):
		m = T[pid]
		index[pid] = {k: v for k, v in m.items() if k not in ('technique', 'note')}
		checks.append(dict(property=pid, quick_cmd='python3 run.py %s --tier quick' % pid, thorough_cmd='python3 run.py %s --tier thorough' % pid,
			technique=m['technique'], level=m['level'], level_note=m['note']))
	else:
		na.append(dict(property=pid, reason=NA.get(pid, 'no check built yet')))
json.dump(index, open(os.path.join(H, 'checks', 'index.json'), 'w'), indent=1)
man = dict(version=1, setup_cmd='python3 setup_check.py', checks=checks, not_applicable=na,
	notes='No hooks in /repo: monitors sit at public interfaces, on the wire and in the server. Known findings: known_findings.json.')
json.dump(man, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
