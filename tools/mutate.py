#!/usr/bin/env python3
"""
mutate.py [-j N] [-n COUNT] [--seed S] [--lines A-B] [--no-tests] --checks C01,C02 FILE: mutation testing of the checks.

Development aid, not a check. Small changes are made to FILE (under /repo/postgresql) one at a
time, in private mount, PID and network namespaces with copies of /repo and /verif;
those that no check reports are then run through the test suite. What neither
notices is printed, to be judged by hand: equivalent, or a gap of the checks.
"""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile, threading
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)

def mutants(src, lo, hi):
	tree = ast.parse(src); lines = src.split('\n'); offs = [0]
	for l in src.encode().split(b'\n'): offs.append(offs[-1] + len(l) + 1)
	b = src.encode(); out = []
	def span(n): return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
	def add(n, text, what):
		if lo <= n.lineno <= hi:
			s, e = span(n); out.append((s, e, text, what, n.lineno))
	def seg(n): s, e = span(n); return b[s:e].decode()
	CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
	BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*', ast.Mod: '//', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&'}
	doc = set()
	for n in ast.walk(tree):
		if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): doc.add(id(n.body[0])); doc.add(id(n.body[0].value))
	for n in ast.walk(tree):
		if id(n) in doc: continue
		if isinstance(n, ast.Compare) and len(n.ops) == 1:
			o = CMP.get(type(n.ops[0]))
			if o: add(n, '(%s %s %s)' % (seg(n.left), o, seg(n.comparators[0])), 'cmp')
		elif isinstance(n, ast.BoolOp):
			o = ' or ' if isinstance(n.op, ast.And) else ' and '
			add(n, '(' + o.join('(%s)' % seg(x) for x in n.values) + ')', 'bool')
			for i in range(len(n.values)):
				add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(x) for j, x in enumerate(n.values) if j != i) + ')', 'drop-operand')
		elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): add(n, '(%s)' % seg(n.operand), 'not')
		elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) : add(n, '(%s %s %s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'bin')
		elif isinstance(n, ast.Constant) and lo <= n.lineno <= hi:
			v = n.value
			if v is True: add(n, 'False', 'const')
			elif v is False: add(n, 'True', 'const')
			elif isinstance(v, int): add(n, '(%d)' % (v + 1), 'const'); v and add(n, '(%d)' % (v - 1), 'const')
		elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
			add(n.test, '(not (%s))' % seg(n.test), 'negate')
			if isinstance(n, ast.If): add(n.test, 'False', 'if-false'); add(n.test, 'True', 'if-true')
		elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None): add(n.value, 'None', 'return-none')
		elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete)) : add(n, 'pass', 'delete')
		elif isinstance(n, ast.Assign):
			if all(not isinstance(t, ast.Name) for t in n.targets): add(n, 'pass', 'delete')
		elif isinstance(n, ast.Break): add(n, 'continue', 'loop')
		elif isinstance(n, ast.Continue): add(n, 'break', 'loop')
		elif isinstance(n, ast.Call):
			if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args): 
				s1, e1 = span(n.args[0]); s2, e2 = span(n.args[1])
				if lo <= n.lineno <= hi and b[s1:e1] != b[s2:e2]: out.append((s1, e2, b[s2:e2].decode() + b[e1:s2].decode() + b[s1:e1].decode(), 'swap-args', n.lineno))
			for k in n.keywords:
				if k.arg and lo <= k.lineno <= hi and isinstance(k.value, ast.Name) is False: pass
		elif isinstance(n, ast.Slice):
			if n.lower is not None: add(n.lower, '(%s) + 1' % seg(n.lower), 'slice')
			if n.upper is not None: add(n.upper, '(%s) - 1' % seg(n.upper), 'slice')
	return b, out

INNER = r'''
set -u
mount --bind $1/repo /repo; mount --bind $1/verif /verif; mount -t tmpfs -o size=3g tmpfs /tmp
ip link set lo up 2>/dev/null
exec python3 $1/verif/tools/mutate.py --worker $1
'''
def worker(w):
	job = json.load(open(w + '/job.json')); path = '/repo/postgresql/' + job['file']; orig = open(path, 'rb').read()
	base = json.load(open('/opt/vp/BASELINE.json')); base = base if isinstance(base, list) else base.get('stable') or base.get('passed') or base.get('tests')
	log = open(w + '/out.jsonl', 'a')
	for m in job['mutants']:
		s, e, text, what, line = m; new = orig[:s] + text.encode() + orig[e:]
		try: compile(new, path, 'exec')
		except SyntaxError: continue
		open(path, 'wb').write(new); res = dict(m=m, old=orig[s:e].decode(), killed=None)
		try:
			for c in job['checks']:
				p = subprocess.run(['python3', 'run.py', c], cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
				o = p.stdout.decode(errors='replace')
				if p.returncode == 1 and 'VIOLATION property=' in o: res['killed'] = c; break
				if p.returncode not in (0, 1): res.setdefault('odd', []).append('%s rc=%d' % (c, p.returncode))
			if res['killed'] is None and job['tests']:
				if os.path.exists('/tmp/o.json'): os.unlink('/tmp/o.json')
				subprocess.run(['timeout', '240', 'bash', '/opt/vp/test.sh', '/tmp/o.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
				try: o = set(json.load(open('/tmp/o.json'))['passed'])
				except Exception: o = set()
				if any(t not in o for t in base): res['killed'] = 'tests'
		except subprocess.TimeoutExpired: res['odd'] = res.get('odd', []) + ['timeout']
		log.write(json.dumps(res) + '\n'); log.flush()
	open(path, 'wb').write(orig)

def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('-j', type=int, default=7); ap.add_argument('-n', type=int, default=60); ap.add_argument('--seed', type=int, default=1)
	ap.add_argument('--lines', default='1-999999'); ap.add_argument('--checks', required=True); ap.add_argument('--no-tests', action='store_true'); ap.add_argument('--show', action='store_true')
	ap.add_argument('file'); a = ap.parse_args()
	lo, hi = map(int, a.lines.split('-'))
	src = open('/repo/postgresql/' + a.file).read(); b, ms = mutants(src, lo, hi)
	random.Random(a.seed).shuffle(ms); total = len(ms); ms = ms[:a.n]
	if a.show:
		for m in ms: print(m[4], m[3], repr(b[m[0]:m[1]].decode()), '->', repr(m[2]))
		return
	ws = []
	for i in range(a.j):
		part = ms[i::a.j]
		if not part: continue
		w = tempfile.mkdtemp(prefix='mut.', dir='/var/tmp'); os.chmod(w, 0o755)
		subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
		shutil.copytree(V, w + '/verif', ignore=shutil.ignore_patterns('seeded', '.git', 'evidence'))
		subprocess.run(['chmod', '-R', 'a+rX', w + '/verif'])
		json.dump(dict(file=a.file, mutants=part, checks=a.checks.split(','), tests=not a.no_tests), open(w + '/job.json', 'w'))
		ws.append((w, subprocess.Popen(['unshare', '-m', '-p', '-f', '-n', '--mount-proc', 'bash', '-c', INNER, 'x', w], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
	res = []
	for w, p in ws:
		p.wait()
		try: res += [json.loads(l) for l in open(w + '/out.jsonl')]
		except OSError: pass
		shutil.rmtree(w, ignore_errors=True)
	k = {}
	for r in res: k[r['killed'] or 'SURVIVED'] = k.get(r['killed'] or 'SURVIVED', 0) + 1
	print('## %s: %d of %d mutants: %s' % (a.file, len(res), total, k))
	for r in sorted(res, key=lambda r: r['m'][4]):
		if r['killed'] in (None, 'tests') or r.get('odd'): print('%s %s:%d %s %r -> %r %s' % ('SURVIVED' if r['killed'] is None else r['killed'], a.file, r['m'][4], r['m'][3], r['old'][:140], r['m'][2][:140], r.get('odd') or ''))
if __name__ == '__main__':
	if sys.argv[1:2] == ['--worker']: worker(sys.argv[2])
	else: main()
