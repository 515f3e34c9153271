#!/usr/bin/env python3
"""cover.py [C01 ...]: runs the checks and lists the lines of the package that none of
them executed inside its worker. A map for finding unobserved behaviour, no verdict."""
import ast, concurrent.futures as cf, json, os, subprocess, sys, tempfile, glob, dis
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get('VF_REPO', '/repo')

def lines(co):
	yield from (l for a, b, l in co.co_lines() if l)
	for c in co.co_consts:
		if hasattr(c, 'co_lines'): yield from lines(c)

def main():
	props = sys.argv[1:] or sorted(json.load(open(HERE + '/checks/index.json')))
	d = tempfile.mkdtemp(prefix='vfcov.')
	def one(p):
		subprocess.run([sys.executable, HERE + '/run.py', p], env=dict(os.environ, VF_COV=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
	with cf.ThreadPoolExecutor(4) as ex: list(ex.map(one, props))
	seen = {}
	for f in glob.glob(d + '/*'):
		for n, l in json.load(open(f)): seen.setdefault(n, set()).add(l)
	subprocess.run(['rm', '-rf', d])
	tot = hit = 0
	for base, ds, fs in os.walk(REPO + '/postgresql'):
		if '/test' in base or 'documentation' in base: continue
		for f in sorted(fs):
			if not f.endswith('.py'): continue
			p = os.path.join(base, f); n = p[len(REPO) + 1:]; src = open(p).read()
			want = set(lines(compile(src, p, 'exec'))); got = seen.get(n, set()) & want
			tot += len(want); hit += len(got); miss = sorted(want - got)
			print('## %s %d/%d' % (n, len(got), len(want)))
			if 'postgresql/' in n and got:
				sl = src.splitlines()
				for l in miss: print('   %d: %s' % (l, sl[l - 1].strip()[:110]))
	print('total %d/%d' % (hit, tot))
main()
