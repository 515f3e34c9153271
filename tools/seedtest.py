#!/usr/bin/env python3
"""
seedtest.py [--no-tests] [--checks C01,C02] [-j N] seed-dir...: confirm planted bugs.

Each runs in a private mount and PID namespace with a copy of /repo bound over
/repo: demo on the unchanged tree (0), patch, build, demo (nonzero), stable tests,
then the property's check.
"""
import argparse, concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
INNER = r'''
set -u
S=$1; W=$2; TESTS=$3; CHECKS=$4
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount -t tmpfs -o size=3g tmpfs /tmp
ip link set lo up 2>/dev/null
cd /repo; git checkout -q -- . 
bash /opt/vp/build.sh >/tmp/build0 2>&1 || echo "BUILD0 FAILED"
D=/tmp/demo; cp -r $W/seed $D; rm -f $D/*.diff $D/meta.json
timeout 300 bash $D/demo.sh >/tmp/d0 2>&1; echo "demo-clean=$?"
git apply $W/seed/patch.diff || { echo "APPLY FAILED"; exit 1; }
bash /opt/vp/build.sh >/tmp/build1 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/build1; }
timeout 300 bash $D/demo.sh >/tmp/d1 2>&1; echo "demo-bug=$?"; tail -3 /tmp/d1
if [ $TESTS = 1 ]; then
 timeout 200 bash /opt/vp/test.sh /tmp/o.json >/tmp/t.out 2>&1
 python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open("/tmp/o.json") if __import__("os").path.exists("/tmp/o.json") else __import__("io").StringIO("{\"passed\":[]}"))
stable=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
bad=[t for t in stable if t not in set(o['passed'])]
print('tests-broken=%d %s'%(len(bad),bad[:4]))
P
fi
for c in $CHECKS; do
 cd /verif; timeout 900 env VERIF_SEED=1 VERIF_TIER=quick python3 run.py $c >/tmp/c.out 2>/tmp/c.err; rc=$?
 echo "check $c rc=$rc $(grep -c VIOLATION /tmp/c.out)"; grep -v '^VIOLATION' /tmp/c.out | cut -c1-300 | head -4
 [ $rc = 0 ] || [ $rc = 1 ] || tail -5 /tmp/c.err
done
'''
def one(s, a):
	s = os.path.abspath(s)
	meta = json.load(open(os.path.join(s, 'meta.json')))
	w = tempfile.mkdtemp(prefix='seed.', dir='/var/tmp')
	os.chmod(w, 0o755)
	try:
		subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
		subprocess.run(['rsync', '-a', '--exclude', 'seeded', '--exclude', '.git', V + '/', w + '/verif/'], check=False) if shutil.which('rsync') else shutil.copytree(V, w + '/verif', ignore=shutil.ignore_patterns('seeded', '.git', 'evidence'))
		shutil.copytree(s, w + '/seed')
		subprocess.run(['chmod', '-R', 'a+rX', w + '/verif', w + '/seed'])
		checks = a.checks.replace(',', ' ') if a.checks is not None else meta['property']
		r = subprocess.run(['unshare', '-m', '-p', '-f', '-n', '--mount-proc', 'bash', '-c', INNER, 'x', s, w, '0' if a.no_tests else '1', checks], capture_output=True, text=True)
		return '== %s (%s)\n%s%s' % (os.path.basename(s), meta['property'], r.stdout, r.stderr[-500:])
	finally:
		shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
	ap = argparse.ArgumentParser()
	ap.add_argument('--no-tests', action='store_true'); ap.add_argument('--checks'); ap.add_argument('-j', type=int, default=4)
	ap.add_argument('seeds', nargs='+')
	a = ap.parse_args()
	with cf.ThreadPoolExecutor(a.j) as ex:
		for o in ex.map(lambda s: one(s, a), a.seeds):
			print(o, flush=True)
