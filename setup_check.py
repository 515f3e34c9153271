#!/usr/bin/env python3
"""setup_cmd: nothing to fetch or build ahead; verify that what the checks rely on is here."""
import os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import run
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
d = tempfile.mkdtemp(prefix='vf.', dir='/tmp')
try:
	for f in ('plain', 'asan'):
		run.compile_ext(d, f)
finally:
	shutil.rmtree(d, ignore_errors=True)
for p in (run.PY, run.PGTEST + '/bin/postgres', run.PGTEST + '/bin/initdb', run.PGTEST + '/bin/psql'):
	if not os.path.exists(p):
		sys.exit('missing: ' + p)
print('ok')
