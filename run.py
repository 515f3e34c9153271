#!/usr/bin/env python3
"""
Entry point of every check: run.py <property id> [--tier quick|thorough] [--seed N] [--keep]

Runs as root.  Prepares a scratch directory, builds the C extension from
/repo's working tree *outside* /repo, starts a PostgreSQL cluster when the check
wants one, runs the check's worker as the unprivileged user `pgtest` (everything
the code under test does to files and processes stays within what that user can
reach: its own scratch directory), then turns the worker's report into the
verdict lines, the evidence file and the exit status.

 exit 0  held on everything explored
 exit 1  VIOLATION property=<id> replay=<path>
 exit 3  inconclusive / error of the check itself
"""
import argparse, importlib, json, os, resource, pwd, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python'
PGTEST = '/opt/pgtest'

def log(*a):
	print(*a, file=sys.stderr, flush=True)

class Fail(Exception): pass

def drop_args():
	if os.getuid() != 0:
		return []
	return ['setpriv', '--reuid=pgtest', '--regid=pgtest', '--clear-groups']

def limit_memory():
	# Runaway allocations end in a MemoryError there, not in the loss of the worker.
	resource.setrlimit(resource.RLIMIT_DATA, (6 << 30, 6 << 30))

def clean_env(scratch, **extra):
	e = dict(
		HOME=scratch, TMPDIR=scratch, PATH='/usr/bin:/bin', LANG='C.UTF-8',
		LC_ALL='C.UTF-8', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
		PYTHONUNBUFFERED='1',
		PYTHONPATH='%s/h:%s' % (scratch, REPO), PGINSTALLATION=PGTEST + '/bin/pg_config',
	)
	e.update(extra)
	return e

def readable():
	"""Let pgtest read the sources (git records none of these mode bits)."""
	if os.getuid() != 0:
		return
	r = subprocess.run(drop_args() + ['/bin/sh', '-c',
		'cd %s/postgresql && find . -type f ! -readable -print -quit; find . -type d ! -executable -print -quit' % REPO],
		capture_output=True, text=True)
	if r.returncode or r.stdout.strip():
		subprocess.run(['chmod', 'a+rx', REPO])
		subprocess.run(['chmod', '-R', 'a+rX', REPO + '/postgresql'])

def compile_ext(scratch, flavour):
	"""Compile postgresql.port.optimized from the working tree, out of tree."""
	inc = subprocess.run([PY, '-c', 'import sysconfig;print(sysconfig.get_path("include"))'],
		capture_output=True, text=True, check=True).stdout.strip()
	src = os.path.join(REPO, 'postgresql/port/_optimized/module.c')
	d = os.path.join(scratch, 'ext-' + flavour)
	os.makedirs(d, exist_ok=True)
	out = os.path.join(d, 'optimized.so')
	if flavour == 'plain':
		cmd = ['gcc', '-O2', '-g', '-fno-strict-overflow', '-DNDEBUG']
	elif flavour == 'asan':
		cmd = ['gcc', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
			'-fno-sanitize-recover=undefined', '-fno-sanitize=alignment', '-UNDEBUG']
	else:
		raise ValueError(flavour)
	cmd += ['-w', '-shared', '-fPIC', '-I' + inc, src, '-o', out]
	r = subprocess.run(cmd, capture_output=True, text=True)
	if r.returncode != 0:
		log(r.stderr)
		raise Fail('extension does not compile')
	os.chmod(d, 0o755); os.chmod(out, 0o755)
	return out

def start_pg(scratch, conf=(), hba=None, tls=False):
	data = os.path.join(scratch, 'pg')
	env = clean_env(scratch, PATH=PGTEST + '/bin:/usr/bin:/bin')
	pre = drop_args()
	r = subprocess.run(pre + [PGTEST + '/bin/initdb', '-D', data, '-U', 'postgres', '-A', 'trust',
		'-E', 'UTF8', '--locale=C.UTF-8', '--no-sync', '--no-instructions'],
		env=env, cwd=scratch, stdin=subprocess.DEVNULL, capture_output=True, text=True)
	if r.returncode:
		log(r.stdout, r.stderr)
		raise Fail('initdb failed')
	import socket
	s = socket.socket(); s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]; s.close()
	lines = [
		"listen_addresses='127.0.0.1'", "port=%d" % port,
		"unix_socket_directories='%s'" % scratch, "fsync=off", "synchronous_commit=off",
		"full_page_writes=off", "max_connections=80", "max_prepared_transactions=10",
		"shared_buffers=64MB", "autovacuum=off", "jit=off", "wal_level=minimal", "max_wal_senders=0",
		"password_encryption=md5", "timezone='UTC'", "log_timezone='UTC'", "lc_messages='C'",
		"intervalstyle='postgres'", "datestyle='ISO, MDY'",
	] + list(conf)
	if tls:
		# a certificate of its own, which ctx.connector(tls=True) trusts
		crt, key = os.path.join(scratch, 'tls.crt'), os.path.join(scratch, 'tls.key')
		subprocess.run(pre + ['openssl', 'req', '-x509', '-newkey', 'rsa:2048', '-nodes', '-keyout', key, '-out', crt, '-days', '3650', '-subj', '/CN=vf'],
			env=env, cwd=scratch, check=True, capture_output=True)
		subprocess.run(pre + ['chmod', '600', key], check=True)
		lines += ['ssl=on', "ssl_cert_file='%s'" % crt, "ssl_key_file='%s'" % key]
	with open(os.path.join(data, 'postgresql.conf'), 'a') as f:
		f.write('\n'.join(lines) + '\n')
	if hba is not None:
		with open(os.path.join(data, 'pg_hba.conf'), 'w') as f:
			f.write(hba)
	lf = open(os.path.join(scratch, 'pg.log'), 'wb')
	p = subprocess.Popen(pre + [PGTEST + '/bin/postgres', '-D', data], env=env, cwd=scratch,
		stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, start_new_session=True)
	for i in range(600):
		if p.poll() is not None:
			log(open(os.path.join(scratch, 'pg.log')).read()[-3000:])
			raise Fail('postgres did not start')
		r = subprocess.run(pre + [PGTEST + '/bin/pg_isready', '-q', '-h', '127.0.0.1', '-p', str(port), '-U', 'postgres', '-d', 'postgres'], env=env)
		if r.returncode == 0:
			return p, port
		time.sleep(0.05)
	raise Fail('postgres did not become ready')

def main():
	t0 = time.time()
	try: rc, a, took = once()
	except Fail as e:
		if time.time() - t0 > 280: raise
		log('ERROR:', e, '(running again)')
		rc, a, took = once(4, time.time() - t0)
		return rc
	if rc == 3 and a.tier == 'quick' and took < 280:
		# a slow machine: once more, with four times the time for everything that is bounded by time
		log('INCONCLUSIVE after %d s: running again with more time' % took)
		rc, a, _ = once(4, took)
	return rc

def once(slow=1, before=0):
	ap = argparse.ArgumentParser()
	ap.add_argument('prop')
	ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
	ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
	ap.add_argument('--keep', action='store_true')
	ap.add_argument('--replay', help='a replay file written by an earlier run: reruns that run (same seed and tier)')
	a = ap.parse_args()
	if a.replay:
		rp = json.load(open(a.replay))
		a.seed, a.tier = rp['seed'], rp['tier']
	prop = a.prop
	t0 = time.time()
	metas = json.load(open(os.path.join(HERE, 'checks', 'index.json')))
	meta = metas[prop]
	ev_dir = os.path.join(HERE, 'evidence')
	os.makedirs(ev_dir, exist_ok=True)
	ev_path = os.path.join(ev_dir, prop + '.json')
	if os.path.exists(ev_path):
		try: os.unlink(ev_path)
		except FileNotFoundError: pass
	scratch = tempfile.mkdtemp(prefix='vf.', dir='/tmp')
	pg = None
	worker = None
	rc = 3
	try:
		os.chmod(scratch, 0o755)
		h = os.path.join(scratch, 'h')
		os.makedirs(h)
		for d in ('vf', 'checks'):
			shutil.copytree(os.path.join(HERE, d), os.path.join(h, d), ignore=shutil.ignore_patterns('__pycache__'))
		subprocess.run(['chmod', '-R', 'a+rX', h])
		if os.getuid() == 0:
			pw = pwd.getpwnam('pgtest')
			os.chown(scratch, pw.pw_uid, pw.pw_gid)
			readable()
		exts = {f: compile_ext(scratch, f) for f in meta.get('ext', ['plain'])}
		env = clean_env(scratch, VF_SCRATCH=scratch, VF_PROP=prop, VF_TIER=a.tier, VF_SEED=str(a.seed), VF_SLOW=str(slow),
			VF_OUT=os.path.join(scratch, 'report.json'), VF_REPO=REPO)
		for f, p in exts.items():
			env['VF_EXT_' + f.upper()] = p
		first = meta.get('ext', ['plain'])[0]
		env['VF_EXT'] = exts[first]
		if os.environ.get('VF_COV'):   # a development aid (tools/cover.py)
			env['VF_COV'] = os.path.join(scratch, 'cov')
		if first == 'asan':
			asan_env(env)
		elif 'asan' in exts:
			e2 = {}; asan_env(e2)
			env['VF_ASAN_ENV'] = json.dumps(e2)
		if meta.get('pg'):
			pg, port = start_pg(scratch, meta.get('conf', ()), meta.get('hba'), meta.get('tls'))
			env['VF_PGPORT'] = str(port)
			env['VF_PGPID'] = str(pg.pid)
		limit = meta.get('limit', {}).get(a.tier, 800 - before if a.tier == 'quick' else 3000)
		errp = os.path.join(scratch, 'worker.err')
		with open(errp, 'wb') as ef:
			worker = subprocess.Popen(drop_args() + [PY, '-X', 'faulthandler', '-m', 'vf.worker', meta['module']],
				env=env, cwd=scratch, stdin=subprocess.DEVNULL, stdout=2, stderr=ef, start_new_session=True,
				preexec_fn=None if 'asan' in meta.get('ext', ()) else limit_memory)
			timed_out = False
			try:
				wrc = worker.wait(limit)
			except subprocess.TimeoutExpired:
				timed_out = True
				try:
					os.killpg(worker.pid, signal.SIGABRT)   # faulthandler prints the stacks
					worker.wait(10)
				except Exception:
					pass
				wrc = None
		if os.environ.get('VF_COV'):
			import glob
			for f in glob.glob(os.path.join(scratch, 'cov.*')): shutil.copy(f, os.path.join(os.environ['VF_COV'], prop + '.' + f.split('.')[-1]))
		err = open(errp, 'rb').read().decode('utf-8', 'replace')
		if err.strip():
			log(err[-6000:])
		rep = None
		try:
			rep = json.load(open(os.path.join(scratch, 'report.json')))
		except Exception:
			pass
		if timed_out:
			log('INCONCLUSIVE: the worker did not finish within %ds' % limit)
			if rep is None or not rep.get('violations'):
				return 3, a, time.time() - t0
		elif wrc != 0 or rep is None:
			san = 'AddressSanitizer' in err or 'runtime error:' in err
			if (wrc is not None and wrc < 0 and -wrc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE)) or san:
				rep = rep or dict(evaluations=0, distinct=0, rule='-', samples=[], counters={}, violations=[])
				rep['violations'].append(dict(mech='interpreter-crash', detail='the interpreter running the code under test died: rc=%r' % wrc, case=err[-4000:]))
			else:
				log('ERROR: worker ended with %r and %s' % (wrc, 'no report' if rep is None else 'a partial report'))
				if rep is None or not rep.get('violations'):
					return 3, a, time.time() - t0
		rc = conclude(prop, meta, a, rep, ev_path, ev_dir, t0)
		return rc, a, time.time() - t0
	finally:
		for p in (worker, pg):
			if p is not None and p.poll() is None:
				try:
					p.send_signal(signal.SIGINT if p is pg else signal.SIGKILL)
					p.wait(10)
				except Exception:
					pass
				try:
					os.killpg(p.pid, signal.SIGKILL)
				except Exception:
					pass
		if worker is not None:
			try:
				os.killpg(worker.pid, signal.SIGKILL)
			except Exception:
				pass
		if a.keep:
			log('kept', scratch)
		else:
			for i in range(5):
				shutil.rmtree(scratch, ignore_errors=True)
				if not os.path.exists(scratch):
					break
				time.sleep(0.2)

def asan_env(env):
	lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
	ub = subprocess.run(['gcc', '-print-file-name=libubsan.so'], capture_output=True, text=True).stdout.strip()
	env['LD_PRELOAD'] = os.path.realpath(lib) + ':' + os.path.realpath(ub)
	env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:handle_segv=1'
	env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:abort_on_error=1'
	env['PYTHONMALLOC'] = 'malloc'

def conclude(prop, meta, a, rep, ev_path, ev_dir, t0):
	known = {}
	try:
		for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']:
			if k['property'] == prop and k['status'] == 'known':
				known[k['mechanism']] = k
	except FileNotFoundError:
		pass
	fresh, seen = [], {}
	for v in rep['violations']:
		if v['mech'] in known:
			seen.setdefault(v['mech'], v)
		else:
			fresh.append(v)
	for m in seen:
		print('KNOWN-FINDING: property=%s %s' % (prop, known[m]['what']), flush=True)
	cov = dict(evaluations=rep['evaluations'], distinct_nontrivial=rep['distinct'], rule=rep['rule'] or meta.get('rule', ''),
		samples=rep['samples'][:8], observed=rep['counters'])
	ev = dict(property=prop, tier=a.tier, seed=a.seed, level=meta['level'], coverage=cov,
		wall_s=round(time.time() - t0, 2), violations=len(fresh))
	if meta.get('assumptions'):
		ev['assumptions'] = meta['assumptions']
	tmp = ev_path + '.tmp'
	with open(tmp, 'w') as f:
		json.dump(ev, f, indent=1, default=repr)
		f.write('\n')
	os.replace(tmp, ev_path)
	if fresh:
		rd = os.path.join(ev_dir, 'replay')
		os.makedirs(rd, exist_ok=True)
		mechs = {}
		for v in fresh:
			mechs.setdefault(v['mech'], v)
		for i, (m, v) in enumerate(list(mechs.items())[:6]):
			path = os.path.join(rd, '%s-%d.json' % (prop, i))
			with open(path, 'w') as f:
				json.dump(dict(property=prop, tier=a.tier, seed=a.seed, mechanism=m, detail=v['detail'], case=v.get('case'),
					rerun='python3 /verif/run.py %s --replay %s' % (prop, path)), f, indent=1, default=repr)
				f.write('\n')
			print('  %s: %s' % (m, str(v['detail'])[:1000]), flush=True)
			print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
		return 1
	missing = [k for k in rep.get('required', []) if not rep['counters'].get(k)]
	if rep['evaluations'] == 0 or missing or rep.get('inconclusive'):
		print('INCONCLUSIVE property=%s never observed: %s %s' % (prop, missing, rep.get('inconclusive') or ''), flush=True)
		return 3
	print('OK property=%s evaluations=%d distinct=%d %s' % (prop, rep['evaluations'], rep['distinct'],
		json.dumps(rep['counters'], sort_keys=True)[:1500]), flush=True)
	return 0

if __name__ == '__main__':
	try:
		sys.exit(main())
	except Fail as e:
		log('ERROR:', e)
		sys.exit(3)
