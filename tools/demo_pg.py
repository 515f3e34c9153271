"""Runs a demonstration as the user pgtest with a scratch PostgreSQL cluster: argv[1] with PGPORT/PGHOST set."""
import os, shutil, socket, subprocess, sys, tempfile, time
B = '/opt/pgtest/bin/'
def drop(): return ['setpriv', '--reuid=pgtest', '--regid=pgtest', '--clear-groups'] if os.getuid() == 0 else []
w = tempfile.mkdtemp(prefix='demo.', dir='/tmp')
subprocess.run(['chmod', 'a+rx', '/repo']); subprocess.run(['chmod', '-R', 'a+rX', '/repo/postgresql'])
here = os.path.dirname(os.path.abspath(__file__))
p = None
try:
	os.chmod(w, 0o755)
	if os.getuid() == 0: shutil.chown(w, 'pgtest', 'pgtest')
	for f in os.listdir(here):
		if os.path.isfile(os.path.join(here, f)): shutil.copy(os.path.join(here, f), w)
	subprocess.run('chmod a+r %s/*' % w, shell=True)
	s = socket.socket(); s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]; s.close()
	env = dict(HOME=w, TMPDIR=w, PATH='/usr/bin:/bin', LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC', PYTHONPATH='/repo', PYTHONDONTWRITEBYTECODE='1',
		PGPORT_=str(port), WORK=w, PGINSTALLATION=B + 'pg_config')
	subprocess.run(drop() + [B + 'initdb', '-D', w + '/pg', '-U', 'postgres', '-A', 'trust', '-E', 'UTF8', '--locale=C.UTF-8', '--no-sync'], env=env, cwd=w, check=True, stdout=subprocess.DEVNULL)
	with open(w + '/pg/postgresql.conf', 'a') as f: f.write("listen_addresses='127.0.0.1'\nport=%d\nunix_socket_directories='%s'\nfsync=off\nmax_prepared_transactions=5\ntimezone='UTC'\n" % (port, w))
	p = subprocess.Popen(drop() + [B + 'postgres', '-D', w + '/pg'], env=env, cwd=w, stdin=subprocess.DEVNULL, stdout=open(w + '/log', 'w'), stderr=subprocess.STDOUT, start_new_session=True)
	for i in range(400):
		if subprocess.run([B + 'pg_isready', '-q', '-h', '127.0.0.1', '-p', str(port)], env=env).returncode == 0: break
		time.sleep(.1)
	rc = subprocess.run(drop() + ['/opt/venv/bin/python', os.path.join(w, os.path.basename(sys.argv[1]))], env=env, cwd=w, timeout=200).returncode
except subprocess.TimeoutExpired:
	print('timeout'); rc = 9
finally:
	if p:
		p.send_signal(2)
		try: p.wait(15)
		except Exception: p.kill()
	shutil.rmtree(w, ignore_errors=True)
sys.exit(rc)
