"""C36: pg_python and the Python command emulation run exactly the given code, against the chosen database."""
import builtins, code, concurrent.futures as cf, contextlib, io, json, os, pty, random, re, select, subprocess, sys, time

PY = sys.executable
TEXTS = ['', 'a', '-c', '--help', '-h', '--', 'x y', "q'uote", 'dq"x', '$1', 'é€', '%s', '*', '\\', 'a=b', '-Iq', '\u20ac\U0001f600', '0', 'pq://x', '-m']
EXCS = [('ValueError', 'bad value 17'), ('KeyError', "k"), ('RuntimeError', 'r€'), ('AssertionError', 'a'), ('OSError', 'o'), ('KeyboardInterrupt', 'k'), ('GeneratorExit', 'g'), ('Own', 'own')]

def main(ctx):
	ctx.rule = 'a run of pg_python with its context pieces, main code, arguments, settings and ending; a call of Execution; a console history'
	rng = ctx.rng('main')
	env = {k: os.environ[k] for k in ('HOME', 'TMPDIR', 'PATH', 'LANG', 'LC_ALL', 'TZ', 'PYTHONHASHSEED') if k in os.environ}
	env.update(PYTHONPATH=ctx.repo, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
	work = os.path.join(ctx.scratch, 'c36'); os.makedirs(work)
	ctx.psql('CREATE TABLE runs (id text, what text); CREATE ROLE "u€" LOGIN SUPERUSER; CREATE DATABASE "d b"')
	ctx.psql('CREATE TABLE runs (id text, what text)', db='d b')
	commands(ctx, rng, work, env)
	execution(ctx, rng, work)
	consoles(ctx, rng, work)
	terminals(ctx, rng, work, env)
	in_process(ctx, rng, work)
	ctx.require('runs', 'exceptions', 'contexts', 'traces', 'postmortems', 'console lines', 'backslash commands', 'terminals')

# -- whole commands in processes of their own
def make(ctx, rng, work, n):
	r = random.Random(rng.random()); d = os.path.join(work, 'r%d' % n); os.makedirs(d)
	db = r.choice(['postgres', 'postgres', 'd b']); user = r.choice(['postgres', 'u€'])
	how = r.choice(['-c', '-c', 'script', '-m', '-m.', 'stdin'])
	args = [r.choice(TEXTS) for i in range(r.choice([0, 0, 1, 2, 4]))]
	if how == 'stdin': args = []
	opts = []
	conn = r.choice(['opts', 'iri', 'long', 'env'])
	e = {}
	from urllib.parse import quote
	if conn == 'opts': opts += ['-h', '127.0.0.1', '-p', str(ctx.port), '-U', user, '-d', db]
	elif conn == 'long': opts += ['--host=127.0.0.1', '--port', str(ctx.port), '--username=' + user, '--database', db]
	elif conn == 'iri': opts += ['-I', 'pq://%s@127.0.0.1:%d/%s' % (quote(user), ctx.port, quote(db))]
	else: e = dict(PGHOST='127.0.0.1', PGPORT=str(ctx.port), PGUSER=user, PGDATABASE=db)
	opts.append(r.choice(['--ssl-mode=disable', '--ssl-mode=prefer']))
	sets = {}
	for i in range(r.choice([0, 1, 2])):
		k, v = r.choice([('application_name', r.choice(['app', 'a b', "q'1", 'x=y'])), ('DateStyle', 'SQL, DMY'), ('extra_float_digits', '2'), ('statement_timeout', '77777'), ('search_path', 'public,pg_catalog')])
		sets[k] = v
	for k, v in sets.items(): opts += [r.choice(['-s', '--setting']), '%s=%s' % (k, v)]
	trace = os.path.join(d, 'trace') if r.random() < .4 else None
	if trace: opts += ['--pq-trace=' + trace] if r.random() < .5 else ['--pq-trace', trace]
	id = 'run%d' % n
	# contexts
	seen, ctxfail = [], None
	for i in range(r.choice([0, 0, 1, 2, 3])):
		kind = r.choice(['code', 'file', 'module'])
		bad = ctxfail is None and r.random() < .12
		src = 'SEEN = globals().get("SEEN", []) + [%r]\nV%d = db.closed\n' % ('%s%d' % (kind, i), i)
		if kind == 'module': src = 'import sys\nSEEN = globals().get("SEEN", []) + [%r]\n' % ('%s%d' % (kind, i))
		if bad: src += 'raise LookupError("context %d")\n' % i
		if kind == 'code': opts += [r.choice(['-C', '--context']), src]
		elif kind == 'file':
			p = os.path.join(d, 'c%d%s.py' % (i, r.choice(['', ' x', '€']))); open(p, 'w', encoding='utf-8').write(src); opts += ['-C', 'file://' + p]
		else:
			m = 'ctxmod%d_%d' % (n, i); open(os.path.join(d, m + '.py'), 'w').write(src); opts += ['-C', 'module:' + m]
		if ctxfail is None:
			seen.append('%s%d' % (kind, i))
			if bad: ctxfail = i
	# the main code
	end = r.choice(['fine', 'fine', 'exc', 'exc', 'exit', 'exit', 'syntax', 'open', 'block', 'server'])
	b = ['import sys, json, os', 'class Own(Exception): pass',
		'R = dict(argv=sys.argv, name=__name__, seen=globals().get("SEEN", []), file=globals().get("__file__"), pkg=__package__)',
		'R["user"], R["db"], R["marker"] = prepare("SELECT current_user::text, current_database()::text, %r::text")()[0]' % ('marker ' + id),
		'R["settings"] = {k: settings[k] for k in %r}' % sorted(sets),
		'R["same"] = [xact == db.xact, settings is db.settings, prepare == db.prepare, proc == db.proc, do == db.do, sqlexec == db.execute, connector is db.connector]',
		'R["proc"] = proc("lower(text)")("ABC")', 'do("plpgsql", %r)' % ("BEGIN INSERT INTO runs VALUES ('%s', 'do'); END" % id),
		'R["none"] = sqlexec(%r) is None' % ("INSERT INTO runs VALUES ('%s', 'one'); INSERT INTO runs VALUES ('%s', 'two')" % (id, id)),
		'with xact(): prepare("INSERT INTO runs VALUES ($1, $2)")(%r, "xact")' % id]
	if how == '-m.': b.append('from .other import NEAR; R["near"] = NEAR')
	b.append('print("REPORT " + json.dumps(R))'); b.append('sys.stdout.flush()')
	rows = ['do', 'one', 'two', 'xact']; status = 0; last = None; pm = None
	if end == 'exc' or end == 'block':
		t, m = r.choice(EXCS)
		if end == 'block': b += ['with xact():', '\tsqlexec(%r)' % ("INSERT INTO runs VALUES ('%s', 'lost')" % id), '\traise %s(%r)' % (t, m)]
		else: b.append('raise %s(%r)' % (t, m))
		status = 1; last = (t, m); pm = t
	elif end == 'exit':
		v = r.choice([None, 0, 1, 3, 200, 255, 'a message', True])
		if r.random() < .3: b += ['x = xact(); x.start()', 'sqlexec(%r)' % ("INSERT INTO runs VALUES ('%s', 'lost')" % id)]
		b.append('sys.exit(%r)' % (v,)); status = 0 if v is None else 1 if v.__class__ is str else int(v); pm = 'SystemExit'
		if v.__class__ is str: last = (None, v)
	elif end == 'syntax': b.append('x ='); rows = []; status = 1; last = ('SyntaxError', None)
	elif end == 'open': b += ['x = xact(); x.start()', 'sqlexec(%r)' % ("INSERT INTO runs VALUES ('%s', 'lost')" % id)]
	elif end == 'server': b.append('prepare("SELECT 1/$1::int")(0)'); status = 1; last = ('postgresql.exceptions.ZeroDivisionError', 'division by zero'); pm = 'ZeroDivisionError'
	src = '\n'.join(b) + '\n'; stdin = None; near = None
	if how == '-c': argv0 = '<command>'; main = ['-c', src]; file = '<command>'
	elif how == 'script':
		p = os.path.join(d, r.choice(['s.py', 's p.py', 'é.py', 'noext'])); open(p, 'w', encoding='utf-8').write(src); main = [p]; argv0 = file = p
	elif how == '-m':
		p = os.path.join(d, 'mainmod%d.py' % n); open(p, 'w', encoding='utf-8').write(src); main = ['-m', 'mainmod%d' % n]; argv0 = file = p
	elif how == '-m.':
		os.makedirs(os.path.join(d, 'pk%d' % n)); open(os.path.join(d, 'pk%d' % n, '__init__.py'), 'w').close()
		open(os.path.join(d, 'pk%d' % n, 'other.py'), 'w').write('NEAR = %d\n' % n); near = n
		p = os.path.join(d, 'pk%d' % n, 'run.py'); open(p, 'w', encoding='utf-8').write(src); main = ['-m', 'pk%d.run' % n]; argv0 = file = p
	else: main = []; stdin = src.encode(); argv0 = file = '<stdin>'
	pmf = None
	if r.random() < .35:
		pmf = os.path.join(d, 'pm.out')
		open(os.path.join(d, 'pmod%d.py' % n), 'w').write('import sys\ndef look(): open(%r, "a").write(sys.last_type.__name__ + "\\n")\n' % pmf)
		e['PYTHON_POSTMORTEM'] = 'pmod%d.look' % n
	if ctxfail is not None: rows = []; status = 1; last = ('LookupError', 'context %d' % ctxfail); pm = None
	if end == 'syntax': pm = None
	return dict(n=n, id=id, dir=d, db=db, user=user, cmd=opts + main + args, env=e, stdin=stdin, how=how, end=end, args=args, argv0=argv0, file=file, sets=sets, seen=seen,
		ctxfail=ctxfail, rows=rows, status=status, last=last, trace=trace, pm=pm, pmf=pmf, near=near, src=src)

def run(ctx, c, env):
	e = dict(env); e.update(c['env'])
	try:
		p = subprocess.run([PY, '-m', 'postgresql.bin.pg_python'] + c['cmd'], cwd=c['dir'], env=e, input=c['stdin'] if c['stdin'] is not None else b'', capture_output=True, timeout=240)
		return c, p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
	except subprocess.TimeoutExpired:
		return c, None, '', ''

def commands(ctx, rng, work, env):
	cs = [make(ctx, rng, work, n) for n in range(ctx.scale(72, 1200))]
	with cf.ThreadPoolExecutor(6) as ex:
		for c, rc, out, err in ex.map(lambda c: run(ctx, c, env), cs):
			ctx.case((c['how'], c['end'], len(c['seen']), len(c['args']), c['ctxfail']), sample=c['cmd']); ctx.count('runs')
			case = dict(cmd=c['cmd'], env=c['env'], rc=rc, out=out[-600:], err=err[-1500:])
			if rc is None: ctx.violation('run-hangs', 'pg_python did not end', case); continue
			ctx.expect(rc == c['status'], 'exit-status', '%s, %s: status %r instead of %r' % (c['how'], c['end'], rc, c['status']), case)
			rep = [l for l in out.splitlines() if l.startswith('REPORT ')]
			want = 0 if c['end'] == 'syntax' or c['ctxfail'] is not None else 1
			if len(rep) != want: ctx.violation('main-runs', '%s, %s: the main code ran %d times instead of %d' % (c['how'], c['end'], len(rep), want), case); continue
			if rep:
				R = json.loads(rep[0][7:]); 
				ctx.expect(R['argv'] == [c['argv0']] + c['args'], 'argv', '%r instead of %r' % (R['argv'], [c['argv0']] + c['args']), case)
				ctx.expect(R['name'] == '__main__', 'name', repr(R['name']), case)
				ctx.expect(R['file'] == c['file'], 'file', '%r instead of %r' % (R['file'], c['file']), case)
				ctx.expect(R['seen'] == c['seen'], 'contexts', '%r ran instead of %r' % (R['seen'], c['seen']), case); ctx.count('contexts', len(c['seen']))
				ctx.expect((R['user'], R['db']) == (c['user'], c['db']), 'database', '%r instead of %r' % ((R['user'], R['db']), (c['user'], c['db'])), case)
				ctx.expect(R['marker'] == 'marker ' + c['id'] and R['proc'] == 'abc' and R['none'], 'builtins-work', repr(R), case)
				ctx.expect(all(R['same']), 'builtins', repr(R['same']), case)
				for k, v in c['sets'].items():
					got = R['settings'][k]
					ctx.expect(got == v or (k == 'statement_timeout' and got in ('77777', '77777ms')) or (k == 'search_path' and got.replace(' ', '').replace('"', '') == v), 'settings', '%s is %r instead of %r' % (k, got, v), case)
				ctx.expect(R.get('near') == c['near'], 'relative', repr(R.get('near')), case)
			if c['last']:
				t, m = c['last']; ctx.count('exceptions')
				if t is None: ok = m in err.splitlines()
				elif t.startswith('postgresql.'): ok = any(l.startswith(t + ': ' + m) for l in err.splitlines())
				else: ok = any(re.match(r'(\w+\.)*%s\b' % t, l) and (m is None or m in l) for l in err.splitlines())
				ctx.expect(ok, 'exception-shown', '%r not reported' % (c['last'],), case)
			else: ctx.expect('Traceback' not in err, 'no-exception-shown', err[-300:], case)
			got = ctx.psql("SELECT what FROM runs WHERE id = '%s' ORDER BY 1" % c['id'], db=c['db']).split()
			ctx.expect(got == c['rows'], 'effects', '%s, %s: %r stored instead of %r' % (c['how'], c['end'], got, c['rows']), case)
			if c['trace']:
				ctx.count('traces'); t = open(c['trace'], encoding='utf-8').read() if os.path.exists(c['trace']) else ''
				up = [l for l in t.splitlines() if l.startswith('\u2191')]; down = [l for l in t.splitlines() if l.startswith('\u2193')]
				if rep:
					i = [k for k, l in enumerate(t.splitlines()) if 'marker ' + c['id'] in l and l.startswith('\u2191')]
					j = [k for k, l in enumerate(t.splitlines()) if 'marker ' + c['id'] in l and l.startswith('\u2193')]
					ctx.expect(len(i) == 1 and len(j) == 1 and i[0] < j[0], 'trace-order', 'sent at %r, received at %r' % (i, j), dict(case, trace=t[:3000]))
					n = sum(l.count("INSERT INTO runs") for l in up)
					ctx.expect(n >= 4, 'trace-sent', '%d of the statements were traced' % n, dict(case, trace=t[:6000]))
				ctx.expect(bool(up and down), 'trace-empty', t[:200], case)
			if c['pmf']:
				got = open(c['pmf']).read().split() if os.path.exists(c['pmf']) else []
				want = [c['pm']] if c['pm'] else []
				if c['pm'] == 'SystemExit': ctx.expect(got in ([], want), 'postmortem', '%r instead of %r' % (got, want), case)
				else: ctx.expect(got == want, 'postmortem', '%r instead of %r' % (got, want), case)
				ctx.count('postmortems')
	t = time.monotonic()
	while True:
		left = ctx.psql("SELECT count(*) FROM pg_stat_activity WHERE usename = 'u€' OR datname = 'd b' AND pid <> pg_backend_pid()").strip()
		if left == '0' or time.monotonic() - t > 60: break
		time.sleep(.2)
	ctx.expect(left == '0', 'sessions-left', '%s sessions are still there' % left, None)

# -- Execution in this process
class Boom(Exception): pass
def execution(ctx, rng, work):
	from postgresql.python import command as pc
	import optparse
	for n in range(ctx.scale(300, 4000)):
		out = []
		builtins.C36_OUT = out
		d = os.path.join(work, 'e'); os.makedirs(d, exist_ok=True)
		argv = ['prog']; want = []; fail = None
		for i in range(rng.choice([0, 0, 1, 2])):
			tag = 'ctx%d.%d' % (n, i); src = 'C36_OUT.append(%r); X%d = %d' % (tag, i, i)
			bad = fail is None and rng.random() < .1
			if bad: src += '\n1/0'
			if rng.random() < .5: argv += ['-C', src]
			else:
				p = os.path.join(d, 'c%d_%d.py' % (n, i)); open(p, 'w').write(src); argv += ['--context', 'file://' + p]
			if fail is None: want.append(tag)
			if bad: fail = i
		args = [rng.choice(TEXTS) for i in range(rng.choice([0, 1, 3]))]
		end = rng.choice(['', '', 'raise ValueError(1)', 'import sys; sys.exit(%r)', 'import sys; sys.exit(5)', 'raise SystemExit', 'import os; os.environ["C36_E"] = "1"', 'import sys; sys.argv = [1]', 'import os; os.environ.pop("C36_P", None)', 'import sys; sys.modules["__main__"] = None'])
		if '%r' in end: end = end % rng.choice(['m', 9, 0])
		src = 'import sys\nC36_OUT.append(("main", list(sys.argv), __name__, sys.modules["__main__"].__dict__ is globals()))\n' + end + '\n'
		if rng.random() < .5 : argv += ['-c', src] ; a0 = '<command>'
		else:
			p = os.path.join(d, 'm%d.py' % n); open(p, 'w').write(src); argv += [p]; a0 = p
		argv += args
		os.environ['C36_P'] = 'kept'
		keep = (sys.argv, sys.modules.get('__main__'), os.environ, dict(os.environ), sys.modules.get('__context__'), '__context__' in sys.modules)
		buf = io.StringIO(); case = dict(argv=argv)
		try:
			with contextlib.redirect_stderr(buf), contextlib.redirect_stdout(buf): rv = pc.command_execution(argv)()
		except BaseException as e:
			ctx.violation('execution-raises', '%s: %s' % (type(e).__name__, e), case); sys.argv, sys.modules['__main__'] = keep[0], keep[1]; continue
		exp = 1 if fail is not None else 1 if 'ValueError' in end else 5 if 'exit(5)' in end else None if end == 'raise SystemExit' else 'm' if "'m'" in end else 9 if '(9)' in end else 0
		if fail is None: want = want + [('main', [a0] + args, '__main__', True)]
		ctx.case(('exec', len(argv), end, fail)); ctx.count('executions')
		ctx.expect(out == want, 'execution-order', '%r instead of %r' % (out, want), case)
		ctx.expect(rv == exp and type(rv) is type(exp), 'execution-result', '%r instead of %r' % (rv, exp), case)
		ctx.expect(sys.argv is keep[0], 'restore-argv', repr(sys.argv), case); sys.argv = keep[0]
		ctx.expect(sys.modules.get('__main__') is keep[1] and ('__context__' in sys.modules) == keep[5], 'restore-main', repr(sys.modules.get('__main__')), case); sys.modules['__main__'] = keep[1]
		ctx.expect(os.environ is keep[2], 'restore-environ', 'os.environ is another object', case); os.environ = keep[2]
		ctx.expect(dict(os.environ) == keep[3], 'restore-environ-content', repr(set(os.environ.items()) ^ set(keep[3].items())), case)
		for k in set(os.environ) - set(keep[3]): del os.environ[k]
		os.environ.update(keep[3])
	r = subprocess.run(['/bin/sh', '-c', 'echo "$C36_P"'], capture_output=True, text=True).stdout.strip()
	ctx.expect(r == 'kept', 'environ-reaches', repr(r), None)

# -- the console against the one it extends
BLOCKS = [['x = 1'], ['x + 1'], ['def f(a):', '  return a * 2', ''], ['f(4)'], ['for i in range(2):', '  print("loop", i)', ''], ['1/0'], ['y ='], ["s = '''", 'plain', "'''", 's'], ["s = '''", '\\? inside', '\\set Q=1', "'''", 's'],
	['print("a", \\', '"b")'], ['raise ValueError("v")'], ['z = (', '1,', '\\', '2)'], ['', ''], ['  bad'], ['class K:', '  def m(self): return "m"', '', 'K().m()'], ['[', '\\i nothing', ']'], ['undefined_name'], ['import os; os.sep'], ["t = 'x\\", "\\set A=1'", 't']]

def consoles(ctx, rng, work):
	from postgresql.python import command as pc
	def feed(cls, lines, **kw):
		o = io.StringIO(); g = {'__name__': '__console__'}
		with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
			c = cls(locals=g); more = [bool(c.push(l)) for l in lines]
		return o.getvalue(), more, {k: repr(v) for k, v in g.items() if not k.startswith('__') and not callable(v)}, c
	def clean(t):
		t = re.sub(r'(?m)^(Traceback .*\n)((  .*\n)*)', '', t)
		return re.sub(r'0x[0-9a-f]+', '0x', t)
	for n in range(ctx.scale(200, 3000)):
		lines = []
		for i in range(rng.randint(1, 8)): lines += rng.choice(BLOCKS)
		a = feed(pc.ExtendedConsole, lines); b = feed(code.InteractiveConsole, lines)
		ctx.case(('console', tuple(lines))); ctx.count('console lines', len(lines))
		# lines that start with a backslash outside of anything are commands
		ctx.expect(a[1] == b[1], 'console-continuation', '%r instead of %r' % (a[1], b[1]), lines)
		ctx.expect(a[2] == b[2], 'console-state', '%r instead of %r' % (a[2], b[2]), lines)
		ctx.expect(clean(a[0]) == clean(b[0]), 'console-output', '%r instead of %r' % (clean(a[0])[-300:], clean(b[0])[-300:]), lines)
	ed = os.path.join(work, 'editor'); open(ed, 'w').write('#!/bin/sh\nfor f in "$@"; do cat "%s/edited" > "$f"; echo "$f" >> "%s/files"; done\n' % (work, work)); os.chmod(ed, 0o755)
	saved = dict(os.environ)
	try:
		os.environ['EDITOR'] = ed
		for n in range(ctx.scale(40, 400)):
			o = io.StringIO(); g = {'__name__': '__console__', 'L': []}; case = []
			with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
				c = pc.ExtendedConsole(locals=g)
				want = []; env = {}; temp = {}
				for i in range(rng.randint(1, 8)):
					k = rng.choice(['i', 'i2', 'set', 'set?', 'e', 'E', 'Ei', 'x', 'unknown', 'code', 'missing', 'fail', 'help']); tag = '%d.%d' % (n, i)
					ctx.count('backslash commands'); mark = len(o.getvalue()); ok = True
					def push(l): case.append(l); return c.push(l)
					if k in ('i', 'i2'):
						ps = []
						for j in range(1 if k == 'i' else 2):
							p = os.path.join(work, rng.choice(['i%s_%d.py', 'i %s_%d.py']) % (tag, j)); open(p, 'w').write('L.append(%r)\ndef g%d(): return L\n' % (tag + str(j), j)); ps.append(p); want.append(tag + str(j))
						push('\\i ' + ' '.join('"%s"' % p for p in ps))
					elif k == 'set':
						v = rng.choice(['1', 'a b', 'x=y', '', "it's"]); name = 'C36_' + rng.choice('ABC'); push('\\set "%s=%s"' % (name, v)); env[name] = v
						ctx.expect('%s=%s' % (name, v) in o.getvalue()[mark:], 'set-shows', o.getvalue()[mark:], case)
					elif k == 'set?':
						push('\\set'); t = o.getvalue()[mark:]
						ctx.expect(all('%s=%s' % x in t for x in env.items()), 'set-lists', t[-300:], case)
					elif k in ('e', 'E', 'Ei'):
						open(work + '/edited', 'w').write('L.append(%r)\n' % tag); name = rng.choice(['one', 'Two', 'three'])
						open(work + '/files', 'w').close()
						push('\\%s %s' % (k[0], name)); fs = open(work + '/files').read().split()
						ctx.expect(len(fs) == 1, 'edited', repr(fs), case)
						if fs:
							was = temp.setdefault(name.lower(), fs[0])
							ctx.expect(was == fs[0], 'temporary-file', '%r instead of %r' % (fs[0], was), case)
							if k == 'e': want.append(tag)
							if k == 'Ei': push('\\i ' + name); want.append(tag)
					elif k == 'x':
						builtins.C36_OUT = g['L']; push('\\x -c "C36_OUT.append(%r); import sys; sys.exit(%d)"' % (tag, i)); want.append(tag)
						ctx.expect('[Return Value: %d]' % i in o.getvalue()[mark:], 'x-value', o.getvalue()[mark:], case)
					elif k == 'unknown':
						push('\\nosuch a'); ctx.expect('unknown' in o.getvalue()[mark:], 'unknown-command', o.getvalue()[mark:], case)
					elif k == 'code': push('L.append(%r)' % tag); want.append(tag)
					elif k == 'missing':
						push('\\i "%s"' % os.path.join(work, 'missing.py')); ctx.expect('FileNotFoundError' in o.getvalue()[mark:], 'missing-file', o.getvalue()[mark:], case)
					elif k == 'fail':
						p = os.path.join(work, 'f%s.py' % tag); open(p, 'w').write('L.append(%r)\n%s\nL.append("never")\n' % (tag, rng.choice(['1/0', 'raise KeyError', 'x = = 1']))); t = open(p).read()
						push('\\i "%s"' % p); 
						if '= =' not in t: want.append(tag)
						ctx.expect('Error' in o.getvalue()[mark:], 'script-failure-shown', o.getvalue()[mark:], case)
					elif k == 'help':
						push('\\?'); t = o.getvalue()[mark:]; ctx.expect(all(x in t for x in ('\\?', '\\E', '\\e', '\\i', '\\set', '\\x')), 'help', t, case)
			ctx.case(('backslash', tuple(case)))
			ctx.expect(g['L'] == want, 'console-effects', '%r instead of %r' % (g['L'], want), case)
			got = {k: os.environ.get(k) for k in env}
			ctx.expect(got == env, 'set-environment', '%r instead of %r' % (got, env), case)
			if env:
				k = sorted(env)[0]; r = subprocess.run(['/bin/sh', '-c', 'printf %%s "$%s"' % k], capture_output=True, text=True).stdout
				ctx.expect(r == env[k], 'set-reaches', '%r instead of %r' % (r, env[k]), case)
			for k in list(os.environ):
				if k.startswith('C36_'): del os.environ[k]
	finally:
		for k in set(os.environ) - set(saved): del os.environ[k]
		os.environ.update(saved)

# -- the interactive command on a terminal
def terminals(ctx, rng, work, env):
	for n in range(ctx.scale(3, 12)):
		m, s = pty.openpty(); e = dict(env, TERM='dumb', PYTHONUNBUFFERED='1'); id = 'tty%d' % n
		p = os.path.join(work, id + '.py'); open(p, 'w').write('FROMFILE = %d\nsqlexec("INSERT INTO runs VALUES (\'%s\', \'file\')")\n' % (n, id))
		proc = subprocess.Popen([PY, '-m', 'postgresql.bin.pg_python', '-h', '127.0.0.1', '-p', str(ctx.port), '-U', 'postgres', '-d', 'postgres'], stdin=s, stdout=s, stderr=s, env=e, cwd=work, start_new_session=True)
		os.close(s); out = b''
		status = rng.choice([0, 4, 77])
		script = ['db.closed', 'prepare("SELECT \'got\' || \'%s\'").first()' % id, '\\i ' + p, 'print("FF", FROMFILE + 1000)', '1/0', '\\x -c "print(6*7*1000)"', 'sqlexec("INSERT INTO runs VALUES (\'%s\', \'typed\')")' % id, 'import sys; sys.exit(%d)' % status]
		expect = [b'False', b'got' + id.encode(), None, b'FF %d' % (n + 1000), b'ZeroDivisionError', b'42000', None, None]
		t = time.monotonic()
		def until(pat, limit=200):
			nonlocal out
			t = time.monotonic()
			while not pat(out):
				if time.monotonic() - t > limit: return False
				r, w, x = select.select([m], [], [], .5)
				if r:
					try: d = os.read(m, 65536)
					except OSError: return pat(out)
					if not d: return pat(out)
					out += d
				elif proc.poll() is not None: return pat(out)
			return True
		if not until(lambda o: o.rstrip().endswith(b'>>>')): ctx.violation('terminal-prompt', out[-600:].decode('utf-8', 'replace')); proc.kill(); proc.wait(); os.close(m); continue
		ok = True
		for i, (l, w) in enumerate(zip(script, expect)):
			k = len(out); os.write(m, l.encode() + b'\n')
			if i == len(script) - 1: until(lambda o: False, 200); break
			if not until(lambda o: b'>>>' in o[k:] and (w is None or w in o[k:].replace(l.encode(), b'')), 200):
				ctx.violation('terminal', '%r gave %r' % (l, out[k:][-300:]), out[-1500:].decode('utf-8', 'replace')); ok = False; break
		try: rc = proc.wait(60 if ok else .1)
		except subprocess.TimeoutExpired: rc = None; proc.kill(); proc.wait()
		os.close(m)
		ctx.case(('tty', n)); ctx.count('terminals')
		if ok:
			ctx.expect(rc == status, 'terminal-status', '%r instead of %r' % (rc, status), out[-800:].decode('utf-8', 'replace'))
			got = ctx.psql("SELECT what FROM runs WHERE id = '%s' ORDER BY 1" % id).split()
			ctx.expect(got == ['file', 'typed'], 'terminal-effects', repr(got), out[-800:].decode('utf-8', 'replace'))

# -- command() in this process leaves it as it was
def in_process(ctx, rng, work):
	from postgresql.bin import pg_python
	for n in range(ctx.scale(8, 60)):
		names = {k: v for k, v in vars(builtins).items()}; keep = (sys.argv, sys.modules['__main__'], os.environ, dict(os.environ)); builtins.C36_OUT = out = []
		names['C36_OUT'] = out
		mine = rng.random() < .3
		if mine: builtins.xact = names['xact'] = 'mine'
		src = rng.choice(['C36_OUT.append((db, db.closed, xact == db.xact))', 'C36_OUT.append((db, db.closed, xact == db.xact)); raise ValueError(1)', 'import sys; C36_OUT.append((db, db.closed, xact == db.xact)); sys.exit(3)'])
		o = io.StringIO()
		with contextlib.redirect_stderr(o), contextlib.redirect_stdout(o):
			rv = pg_python.command(['pg_python', '-h', '127.0.0.1', '-p', str(ctx.port), '-U', 'postgres', '-d', 'postgres', '-c', src])
		ctx.case(('inproc', src, mine)); ctx.count('in-process commands')
		ctx.expect(len(out) == 1 and out[0][1] is False and out[0][2] is True, 'inproc-runs', repr(out), src)
		ctx.expect(rv == (3 if 'exit' in src else 1 if 'raise' in src else 0), 'inproc-result', repr(rv), src)
		left = {k for k, v in vars(builtins).items() if k not in names or names[k] is not v} | {k for k in names if k not in vars(builtins)}
		ctx.expect(not left - {'_'}, 'inproc-builtins', repr(left), src)
		ctx.expect(sys.argv is keep[0] and sys.modules['__main__'] is keep[1] and os.environ is keep[2] and dict(os.environ) == keep[3], 'inproc-restored', repr(sys.argv), src)
		if out and rv in (0, 1): ctx.expect(out[0][0].closed, 'inproc-closed', 'the connection is still open', src)
		for k in ('db', 'do', 'prepare', 'sqlexec', 'settings', 'proc', 'xact', 'connector'): vars(builtins).pop(k, None)
		if 'C36_OUT' in vars(builtins): del builtins.C36_OUT
