"""C35: version strings and installation facts are parsed faithfully."""
import os, shlex, stat, subprocess, sys

def main(ctx):
	ctx.rule = 'version strings generated from their parts; pg_config stand-ins that print generated facts in many spellings; real tools and connections; every answer compared with the parts it was made of'
	from postgresql import versionstring as W, installation as I
	from postgresql.python.os import find_executable
	r = ctx.rng('c35'); V = ctx.violation
	def outcome(f):
		try: return ('v', f())
		except Exception as e: return ('e', '%s: %s' % (type(e).__name__, str(e)[:100]))

	# --- versions
	STATES = [None, 'devel', 'beta', 'rc', 'alpha', 'a', 'b', 'dev']
	NOTES = ['', '', '', ' (Debian 16.2-1.pgdg120+2)', ' (Ubuntu 16.15-0ubuntu0.24.04.1)', ' (Red Hat 8.0.1-3)', ' - Percona Server for PostgreSQL 16.2.1', ' (x)', '(Debian 12.3-1)', ' ']
	def version(n=None):
		nums = [r.choice((0, 1, 7, 8, 9, 10, 16, 99, r.randrange(200))) for _ in range(n or r.choice((1, 2, 2, 2, 3, 3, 3, 4)))]
		st = r.choice(STATES) if r.random() < .6 else None
		lv = None if st is None else r.choice((None, 0, 1, 2, 12))
		return nums, st, lv
	def spell(nums, st, lv): return '.'.join(map(str, nums)) + (st or '') + ('' if lv is None else str(lv))
	def final(nums, st, lv): return tuple(nums + [0] * (3 - len(nums)) + [st or 'final', lv or 0])
	for i in range(ctx.scale(6000, 120000)):
		v = nums, st, lv = version(); s = spell(*v); note = r.choice(NOTES)
		g = outcome(lambda: W.split(s + note)); case = dict(text=s + note)
		want = tuple(nums + [None] * (3 - len(nums)) + [st, lv])
		if g != ('v', want): V('split' if not note.strip() else 'split-note', '%r gave %r, expected %r' % (s + note, g[1], want), case)
		if g[0] == 'v':
			h = outcome(lambda: W.unsplit(g[1]))
			if h != ('v', s): V('unsplit', '%r came back as %r' % (s, h[1]), case)
			elif outcome(lambda: W.split(h[1])) != ('v', g[1]): V('unsplit', '%r splits again as something else' % s, case)
			h = outcome(lambda: W.normalize(g[1]))
			if h != ('v', final(*v)): V('normalize', '%r gave %r, expected %r' % (s, h[1], final(*v)), case)
			else:
				if outcome(lambda: W.normalize(h[1])) != h: V('normalize', '%r: not idempotent' % s, case)
				# whether trailing components are given makes no difference
				if len(nums) < 3:
					full = spell(nums + [0] * r.randint(1, 3 - len(nums)), st, lv)
					if outcome(lambda: W.normalize(W.split(full))) != h: V('normalize', '%r and %r differ' % (s, full), case)
				if st and lv is None and outcome(lambda: W.normalize(W.split(s + '0'))) != h: V('normalize', '%r and %r differ' % (s, s + '0'), case)
				if not note:
					other = version(len(nums)); o = (other[0], st, lv)
					if (W.normalize(W.split(spell(*o)))[:3] < h[1][:3]) != (final(*o)[:3] < final(*v)[:3]): V('order', '%r and %r' % (s, spell(*o)), case)
		ctx.count('versions'); ctx.case(s + note, True, s + note)
	def command(*a, env=None):
		e = dict(os.environ); e.update(env or {}); e['PYTHONPATH'] = os.pathsep.join(x for x in sys.path if x)
		p = subprocess.run([sys.executable, '-m'] + list(a), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd='/', env=e, timeout=120)
		return p.returncode, p.stdout.decode(), p.stderr.decode()
	import xml.etree.ElementTree as ET
	for i in range(ctx.scale(18, 120)):
		v = version(r.choice((1, 2, 3))); s = spell(*v); norm = r.random() < .5; fmt = r.choice(('sh', 'xml', 'python', None))
		rc, out, err = command('postgresql.versionstring', *(['-f', fmt] if fmt else []), *(['-n'] if norm else []), s)
		t = final(*v) if norm else tuple(v[0] + [None] * (3 - len(v[0])) + [v[1], v[2]])
		if rc: V('command', '%r: %s' % (s, err[-150:]), None); continue
		if fmt == 'python': got = outcome(lambda: eval(out))
		elif fmt == 'xml': got = outcome(lambda: tuple(x.text.strip() for x in ET.fromstring(out))); t = tuple(map(str, t))
		else: got = outcome(lambda: tuple(l.split('=', 1)[1] for l in out.split('\n') if l)); t = tuple(map(str, t))
		if got != ('v', t): V('command', '%r as %s: %r, expected %r' % (s, fmt, out, t), None)
		ctx.case('c%s%s%s' % (s, fmt, norm))
	for a in ((), ('1', '2'), ('-f', 'nosuch', '1.0')):
		if command('postgresql.versionstring', *a)[0] == 0: V('command', '%r is accepted' % (a,), None)

	# --- installations
	base = os.path.join(ctx.scratch, 'inst%d' % os.getpid()); os.makedirs(base)
	OPTS = ['--with-ssl=openssl', '--with-openssl', '--enable-nls', '--prefix=/usr', '--with-includes=/a dir:/b', 'CFLAGS=-g -O2 -fstack-protector', 'LDFLAGS=-Wl,-z,relro -Wl,-z,now', '--with-x=-', '--with-extra-version= (Debian 1-1)', '--with-extra-version=-x-', 'CFLAGS=-DX="a b"', 'CPPFLAGS=', '--with-krb-srvnam=a=b', '--without-icu', '--with-python', 'PYTHON=/usr/bin/python3', '--includedir=${prefix}/include', '--build=x86_64-linux-gnu', '--x-y-z', '--with-é=ü', 'CLANG=clang-16', '--with-segsize=1', '--datadir=/x"y"z', '--a="b"', '--with-ssl=no', '--mandir=/a  b', '--libdir=/a\\b']
	def opt(s):
		k, e, x = s.lstrip('-').partition('=')
		return k.replace('-', '_'), (x if e else True)
	KEYS = ['BINDIR', 'DOCDIR', 'HTMLDIR', 'INCLUDEDIR', 'PKGINCLUDEDIR', 'INCLUDEDIR-SERVER', 'LIBDIR', 'PKGLIBDIR', 'LOCALEDIR', 'MANDIR', 'SHAREDIR', 'SYSCONFDIR', 'PGXS', 'CC', 'CPPFLAGS', 'LDFLAGS_EX', 'LIBS']
	VALUES = ['/usr/lib', '/a b/c', '/x=y', '/é', '', '-I/usr/include -DX="y=z"', "it's", '/a//b', '= =', '/path with  two', '$HOME', '#x', '[x]', '/a:b', '/A/Upper']
	for i in range(ctx.scale(120, 1500)):
		if ctx.elapsed() > ctx.scale(28, 400): break
		d = os.path.join(base, 'i%d' % i); bind = os.path.join(d, r.choice(('bin', 'b in', 'é', 'B'))); os.makedirs(bind)
		facts = {k: r.choice(VALUES) for k in KEYS if r.random() < .85}; facts['BINDIR'] = bind
		nums, st, lv = v = version(); note = r.choice(NOTES).rstrip()
		facts['VERSION'] = r.choice(('PostgreSQL', 'PostgreSQL', 'EnterpriseDB')) + ' ' + spell(*v) + note
		opts = r.sample(OPTS, r.choice((0, 1, 2, 5, 9)))
		seen = {}
		for o in opts: seen.setdefault(opt(o)[0], o)
		opts = list(seen.values()); style = r.choice(('quoted', 'quoted', 'quoted', 'plain', 'double'))
		if style == 'plain': opts = [o for o in opts if not any(c in o for c in ' "\'')]; facts['CONFIGURE'] = ' '.join(opts)
		elif style == 'double': opts = [o for o in opts if '"' not in o and "'" not in o]; facts['CONFIGURE'] = ' '.join('"%s"' % o for o in opts)
		else:
			opts += r.choice(([], ["--with-note=it's", "LIBS='a' 'b'"]))
			facts['CONFIGURE'] = (' ' * r.randrange(2)) + (' ' * r.randint(1, 2)).join("'%s'" % o.replace("'", "''") for o in opts)
		exes = r.sample(I.Installation.pg_executables, r.randint(0, 12))
		for x in exes:
			with open(os.path.join(bind, x), 'w') as f: f.write('#!/bin/sh\nexit 1\n')
			os.chmod(os.path.join(bind, x), 0o755)
		old = r.random() < .25
		items = [(k, facts[k]) for k in sorted(facts, key=lambda k: r.random())]
		path = os.path.join(d, r.choice(('pg_config', 'pg config', 'x'))); 
		sep = r.choice((' = ', ' = ', ' = ', '=', '  =  '))
		with open(path, 'w', encoding='utf-8') as f:
			f.write('#!%s\nimport sys\nitems = %r\n' % (sys.executable, items))
			if old: f.write('''
d = {'--' + k.lower(): v for k, v in items}
a = sys.argv[1:]
w = lambda s: sys.stdout.buffer.write((s + '\\n').encode())
if not a: sys.stderr.write(''); sys.exit(1)
if a == ['--help']:
	w('pg_config provides information about the installed version of PostgreSQL.\\n\\nUsage:\\n  pg_config OPTION...\\n\\nOptions:')
	for k in d: w('  %s   show something of it' % k)
	w('  --help                show this help, then exit\\n\\nReport bugs to <x@example.org>.')
	sys.exit(0)
if '--version' in a and len(a) > 1: sys.exit(1)
for x in a: w(d[x])
''')
			else: f.write('''
out = ''.join(k + %r + v + '\\n' for k, v in items)
%s
sys.stdout.buffer.write(out.encode())
''' % (sep, r.choice(('', '', "out = 'note: nothing\\n\\n' + out", "sys.stderr.write('')"))))
		os.chmod(path, 0o755)
		lab = dict(items=items, old=old)
		g = outcome(lambda: I.pg_config_dictionary(path))
		want = {k.lower(): x.strip() for k, x in items}
		if old and g[0] == 'v': g = ('v', {k: x.strip() for k, x in g[1].items()})
		if g != ('v', want): V('dictionary', '%r, expected %r' % (g[1], want), lab); continue
		g = outcome(lambda: I.Installation(g[1]))
		if g[0] == 'e': V('installation', g[1], lab); continue
		n = g[1]
		if n.version != facts['VERSION'] or n.type != facts['VERSION'].split()[0]: V('version', '%r %r of %r' % (n.type, n.version, facts['VERSION']), lab)
		if n.version_info != final(*v): V('version-info', '%r of %r' % (n.version_info, facts['VERSION']), lab)
		wo = dict(opt(o) for o in opts)
		if n.configure_options != wo: V('configure', '%r of %r, expected %r' % (n.configure_options, facts['CONFIGURE'], wo), lab)
		ssl = any(k in ('with_openssl', 'with_ssl') and x != 'no' for k, x in wo.items())
		if n.ssl is not ssl: V('ssl', '%r of %r' % (n.ssl, facts['CONFIGURE']), lab)
		for k in ('bindir', 'docdir', 'includedir', 'pkgincludedir', 'includedir_server', 'libdir', 'pkglibdir', 'localedir', 'mandir', 'sharedir', 'sysconfdir'):
			w = want.get(k.replace('_', '-')); got = getattr(n, k)
			if got != w or n.paths[k] != w: V('directory', '%s is %r, expected %r' % (k, got, w), lab)
		for x in I.Installation.pg_executables:
			w = os.path.join(bind, x) if x in exes else None
			if getattr(n, x) != w: V('executable', '%s is %r, expected %r' % (x, getattr(n, x), w), lab)
		if i % 12 == 0:
			rc, out, err = command('postgresql.installation', path)
			if rc: V('installation-command', err[-200:], lab)
			elif facts['VERSION'] not in out or not all((k if x is True else k + '=' + x) in out for k, x in wo.items()): V('installation-command', '%r for %r' % (out, facts), lab)
			# the default is PGINSTALLATION's, or the first pg_config of PATH
			code = 'import postgresql.installation as I; i = I.default(); print(ascii(i and i.version), ascii(I.default_pg_config()))'
			def ask(**e):
				env = dict(os.environ); env.pop('PGINSTALLATION', None); env.update(e); env['PYTHONPATH'] = os.pathsep.join(x for x in sys.path if x)
				p = subprocess.run([sys.executable, '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd='/', timeout=120)
				return p.stdout.decode().strip() or p.stderr.decode()[-200:]
			if ask(PGINSTALLATION=path, PATH='/nonexistent') != '%s %s' % (ascii(facts['VERSION']), ascii(path)): V('default', ask(PGINSTALLATION=path), lab)
			if ask(PATH='/nonexistent') != 'None None': V('default', 'without any: %r' % ask(PATH='/nonexistent'), lab)
			pd = os.path.join(d, 'path'); os.makedirs(pd); os.symlink(path, os.path.join(pd, 'pg_config')); pe = os.path.join(d, 'empty'); os.makedirs(pe)
			if ask(PATH=os.pathsep.join((pe, pd, os.environ.get('PATH', '')))) != '%s %s' % (ascii(facts['VERSION']), ascii(os.path.join(pd, 'pg_config'))): V('default', 'PATH: %r' % ask(PATH=os.pathsep.join((pe, pd))), lab)
		ctx.count('installations'); ctx.case(repr(items), True, repr(items)[:150])
		if i % 40 == 39: subprocess.run(['rm', '-rf'] + [os.path.join(base, 'i%d' % j) for j in range(i - 39, i)])
	# the bare minimum
	for s in ('PostgreSQL 9', 'PostgreSQL 9.6.1.7', 'X 1.0devel'):
		g = outcome(lambda: I.Installation({'version': s}))
		if g[0] == 'e': V('installation', '%r: %s' % (s, g[1]), None)
		elif g[1].ssl or g[1].psql is not None or g[1].bindir is not None: V('installation', 'facts about nothing', None)

	# --- the real tools and the real server
	for path in ('/usr/lib/postgresql/16/bin/pg_config', '/opt/pgtest/bin/pg_config'):
		if not os.path.exists(path): continue
		raw = subprocess.run([path], stdout=subprocess.PIPE).stdout.decode()
		want = {l.split(' = ', 1)[0].lower(): l.split(' = ', 1)[1].strip() for l in raw.split('\n') if ' = ' in l}
		d = I.pg_config_dictionary(path); n = I.Installation(d)
		if d != want: V('real', '%r' % (set(d.items()) ^ set(want.items()),), None)
		for o in ('bindir', 'includedir-server', 'libdir', 'sharedir', 'version', 'pkglibdir'):
			t = subprocess.run([path, '--' + o], stdout=subprocess.PIPE).stdout.decode().strip()
			if getattr(n, o.replace('-', '_')) != t: V('real', '%s is %r, the tool says %r' % (o, getattr(n, o.replace('-', '_')), t), None)
		try: words = shlex.split(d['configure'])
		except ValueError: words = None
		if words is not None and n.configure_options != dict(opt(w) for w in words): V('real', 'configure options: %r' % (set(n.configure_options.items()) ^ set(dict(opt(w) for w in words).items()),), None)
		ctx.count('real')
	c = ctx.connect(); num = c.prepare('show server_version_num').first()
	if c.version_info[:2] != (int(num) // 10000, int(num) % 10000): V('real', 'connection: %r of %s' % (c.version_info, num), None)
	if not c.version.startswith('PostgreSQL %d.%d' % c.version_info[:2]): V('real', c.version, None)
	c.close(); ctx.count('real')
	ctx.require('versions', 'installations', 'real')
