"""C29: editing a configuration file changes exactly the requested settings."""
import os, re, subprocess, sys

KEYS = ['port', 'search_path', 'shared_buffers', 'work_mem', 'log_line_prefix', 'vf.alpha', 'vf.beta_2', 'application_name', 'archive_command', 'x', 'timezone', 'datestyle', 'include_dirs', 'ünï.cödé']
VALS = ['5432', '128MB', 'on', 'off', 'a', '-1', '1.5', 'public', 'Foo', '0x1F', 'a-b.c:d/e']
HOST = ["it's", "''", "'", '\\', 'a\\b', "\\'", 'a b', ' lead', 'trail ', '#', 'a#b', '# c', '"$user", public', 'a=b', '=', '%m [%p] ', 'é日', '', "cp %p '/x y/%f'", '\t', 'x\ny', '\r', 'a\\nb', "x''y", "'quoted'", '\\\\', '\\101', "end\\", '{', 'include x', "'#'", 'x' * 200]

# -- an independent reader following the server's grammar
L = r'[A-Za-z_\x80-\U0010ffff]'
TOK = re.compile(r"""(?xs)[ \t\r]*(?:
	(?P<name>%s[A-Za-z_0-9\x80-\U0010ffff]*(?:\.%s[A-Za-z_0-9\x80-\U0010ffff]*)?)(?![-:/.])
|	(?P<comment>\#.*)
)""" % (L, L))
VAL = re.compile(r"""(?xs)(?:'(?P<q>(?:[^'\\\n]|\\[^\n]|'')*)'|(?P<u>[-+]?[0-9][0-9A-Za-z.xX]*|%s[-A-Za-z_0-9\x80-\U0010ffff._:/]*))""" % L)
def dequote(s):
	out, i = '', 0
	while i < len(s):
		c = s[i]
		if c == '\\':
			c = s[i + 1]
			if c in '01234567':
				m = re.match('[0-7]{1,3}', s[i + 1:]).group(0)
				out += chr(int(m, 8) & 0xFF); i += 1 + len(m); continue
			out += {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}.get(c, c); i += 2
		elif c == "'": out += "'"; i += 2
		else: out += c; i += 1
	return out

def read_line(l):
	"""(key, value, rest) of a setting, None for no setting, ValueError for a syntax error."""
	l = l.rstrip('\n')
	m = TOK.match(l)
	if m is None:
		if l.strip(' \t\r'): raise ValueError(l)
		return None
	if m.group('comment') is not None: return None
	rest = l[m.end():].lstrip(' \t\r')
	if rest.startswith('='): rest = rest[1:].lstrip(' \t\r')
	v = VAL.match(rest)
	if v is None: raise ValueError(l)
	tail = rest[v.end():].strip(' \t\r')
	if tail and not tail.startswith('#'): raise ValueError(l)
	return m.group('name').lower(), dequote(v.group('q')) if v.group('q') is not None else v.group('u'), tail

def read(text):
	d = {}
	for l in text.split('\n'):
		x = read_line(l)
		if x and x[0] not in ('include', 'include_if_exists', 'include_dir'): d[x[0]] = x[1]
	return d

# -- files
def spell(r, v, style=None):
	if style is None: style = r.random()
	if style < .5 and VAL.fullmatch(v) and not v.startswith("'"): return v
	out = ''
	for c in v:
		if c == "'": out += r.choice(("''", "\\'"))
		elif 0 < ord(c) < 128 and r.random() < .02: out += '\\%03o' % (ord(c) + r.choice((0, 256))) # the ninth bit is nobody's
		elif c == '\\': out += '\\\\'
		elif c == '\n': out += '\\n'
		elif c == '\r': out += '\\r'
		elif c == '\t': out += r.choice(('\t', '\\t'))
		elif c.isascii() and c.isalpha() and c not in 'bfnrt' and r.random() < .05: out += r.choice(('\\' + c, '\\%03o' % ord(c)))
		else: out += c
	return "'" + out + "'"

def case(r, k): return r.choice((k, k, k, k.upper(), k.title(), ''.join(r.choice((c.upper(), c)) for c in k))) if k.isascii() else k
def val(r): return r.choice(VALS) if r.random() < .5 else r.choice(HOST)

def setting(r, keys):
	k = case(r, r.choice(keys)); v = spell(r, val(r))
	eq = r.choice(('=', ' = ', ' =', '= ', '\t=\t', ' ', '   ', '\t')) if not v.startswith("'") else r.choice(('=', ' = ', ' ', ' =', '\t', ''))
	return r.choice(('', '', ' ', '\t')) + k + eq + v + r.choice(('', '', '', ' ', '\t# why', ' # x = y', ' # it\'s', '# close', ' #'))

def line(r, keys):
	k = r.random()
	if k < .42: return setting(r, keys)
	if k < .62: return r.choice(('#', '# ', '  #', '## ', '#\t', '# # ')) + setting(r, keys)
	if k < .75: return ''
	if k < .8: return r.choice((' ', '\t', '\t  '))
	if k < .85: return r.choice(("include_if_exists 'nothing.conf'", "include_if_exists = 'nothing.conf'", "#include_dir = 'conf.d'", "# include 'x'"))
	return r.choice(('# a comment', '#', '# This is port', "# don't", '# port is good', '#------', '# x', '# (change requires restart) port = 1', '# see "port = 5"', '# %s is the default' % r.choice(keys), '# = ', "# 'x' = 1", '# é'))

def body(r, keys):
	n = r.choice((0, 1, 2, 4, 8, 20))
	t = ''.join(line(r, keys) + '\n' for i in range(n))
	if t and r.random() < .25: t = t[:-1]
	return t

CAND = re.compile(r'[\s#]*([^\W\d][\w.]*)')
def mentions(l, keys):
	m = CAND.match(l)
	return m is not None and m.group(1).lower() in keys

def preserved(before, after, changed):
	"""Why the edit is not confined to occurrences of `changed`, or None."""
	a, b = before.split('\n'), after.split('\n')
	if a and a[-1] == '': a.pop()
	if b and b[-1] == '': b.pop()
	if len(b) < len(a): return 'lines vanished: %r' % (b,)
	for x, y in zip(a, b):
		if x == y: continue
		try: s = read_line(x)
		except ValueError: s = None
		if s is not None and s[0] in changed:
			# an occurrence: commented, or with another value and its comment
			if y == '#' + x: continue
			try: t = read_line(y)
			except ValueError: return 'line %r became %r' % (x, y)
			if t is None or t[0] != s[0] or t[2] != s[2]: return 'line %r became %r' % (x, y)
			if re.match(r'\s*', x).group(0) != re.match(r'\s*', y).group(0): return 'indentation: %r became %r' % (x, y)
		elif s is None and x.lstrip().startswith('#') and mentions(x, changed):
			try: t = read_line(y)
			except ValueError: return 'line %r became %r' % (x, y)
			if t is None or t[0] not in changed: return 'comment %r became %r' % (x, y)
		else: return 'unrelated line %r became %r' % (x, y)
	for y in b[len(a):]:
		try: t = read_line(y)
		except ValueError: return 'added %r' % y
		if t is None or t[0] not in changed: return 'added %r' % y
	return None

def main(ctx):
	ctx.rule = 'a distinct file and edit'
	import postgresql.configfile as cf
	path = os.path.join(ctx.scratch, 'vf.conf')
	# the server reads the file too
	server = None
	db = ctx.connect()
	conf = db.prepare('SHOW config_file').first()
	try:
		with open(conf, 'a') as f: f.write("\ninclude_if_exists = '%s'\n" % path)
		server = db.prepare("SELECT lower(name), setting, error, sourceline FROM pg_file_settings WHERE sourcefile = $1 ORDER BY seqno")
		ctx.count('server-readings', 0)
	except OSError as e: print('no server readings', e)
	def served():
		d = {}
		for n, s, err, ln in server(path):
			if err is not None and 'syntax' in err: return 'line %s: %s' % (ln, err)
			if n is not None: d[n] = s
		return d
	def judge(what, before, after, want, changed, desc, srv):
		try: got = read(after)
		except ValueError as e: ctx.violation(what + ':broken', 'the server would refuse %r of %r' % (str(e), after), desc); return
		if got != want:
			k = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)][0]
			ctx.violation('%s:%s' % (what, 'requested' if k in changed else 'others'), '%s is %r, expected %r in %r, from %r' % (k, got.get(k), want.get(k), after, before), desc)
		p = preserved(before, after, changed)
		if p: ctx.violation(what + ':preserved', '%s; %r became %r' % (p, before, after), desc)
		if srv and server is not None:
			if '\x00' in after: return
			with open(path, 'w', newline='') as f: f.write(after)
			s = served(); ctx.count('server-readings')
			if s != want: ctx.violation(what + ':server', 'the server reads %r, expected %r in %r' % (s, want, after), desc)
	r = ctx.rng('alter')
	for i in range(ctx.scale(12000, 150000)):
		keys = r.sample(KEYS, r.choice((1, 2, 4, 8)))
		before = body(r, keys)
		base = read(before)
		ch = {}
		for k in r.sample(KEYS if r.random() < .3 else keys, 1 if r.random() < .5 else min(len(keys), 3)):
			ch[case(r, k)] = None if r.random() < .3 else base[k] if k in base and r.random() < .2 else val(r)
		want = dict(base)
		for k, v in ch.items():
			if v is None: want.pop(k.lower(), None)
			else: want[k.lower()] = v
		desc = dict(file=before, changes=repr(ch))
		srv = i % 12 == 0
		try: lines = cf.alter_config(ch, before.splitlines(True) if False else re.findall('[^\n]*\n|[^\n]+', before))
		except Exception as e: ctx.violation('alter:raised', '%s: %s' % (type(e).__name__, e), desc); continue
		after = ''.join(lines)
		ctx.case((before, repr(ch)), sample='%r %r' % (before[:200], ch) if i % 2000 == 3 else None); ctx.count('edits')
		ctx.count('with-duplicates', len(re.findall(r'(?im)^\s*%s\b' % re.escape(next(iter(ch))), before)) > 1)
		judge('alter', before, after, want, {k.lower() for k in ch}, desc, srv)
		# what the module reads is what is in force
		try: got = cf.read_config(re.findall('[^\n]*\n|[^\n]+', before))
		except Exception as e: ctx.violation('read:raised', '%s: %s' % (type(e).__name__, e), desc); continue
		if got != base:
			k = [k for k in sorted(set(got) | set(base)) if got.get(k) != base.get(k)][0]
			ctx.violation('read', '%s read as %r, is %r in %r' % (k, got.get(k), base.get(k), before), desc)
		if srv and server is not None:
			with open(path, 'w', newline='') as f: f.write(before)
			s = served()
			if s != base: ctx.inconclusive.append('reader disagrees with the server: %r is %r to the server, %r' % (before, s, base))
		# editing again changes nothing more
		if i % 5 == 0:
			again = ''.join(cf.alter_config(ch, re.findall('[^\n]*\n|[^\n]+', after)))
			if again.rstrip('\n') != after.rstrip('\n'): ctx.violation('alter:repeated', '%r became %r' % (after, again), desc)
	# -- histories on the mapping
	r = ctx.rng('mapping')
	fn = os.path.join(ctx.scratch, 'map.conf')
	for i in range(ctx.scale(500, 6000)):
		keys = r.sample(KEYS, r.choice((2, 4, 6)))
		with open(fn, 'w') as f: f.write(body(r, keys))
		c = cf.ConfigFile(fn)
		hist = [open(fn).read()]
		model = read(hist[0])
		stack = []
		ctx.count('histories')
		for j in range(r.choice((4, 10, 20))):
			before = open(fn).read()
			k = case(r, r.choice(keys if r.random() < .9 else KEYS)); lk = k.lower()
			op = r.choice(('set', 'set', 'update', 'del', 'none', 'get', 'getitem', 'in', 'len', 'iter', 'keys', 'items', 'values', 'getset', 'enter', 'exit', 'exit-error'))
			changed = set()
			hist.append((op, k)); desc = dict(history=hist)
			try:
				if op == 'set':
					v = val(r); hist[-1] = (op, k, v); c[k] = v; model[lk] = v; changed = {lk}
				elif op == 'none': c[k] = None; model.pop(lk, None); changed = {lk}
				elif op == 'update':
					d = {case(r, x): r.choice((None, val(r), val(r))) for x in r.sample(keys, r.choice((1, 2)))}
					hist[-1] = (op, d); c.update(d)
					for a, b in d.items():
						if b is None: model.pop(a.lower(), None)
						else: model[a.lower()] = b
					changed = {a.lower() for a in d}
				elif op == 'del':
					try: del c[k]
					except KeyError:
						if lk in model: raise
					model.pop(lk, None); changed = {lk}
				elif op == 'get':
					if c.get(k) != model.get(lk): ctx.violation('mapping:get', '%r, expected %r' % (c.get(k), model.get(lk)), desc)
					if c.get(k, 7) != model.get(lk, 7): ctx.violation('mapping:get', 'default', desc)
				elif op == 'getitem':
					try: v = c[k]
					except KeyError: v = None
					if v != model.get(lk): ctx.violation('mapping:getitem', '%r, expected %r' % (v, model.get(lk)), desc)
				elif op == 'in':
					if (k in c) != (lk in model): ctx.violation('mapping:in', '%r %r' % (k in c, lk in model), desc)
				elif op == 'len':
					if len(c) != len(model): ctx.violation('mapping:len', '%r, expected %r' % (len(c), len(model)), desc)
				elif op == 'iter':
					if sorted(c) != sorted(model): ctx.violation('mapping:iter', '%r, expected %r' % (list(c), model), desc)
				elif op == 'keys':
					if sorted(c.keys()) != sorted(model): ctx.violation('mapping:keys', '%r, expected %r' % (list(c.keys()), model), desc)
				elif op == 'items':
					if dict(c.items()) != model: ctx.violation('mapping:items', '%r, expected %r' % (dict(c.items()), model), desc)
				elif op == 'values':
					if sorted(c.values()) != sorted(model.values()): ctx.violation('mapping:values', '%r, expected %r' % (list(c.values()), model), desc)
				elif op == 'getset':
					ks = [case(r, x) for x in r.sample(KEYS, 3)]
					g = c.getset(ks)
					if g != {x: model.get(x.lower()) for x in ks}: ctx.violation('mapping:getset', '%r of %r in %r' % (g, ks, model), desc)
				elif op == 'enter' and len(stack) < 3:
					d = {x: r.choice((None, val(r))) for x in r.sample([q for q in KEYS if q.isidentifier()], r.choice((1, 2)))}
					hist[-1] = (op, d)
					cm = c(**d); cm.__enter__()
					stack.append((cm, {x: model.get(x) for x in d}))
					for a, b in d.items():
						if b is None: model.pop(a, None)
						else: model[a] = b
					changed = set(d); ctx.count('contexts')
				elif op.startswith('exit') and stack:
					cm, old = stack.pop()
					e = ValueError('x') if op == 'exit-error' else None
					if cm.__exit__(type(e) if e else None, e, None) and e: ctx.violation('mapping:exit', 'the error of the block was swallowed', desc)
					for a, b in old.items():
						if b is None: model.pop(a, None)
						else: model[a] = b
					changed = set(old)
			except Exception as e:
				ctx.violation('mapping:raised:' + op, '%s: %s' % (type(e).__name__, e), desc); break
			after = open(fn).read(); ctx.count('operations'); ctx.case(repr(hist))
			if not changed and after != before: ctx.violation('mapping:modified', '%s changed the file: %r, %r' % (op, before, after), desc)
			n = len(ctx.violations)
			judge('mapping', before, after, model, changed, desc, i % 10 == 0 and bool(changed))
			if len(ctx.violations) > n: break
	# -- the command line editor
	r = ctx.rng('dotconf')
	import io
	from postgresql.bin import pg_dotconf
	for i in range(ctx.scale(250, 2500)):
		keys = r.sample(KEYS, r.choice((2, 4, 6)))
		before = body(r, keys); base = read(before)
		with open(fn, 'w') as f: f.write(before)
		want = dict(base); args = []; changed = set()
		desc = dict(file=before, args=args)
		if r.random() < .4:
			s = body(r, keys); desc['settings'] = s
			with open(fn + '.set', 'w') as f: f.write(s)
			args += r.choice((['-f', fn + '.set'], ['--file=' + fn + '.set']))
			st = read(s); want.update(st); changed |= set(st)
		args.append(fn)
		pending = {}
		for k in r.sample(keys, r.choice((0, 1, 2))):
			v = r.choice((None, val(r)))
			args.append(k if v is None else k + '=' + v)
			pending[k] = v
		for k, v in pending.items():
			changed.add(k)
			if v is None: want.pop(k, None)
			else: want[k] = v
		std = r.random() < .4
		if std: args.insert(0, '--stdout')
		old = sys.stdout; sys.stdout = out = io.StringIO()
		try: rc = pg_dotconf.command(['pg_dotconf'] + args)
		except (Exception, SystemExit) as e: ctx.violation('dotconf:raised', '%s: %s' % (type(e).__name__, e), desc); continue
		finally: sys.stdout = old
		after = open(fn).read()
		ctx.count('dotconf'); ctx.case(repr(desc))
		if std:
			if after != before: ctx.violation('dotconf:modified', 'the file was changed by --stdout', desc)
			after = out.getvalue()
		judge('dotconf', before, after, want, changed, desc, False)
	# settings without a name are refused, and nothing is changed
	for i in range(ctx.scale(40, 400)):
		before = body(r, KEYS[:4])
		with open(fn, 'w') as f: f.write(before)
		args = ['%s=%s' % (k, val(r)) for k in r.sample(KEYS, 2)]; args.insert(r.randrange(3), r.choice(('=', '=x', ' =x', '', '  ', '=a=b')))
		old = sys.stdout, sys.stderr; sys.stdout = out = io.StringIO(); sys.stderr = io.StringIO()
		desc = dict(file=before, args=args)
		try: rc = pg_dotconf.command(['pg_dotconf', fn] + args)
		except SystemExit as e: rc = e.code
		except Exception as e: rc = 'refused'; ctx.violation('dotconf:raised', '%s: %s' % (type(e).__name__, e), desc)
		finally: sys.stdout, sys.stderr = old
		if not rc or open(fn).read() != before or out.getvalue(): ctx.violation('dotconf:nameless', 'a setting without a name: exit %r' % (rc,), desc)
		ctx.count('nameless'); ctx.case(repr(desc))
	# reading a selection of the settings
	for i in range(ctx.scale(150, 1500)):
		t = body(r, KEYS); all_ = read(t); some = {k for k in KEYS if r.random() < .5}; asked = []
		d = {'kept': 'x'} if r.random() < .5 else None; want = dict(d or {}); want.update((k, v) for k, v in all_.items() if k in some)
		g = cf.read_config(t.splitlines(True), d, selector=lambda k: (asked.append(k), k in some)[1])
		if g != want or (d is not None and g is not d): ctx.violation('selector', '%r, expected %r' % (g, want), dict(file=t, selected=sorted(some)))
		ctx.count('selections'); ctx.case((t, repr(sorted(some))))
	db.close()
	ctx.require('nameless', 'selections', 'edits', 'histories', 'operations', 'contexts', 'dotconf', 'with-duplicates')
	if server is not None: ctx.require('server-readings')
