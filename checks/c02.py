"""C02: every message against an independent protocol v3 codec; malformed bodies; fuzz."""
import struct
from vf import pq, boot

def u16(n): return struct.pack('!H', n)
def u32(n): return struct.pack('!I', n)

ALPH = [b'', b'a', b'select 1', b'\xff\xfe', b'x' * 255, b'y' * 256, b' ', b'S', b'P', b'\x01\x02', 'h\u00e9\u4e2d\U0001f600'.encode(), b'%s', b"'; --"]
def cstr(r, big=True):
	k = r.random()
	if k < .5: return r.choice(ALPH)
	n = r.choice((1, 3, 8, 63, 64, 300)) if k < .97 or not big else r.choice((65535, 65536, 100001))
	return bytes(r.randrange(1, 256) for _ in range(n)) if n < 1000 else bytes([r.randrange(1, 256)]) * n
def raw(r):
	k = r.random()
	if k < .3: return b''
	if k < .5: return r.choice((b'\x00', b'\xff\xff\xff\xff', b'\x00\x00\x00\x04', b'\x00' * 9))
	return r.randbytes(r.choice((1, 2, 3, 4, 7, 100, 255, 256, 257)) if k < .98 else r.choice((65535, 65536, 70000)))
def vals(r):
	n = r.choice((0, 0, 1, 1, 2, 3, 7, 40)) if r.random() < .97 else r.choice((255, 256, 1600, 32767, 32768, 65535))
	return [None if r.random() < .25 else (raw(r) if n < 100 else r.randbytes(r.randrange(3))) for _ in range(n)]
def u32v(r): return r.choice((0, 1, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, r.randrange(2**32)))
def i32v(r): return r.choice((0, 1, -1, -2, 2**31 - 1, -2**31, r.randrange(-2**31, 2**31)))
def i16v(r): return r.choice((0, 1, -1, -2, 32767, -32768, r.randrange(-32768, 32768)))
def u16v(r): return r.choice((0, 1, 255, 256, 32767, 32768, 65535, r.randrange(65536)))
def fmts(r, n): return [r.choice((b'\x00\x00', b'\x00\x01')) for _ in range(n)]
def packv(vs): return b''.join(b'\xff\xff\xff\xff' if v is None else u32(len(v)) + v for v in vs)

# name -> generator(e, r) -> (message object, type byte, body, {attribute: value} or sequence)
G = {}
def g(f): G[f.__name__] = f; return f

@g
def Startup(e, r):
	d = {}
	for i in range(r.randrange(6)):
		k = cstr(r, False) or b'k'
		d[k] = cstr(r)
	d2 = dict(d)
	if r.random() < .3: d2[b'dropped'] = None
	return e.Startup(d2), None, b'\x00\x03\x00\x00' + b''.join(k + b'\0' + v + b'\0' for k, v in d.items()) + b'\0', d
@g
def CancelRequest(e, r):
	a, b = u32v(r), u32v(r)
	return e.CancelRequest(a, b), None, u16(1234) + u16(5678) + u32(a) + u32(b), dict(pid=a, key=b)
@g
def NegotiateSSL(e, r): return e.NegotiateSSL(), None, u16(1234) + u16(5679), {}
def stringm(cls, t):
	def f(e, r):
		s = cstr(r)
		return getattr(e, cls)(s), t, s + b'\0', dict(data=s)
	f.__name__ = cls; return g(f)
for c, t in (('Password', b'p'), ('Query', b'Q'), ('CopyFail', b'f')): stringm(c, t)
@g
def Complete(e, r):
	s = r.choice((b'SELECT 5', b'INSERT 0 12', b'', b'CREATE TABLE', b'COPY 0', b'FETCH 2147483648', b'X')) + (b' %d' % u32v(r) if r.random() < .3 else b'')
	return e.Complete(s), b'C', s + b'\0', dict(data=s)
def sub(cls, t, s):
	def f(e, r):
		n = cstr(r)
		return getattr(e, cls)(n), t, s + n + b'\0', dict(data=n)
	f.__name__ = cls; return g(f)
sub('DescribeStatement', b'D', b'S'); sub('DescribePortal', b'D', b'P'); sub('CloseStatement', b'C', b'S'); sub('ClosePortal', b'C', b'P')
def emptym(cls, t):
	def f(e, r): return getattr(e, cls)(), t, b'', {}
	f.__name__ = cls; return g(f)
for c, t in (('Null', b'I'), ('NoData', b'n'), ('ParseComplete', b'1'), ('BindComplete', b'2'), ('CloseComplete', b'3'), ('Suspension', b's'), ('Disconnect', b'X'), ('Flush', b'H'), ('Synchronize', b'S'), ('CopyDone', b'c')):
	emptym(c, t)
@g
def Ready(e, r):
	s = r.choice((b'I', b'E', b'T'))
	return e.Ready(s), b'Z', s, dict(xact_state=s)
@g
def Notify(e, r):
	p, c, d = u32v(r), cstr(r) , cstr(r)
	return e.Notify(p, c, d), b'A', u32(p) + c + b'\0' + d + b'\0', dict(pid=p, channel=c, payload=d)
@g
def ShowOption(e, r):
	c, d = cstr(r), cstr(r)
	return e.ShowOption(c, d), b'S', c + b'\0' + d + b'\0', dict(name=c, value=d)
def noticem(cls, t):
	def f(e, r):
		ks = r.sample([bytes([i]) for i in range(1, 256)], r.randrange(12)) if r.random() < .3 else r.sample([b'S', b'V', b'C', b'M', b'D', b'H', b'P', b'p', b'q', b'W', b's', b't', b'c', b'd', b'n', b'F', b'L', b'R'], r.randrange(18))
		d = {k: cstr(r) for k in ks}
		d2 = dict(d)
		if r.random() < .3: d2[b'Y'] = None; d.pop(b'Y', None)
		return getattr(e, cls)(d2), t, b''.join(k + v + b'\0' for k, v in d.items()) + b'\0', d
	f.__name__ = cls; return g(f)
noticem('Notice', b'N'); noticem('Error', b'E')
@g
def FunctionResult(e, r):
	v = r.choice((None, raw(r), raw(r)))
	if v == b'\xff\xff\xff\xff': pass
	return e.FunctionResult(v), b'V', packv([v]), dict(result=v)
@g
def AttributeTypes(e, r):
	l = [u32v(r) for _ in range(r.choice((0, 1, 2, 3, 50, 1000, 65535 if r.random() < .05 else 4)))]
	return e.AttributeTypes(l), b't', u16(len(l)) + b''.join(map(u32, l)), tuple(l)
@g
def TupleDescriptor(e, r):
	l = [(cstr(r, False), u32v(r), i16v(r), u32v(r), i16v(r), i32v(r), r.choice((0, 1))) for _ in range(r.choice((0, 1, 2, 5, 100)) if r.random() < .98 else 1664)]
	return e.TupleDescriptor(l), b'T', u16(len(l)) + b''.join(a[0] + b'\0' + struct.pack('!IhIhih', *a[1:]) for a in l), tuple(l)
@g
def Tuple(e, r):
	v = vals(r)
	return e.Tuple(v), b'D', u16(len(v)) + packv(v), tuple(v)
@g
def KillInformation(e, r):
	a, b = u32v(r), u32v(r)
	return e.KillInformation(a, b), b'K', u32(a) + u32(b), dict(pid=a, key=b)
@g
def Authentication(e, r):
	a, b = r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, u32v(r))), raw(r)
	return e.Authentication(a, b), b'R', u32(a) + b, dict(request=a, salt=b)
@g
def Parse(e, r):
	n, s, t = cstr(r, False), cstr(r), tuple(u32v(r) for _ in range(r.choice((0, 0, 1, 2, 9, 1000))))
	return e.Parse(n, s, t), b'P', n + b'\0' + s + b'\0' + u16(len(t)) + b''.join(map(u32, t)), dict(name=n, statement=s, argtypes=t)
@g
def Bind(e, r):
	n, s, a = cstr(r, False), cstr(r, False), vals(r)
	af, rf = fmts(r, len(a)), fmts(r, r.choice((0, 1, 2, 5, 300)))
	return (e.Bind(n, s, tuple(af), a, tuple(rf)), b'B', n + b'\0' + s + b'\0' + u16(len(a)) + b''.join(af) + u16(len(a)) + packv(a) + u16(len(rf)) + b''.join(rf),
		dict(name=n, statement=s, aformats=tuple(af), arguments=a, rformats=tuple(rf)))
@g
def Execute(e, r):
	n, m = cstr(r, False), u32v(r)
	return e.Execute(n, m), b'E', n + b'\0' + u32(m), dict(name=n, max=m)
@g
def Function(e, r):
	o, a = u32v(r), vals(r)
	af, rf = fmts(r, len(a)), r.choice((b'\0\0', b'\0\1'))
	return e.Function(o, tuple(af), a, rf), b'F', u32(o) + u16(len(a)) + b''.join(af) + u16(len(a)) + packv(a) + rf, dict(oid=o, aformats=tuple(af), arguments=a, rformat=rf)
def copym(cls, t):
	def f(e, r):
		a, l = r.choice((0, 1)), [r.choice((0, 1, u16v(r))) for _ in range(r.choice((0, 1, 2, 40, 1600)))]
		return getattr(e, cls)(a, l), t, bytes([a]) + u16(len(l)) + b''.join(map(u16, l)), dict(format=a, formats=l)
	f.__name__ = cls; return g(f)
copym('CopyToBegin', b'H'); copym('CopyFromBegin', b'G')
@g
def CopyData(e, r):
	d = raw(r)
	return e.CopyData(d), b'd', d, dict(data=d)

# bodies whose counts, lengths, terminators or markers contradict their size -> must be refused
def bad_bodies(name, body, r):
	if name in ('Null', 'NoData', 'ParseComplete', 'BindComplete', 'CloseComplete', 'Suspension', 'Disconnect', 'Flush', 'Synchronize', 'CopyDone'):
		yield b'\0'; yield raw(r) + b'x'
	elif name in ('Password', 'Query', 'CopyFail'):
		yield b''; yield body[:-1].rstrip(b'\0') if body[:-1].rstrip(b'\0') else b'q'; yield body + b'z'
	elif name in ('DescribeStatement', 'DescribePortal', 'CloseStatement', 'ClosePortal'):
		other = b'P' if body[:1] == b'S' else b'S'
		yield other + body[1:]; yield b''; yield body[:1]; yield b'\0' + body[1:]; yield body + b'z'
	elif name == 'Ready':
		for x in (b'', b'II', b'x', b'\0', b'i', b'IT'): yield x
	elif name == 'AttributeTypes':
		yield body[:1]; yield body + b'\0'; yield body + u32(1); n = struct.unpack('!H', body[:2])[0]
		yield u16((n + 1) & 0xffff) + body[2:]
		if n: yield body[:-1]; yield u16(n - 1) + body[2:]
	elif name == 'TupleDescriptor':
		n = struct.unpack('!H', body[:2])[0]
		yield body[:1]; yield u16(n + 1) + body[2:]
		if n: yield body[:-1]; yield body[:len(body) - r.randrange(1, 18)]; yield body[:2]
	elif name == 'Tuple':
		n = struct.unpack('!H', body[:2])[0]
		yield b''; yield body[:1]; yield body + b'\0'; yield body + b'\xff\xff\xff\xff'
		if n < 65535: yield u16(n + 1) + body[2:]
		if n:
			yield body[:-1]; yield body[:r.randrange(2, len(body))]; yield u16(n - 1) + body[2:]
			yield u16(n) + u32(2**31) + body[6:]; yield u16(n) + u32(2**32 - 2) + body[6:]; yield u16(n) + u32(len(body)) + body[6:]
	elif name in ('KillInformation', 'CancelRequest'):
		yield body[:-1]; yield body + b'\0'; yield b''
		if name == 'CancelRequest': yield b'\0\3\0\0' + body[4:]
	elif name == 'NegotiateSSL':
		yield b''; yield body + b'\0'; yield u16(1234) + u16(5678)
	elif name == 'Startup':
		yield b'\0\2\0\0' + body[4:]; yield b'\0'
	elif name == 'FunctionResult':
		yield b''; yield u32(7) + b'abc'; yield u32(0) + b'a'; yield u32(2**32 - 2); yield body + b'\0'
		if len(body) > 4: yield body[:-1]
	elif name in ('CopyToBegin', 'CopyFromBegin'):
		yield b''; yield body[:2]; yield body + b'\0'; yield body + b'\0\0'
		if len(body) > 3: yield body[:-1]; yield body[:-2]
	elif name == 'Parse':
		yield b''; yield body[:-1]; yield body + b'\0'; yield body + u32(1)
	elif name == 'Authentication':
		yield b''; yield b'\0\0\0'
	elif name == 'Execute':
		yield b''; yield b'abc'; yield b'\0\0\0\0'
	elif name == 'Notify':
		yield b''; yield b'\0\0\0'; yield u32(1) + b'chan'; yield u32(1) + b'chan\0load'
	elif name == 'ShowOption':
		yield b''; yield b'name'

def attrs(msg, want):
	if isinstance(want, tuple): return tuple(msg) == want
	if isinstance(msg, dict): return dict(msg) == want
	for k, v in want.items():
		x = getattr(msg, k)
		if isinstance(v, (list, tuple)): x, v = list(x), list(v)
		if x != v or type(x) is not type(v): return False
	return True

def model_count(tag):
	for w in reversed(tag.split()):
		if w.isdigit(): return int(w)
	return None

def one(ctx, e, mode, name, r, case):
	msg, t, body, want = G[name](e, r)
	cls = getattr(e, name)
	def bad(what, d): ctx.violation('message:%s:%s' % (what, name), '%s (%s element3, case %s): %s' % (name, mode, case, str(d)[:700]), dict(body=body[:2000].hex(), case=case))
	got = msg.serialize()
	if type(got) is not bytes or got != body:
		bad('serialize', 'serialize() gave %r, the protocol says %r' % (got[:200], body[:200]))
	full = msg.bytes()
	head = (t or b'') + u32(len(body) + 4)
	if full != head + body: bad('bytes', 'bytes() gave %r, expected header %r' % (full[:40], head))
	if t is not None and msg.type != t: bad('type', 'type is %r' % (msg.type,))
	p = cls.parse(body)
	if name == 'Tuple':
		if not isinstance(p, tuple) or tuple(p) != want: bad('parse', 'parse gave %r, expected %r' % (str(p)[:200], str(want)[:200]))
	else:
		if not isinstance(p, cls): bad('parse', 'parse gave a %r' % type(p))
		elif not attrs(p, want): bad('parse', 'parsed fields %r differ from %r' % (str(p)[:300], str(want)[:300]))
		elif not (p == (cls(want) if isinstance(msg, dict) else msg)) or not attrs(msg, want if not (isinstance(msg, dict)) else dict(msg)): bad('equal', 'the parsed message does not compare equal to the original')
	ctx.case((name, body), sample='%s body=%r' % (name, body[:80]))
	ctx.count('type:' + name)
	for b in bad_bodies(name, body, r):
		ctx.count('malformed')
		try:
			x = cls.parse(b)
		except Exception as ex:
			continue
		bad('malformed-accepted', 'a body that contradicts its format was parsed: %r -> %r' % (b[:200], str(x)[:200]))
	return msg, (t or b'') + u32(len(body) + 4) + body

def main(ctx):
	from postgresql.protocol import element3 as native
	from postgresql.protocol import version
	pure, = boot.pure_copy('postgresql.protocol.element3')
	ctx.rule = 'random field contents per message class, in the default and the pure-Python configuration; distinct by body'
	ctx.require('malformed', 'cat', 'fuzz', *['type:' + n for n in G])
	assert pure is not native and pure.Tuple.parse is not native.Tuple.parse
	rounds = ctx.scale(100, 2500)
	n = 0
	while n < rounds and ctx.elapsed() < ctx.scale(60, 800):
		for mode, e in (('native', native), ('pure', pure)):
			r = ctx.rng(n)
			pairs = []
			for name in G:
				with ctx.step('message ' + name, n):
					try:
						pairs.append(one(ctx, e, mode, name, r, n))
					except Exception as ex:
						import traceback
						ctx.violation('message:exception:%s' % name, '%s: %s in %s' % (type(ex).__name__, ex, mode), traceback.format_exc()[-1500:])
			# concatenation, as used on the wire: messages, raw COPY lines, raw tuples
			pairs = [p for p in pairs if len(p[1]) < 20000]
			r.shuffle(pairs)
			seq, want = [], []
			for m, w in pairs:
				for _ in range(r.choice((0, 0, 0, 1, 2, 5))):
					d = raw(r); seq.append(d); want.append(b'd' + u32(len(d) + 4) + d)
				for _ in range(r.choice((0, 0, 0, 1, 3))):
					v = tuple(vals(r)[:300]); seq.append(v); b = u16(len(v)) + packv(v); want.append(b'D' + u32(len(b) + 4) + b)
				seq.append(m); want.append(w)
			for arg in (seq, tuple(seq), iter(seq)):
				out = e.cat_messages(arg)
				ctx.count('cat')
				if out != b''.join(want):
					ctx.violation('message:cat', 'cat_messages() of %d messages is not the concatenation of their wire forms (%s)' % (len(seq), mode), [str(x)[:80] for x in seq[:40]])
			# inequality: different messages must not compare equal
			if len(pairs) > 1:
				for (a, wa), (b, wb) in zip(pairs, pairs[1:]):
					if type(a) is not type(b) and wa != wb and not isinstance(a, tuple) and a == b:
						ctx.violation('message:equal:distinct', '%r == %r' % (str(a)[:100], str(b)[:100]))
			for name in ('Password', 'Query', 'Parse', 'Bind', 'Execute', 'KillInformation', 'Notify', 'ShowOption', 'TupleDescriptor', 'AttributeTypes', 'Authentication', 'FunctionResult', 'CopyData', 'CopyToBegin', 'Ready', 'Complete', 'DescribeStatement', 'Error'):
				a, b = G[name](e, r), G[name](e, r)
				if isinstance(a[0], dict): a, b = ((type(x[0])(x[3]), 0, 0, x[3]) for x in (a, b))
				if (a[0] == b[0]) != (a[3] == b[3]):
					ctx.violation('message:equal:' + name, '== is %s for %r and %r' % (a[0] == b[0], str(a[0])[:200], str(b[0])[:200]))
			# arbitrary bodies: an error or a message, nothing else, and promptly
			for name in list(G) + ['WireMessage']:
				cls = getattr(e, name)
				for k in range(6):
					if name == 'WireMessage': base = b''
					else: base = G[name](e, r)[2]
					b = bytearray(base[:4000])
					for _ in range(r.choice((1, 1, 2, 5))):
						op = r.randrange(4)
						if op == 0 and b: b[r.randrange(len(b))] = r.choice((0, 0xff, 0x7f, 0x80, r.randrange(256)))
						elif op == 1: b = b[:r.randrange(len(b) + 1)]
						elif op == 2: b += r.randbytes(r.randrange(9))
						elif op == 3: i = r.randrange(len(b) + 1); b[i:i] = r.randbytes(r.randrange(1, 5))
					ctx.count('fuzz')
					with ctx.step('fuzz ' + name, bytes(b)[:500]):
						try:
							m = cls.parse(bytes(b))
						except Exception:
							ctx.count('fuzz-refused')
						else:
							ctx.count('fuzz-parsed')
			# command tags
			tag = b' '.join(r.choice((b'SELECT', b'INSERT', b'0', b'%d' % u32v(r), b'CREATE', b'TABLE', b'9a', b'MOVE')) for _ in range(r.randrange(5)))
			c = e.Complete(tag)
			if c.extract_count() != model_count(tag): ctx.violation('message:count', 'extract_count(%r) = %r' % (tag, c.extract_count()))
			w = tag.strip(b' 0123456789') or None
			if c.extract_command() != w: ctx.violation('message:command', 'extract_command(%r) = %r' % (tag, c.extract_command()))
			# a generic message
			t, d = bytes([r.randrange(256)]), raw(r)
			wire = t + u32(len(d) + 4) + d
			m = e.WireMessage.parse(wire)
			if m.type != t or m.data != d or m.bytes() != wire: ctx.violation('message:wire', 'WireMessage of %r' % wire[:100])
			for b in (wire + b'x', wire[:-1]):
				try: e.WireMessage.parse(b)
				except Exception: pass
				else: ctx.violation('message:malformed-accepted:WireMessage', repr(b[:100]))
		n += 1
	# protocol version numbers
	r = ctx.rng('v')
	for i in range(400):
		a, b = u16v(r), u16v(r)
		v = version.Version((a, b))
		if v.bytes() != u16(a) + u16(b) or int(v) != a << 16 | b or version.Version.parse(v.bytes()) != v or (v.major, v.minor) != (a, b):
			ctx.violation('message:version', '%r' % ((a, b),))
		ctx.case(('v', a, b))
	for x in ((65536, 0), (0, 65536), (-1, 0), (0, -1)):
		try: version.Version(x)
		except ValueError: pass
		else: ctx.violation('message:version', 'accepted %r' % (x,))
