"""C01: message framing vs an independent reference, native and pure buffers in lockstep."""
import struct
from postgresql.protocol import pbuffer
from postgresql.protocol import buffer as chosen

def gen_stream(r, bad):
	msgs, raw = [], []
	n = r.choice((1, 2, 3, 5, 8, 13, 40, 120))
	big = r.random() < .15
	for i in range(n):
		t = bytes([r.randrange(256)]) if r.random() < .5 else r.choice([b'D', b'd', b'C', b'Z', b'T', b'E'])
		k = r.random()
		if k < .25: size = 0
		elif k < .7: size = r.randrange(1, 40)
		elif k < .9: size = r.choice((251, 255, 256, 507, 508, 511, 512, 513, 2043, 2047, 2048, 2049, 4091, 4096))
		elif big: size = r.choice((8187, 65530, 65536, 131072, 300000))
		else: size = r.randrange(40, 3000)
		body = r.randbytes(size)
		if size and r.random() < .2:
			# bodies that look like headers
			body = (b'D\x00\x00\x00\x04' * (size // 5 + 1))[:size]
		msgs.append((t, body))
		raw.append(t + struct.pack('!L', size + 4) + body)
	data = b''.join(raw)
	if bad:
		data += bytes([r.randrange(256)]) + struct.pack('!L', r.randrange(4)) + r.randbytes(r.randrange(0, 9))
	elif r.random() < .5:
		# a trailing incomplete message
		size = r.randrange(1, 60)
		whole = b'P' + struct.pack('!L', size + 4) + r.randbytes(size)
		data += whole[:r.randrange(1, len(whole))]
	return msgs, data

def cuts(r, data):
	mode = r.randrange(5)
	out, i = [], 0
	while i < len(data):
		if mode == 0: n = len(data)
		elif mode == 1: n = 1 if len(data) < 6000 else r.randrange(1, 700)
		elif mode == 2: n = r.randrange(1, 12)if len(data) < 20000 else r.randrange(1, 5000)
		elif mode == 3: n = r.choice((512, 1024, 2048, 8192, 5, 4))
		else: n = r.randrange(1, max(2, len(data) // 3))
		out.append(data[i:i + n])
		i += n
		if r.random() < .05:
			out.append(b'')
	return out

class Model:
	"""What the buffer must contain: plain bytes, decoded from scratch each time."""
	def __init__(self):
		self.buf = b''
	def parse(self):
		"""-> complete messages, position after them, whether the next header is invalid"""
		out, p, b = [], 0, self.buf
		while len(b) - p >= 5:
			n = int.from_bytes(b[p + 1:p + 5], 'big')
			if n < 4:
				return out, p, True
			if len(b) - p < n + 1:
				break
			out.append((b[p:p + 1], b[p + 5:p + 1 + n]))
			p += n + 1
		return out, p, False
	def take(self, msgs):
		self.buf = self.buf[sum(5 + len(m[1]) for m in msgs):]

def run_case(ctx, r, name, cls, case):
	bad = r.random() < .2
	msgs, data = gen_stream(r, bad)
	pieces = cuts(r, data)
	s, m = cls(), Model()
	got = []
	kind = (name, len(msgs), bad, len(pieces))
	def fail(what, detail):
		ctx.violation('framing:%s:%s' % (name, what), '%s (%s buffer, case %r)' % (detail, name, case), dict(case=case, pieces=[len(p) for p in pieces][:200], data=data[:3000].hex()))
		raise StopCase
	trace = []
	def check_read(res, want, invalid, limited):
		if res is ValueError:
			if not invalid: fail('spurious-error', 'read raised on a valid stream; ops %r' % trace[-6:])
			return []
		res = list(res)
		if any(type(x) is not tuple or len(x) != 2 or type(x[0]) is not bytes or type(x[1]) is not bytes for x in res):
			fail('shape', 'items are not (type, body) pairs: %r' % res[:3])
		if invalid and not limited:
			fail('invalid-accepted', 'an impossible message length was not reported by a full read')
		if res != want:
			fail('content', 'read returned %d messages %r.., expected %d %r..; ops %r' % (len(res), str(res[:3])[:200], len(want), str(want[:3])[:200], trace[-8:]))
		m.take(res)
		return res
	def attempt(f):
		try:
			return f()
		except ValueError:
			return ValueError
	i, spins = 0, 0
	while i < len(pieces) or spins < 6:
		k = r.random()
		if i < len(pieces) and k < .45:
			s.write(pieces[i]); m.buf += pieces[i]; trace.append('w%d' % len(pieces[i])); i += 1
			ctx.count('writes')
			continue
		if i >= len(pieces): spins += 1
		want, end, invalid = m.parse()
		op = r.randrange(9)
		trace.append('o%d' % op)
		if op == 0:
			got += check_read(attempt(s.read), want, invalid, False)
		elif op in (1, 2):
			n = r.choice((0, 1, 2, 3, 7, 50, len(want), max(0, len(want) - 1), len(want) + 1))
			trace[-1] += ':%d' % n
			got += check_read(attempt(lambda: s.read(n)), want[:n], invalid, n <= len(want))
		elif op == 3:
			x = attempt(s.next_message)
			if want:
				if x != want[0]: fail('next_message', 'next_message gave %r, expected %r; ops %r' % (str(x)[:200], str(want[0])[:200], trace[-8:]))
				m.take(want[:1]); got.append(x)
			elif invalid:
				if x is not ValueError: fail('invalid-accepted', 'next_message gave %r for an impossible length' % (x,))
			elif x is not None:
				fail('next_message', 'next_message surfaced %r with no complete message' % (str(x)[:200],))
		elif op == 4:
			try:
				x = next(s)
			except StopIteration:
				x = None
			except ValueError:
				x = ValueError
			if want:
				if x != want[0]: fail('next', 'next() gave %r, expected %r' % (str(x)[:200], str(want[0])[:200]))
				m.take(want[:1]); got.append(x)
			elif invalid:
				if x is not ValueError: fail('invalid-accepted', 'next() gave %r for an impossible length' % (x,))
			elif x is not None:
				fail('next', 'next() surfaced %r with no complete message' % (str(x)[:200],))
		elif op == 5:
			x = attempt(lambda: len(s))
			if x is ValueError:
				if not invalid: fail('spurious-error', 'len() raised on a valid stream')
			elif invalid:
				fail('invalid-accepted', 'len() counted over an impossible length')
			elif x != len(want):
				fail('len', 'len() is %d with %d complete messages; ops %r' % (x, len(want), trace[-8:]))
		elif op == 6:
			x = attempt(s.has_message)
			exp = True if want else (ValueError if invalid else False)
			if (x if x is ValueError else bool(x)) != exp:
				fail('has_message', 'has_message() is %r, expected %r; ops %r' % (x, exp, trace[-8:]))
		elif op == 7:
			x = s.getvalue()
			if bytes(x) != m.buf:
				fail('getvalue', 'getvalue() has %d bytes, expected the %d unread ones; ops %r' % (len(x), len(m.buf), trace[-8:]))
		elif op == 8:
			if r.random() < .06:
				s.truncate(); m.buf = b''; trace.append('truncate')
				ctx.count('truncates')
				# what follows starts in the middle of a message: resume on a fresh boundary
				if s.getvalue() != b'' or list(s.read()) or s.has_message() or len(s):
					fail('truncate', 'the buffer is not empty after truncate()')
				pieces = pieces[:i]
				if r.random() < .7:
					extra, d2 = gen_stream(r, False)
					pieces += cuts(r, d2)
	# drain
	want, end, invalid = m.parse()
	if not invalid:
		res = check_read(attempt(s.read), want, invalid, False)
		if bytes(s.getvalue()) != m.buf: fail('getvalue', 'unread bytes differ after draining')
	else:
		for w in want:
			if s.next_message() != w: fail('content', 'message before an invalid one was not delivered intact')
		for _ in range(3):
			for f in (s.next_message, s.read, s.has_message, lambda: len(s)):
				if attempt(f) is not ValueError: fail('invalid-accepted', 'impossible length not refused by %s' % getattr(f, '__name__', f))
		ctx.count('invalid-headers')
	ctx.count('messages:' + name, len(msgs))
	ctx.case(kind + (hash(data),), nontrivial=len(pieces) > 1 or bad, sample='%s: %d messages, %d bytes in %d writes, invalid=%s, ops %s' % (name, len(msgs), len(data), len(pieces), bad, ' '.join(trace[:30])))

class StopCase(Exception):
	pass

def main(ctx):
	from postgresql.port.optimized import pq_message_stream as native
	classes = [('native', native), ('pure', pbuffer.pq_message_stream)]
	if chosen.pq_message_stream not in (native, pbuffer.pq_message_stream):
		classes.append(('default', chosen.pq_message_stream))
	ctx.rule = 'random message streams cut at random places, random operation order; nontrivial = more than one write or an invalid header; distinct by stream content'
	ctx.require('messages:native', 'messages:pure', 'writes', 'truncates', 'invalid-headers')
	limit = ctx.scale(14, 240)
	n = 0
	while ctx.elapsed() < limit and n < ctx.scale(4000, 100000):
		for name, cls in classes:
			case = '%s/%d' % (name, n)
			r = ctx.rng(n)     # the same stream for each implementation
			try:
				with ctx.step('framing', case):
					run_case(ctx, r, name, cls, case)
			except StopCase:
				pass
			except Exception as e:
				ctx.violation('framing:%s:exception' % name, '%s: %s on case %s' % (type(e).__name__, e, case), case)
		n += 1
	# exhaustive: every cut of a short stream, both buffers
	msgs = [(b'Z', b'I'), (b'D', b''), (b'\xf0', b'abcdef'), (b'C', b'x\x00')]
	data = b''.join(t + struct.pack('!L', len(b) + 4) + b for t, b in msgs)
	for name, cls in classes:
		for a in range(len(data) + 1):
			for b in range(a, len(data) + 1):
				s, got = cls(), []
				for piece in (data[:a], data[a:b], data[b:]):
					s.write(piece)
					cnt = len(s)
					hm = bool(s.has_message())
					part = list(s.read())
					if cnt != len(part) or hm != bool(part):
						ctx.violation('framing:%s:len' % name, 'len/has_message %d/%s vs %d read, cuts %d,%d' % (cnt, hm, len(part), a, b), [a, b])
					got += part
				ctx.case((name, 'cut', a, b))
				if got != msgs:
					ctx.violation('framing:%s:content' % name, 'cuts at %d,%d gave %r' % (a, b, got), [a, b])
