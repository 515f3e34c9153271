"""
An independent PQ v3 codec (written from the PostgreSQL protocol documentation, not
from the code under test): builders and parsers of frontend and backend messages.
"""
import struct

def cs(b):
	return (b.encode('utf-8') if isinstance(b, str) else b) + b'\x00'
def u16(n): return struct.pack('!H', n)
def i32(n): return struct.pack('!i', n)
def u32(n): return struct.pack('!I', n)

def frame(t, body):
	return t + struct.pack('!I', len(body) + 4) + body

def values(vs):
	return b''.join(b'\xff\xff\xff\xff' if v is None else u32(len(v)) + v for v in vs)

# -- backend
def auth(code, extra=b''): return frame(b'R', u32(code) + extra)
def param(k, v): return frame(b'S', cs(k) + cs(v))
def key(pid, k): return frame(b'K', u32(pid) + u32(k))
def ready(st=b'I'): return frame(b'Z', st)
def fields(d): return b''.join((k.encode() if isinstance(k, str) else k) + cs(v) for k, v in d) + b'\x00'
def error(d): return frame(b'E', fields(d))
def notice(d): return frame(b'N', fields(d))
def err(code='XX000', msg='synthetic', sev='ERROR'): return error([('S', sev), ('C', code), ('M', msg)])
def note(code='00000', msg='synthetic', sev='NOTICE'): return notice([('S', sev), ('C', code), ('M', msg)])
def notify(pid, ch, payload=''): return frame(b'A', u32(pid) + cs(ch) + cs(payload))
def rowdesc(cols):
	"""cols: (name, relid, attnum, typeid, typlen, typmod, format)"""
	return frame(b'T', u16(len(cols)) + b''.join(cs(c[0]) + struct.pack('!IhIhih', *c[1:]) for c in cols))
def col(name, oid=25, fmt=1, typlen=-1): return (name, 0, 0, oid, typlen, -1, fmt)
def paramdesc(oids): return frame(b't', u16(len(oids)) + b''.join(u32(o) for o in oids))
def row(vs): return frame(b'D', u16(len(vs)) + values(vs))
def complete(tag): return frame(b'C', cs(tag))
parse_ok = frame(b'1', b'')
bind_ok = frame(b'2', b'')
close_ok = frame(b'3', b'')
nodata = frame(b'n', b'')
suspended = frame(b's', b'')
empty = frame(b'I', b'')
copydone = frame(b'c', b'')
def copyin(fmt=0, cols=()): return frame(b'G', bytes([fmt]) + u16(len(cols)) + b''.join(u16(c) for c in cols))
def copyout(fmt=0, cols=()): return frame(b'H', bytes([fmt]) + u16(len(cols)) + b''.join(u16(c) for c in cols))
def copydata(b): return frame(b'd', b)

# -- parsing a byte stream
def split(data):
	"""-> list of (type, body), remainder"""
	out, p = [], 0
	while len(data) - p >= 5:
		n = struct.unpack_from('!I', data, p + 1)[0]
		if n < 4: raise ValueError('bad length')
		if len(data) - p < n + 1: break
		out.append((data[p:p + 1], data[p + 5:p + 1 + n]))
		p += n + 1
	return out, data[p:]

class R:
	def __init__(self, b): self.b, self.p = b, 0
	def take(self, n):
		if n < 0 or self.p + n > len(self.b): raise ValueError('truncated body')
		x = self.b[self.p:self.p + n]; self.p += n
		return x
	def u16(self): return struct.unpack('!H', self.take(2))[0]
	def i16(self): return struct.unpack('!h', self.take(2))[0]
	def u32(self): return struct.unpack('!I', self.take(4))[0]
	def i32(self): return struct.unpack('!i', self.take(4))[0]
	def cs(self):
		i = self.b.index(b'\x00', self.p)
		x = self.b[self.p:i]; self.p = i + 1
		return x
	def end(self):
		if self.p != len(self.b): raise ValueError('%d bytes left over in the body' % (len(self.b) - self.p))
	def vals(self, n):
		out = []
		for _ in range(n):
			k = self.i32()
			out.append(None if k == -1 else self.take(k))
		return out

def startup(pkt):
	"""a whole startup-style packet (with length) -> ('ssl',) ('cancel', pid, key) ('start', (maj, min), [(k, v)])"""
	r = R(pkt)
	if r.u32() != len(pkt): raise ValueError('startup length')
	maj, mnr = r.u16(), r.u16()
	if (maj, mnr) == (1234, 5679): r.end(); return ('ssl',)
	if (maj, mnr) == (1234, 5678): x = ('cancel', r.u32(), r.u32()); r.end(); return x
	kv = []
	while True:
		k = r.cs()
		if not k: break
		kv.append((k, r.cs()))
	r.end()
	return ('start', (maj, mnr), kv)

def front(t, body):
	"""strict parse of one frontend message -> dict with 'm'"""
	r = R(body)
	if t == b'P':
		d = dict(m='parse', name=r.cs(), sql=r.cs()); d['oids'] = [r.u32() for _ in range(r.u16())]
	elif t == b'B':
		d = dict(m='bind', portal=r.cs(), stmt=r.cs())
		d['fmts'] = [r.i16() for _ in range(r.u16())]
		n = r.u16(); d['args'] = r.vals(n)
		d['rfmts'] = [r.i16() for _ in range(r.u16())]
		if len(d['fmts']) not in (0, 1, n): raise ValueError('format count')
		if any(f not in (0, 1) for f in d['fmts'] + d['rfmts']): raise ValueError('format code')
	elif t == b'E': d = dict(m='execute', portal=r.cs(), max=r.u32())
	elif t in (b'D', b'C'):
		k = r.take(1)
		if k not in (b'S', b'P'): raise ValueError('subtype')
		d = dict(m='describe' if t == b'D' else 'close', kind=k, name=r.cs())
	elif t == b'S': d = dict(m='sync')
	elif t == b'H': d = dict(m='flush')
	elif t == b'X': d = dict(m='terminate')
	elif t == b'Q': d = dict(m='query', sql=r.cs())
	elif t == b'd': d = dict(m='copydata', data=r.take(len(body)))
	elif t == b'c': d = dict(m='copydone')
	elif t == b'f': d = dict(m='copyfail', msg=r.cs())
	elif t == b'p': d = dict(m='password', data=r.cs())
	elif t == b'F':
		d = dict(m='function', oid=r.u32()); d['fmts'] = [r.i16() for _ in range(r.u16())]
		d['args'] = r.vals(r.u16()); d['rfmt'] = r.i16()
	else: raise ValueError('unknown frontend message %r' % t)
	r.end()
	return d
