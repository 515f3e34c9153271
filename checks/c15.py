"""
C15: bit strings, geometry, network addresses, hstore, json, xml; both directions,
against the server's own account of each value.
"""
import ipaddress, json, os
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape
from vf import values as V

TYPES = ['varbit', 'bit', 'bit(9)', 'point', 'lseg', 'box', 'circle', 'inet', 'cidr', 'macaddr', 'json', 'jsonb']

def both(ctx, r, db, T):
	for n in TYPES:
		t = T[n]
		ps = db.prepare('SELECT $1::%s AS v, %s AS t' % (t.sql, t.text.replace('{}', '$1::' + t.sql)))
		lit = db.prepare('SELECT $1::text::%s' % t.sql)
		for _ in range(ctx.scale(450, 3000)):
			v = t.gen(r); case = dict(type=n, value=repr(v)[:500])
			w, s = ps.first(v)
			if not t.eq(v, s): ctx.violation('stored:' + n, '%r was stored as %s' % (v, s), case)
			if not t.same(v, w): ctx.violation('delivered:' + n, '%r came back as %r' % (v, w), case)
			# the server's own text, read by the server and delivered
			w = lit.first(s)
			if not t.same(v, w): ctx.violation('delivered:' + n, '%s was delivered as %r' % (s, w), case)
			ctx.count('values:' + n); ctx.case((n, repr(v)))

def bits(ctx, r, db):
	from postgresql.types.bitwise import Varbit, Bit
	probe = db.prepare('SELECT $1::varbit, length($1::varbit)::int8, $1::varbit::text, ($1::varbit || $2::varbit)::text')
	lens = list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 1000]
	for n in (lens if not ctx.quick else lens[:34] + [63, 64, 65, 257]):
		for k in range(4):
			s = ['0' * n, '1' * n, ''.join(r.choice('01') for _ in range(n)), ('0' * (n - 1) + '1') if n else ''][k]
			s2 = V.rbits(r)[:40]
			case = dict(bits=s, other=s2)
			v, v2 = Varbit(s), Varbit(s2)
			w, l, t, cat = probe.first(v, v2)
			if (l, t, cat) != (n, s, s + s2): ctx.violation('stored:varbit', '%s was stored as %s' % (s, t), case)
			for what, b in (('made', v), ('delivered', w)):
				if str(b) != s or len(b) != n or bool(b) != ('1' in s) or not b == v or not b == s or b != v or [str(x) for x in b] != list(s) or b.bits != n:
					ctx.violation('bits:' + what, '%r does not behave as %s' % (b, s), case)
				for i in range(-n - 2, n + 2):
					try: got = str(b[i])
					except IndexError: got = None
					want = s[i] if -n <= i < n else None
					if got != want: ctx.violation('bits:index', '%s[%d] is %r' % (s, i, got), case)
				for _ in range(6):
					sl = slice(*[r.choice((None, r.randint(-n - 2, n + 2))) for _ in range(2)] + [r.choice((None, 1, 2, -1))])
					if str(b[sl]) != s[sl]: ctx.violation('bits:slice', '%s[%r] is %s' % (s, sl, b[sl]), case)
				if str(b + v2) != s + s2 or str(b * 3) != s * 3: ctx.violation('bits:join', '%s + %s' % (s, s2), case)
				if (b == v2) != (s == s2) or (b != v2) != (s != s2) or (b == s2) != (s == s2): ctx.violation('bits:equal', '%s and %s' % (s, s2), case)
				for z in (None, 5, 'x', object(), [1]):
					try: e = b == z
					except Exception as err: ctx.violation('bits:equal', 'comparing with %r raised %r' % (z, err), case)
					else:
						if e: ctx.violation('bits:equal', '%s equals %r' % (s, z), case)
				if n and n < 60 and (b == s[:-1] or b == s + '0' or b == s[:-1] + ('1' if s[-1] == '0' else '0')): ctx.violation('bits:equal', '%s equals something else' % s, case)
			ctx.count('bit-strings'); ctx.case(('bits', s))
	for bs in (b'', b'\x00', b'\xff\x01', bytes(range(20))):
		if str(Varbit(bs)) != ''.join('%08d' % int(bin(x)[2:]) for x in bs): ctx.violation('bits:bytes', repr(bs), None)
	if str(Bit(True)) != '1' or str(Bit(False)) != '0' or not Bit('1') or Bit('0'): ctx.violation('bits:bit', '', None)
	# what does not denote a bit string is refused
	for bad in ('2', '012', '1_1', '+1', ' 1', '1 ', '-1', '0b1', '00000000 ', '1_000000', '٠١', 'x', '0' * 8 + '+1'):
		try: v = Varbit(bad)
		except (ValueError, TypeError): ctx.count('malformed')
		else: ctx.violation('bits:malformed', '%r was taken for %s' % (bad, v), bad)

def texts(ctx, r, db):
	"""textual addresses: what is accepted means what the server takes the text for"""
	import postgresql.exceptions as x
	def mac():
		h = ['%02x' % r.getrandbits(8) for _ in range(6)]; k = r.randrange(8); j = ''.join(h)
		s = [':'.join(h), '-'.join(h), j[:6] + ':' + j[6:], j[:6] + '-' + j[6:], '.'.join((j[:4], j[4:8], j[8:])), j, ':'.join(p.lstrip('0') or '0' for p in h), '-'.join((j[:4], j[4:8], j[8:]))][k]
		if r.random() < .3: s = s.upper()
		return s
	def ip():
		v = V.rip(r) if r.random() < .6 else V.rnet(r); s = str(v)
		if ':' in s and r.random() < .4: s = (v if isinstance(v, ipaddress.IPv6Address) else ipaddress.ip_interface(v).ip).exploded.upper() + ('/' + s.split('/')[1] if '/' in s else '')
		return s
	def mutate(s):
		s = list(s)
		for _ in range(r.choice((0, 0, 1, 1, 2))):
			k = r.randrange(4); i = r.randrange(len(s) + 1)
			if k == 0 and s: del s[min(i, len(s) - 1)]
			elif k == 1: s.insert(i, r.choice('0123456789abcfx:.-/% +_%'))
			elif k == 2 and s: s[min(i, len(s) - 1)] = r.choice('0fg:.-/ %')
			else: s += r.choice(('0', ':', '/33', '/0', '%eth0', '%1', '.', 'ff'))
		return ''.join(s)
	for typ, gen in (('macaddr', mac), ('inet', ip), ('cidr', ip)):
		a = db.prepare('SELECT $1::%s::text' % typ); b = db.prepare('SELECT $1::text::%s::text' % typ)
		for _ in range(ctx.scale(2100, 8000)):
			s0 = gen(); s = mutate(s0); case = dict(type=typ, text=s)
			try: got = a.first(s)
			except x.Error as e:
				ctx.count('text-refused')
				if s == s0 and not (typ == 'macaddr' and s.count('-') == 2):
					# a documented spelling has to be accepted where the server does (three groups of four are not)
					try: want = b.first(s)
					except x.Error: continue
					ctx.violation('text-refused:' + typ, '%r was refused (%s); the server takes it for %s' % (s, type(e).__name__, want), case)
				continue
			try: want = b.first(s)
			except x.Error: want = None
			if want is None:
				# forms the server has no reading of, but the client documents
				try: ok = typ != 'macaddr' and V.ip_eq(ipaddress.ip_interface(s), got) and '%' not in s
				except ValueError: ok = False
			else: ok = got == want
			if not ok: ctx.violation('text:' + typ, '%r was stored as %s (the server takes it for %s)' % (s, got, want), case)
			ctx.count('text:' + typ); ctx.case((typ, s))
	for v in ('fe80::1%eth0', ipaddress.IPv6Address('fe80::1%3'), ipaddress.ip_interface('fe80::1%3/64')):
		for typ in ('inet', 'cidr'):
			try: s = db.prepare('SELECT $1::%s::text' % typ).first(v)
			except x.Error: ctx.count('scope'); continue
			ctx.violation('text:' + typ, '%r was stored as %s' % (v, s), repr(v))

def hstores(ctx, r, db):
	db.execute('SET client_min_messages TO error; CREATE EXTENSION IF NOT EXISTS hstore')
	db.typio.identify(contrib_hstore='hstore')
	ps = db.prepare('SELECT $1::hstore, (SELECT count(*) FROM each($1::hstore)), ARRAY(SELECT key FROM each($1::hstore) ORDER BY 1), $1::hstore -> (ARRAY(SELECT key FROM each($1::hstore) ORDER BY 1)), ARRAY[$1::hstore, NULL], ROW($1::hstore, 1)')
	mk = db.prepare('SELECT hstore($1::text[], $2::text[])')
	for _ in range(ctx.scale(450, 3000)):
		n = r.choice((0, 1, 2, 5, 30)); d = {}
		for _ in range(n): d[V.rtext(r)] = None if r.random() < .2 else V.rtext(r)
		d = {k: v for k, v in d.items()}
		case = dict(value=repr(d)[:1000])
		give = d if r.random() < .7 else list(d.items()) if r.random() < .5 else iter(list(d.items()))
		w, c, ks, vs, arr, rec = ps.first(give)
		if c != len(d) or dict(zip(ks, vs)) != d: ctx.violation('stored:hstore', '%r was stored as %r' % (d, dict(zip(ks, vs))), case)
		if w != d or type(w) is not dict: ctx.violation('delivered:hstore', '%r came back as %r' % (d, w), case)
		if list(arr) != [d, None] or rec[0] != d: ctx.violation('delivered:hstore', '%r came back in an array as %r' % (d, arr), case)
		if mk.first(list(d), list(d.values())) != d: ctx.violation('delivered:hstore', '%r was delivered otherwise' % d, case)
		ctx.count('hstore'); ctx.case(('hstore', repr(d)))

def jsons(ctx, r, db):
	ps = db.prepare("SELECT $1::json, $1::json::text, $2::jsonb, $2::jsonb::text, json_typeof($1::json), jsonb_typeof($2::jsonb)")
	for _ in range(ctx.scale(600, 4000)):
		v = V.rjson(r); s = json.dumps(v, ensure_ascii=r.random() < .5, indent=r.choice((None, None, 1)))
		# NUL has no place in jsonb
		case = dict(text=s[:500])
		a, at, b, bt, ty, tyb = ps.first(s, s)
		want = 'null' if v is None else 'boolean' if isinstance(v, bool) else 'number' if isinstance(v, (int, float)) else 'string' if isinstance(v, str) else 'array' if isinstance(v, list) else 'object'
		if a != s or at != s: ctx.violation('json', '%r became %r' % (s, a), case)
		if json.loads(b) != v or b != bt or ty != want or tyb != want: ctx.violation('jsonb', '%r became %r' % (s, b), case)
		ctx.count('json'); ctx.case(('json', s))
	big = json.dumps([V.rjson(r) for _ in range(2000)])
	if ps.first(big, big)[0] != big: ctx.violation('json', 'a large document differs', None)

def rel(r, d=0):
	e = ET.Element(r.choice(('a', 'b', 'c-d', 'é', '{urn:x}q')), {r.choice(('k', 'l', 'ö')): r.choice(('', 'v', '<&"\'>', 'é😀', ' x ')) for _ in range(r.randrange(3))})
	def text(): return r.choice((None, None, 't', ' ', '<&>', 'é漢😀', ']]>', 'a\nb', '"'))
	e.text = text()
	if d < 3:
		for _ in range(r.randrange(3)): c = rel(r, d + 1); c.tail = text(); e.append(c)
	return e
def elkey(e): return (e.tag, tuple(sorted(e.attrib.items())), e.text or '', tuple((elkey(c), c.tail or '') for c in e))

def xmls(ctx, r, db):
	"""documents and content; comments and processing instructions have no counterpart in the client's values"""
	import postgresql.exceptions as x
	for enc in ('utf8', 'latin1', 'euc_jp'):
		db.settings['client_encoding'] = enc
		ps = db.prepare("SELECT $1::xml, $1::xml::text, $1::xml IS DOCUMENT")
		lit = db.prepare("SELECT $1::text::xml")
		for _ in range(ctx.scale(240, 1500)):
			e = rel(r); s = ET.tostring(e, encoding='unicode'); case = dict(xml=s, encoding=enc)
			if enc != 'utf8':
				try: s.encode(enc)
				except UnicodeEncodeError: continue
			for give in (e, s, (e,)):
				w, t, doc = ps.first(give)
				if not doc or elkey(ET.fromstring(t)) != elkey(e): ctx.violation('stored:xml', '%s was stored as %s' % (s, t), case)
				if not isinstance(w, ET.Element) or elkey(w) != elkey(e): ctx.violation('delivered:xml', '%s came back as %r' % (s, w), case)
			if elkey(lit.first(s)) != elkey(e): ctx.violation('delivered:xml', s, case)
			if enc != 'latin1':
				if r.random() < .2: # a large one
					big = ET.SubElement(e, 'big'); big.text = r.choice(('\xe9', '\xe9a', 'bcd\xe8', 'x', '\u65e5\u672c')) * r.randrange(1, 9000); s = ET.tostring(e, encoding='unicode'); case = dict(xml=s[:300], length=len(s), encoding=enc); ctx.count('xml large')
				d = r.choice(('utf-8', 'UTF8', 'iso-8859-1', 'euc_jp'))
				try: s.encode(d); s.encode(enc)
				except UnicodeEncodeError: pass
				else:
					w, t, doc = ps.first(r.choice(('<?xml version="1.0" encoding="%s"?>%s', "<?xml version='1.0' encoding='%s'?>%s", '<?xml version="1.0"  encoding = "%s" standalone="yes"?>\n%s', '<?xml version="1.0"\nencoding="%s"  ?>%s')) % (d, s))
					if elkey(w) != elkey(e): ctx.violation('stored:xml', '%.300s declared %s was stored as %.300s' % (s, d, t), case)
					ctx.count('xml-declared')
			ctx.count('xml-documents'); ctx.case(('xml', s))
			# content: text and several elements
			parts = []; lead = r.choice((None, None, 'text', 'é', ' x', 'a&b<c'))
			for _ in range(r.choice((0, 1, 2, 3))): c = rel(r, 2); c.tail = r.choice((None, 'tail', '<&', ' ')); parts.append(c)
			wrap = ET.Element('x'); wrap.text = lead; wrap.extend(parts)
			head = escape(lead or ''); s = head + ''.join(ET.tostring(c, encoding='unicode') for c in parts)
			if enc != 'utf8':
				try: s.encode(enc)
				except UnicodeEncodeError: continue
			case = dict(xml=s, encoding=enc)
			for how in ('text', 'cast', 'tuple'):
				if how == 'cast': w = lit.first(s)
				else:
					w, t, doc = ps.first(s if how == 'text' else tuple(([head] if lead else []) + parts))
					if elkey(ET.fromstring('<x>' + t + '</x>')) != elkey(wrap): ctx.violation('stored:xml', '%s was stored as %s' % (s, t), case)
				if isinstance(w, ET.Element): ok = len(parts) == 1 and not (lead or '').strip() and elkey(w) == elkey(parts[0]) and not (parts[0].tail or '').strip()
				else:
					again = ET.fromstring('<x>' + ''.join(y if isinstance(y, str) else ET.tostring(y, encoding='unicode') for y in w) + '</x>')
					ok = isinstance(w, tuple) and elkey(again) == elkey(wrap)
					if ok:
						# and it is stored again as what it is
						if elkey(ET.fromstring('<x>' + ps.first(w)[1] + '</x>')) != elkey(wrap): ctx.violation('stored:xml', '%r differs' % (w,), case)
				if not ok: ctx.violation('delivered:xml', '%s was delivered as %r' % (s, w), case)
			ctx.count('xml-content'); ctx.case(('xmlc', s))
	db.settings['client_encoding'] = 'utf8'
	for bad in ('<a>', '<a></b>', '&nope;', '<'):
		try: v = db.prepare('SELECT $1::xml::text').first(bad)
		except x.Error: ctx.count('malformed'); continue
		ctx.violation('stored:xml', '%r was stored as %r' % (bad, v), bad)

def bads(ctx, r, db, T):
	import postgresql.exceptions as x
	for n in TYPES:
		t = T[n]; ps = db.prepare('SELECT $1::%s::text' % t.sql)
		for v in t.bad + [b'\x00', {}, (), ((1, 2),), float('nan')]:
			if n in ('point', 'lseg', 'box', 'circle') and isinstance(v, (bytes, dict, tuple)): continue
			try: s = ps.first(v)
			except x.Error: ctx.count('refused'); continue
			except Exception as e: ctx.violation('refusal-raw', '%r as %s: %r' % (v, n, e), n); continue
			if isinstance(v, bytes) and n in ('inet', 'cidr'): continue
			ctx.violation('accepted:' + n, '%r was stored as %s' % (v, s), (n, repr(v)))

def main(ctx):
	ctx.rule = 'one case per (type, value)'
	ctx.require('bit-strings', 'malformed', 'text:macaddr', 'text:inet', 'text:cidr', 'text-refused', 'hstore', 'json', 'xml-documents', 'xml-content', 'refused', *['values:' + n for n in TYPES])
	T = V.types(); db = ctx.connect()
	for f in (both, bads): f(ctx, ctx.rng(f.__name__), db, T)
	for f in (bits, texts, hstores, jsons, xmls): f(ctx, ctx.rng(f.__name__), db)
	db.close()
