From c38d1d04413995f12b5496ec2863f555c80cdac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 001/153] fix: index message types with an unsigned byte

A message type above 0x7F indexed the message type tuple with a negative number.
---
 postgresql/port/_optimized/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index cb81b2f..5688497 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -296,7 +296,7 @@ p_build_tuple(struct p_place *p)
 		p_seek(p, copy_amount);
 	}
 
-	mt = PyTuple_GET_ITEM(message_types, (int) header[0]);
+	mt = PyTuple_GET_ITEM(message_types, (unsigned char) header[0]);
 	if (mt == NULL)
 	{
 		/*
-- 
2.43.0


From 05fab3255f7ec2f16f3e0e13b91cc2d1fc2d8e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 002/153] fix: report invalid message sizes from the native
 buffer's read()

The ValueError was replaced by a SystemError from PyTuple_New(-1).
---
 postgresql/port/_optimized/buffer.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index 5688497..3e0d420 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -417,9 +417,13 @@ p_read(PyObject *self, PyObject *args)
 	p.offset = pb->position.offset;
 
 	msg_in = p_length(self);
-	msg_count = msg_count < msg_in && msg_count != -1 ? msg_count : msg_in;
+	if (msg_in < 0)
+		return(NULL);
+	msg_count = msg_count < msg_in && msg_count >= 0 ? msg_count : msg_in;
 
 	rob = PyTuple_New(msg_count);
+	if (rob == NULL)
+		return(NULL);
 	for (cur_msg = 0; cur_msg < msg_count; ++cur_msg)
 	{
 		PyObject *msg_tup = NULL;
-- 
2.43.0


From e016d096c6daf3937e602ba629f3b122a591d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 003/153] fix: compose() must not call through a missing
 sequence item

---
 postgresql/port/_optimized/functools.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/postgresql/port/_optimized/functools.c b/postgresql/port/_optimized/functools.c
index 9a0deea..0bc2325 100644
--- a/postgresql/port/_optimized/functools.c
+++ b/postgresql/port/_optimized/functools.c
@@ -320,9 +320,19 @@ compose(PyObject *self, PyObject *args)
 		 * Arbitrary sequence.
 		 */
 		len = PySequence_Length(seq);
+		if (len < 0)
+		{
+			Py_DECREF(rob);
+			return(NULL);
+		}
 		for (i = 0; i < len; ++i)
 		{
 			x = PySequence_GetItem(seq, i);
+			if (x == NULL)
+			{
+				Py_DECREF(rob);
+				return(NULL);
+			}
 			argt = PyTuple_New(1);
 			PyTuple_SET_ITEM(argt, 0, rob);
 			rob = PyObject_CallObject(x, argt);
-- 
2.43.0


From 347932fafff14a0574fb1d19878c77b9c1827019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 004/153] fix: cat_messages() leaked the result of a bad
 serialize()

---
 postgresql/port/_optimized/element3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/port/_optimized/element3.c b/postgresql/port/_optimized/element3.c
index 7ea2b82..d77d779 100644
--- a/postgresql/port/_optimized/element3.c
+++ b/postgresql/port/_optimized/element3.c
@@ -601,6 +601,7 @@ cat_messages(PyObject *self, PyObject *messages_in)
 					PyObject_TypeName(ob),
 					PyObject_TypeName(serialized)
 				);
+				Py_DECREF(serialized);
 				goto fail;
 			}
 
-- 
2.43.0


From 2501df64bab22289afbe5af41f889d2994bb70ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 005/153] fix: column() failed with NameError on NULLs and on
 undecodable values

---
 postgresql/driver/pq3.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6a778bd..3b6e5e5 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -754,16 +754,14 @@ class Output(object):
 		l = [y[0] for y in x]
 		# iterate over the range to keep track
 		# of which item we're processing.
-		r = range(len(l))
-		try:
-			return [unpack(l[i]) for i in r]
-		except Exception:
-			cause = sys.exc_info()[1]
+		r = []
 		try:
-			i = next(r)
-		except StopIteration:
-			i = len(l)
-		self._raise_column_tuple_error(cause, self._output_io, (l[i],), 0)
+			for y in l:
+				r.append(y if y is None else unpack(y))
+			return r
+		except Exception as err:
+			cause = err
+		self._raise_column_tuple_error(cause, self._output_io, (l[len(r)],), 0)
 
 	# Process the element.Tuple message in x for rows()
 	def _process_tuple_chunk_Row(self, x,
-- 
2.43.0


From 007f990193549bde078cc8a62179d77195ccc065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 006/153] fix: parameters without a binary codec were declared
 binary

Their text was then interpreted as the type's binary form by the server:
an error for most types, a silently different value for money.
---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 3b6e5e5..ac86e74 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1552,7 +1552,7 @@ class Statement(pg_api.Statement):
 			pack = (typio.resolve(x) or (None,None))[0]
 			packs.append(pack or typio.encode)
 			formats.append(
-				strfmt if x is None else binfmt
+				strfmt if pack is None else binfmt
 			)
 		self._input_io = tuple(packs)
 		self._input_formats = formats
-- 
2.43.0


From 25ff84e186fb36e9b13beea7fd4e08c4c3490967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 007/153] fix: timetz offsets had the wrong sign

The server's displacement counts seconds west of UTC; both directions took it
for seconds east.
---
 postgresql/types/io/stdlib_datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/io/stdlib_datetime.py b/postgresql/types/io/stdlib_datetime.py
index 995e126..3c1cdeb 100644
--- a/postgresql/types/io/stdlib_datetime.py
+++ b/postgresql/types/io/stdlib_datetime.py
@@ -188,7 +188,8 @@ def timetz_pack(x,
 	"""
 	td = x.tzinfo.utcoffset(x)
 	seconds = (td.days * seconds_in_day + td.seconds)
-	return (time_pack(x), seconds)
+	# PostgreSQL's timezone displacement is west of UTC.
+	return (time_pack(x), -seconds)
 
 def timetz_unpack(tstz,
 	time_unpack = time_unpack,
@@ -199,7 +200,7 @@ def timetz_unpack(tstz,
 	tuple.
 	"""
 	t = time_unpack(tstz[0])
-	return t.replace(tzinfo = FixedOffset(tstz[1]))
+	return t.replace(tzinfo = FixedOffset(-tstz[1]))
 
 FloatTimes = False
 IntTimes = True
-- 
2.43.0


From 7bcee73fe3f165ca49b132561d7a613ec66b0e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 008/153] fix: FixedOffset dropped the seconds of its offset

---
 postgresql/python/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/python/datetime.py b/postgresql/python/datetime.py
index 5844e33..529ce53 100644
--- a/postgresql/python/datetime.py
+++ b/postgresql/python/datetime.py
@@ -16,7 +16,7 @@ class FixedOffset(datetime.tzinfo):
 		self._tzname = tzname
 		self._offset = offset_in_seconds
 		self._offset_in_mins = offset_in_seconds // 60
-		self._td_offset = datetime.timedelta(0, self._offset_in_mins * 60)
+		self._td_offset = datetime.timedelta(0, offset_in_seconds)
 		self._dst = datetime.timedelta(0)
 
 	def utcoffset(self, offset_from):
-- 
2.43.0


From c8745f83baefcdbac50d7a930769ffa8e027a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 009/153] fix: inet lost its netmask in both directions

Every address was stored with a zero-length netmask, and the netmask of
received values was dropped.
---
 postgresql/types/io/pg_network.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postgresql/types/io/pg_network.py b/postgresql/types/io/pg_network.py
index a74d5e1..ba4b142 100644
--- a/postgresql/types/io/pg_network.py
+++ b/postgresql/types/io/pg_network.py
@@ -8,9 +8,9 @@ oid_to_type = {
 	CIDROID: ipaddress._BaseNetwork,
 }
 
-def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_address):
+def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_interface):
 	a = Constructor(ob)
-	return pack((a.version, None, a.packed))
+	return pack((a.version, a.network.prefixlen, a.packed))
 
 def cidr_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_network):
 	a = Constructor(ob)
@@ -18,7 +18,11 @@ def cidr_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_network):
 
 def inet_unpack(data, unpack = lib.net_unpack, Constructor = ipaddress.ip_address):
 	version, mask, data = unpack(data)
-	return Constructor(data)
+	a = Constructor(data)
+	if mask != a.max_prefixlen:
+		# Not a plain host address; keep the netmask.
+		return ipaddress.ip_interface((a, mask))
+	return a
 
 def cidr_unpack(data, unpack = lib.net_unpack, Constructor = ipaddress.ip_network):
 	version, mask, data = unpack(data)
-- 
2.43.0


From 0b6b7f4eb0f6c5adee68f9fd9fdbfae1b6b6cec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 010/153] fix: Varbit.getbit() applied ord() to an integer

---
 postgresql/types/bitwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 018b762..d30e37d 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -63,7 +63,7 @@ class Varbit(object):
 			raise IndexError("bit index %d out of range" %(bitoffset,))
 
 		byte, bitofbyte = divmod(idx, 8)
-		if ord(self.data[byte]) & (1 << (7 - bitofbyte)):
+		if self.data[byte] & (1 << (7 - bitofbyte)):
 			return OneBit
 		else:
 			return ZeroBit
-- 
2.43.0


From 10380edff0e97376bc29b24b939f3e310f2f47af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 011/153] fix: comparing a single Bit with a longer bit string
 raised ValueError

---
 postgresql/types/bitwise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index d30e37d..dd0f7fb 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -41,8 +41,8 @@ class Varbit(object):
 		)
 
 	def __eq__(self, ob):
-		if not isinstance(ob, type(self)):
-			ob = type(self)(ob)
+		if not isinstance(ob, Varbit):
+			ob = Varbit(ob)
 		return ob.bits == self.bits and ob.data == self.data
 
 	def __len__(self):
-- 
2.43.0


From fdb3f57ff652fd0ee705dd8f3f92e1d4c0ba5286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 012/153] fix: the truth value of bit strings was that of their
 length

__nonzero__ is not consulted by Python 3.
---
 postgresql/types/bitwise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index dd0f7fb..297756b 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -74,7 +74,7 @@ class Varbit(object):
 		else:
 			return self.getbit(item)
 
-	def __nonzero__(self):
+	def __bool__(self):
 		for x in self.data:
 			if x != 0:
 				return True
@@ -89,7 +89,7 @@ class Bit(Varbit):
 
 		raise ValueError('unknown bit value %r, 0 or 1' %(ob,))
 
-	def __nonzero__(self):
+	def __bool__(self):
 		return self is OneBit
 
 	def __str__(self):
-- 
2.43.0


From d995f63d77a3618ad972076b86cbf0e75d62d891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 013/153] fix: the first release() of a nested ALock released
 the locks

The identifiers were unlocked on every release() rather than on the last one.
---
 postgresql/alock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/alock.py b/postgresql/alock.py
index cdf413d..4391f38 100644
--- a/postgresql/alock.py
+++ b/postgresql/alock.py
@@ -104,10 +104,10 @@ class ALock(element.Element):
 		"""
 		if self._count < 1:
 			raise RuntimeError("cannot release un-acquired lock")
-		if not self.database.closed and self._count > 0:
+		if not self.database.closed and self._count == 1:
 			# if the database has been closed, or the count will
 			# remain non-zero, there is no need to release.
-			self._release(reversed(self._id_pairs), reversed(self._ids))
+			self._release(self._id_pairs[::-1], self._ids[::-1])
 			# decrement the count nonetheless.
 		self._count = self._count - 1
 
-- 
2.43.0


From e630e613f209f35d4f26762236c85ce4535c3733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 014/153] fix: the pure-Python Tuple.parse() accepted truncated
 and oversized bodies

The native parse_tuple_message() refuses them.
---
 postgresql/protocol/element3.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 1f8579e..e838b69 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -502,8 +502,19 @@ class Tuple(TupleMessage):
 				ao = offset
 				offset = ao + al
 				att = data[ao:offset]
+				if len(att) != al:
+					raise ValueError(
+						"attribute %d has invalid size %d" %(len(atts), al)
+					)
 			add(att)
 			natts -= 1
+		if offset != len(data):
+			raise ValueError(
+				"invalid tuple(D) message, %d remaining bytes " \
+				"after processing %d attributes" %(
+					len(data) - offset, len(atts)
+				)
+			)
 		return T(atts)
 	try:
 		parse = parse_tuple_message
-- 
2.43.0


From a3cb39b1d735736a0931190ac9c012d3f4c77bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 015/153] fix: Notice and Error messages were serialized
 without their terminator

---
 postgresql/protocol/element3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index e838b69..6b9cb3c 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -351,8 +351,8 @@ class Notice(Message, dict):
 	__repr__ = dict_message_repr
 
 	def serialize(self):
-		return b'\x00'.join([
-			k + v for k, v in self.items()
+		return b''.join([
+			k + v + b'\x00' for k, v in self.items()
 			if k and v is not None
 		]) + b'\x00'
 
-- 
2.43.0


From ed6337c48b8887d7b28156b362310b93c5257a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 016/153] fix: WireMessage.serialize() indexed the message
 object

---
 postgresql/protocol/element3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 6b9cb3c..37a5489 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -163,7 +163,7 @@ class WireMessage(Message):
 		self.data = typ_data[1]
 
 	def serialize(self):
-		return self[1]
+		return self.data
 
 	@classmethod
 	def parse(typ, data):
-- 
2.43.0


From 07de62a528927297306bb7f5df16a3f9dd615887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 017/153] fix: the pure-Python WireState accepted impossible
 message sizes

The native one refuses them.
---
 postgresql/copyman.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 4322982..126a890 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -189,7 +189,10 @@ class WireState(object):
 			if len(size_fragment) == 4:
 				# The size fragment is completed; only part
 				# of the fragment remains to be consumed.
-				remaining_bytes = getlen(size_fragment) - o
+				remaining_bytes = getlen(size_fragment)
+				if remaining_bytes < 4:
+					raise ValueError("message header contained an invalid size")
+				remaining_bytes -= o
 				size_fragment = b''
 			else:
 				assert len(size_fragment) < 4
@@ -235,6 +238,8 @@ class WireState(object):
 					break
 				# Update remaining_bytes to include the header, and start over.
 				remaining_bytes = getlen(view[1:5]) + 1
+				if remaining_bytes < 5:
+					raise ValueError("message header contained an invalid size")
 
 		# Update the state for the next update.
 		self.remaining_bytes, self.size_fragment = (
-- 
2.43.0


From 740a0008d71f2fb1659f3dadc09fc2d93fdadb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 018/153] fix: CopyDone declared a field it never has

Comparing or printing a CopyDone message raised AttributeError.
---
 postgresql/protocol/element3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 37a5489..df7ac13 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -989,6 +989,6 @@ class CopyFail(StringMessage):
 
 class CopyDone(EmptyMessage):
 	type = message_types[b'c'[0]]
-	__slots__ = ('data',)
+	__slots__ = ()
 CopyDoneMessage = Message.__new__(CopyDone)
 CopyDone.SingleInstance = CopyDoneMessage
-- 
2.43.0


From 16030e4f45015d178133f566392ed7edaaa134bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 019/153] fix: messages with different contents compared equal

Message.__eq__ only looks at __slots__, which left out the contents of
Complete, Close, Notice, Error and Startup messages.
---
 postgresql/protocol/element3.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index df7ac13..baa7949 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -157,6 +157,9 @@ def dict_message_repr(self):
 		pprint.pformat(dict(self))
 	)
 
+def dict_message_eq(self, ob):
+	return Message.__eq__(self, ob) and dict.__eq__(self, ob)
+
 class WireMessage(Message):
 	def __init__(self, typ_data):
 		self.type = message_types[typ_data[0][0]]
@@ -241,7 +244,7 @@ class Complete(StringMessage):
 	Command completion message.
 	"""
 	type = message_types[b'C'[0]]
-	__slots__ = ()
+	__slots__ = ('data',)
 
 	@classmethod
 	def parse(typ, data):
@@ -349,6 +352,7 @@ class Notice(Message, dict):
 	type = message_types[b'N'[0]]
 	__slots__ = ()
 	__repr__ = dict_message_repr
+	__eq__ = dict_message_eq
 
 	def serialize(self):
 		return b''.join([
@@ -600,6 +604,7 @@ class Startup(Message, dict):
 	packed_version = version.bytes()
 	__slots__ = ()
 	__repr__ = dict_message_repr
+	__eq__ = dict_message_eq
 
 	def serialize(self):
 		return self.packed_version + b''.join([
@@ -855,7 +860,7 @@ class Close(StringMessage):
 	Generic Close
 	"""
 	type = message_types[b'C'[0]]
-	__slots__ = ()
+	__slots__ = ('data',)
 
 	def serialize(self):
 		return self.subtype + self.data + b'\x00'
@@ -875,14 +880,14 @@ class CloseStatement(Close):
 	Close the specified Statement
 	"""
 	subtype = message_types[b'S'[0]]
-	__slots__ = ()
+	__slots__ = ('data',)
 
 class ClosePortal(Close):
 	"""
 	Close the specified Portal
 	"""
 	subtype = message_types[b'P'[0]]
-	__slots__ = ()
+	__slots__ = ('data',)
 
 class Function(Message):
 	"""
-- 
2.43.0


From 7139fdf526a5200dd93a9abd840b3c560addd442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 020/153] fix: equal asynchronous messages received together
 were delivered once

Two identical notices or notifications arriving in the same batch were
taken for a reprocessed one.
---
 postgresql/protocol/xact3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 6f5497f..4bcc1ed 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -481,6 +481,7 @@ class Instruction(Transaction):
 		paths = HOOK[cmd.type]
 		processed = []
 		count = 0
+		nasyncs = 0
 
 		for x in messages:
 			count += 1
@@ -523,7 +524,9 @@ class Instruction(Transaction):
 					current_step = 0
 					continue
 				elif x[0] in AsynchronousMap:
-					if x not in self._asyncs:
+					# Position rather than contents: distinct messages may be equal.
+					nasyncs += 1
+					if nasyncs > len(self._asyncs):
 						msg = AsynchronousMap[x[0]](x[1])
 						try:
 							self.asynchook(msg)
-- 
2.43.0


From 68fe180332b522620304e24ff31d1bf1dc4be26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 021/153] fix: callbacks shrinking the list being processed
 caused reads of freed memory

process_chunk() and compose() kept the size of and borrowed references
into a list that the functions they call can change.
---
 postgresql/port/_optimized/functools.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/postgresql/port/_optimized/functools.c b/postgresql/port/_optimized/functools.c
index 0bc2325..e3324d1 100644
--- a/postgresql/port/_optimized/functools.c
+++ b/postgresql/port/_optimized/functools.c
@@ -224,8 +224,17 @@ _process_chunk_from_list(PyObject *procs, PyObject *tupc, PyObject *fail)
 		/*
 		 * If it's Py_None, that means it's NULL. No processing necessary.
 		 */
+		if (i >= PyList_GET_SIZE(tupc))
+		{
+			Py_DECREF(rob);
+			PyErr_SetString(PyExc_RuntimeError,
+				"chunk changed size during processing");
+			return(NULL);
+		}
 		tup = PyList_GET_ITEM(tupc, i);
+		Py_INCREF(tup);
 		r = _process_tuple(procs, tup, fail);
+		Py_DECREF(tup);
 		if (r == NULL)
 		{
 			Py_DECREF(rob);
@@ -302,13 +311,15 @@ compose(PyObject *self, PyObject *args)
 	}
 	else if (PyObject_IsInstance(seq, (PyObject *) &PyList_Type))
 	{
-		len = PyList_GET_SIZE(seq);
-		for (i = 0; i < len; ++i)
+		/* The callables may change the list; don't rely on its size or references. */
+		for (i = 0; i < PyList_GET_SIZE(seq); ++i)
 		{
 			x = PyList_GET_ITEM(seq, i);
+			Py_INCREF(x);
 			argt = PyTuple_New(1);
 			PyTuple_SET_ITEM(argt, 0, rob);
 			rob = PyObject_CallObject(x, argt);
+			Py_DECREF(x);
 			Py_DECREF(argt);
 			if (rob == NULL)
 				break;
-- 
2.43.0


From f314bb527033186749fb0b9e3fdb42623240abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 022/153] fix: asynchronous messages received while closing or
 synchronizing were lost

---
 postgresql/driver/pq3.py       | 1 +
 postgresql/protocol/client3.py | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index ac86e74..a6cf042 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2511,6 +2511,7 @@ class Connection(pg_api.Connection):
 			# The startup/negotiation xact completed.
 			if pq.xact is None:
 				self.pq = pq
+				pq.asynchook = self._receive_async
 				if hasattr(self.pq.socket, 'fileno'):
 					self.fileno = self.pq.socket.fileno
 				self.security = 'ssl' if didssl is True else None
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index f7e2175..4d21311 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -99,7 +99,7 @@ class Connection(object):
 		"""
 		if self.xact is not None:
 			self.complete()
-		x = xact.Instruction((element.SynchronizeMessage,))
+		x = xact.Instruction((element.SynchronizeMessage,), asynchook = self.asynchook)
 		self.xact = x
 		self.complete()
 
@@ -376,7 +376,7 @@ class Connection(object):
 			xm.append(element.CloseStatement(x))
 			statements += 1
 		xm.append(element.SynchronizeMessage)
-		x = xact.Instruction(xm)
+		x = xact.Instruction(xm, asynchook = self.asynchook)
 		self.xact = x
 		del self.garbage_cursors[:cursors]
 		del self.garbage_statements[:statements]
@@ -540,6 +540,10 @@ class Connection(object):
 		self.garbage_statements = []
 		self.garbage_cursors = []
 
+		# Receives the asynchronous messages of the instructions that the
+		# connection itself issues.
+		self.asynchook = xact.return_arg
+
 		self.message_buffer = pq_message_stream()
 		self.recvsize = 8192
 
-- 
2.43.0


From d95688c966c3e32e3fb2cdfaf435c2c6e1b0526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 023/153] fix: a failed function call was taken for a protocol
 violation

---
 postgresql/protocol/xact3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 4bcc1ed..b457b72 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -321,7 +321,11 @@ class Instruction(Transaction):
 		),
 
 		element.Function.type : (
-			{element.FunctionResult.type : (element.FunctionResult.parse, 1)},
+			{
+				element.FunctionResult.type : (element.FunctionResult.parse, 1),
+				# Failed calls have no result.
+				element.Ready.type : (element.Ready.parse, None),
+			},
 			{element.Ready.type : (element.Ready.parse, None)},
 		),
 
-- 
2.43.0


From c3c9c463e31fb4af43dafe0788fbfb11a55cc530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 024/153] fix: localized errors were considered fatal to the
 connection

---
 postgresql/protocol/xact3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index b457b72..e61aaac 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -498,7 +498,9 @@ class Instruction(Transaction):
 				if x[0] == ERROR_TYPE:
 					em = ERROR_PARSE(x[1])
 					# Is it fatal?
-					self.fatal = fatal = em[b'S'].upper() != b'ERROR'
+					# 'S' is subject to the server's lc_messages; 'V', when present, is not.
+					severity = em.get(b'V') or em[b'S']
+					self.fatal = fatal = severity.upper() != b'ERROR'
 					self.error_message = em
 					if fatal is True:
 						# Can't sync up if the session is closed.
-- 
2.43.0


From 62509cbb22de78e4125c65c5fe299fd12e89c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 025/153] fix: a protocol violation met by Connection.step()
 was raised raw and left the connection open

---
 postgresql/protocol/client3.py | 53 ++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 4d21311..9a659f2 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -403,6 +403,19 @@ class Connection(object):
 				# start it up
 				self.step()
 
+	def protocol_failure(self, x, proto_exc):
+		"""
+		Note that processing the transaction, `x`, raised an exception:
+		it's a protocol or a programming error, and the connection is lost.
+		"""
+		# XXX: It may be useful to have this closer to the actual
+		# message so that a more informative message can be given.
+		x.fatal = True
+		x.state = xact.Complete
+		x.exception = proto_exc
+		x.error_message = client_detected_protocol_error
+		self.state = b''
+
 	def step(self):
 		"""
 		Make a single transition on the transaction.
@@ -411,22 +424,24 @@ class Connection(object):
 		to stream information out.
 		"""
 		x = self.xact
+		dir, op = x.state
+		if dir is not xact.Sending and dir is not xact.Receiving:
+			raise RuntimeError(
+				"unexpected PQ transaction state: " + repr(dir)
+			)
 		try:
-			dir, op = x.state
 			if dir is xact.Sending:
-				self.write_messages(x.messages)
-				# The "op" callable will either switch the state, or
-				# set the 'messages' attribute with a new sequence
-				# of message objects for more writing.
-				op()
-			elif dir is xact.Receiving:
-				self.read_messages()
-				self.read = self.read[op(self.read):]
-				self.state = getattr(x, 'last_ready', self.state)
+				# When the write fails, the transaction has been completed.
+				if self.write_messages(x.messages):
+					# The "op" callable will either switch the state, or
+					# set the 'messages' attribute with a new sequence
+					# of message objects for more writing.
+					op()
 			else:
-				raise RuntimeError(
-					"unexpected PQ transaction state: " + repr(dir)
-				)
+				# When the read fails, the transaction has been completed.
+				if self.read_messages():
+					self.read = self.read[op(self.read):]
+					self.state = getattr(x, 'last_ready', self.state)
 		except self.socket_factory.try_again_exception as e:
 			# Unlike _complete, this catches at the outermost level
 			# as there is no loop here for more transitioning.
@@ -435,6 +450,9 @@ class Connection(object):
 				return
 			else:
 				raise
+		except Exception as proto_exc:
+			self.protocol_failure(x, proto_exc)
+			return
 		if x.state is xact.Complete and \
 		getattr(self.xact, 'fatal', None) is not True:
 			# only remove the transaction if it's *not* fatal
@@ -470,14 +488,7 @@ class Connection(object):
 				if not self.socket_factory.try_again(e):
 					raise
 			except Exception as proto_exc:
-				# If an exception is raised here, it's a protocol or a programming error.
-				# XXX: It may be useful to have this closer to the actual
-				# message so that a more informative message can be given.
-				x.fatal = True
-				x.state = xact.Complete
-				x.exception = proto_exc
-				x.error_message = client_detected_protocol_error
-				self.state = b''
+				self.protocol_failure(x, proto_exc)
 				return
 		self.state = getattr(x, 'last_ready', self.state)
 		if getattr(x, 'fatal', None) is not True:
-- 
2.43.0


From 787a646866f7aa1aef0c26e4231b1728ff73de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 026/153] fix: synchronize() discarded the fatal transaction of
 a lost connection

---
 postgresql/protocol/client3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 9a659f2..d0ed065 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -99,6 +99,9 @@ class Connection(object):
 		"""
 		if self.xact is not None:
 			self.complete()
+		if self.xact is not None:
+			# The connection is lost, and the fatal transaction must remain.
+			return
 		x = xact.Instruction((element.SynchronizeMessage,), asynchook = self.asynchook)
 		self.xact = x
 		self.complete()
-- 
2.43.0


From b7bf7fffe71e63e448e8ae899cc8eaa9fd1a398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 027/153] fix: socket errors during SSL negotiation were raised
 raw and leaked the socket

---
 postgresql/protocol/client3.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index d0ed065..335e02c 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -163,7 +163,15 @@ class Connection(object):
 			# if ssl is True, ssl is *required*
 			# if ssl is False, ssl will be tried, but not required
 			# if ssl is None, no SSL negotiation will happen
-			self.ssl_negotiation = supported = self.negotiate_ssl()
+			try:
+				supported = self.negotiate_ssl()
+			except self.socket_factory.fatal_exception as err:
+				self.xact.fatal = True
+				self.xact.exception = err
+				self.xact.error_message = ssl_failed_error
+				self.xact.state = xact.Complete
+				return
+			self.ssl_negotiation = supported
 
 			# b'S' or b'N' was *not* received.
 			if supported is None:
-- 
2.43.0


From a0fc5ded0f875bbd5b74fe84455d5a5ec32bf2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 028/153] fix: requests that could not be started on a lost
 connection were left unprocessed

---
 postgresql/driver/pq3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index a6cf042..14d80b7 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2608,6 +2608,10 @@ class Connection(pg_api.Connection):
 		if controller is not None:
 			self._controller = controller
 		self.pq.push(xact)
+		x = self.pq.xact
+		if x is not None and x is not xact and x.fatal is not None:
+			# The connection was lost before `xact` could be started.
+			self.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None))
 
 	# Complete the current protocol transaction.
 	def _pq_complete(self):
-- 
2.43.0


From 245db85667c439acbad56344e6474d00b72a0f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 029/153] fix: a row stream failing during another operation
 was delivered truncated

---
 postgresql/driver/pq3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 14d80b7..dccde28 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1011,6 +1011,9 @@ class MultiXactStream(Chunks):
 
 		if self.database.pq.xact is x:
 			self.database._pq_complete()
+		elif x.fatal is not None:
+			# Completed by another operation, but not successfully.
+			self.database.typio.raise_error(x.error_message, creator = self)
 
 		# get all the element.Tuple messages
 		chunk = [
-- 
2.43.0


From ce7964303617703b80e3f72f337bb44c4f0ff03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 030/153] fix: connecting failed when a non-ASCII setting was
 announced before client_encoding

---
 postgresql/driver/pq3.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index dccde28..5ac9486 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2519,9 +2519,14 @@ class Connection(pg_api.Connection):
 					self.fileno = self.pq.socket.fileno
 				self.security = 'ssl' if didssl is True else None
 				showoption_type = element.ShowOption.type
-				for x in neg.asyncs:
-					if x.type == showoption_type:
-						self._receive_async(x)
+				options = [x for x in neg.asyncs if x.type == showoption_type]
+				# The values are in the client's encoding, whose own
+				# announcement is not necessarily the first one.
+				for x in options:
+					if x.name == b'client_encoding':
+						self.typio.set_encoding(x.value.decode('ascii'))
+				for x in options:
+					self._receive_async(x)
 				# success!
 				break
 			elif pq.socket is not None:
-- 
2.43.0


From 2c33a47d58f057fbb4a28a22a17840066ba230f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 031/153] fix: operations on a connection that could not be
 established raised AttributeError

---
 postgresql/driver/pq3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 5ac9486..68f9ec0 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2447,6 +2447,8 @@ class Connection(pg_api.Connection):
 	def _establish(self):
 		# guts of connect()
 		self.pq = None
+		# manual binding
+		self.sys = pg_lib.Binding(self, pg_lib.sys)
 		# if any exception occurs past this point, the connection
 		# object will not be usable.
 		timeout = self.connector.connect_timeout
@@ -2569,6 +2571,9 @@ class Connection(pg_api.Connection):
 		else:
 			# No servers available. (see the break-statement in the for-loop)
 			self.failures = failures or ()
+			if failures:
+				# Later operations are to be refused with this failure.
+				self.pq = failures[-1]
 			# it's over.
 			self.typio.raise_client_error(could_not_connect, creator = self, cause = exc)
 		##
@@ -2577,8 +2582,6 @@ class Connection(pg_api.Connection):
 
 		sv = self.settings.cache.get("server_version", "0.0")
 		self.version_info = pg_version.normalize(pg_version.split(sv))
-		# manual binding
-		self.sys = pg_lib.Binding(self, pg_lib.sys)
 
 		vi = self.version_info[:2]
 		if vi <= (8,1):
-- 
2.43.0


From 9ba6e65cf2e910fb235ba24ee87c13dc193da59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 032/153] fix: connection parameters containing NUL were sent
 as other parameters

---
 postgresql/driver/pq3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 68f9ec0..c6d3269 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2845,6 +2845,11 @@ class Connector(pg_api.Connector):
 		if self.database is not None:
 			tnkw['database'] = self.database
 
+		for k, v in list(tnkw.items()) + [('password', self.password)]:
+			if not k or '\0' in k or '\0' in str(v):
+				# These would end the field they are sent in.
+				raise ValueError("connection parameter cannot contain NUL: " + repr(k))
+
 		# Encode startup arguments.
 		# The server_encoding hint is strictly for str() values.
 		se = self.server_encoding or 'utf-8'
-- 
2.43.0


From 9f97b410a09214d4aaf9e31f5283938cbce792fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 033/153] fix: any message was taken for the answer to the
 password

---
 postgresql/protocol/xact3.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index e61aaac..7549f0e 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -214,6 +214,17 @@ class Negotiation(Transaction):
 				self.unsupported_auth_request(req)
 				return
 			x = (yield (element.Password(pw),))
+			if x[0] != element.Authentication.type:
+				self.fatal = True
+				self.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					(b'C', '08P01'),
+					(b'M', message_expectation(
+						expected = element.Authentication.type,
+						received = x[0],
+					)),
+				))
+				return
 
 			self.authok = element.Authentication.parse(x[1])
 			if self.authok.request != element.AuthRequest_OK:
-- 
2.43.0


From afb3878b3a0e780dc511d61d8d3280b7a6343b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 034/153] fix: server errors without a usable code or message
 were raised as KeyError

---
 postgresql/driver/pq3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index c6d3269..4b33573 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -523,8 +523,11 @@ class TypeIO(pg_api.TypeIO):
 
 	def raise_server_error(self, error_message, cause = None, creator = None):
 		m = dict(self.decode_notice(error_message))
-		c = m.pop('code')
-		ms = m.pop('message')
+		c = m.pop('code', None)
+		if c.__class__ is not str:
+			# Every error has a readable code; protocol_violation.
+			c = '08P01'
+		ms = m.pop('message', '')
 		server_error = self.lookup_exception(c)
 		server_error = server_error(ms, code = c, details = m, source = 'SERVER', creator = creator or self.database)
 		server_error.database = self.database
-- 
2.43.0


From 8330c92cd4cf86eaea906829b7d08b9a8efcf895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 035/153] fix: a COPY whose source failed was terminated by,
 and reported to, the next operation

---
 postgresql/driver/pq3.py       | 25 +++++++++++++++++--------
 postgresql/protocol/client3.py |  7 ++++++-
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 4b33573..114d839 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1770,14 +1770,23 @@ class Statement(pg_api.Statement):
 			))
 			self.database.typio.raise_client_error(x.error_message, creator = self)
 
-		for chunk in chunks:
-			x.messages = list(chunk)
-			while x.messages is not x.CopyFailSequence:
-				# Continue stepping until the transaction
-				# sets the CopyFailSequence again. That's
-				# the signal that the transaction has sent
-				# all the previously set messages.
-				step()
+		try:
+			for chunk in chunks:
+				x.messages = list(chunk)
+				while x.messages is not x.CopyFailSequence:
+					# Continue stepping until the transaction
+					# sets the CopyFailSequence again. That's
+					# the signal that the transaction has sent
+					# all the previously set messages.
+					step()
+		except:
+			##
+			# The COPY failed, or its source did: terminate it here rather than
+			# in the next operation, and raise the actual cause.
+			if x.state is not xact.Complete:
+				x.messages = x.CopyFailSequence
+			self.database.pq.synchronize()
+			raise
 		x.messages = x.CopyDoneSequence
 		self.database._pq_complete()
 		self.database.pq.synchronize()
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 335e02c..2a99ff4 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -335,8 +335,10 @@ class Connection(object):
 			self.written = self.writing
 
 		if messages is not self.writing:
+			# Nothing is to be changed when the messages are not serializable.
+			message_data = cat_messages(messages)
 			self.writing = messages
-			self.message_data += cat_messages(self.writing)
+			self.message_data += message_data
 			self.written = self.writing
 		return self.send_message_data()
 	write_messages = standard_write_messages
@@ -462,6 +464,9 @@ class Connection(object):
 			else:
 				raise
 		except Exception as proto_exc:
+			if dir is xact.Sending:
+				# Nothing inappropriate was received.
+				raise
 			self.protocol_failure(x, proto_exc)
 			return
 		if x.state is xact.Complete and \
-- 
2.43.0


From 78143c25aa8413d59c5efc662695be797d0608cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 036/153] fix: an error met after the first rows of a result
 was raised again by the next operation

---
 postgresql/driver/pq3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 114d839..f70efd4 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -940,6 +940,10 @@ class FetchAll(Chunks):
 		# fatal is True == dead connection
 		# fatal is False == dead transaction
 		if x.fatal is not None:
+			if self.database.pq.xact is x:
+				# The end of the transaction has not been received;
+				# the error is not to be raised by the next operation.
+				self.database.pq.complete()
 			self.database.typio.raise_error(x.error_message, creator = getattr(self, '_controller', self) or self)
 
 		# no messages to process?
-- 
2.43.0


From ea5693f3a175ad8d82b0537bc23613bc1d61813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 037/153] fix: copies of the COPY manager were terminated when
 started

---
 postgresql/copyman.py    | 21 +++------------------
 postgresql/driver/pq3.py | 21 +++++++++++++++++----
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 126a890..486d555 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -580,26 +580,11 @@ class StatementReceiver(ProtocolReceiver):
 		self.xact = None
 		super().__init__(statement.database.pq.socket.send,)
 
-	# XXX: A bit of a hack...
-	# This is actually a good indication that statements need a .copy()
-	# execution method for producing a "CopyCursor" that reads or writes.
-	class WireReady(BaseException):
-		pass
-	def raise_wire_ready(self):
-		raise self.WireReady()
-		yield None
-
-	def __enter__(self, iter = iter):
+	def __enter__(self):
 		super().__enter__()
 		# Get the connection in the COPY state.
-		try:
-			self.statement.load_chunks(
-				iter(self.raise_wire_ready()), *self.parameters
-			)
-		except self.WireReady:
-			# It's a BaseException; nothing should trap it.
-			# Note the transaction object; we'll use it on exit.
-			self.xact = self.statement.database.pq.xact
+		# Note the transaction object; we'll use it on exit.
+		self.xact = self.statement._begin_copy()
 
 	def __exit__(self, typ, val, tb):
 		if self.xact is None:
diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index f70efd4..118d52e 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1735,12 +1735,13 @@ class Statement(pg_api.Statement):
 					return command.decode('ascii')
 			return count
 
-	def _load_copy_chunks(self, chunks, *parameters):
+	def _begin_copy(self):
 		"""
-		Given an chunks of COPY lines, execute the COPY ... FROM STDIN
-		statement and send the copy lines produced by the iterable to
-		the remote end.
+		Execute the COPY ... FROM STDIN statement. Returns the protocol
+		transaction when the remote end is ready for COPY lines.
 		"""
+		if self.closed is None:
+			self._fini()
 		x = xact.Instruction((
 				element.Bind(
 					b'',
@@ -1773,6 +1774,18 @@ class Statement(pg_api.Statement):
 				(b'M', "_load_copy_chunks() used on a non-COPY FROM STDIN query"),
 			))
 			self.database.typio.raise_client_error(x.error_message, creator = self)
+		return x
+
+	def _load_copy_chunks(self, chunks, *parameters):
+		"""
+		Given an chunks of COPY lines, execute the COPY ... FROM STDIN
+		statement and send the copy lines produced by the iterable to
+		the remote end.
+		"""
+		x = self._begin_copy()
+
+		# localize
+		step = self.database._pq_step
 
 		try:
 			for chunk in chunks:
-- 
2.43.0


From f0678258863e323b99d8c5bed3f3a05dad7a9a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 038/153] fix: times with a datetime.timezone were refused

---
 postgresql/types/io/stdlib_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/io/stdlib_datetime.py b/postgresql/types/io/stdlib_datetime.py
index 3c1cdeb..7fab813 100644
--- a/postgresql/types/io/stdlib_datetime.py
+++ b/postgresql/types/io/stdlib_datetime.py
@@ -186,7 +186,7 @@ def timetz_pack(x,
 	Create a ((seconds, microseconds), timezone) tuple from a `datetime.time`
 	instance.
 	"""
-	td = x.tzinfo.utcoffset(x)
+	td = x.utcoffset()
 	seconds = (td.days * seconds_in_day + td.seconds)
 	# PostgreSQL's timezone displacement is west of UTC.
 	return (time_pack(x), -seconds)
-- 
2.43.0


From 6ac44a7b7b42fa4efeae3e0391d50a2b3b44defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 039/153] fix: numerics of the greatest length were delivered
 as other values

---
 postgresql/types/io/stdlib_decimal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/stdlib_decimal.py b/postgresql/types/io/stdlib_decimal.py
index 3deee38..efc0050 100644
--- a/postgresql/types/io/stdlib_decimal.py
+++ b/postgresql/types/io/stdlib_decimal.py
@@ -148,7 +148,8 @@ numeric_signs = {
 
 def numeric_unpack(x, unpack = lib.numeric_unpack):
 	header, digits = unpack(x)
-	npad = (header[3] - ((header[0] - (header[1] + 1)) * 4))
+	# The number of digits may exceed the range of the signed field.
+	npad = (header[3] - ((len(digits) - (header[1] + 1)) * 4))
 	return Decimal((
 		numeric_signs.get(header[2], header[2]),
 		tuple(chain(
-- 
2.43.0


From fdd3b41ea0200c5bbdc48e273fe88503d6b791a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 040/153] fix: the Python types of uuid, oid, record and hstore
 columns could not be told

---
 postgresql/driver/pq3.py              | 6 ++----
 postgresql/types/io/contrib_hstore.py | 5 ++++-
 postgresql/types/io/pg_system.py      | 8 ++++----
 postgresql/types/io/stdlib_uuid.py    | 2 +-
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 118d52e..0b790c6 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -213,9 +213,7 @@ class TypeIO(pg_api.TypeIO):
 			return None
 
 	def type_from_oid(self, oid):
-		if oid in self._cache:
-			typ = self._cache[oid][2]
-		return typ
+		return self.resolve(oid)[2]
 
 	def resolve_descriptor(self, desc, index):
 		"""
@@ -496,7 +494,7 @@ class TypeIO(pg_api.TypeIO):
 
 			return process_tuple(column_unpack, data, raise_unpack_tuple_error)
 
-		return (None, _unpack_record)
+		return (None, _unpack_record, tuple)
 
 	def raise_client_error(self, error_message, cause = None, creator = None):
 		m = {
diff --git a/postgresql/types/io/contrib_hstore.py b/postgresql/types/io/contrib_hstore.py
index 9279863..613d006 100644
--- a/postgresql/types/io/contrib_hstore.py
+++ b/postgresql/types/io/contrib_hstore.py
@@ -43,6 +43,9 @@ def hstore_factory(oid, typio,
 
 	return (pack_hstore, unpack_hstore)
 
+def hstore_io_factory(oid, typio):
+	return hstore_factory(oid, typio) + (dict,)
+
 oid_to_io = {
-	'contrib_hstore' : hstore_factory,
+	'contrib_hstore' : hstore_io_factory,
 }
diff --git a/postgresql/types/io/pg_system.py b/postgresql/types/io/pg_system.py
index 70ce964..efc6503 100644
--- a/postgresql/types/io/pg_system.py
+++ b/postgresql/types/io/pg_system.py
@@ -2,9 +2,9 @@ from ...types import OIDOID, XIDOID, CIDOID, TIDOID
 from . import lib
 
 oid_to_io = {
-	OIDOID : (lib.oid_pack, lib.oid_unpack),
-	XIDOID : (lib.xid_pack, lib.xid_unpack),
-	CIDOID : (lib.cid_pack, lib.cid_unpack),
-	TIDOID : (lib.tid_pack, lib.tid_unpack),
+	OIDOID : (lib.oid_pack, lib.oid_unpack, int),
+	XIDOID : (lib.xid_pack, lib.xid_unpack, int),
+	CIDOID : (lib.cid_pack, lib.cid_unpack, int),
+	TIDOID : (lib.tid_pack, lib.tid_unpack, tuple),
 	#ACLITEMOID : (aclitem_pack, aclitem_unpack),
 }
diff --git a/postgresql/types/io/stdlib_uuid.py b/postgresql/types/io/stdlib_uuid.py
index 3fc33b9..6b8879a 100644
--- a/postgresql/types/io/stdlib_uuid.py
+++ b/postgresql/types/io/stdlib_uuid.py
@@ -10,5 +10,5 @@ def uuid_unpack(x, UUID = uuid.UUID):
 	return UUID(bytes=x)
 
 oid_to_io = {
-	UUIDOID : (uuid_pack, uuid_unpack),
+	UUIDOID : (uuid_pack, uuid_unpack, uuid.UUID),
 }
-- 
2.43.0


From 5b0c81d6bcf0c5270f740e05ba455bba2023b1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 041/153] fix: items of arrays and records without binary
 support were delivered undecoded

---
 postgresql/driver/pq3.py  | 47 +++++++++++++++++++++++++++------------
 postgresql/lib/libsys.sql | 11 ++++++++-
 2 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 0b790c6..3570ac3 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -119,12 +119,16 @@ class TypeIO(pg_api.TypeIO):
 	configuration of PostgreSQL that it is connected to.
 	"""
 	_e_factors = ('database',)
+	# Text, in both formats.
 	strio = (None, None, str)
+	# Text; the binary format is not supported. Distinguished by identity.
+	textio = tuple([None, None, str])
 
 	def __init__(self, database):
 		self.database = database
 		self.encoding = None
 		strio = self.strio
+		textio = self.textio
 		self._cache = {
 			# Encoded character strings
 			pg_types.ACLITEMOID : strio, # No binary functions.
@@ -133,12 +137,12 @@ class TypeIO(pg_api.TypeIO):
 			pg_types.VARCHAROID : strio,
 			pg_types.CSTRINGOID : strio,
 			pg_types.TEXTOID : strio,
-			pg_types.REGTYPEOID : strio,
-			pg_types.REGPROCOID : strio,
-			pg_types.REGPROCEDUREOID : strio,
-			pg_types.REGOPEROID : strio,
-			pg_types.REGOPERATOROID : strio,
-			pg_types.REGCLASSOID : strio,
+			pg_types.REGTYPEOID : textio,
+			pg_types.REGPROCOID : textio,
+			pg_types.REGPROCEDUREOID : textio,
+			pg_types.REGOPEROID : textio,
+			pg_types.REGOPERATOROID : textio,
+			pg_types.REGCLASSOID : textio,
 		}
 		self.typinfo = {}
 		super().__init__()
@@ -197,6 +201,21 @@ class TypeIO(pg_api.TypeIO):
 	def resolve_unpack(self, typid):
 		return self.resolve(typid)[1] or self.decode
 
+	def item_io(self, typid, typio):
+		"""
+		The I/O pair of the items of arrays and records, which are always
+		transferred in binary format.
+		"""
+		if typio is self.textio:
+			def unsupported(data):
+				raise TypeError(
+					"the binary format of %s is not supported" %(
+						self.sql_type_from_oid(typid) or typid,
+					)
+				)
+			return (unsupported, unsupported)
+		return (typio[0] or self.encode, typio[1] or self.decode)
+
 	def attribute_map(self, pq_descriptor):
 		return zip(self.decodes(pq_descriptor.keys()), count())
 
@@ -256,7 +275,7 @@ class TypeIO(pg_api.TypeIO):
 			ti = self.lookup_type_info(typid)
 			if ti is not None:
 				typnamespace, typname, typtype, typlen, typelem, typrelid, \
-					ae_typid, ae_hasbin_input, ae_hasbin_output = ti
+					ae_typid, ae_hasbin_input, ae_hasbin_output, textual = ti
 				self.typinfo[typid] = (
 					typnamespace, typname, typrelid, int(typelem) if ae_typid else None
 				)
@@ -284,7 +303,7 @@ class TypeIO(pg_api.TypeIO):
 						te = self.resolve(
 							fieldtypid, list(from_resolution_of) + [typid]
 						)
-						cio.append((te[0] or self.encode, te[1] or self.decode))
+						cio.append(self.item_io(fieldtypid, te))
 						i += 1
 					self._cache[typid] = typio = self.record_io_factory(
 						cio, typids, attmap, list(
@@ -299,10 +318,11 @@ class TypeIO(pg_api.TypeIO):
 					te = self.resolve(
 						int(typelem),
 						from_resolution_of = list(from_resolution_of) + [typid]
-					) or (None, None)
+					)
+					pack_element, unpack_element = self.item_io(int(typelem), te)
 					typio = self.array_io_factory(
-						te[0] or self.encode,
-						te[1] or self.decode,
+						pack_element,
+						unpack_element,
 						typelem,
 						ae_hasbin_input,
 						ae_hasbin_output
@@ -321,7 +341,7 @@ class TypeIO(pg_api.TypeIO):
 						typio = self.anon_record_io_factory()
 
 					if not typio:
-						typio = self.strio
+						typio = self.strio if textual else self.textio
 
 					self._cache[typid] = typio
 			else:
@@ -487,8 +507,7 @@ class TypeIO(pg_api.TypeIO):
 		def _unpack_record(data, unpack = io_lib.record_unpack, process_tuple = process_tuple):
 			record = list(unpack(data))
 			coloids = tuple(x[0] for x in record)
-			colio = map(self.resolve, coloids)
-			column_unpack = tuple(c[1] or self.decode for c in colio)
+			column_unpack = tuple(self.item_io(x, self.resolve(x))[1] for x in coloids)
 
 			data = tuple(x[1] for x in record)
 
diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index e0bcc0b..4ca5db2 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -13,7 +13,16 @@ SELECT
  bt.typrelid,
  ae.oid AS ae_typid,
  ae.typreceive::oid != 0 AS ae_hasbin_input,
- ae.typsend::oid != 0 AS ae_hasbin_output
+ ae.typsend::oid != 0 AS ae_hasbin_output,
+ -- Whether the binary form is the text.
+ EXISTS (
+  SELECT 1 FROM pg_catalog.pg_proc p
+  WHERE p.oid = bt.typsend AND p.prosrc IN (
+   'textsend', 'varcharsend', 'bpcharsend', 'namesend', 'cstring_send',
+   'unknownsend', 'enum_send', 'json_send', 'xml_send', 'pg_node_tree_send',
+   'void_send'
+  )
+ ) AS textual
 FROM pg_catalog.pg_type bt
  LEFT JOIN pg_type ae
   ON (
-- 
2.43.0


From 335fd3087971c7654ae6baec6970a6fcdb41be0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 042/153] fix: strings in place of the lists of an array were
 taken apart

---
 postgresql/types/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 12b2543..81cdc0e 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -255,6 +255,9 @@ class Array(object):
 	@classmethod
 	def unroll_nest(typ, hier, dimensions, depth = 0):
 		dsize = dimensions and dimensions[depth] or 0
+		if hier.__class__ is not list:
+			# Only lists delimit the axes; this would be an element.
+			raise ValueError("element found in place of a list at depth " + str(depth))
 		if len(hier) != dsize:
 			raise ValueError("list size not consistent with dimensions at depth " + str(depth))
 		r = []
-- 
2.43.0


From 8630489dddc579edd626247e5c5572deefc796c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 043/153] fix: first() raised the errors of codecs unreported

---
 postgresql/driver/pq3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 3570ac3..8d46ae2 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1725,10 +1725,10 @@ class Statement(pg_api.Statement):
 				)
 			else:
 				# Single column output.
-				if xt[0] is None:
-					return None
-				io = self._output_io[0] or self.database.typio.decode
-				return io(xt[0])
+				return process_tuple(
+					self._output_io, xt,
+					self._raise_column_tuple_error
+				)[0]
 		else:
 			##
 			# It doesn't return rows, so return a count.
-- 
2.43.0


From 87723901a56e4303db16596a815f2cf6f2bfd798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 044/153] fix: malformed bit strings were accepted and
 comparing bit strings with other objects failed

---
 postgresql/types/bitwise.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 297756b..4a7a574 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -17,6 +17,8 @@ class Varbit(object):
 		if isinstance(data, bytes):
 			return typ.from_bits(len(data) * 8, data)
 		# str(), eg '00101100'
+		if data.strip('01'):
+			raise ValueError("invalid bit string: " + repr(data))
 		bits = len(data)
 		nbytes, remain = divmod(bits, 8)
 		bdata = [bytes((int(data[x:x+8], 2),)) for x in range(0, bits - remain, 8)]
@@ -42,7 +44,11 @@ class Varbit(object):
 
 	def __eq__(self, ob):
 		if not isinstance(ob, Varbit):
-			ob = Varbit(ob)
+			try:
+				ob = Varbit(ob)
+			except (ValueError, TypeError, AttributeError):
+				# Not a bit string.
+				return NotImplemented
 		return ob.bits == self.bits and ob.data == self.data
 
 	def __len__(self):
@@ -70,7 +76,7 @@ class Varbit(object):
 
 	def __getitem__(self, item):
 		if isinstance(item, slice):
-			return type(self)(str(self)[item])
+			return Varbit(str(self)[item])
 		else:
 			return self.getbit(item)
 
-- 
2.43.0


From 010f8f67682ef6f9d83509790ce95e9f83793e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 045/153] fix: malformed MAC addresses were stored as other
 addresses

---
 postgresql/types/io/lib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index f9638c7..45198ea 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -1,5 +1,6 @@
 import struct
 from math import floor
+from string import hexdigits
 from ...python.functools import Composition as compose
 from ...python.itertools import interlace
 from ...python.structlib import \
@@ -328,7 +329,9 @@ def macaddr_pack(data, bytes = bytes):
 		mac_parts = [data[:2], data[2:4], data[4:6], data[6:8], data[8:10], data[10:]]
 	else:
 		raise ValueError('data string cannot be parsed to bytes')
-	if len(mac_parts) != 6 and len(mac_parts[-1]) != 2:
+	if len(mac_parts) != 6 or not all(
+		0 < len(p) <= 2 and not p.strip(hexdigits) for p in mac_parts
+	):
 		raise ValueError('data string cannot be parsed to bytes')
 	return bytes([int(p, 16) for p in mac_parts])
 
-- 
2.43.0


From 5bac49fb8a06127d30fe52fd8a2f350efa39536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 046/153] fix: text before the first element of XML content was
 not delivered

---
 postgresql/types/io/stdlib_xml_etree.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/stdlib_xml_etree.py b/postgresql/types/io/stdlib_xml_etree.py
index 52d56f7..32bfe22 100644
--- a/postgresql/types/io/stdlib_xml_etree.py
+++ b/postgresql/types/io/stdlib_xml_etree.py
@@ -5,6 +5,7 @@ try:
 	import xml.etree.cElementTree as etree
 except ImportError:
 	import xml.etree.ElementTree as etree
+from xml.sax.saxutils import escape
 from .. import XMLOID
 from ...python.functools import Composition as compose
 
@@ -17,7 +18,13 @@ def xml_unpack(xmldata, XML = etree.XML):
 		return XML(xmldata)
 	except Exception:
 		# try it again, but return the sequence of children.
-		return tuple(XML('<x>' + xmldata + '</x>'))
+		x = XML('<x>' + xmldata + '</x>')
+		r = tuple(x)
+		if x.text:
+			# The text before the first element. As strings given to xml_pack
+			# are serialized XML, it has to be one as well.
+			r = (escape(x.text),) + r
+		return r
 
 if not hasattr(etree, 'tostringlist'):
 	# Python 3.1 support.
-- 
2.43.0


From ebabb13873b23ad97919cb12edf4b92e37fee694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 047/153] fix: the scope of IPv6 addresses was dropped silently

---
 postgresql/types/io/pg_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/types/io/pg_network.py b/postgresql/types/io/pg_network.py
index ba4b142..33e2712 100644
--- a/postgresql/types/io/pg_network.py
+++ b/postgresql/types/io/pg_network.py
@@ -10,10 +10,14 @@ oid_to_type = {
 
 def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_interface):
 	a = Constructor(ob)
+	if getattr(a, 'scope_id', None) is not None:
+		raise ValueError("addresses with a scope are not supported: " + str(a))
 	return pack((a.version, a.network.prefixlen, a.packed))
 
 def cidr_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_network):
 	a = Constructor(ob)
+	if getattr(a.network_address, 'scope_id', None) is not None:
+		raise ValueError("addresses with a scope are not supported: " + str(a))
 	return pack((a.version, a.prefixlen, a.network_address.packed))
 
 def inet_unpack(data, unpack = lib.net_unpack, Constructor = ipaddress.ip_address):
-- 
2.43.0


From 7a734a90140ff9db5cf740749e9dff4aff045a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 048/153] fix: XML was sent in the client_encoding, which the
 server takes for UTF-8

---
 postgresql/types/io/stdlib_xml_etree.py | 47 ++++++++++++-------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/postgresql/types/io/stdlib_xml_etree.py b/postgresql/types/io/stdlib_xml_etree.py
index 32bfe22..b0b67ca 100644
--- a/postgresql/types/io/stdlib_xml_etree.py
+++ b/postgresql/types/io/stdlib_xml_etree.py
@@ -5,10 +5,17 @@ try:
 	import xml.etree.cElementTree as etree
 except ImportError:
 	import xml.etree.ElementTree as etree
+import re
+from functools import partial
 from xml.sax.saxutils import escape
 from .. import XMLOID
 from ...python.functools import Composition as compose
 
+strip_declaration = partial(re.compile(r'^<\?xml\s[^>]*\?>').sub, '')
+declared_encoding = re.compile(
+	r'''^<\?xml\s[^>]*?\bencoding\s*=\s*["']([A-Za-z][\w.-]*)["']'''
+).match
+
 oid_to_type = {
 	XMLOID: etree.ElementTree,
 }
@@ -18,7 +25,8 @@ def xml_unpack(xmldata, XML = etree.XML):
 		return XML(xmldata)
 	except Exception:
 		# try it again, but return the sequence of children.
-		x = XML('<x>' + xmldata + '</x>')
+		# A declaration is given when the client_encoding is not UTF-8.
+		x = XML('<x>' + strip_declaration(xmldata) + '</x>')
 		r = tuple(x)
 		if x.text:
 			# The text before the first element. As strings given to xml_pack
@@ -49,41 +57,32 @@ if not hasattr(etree, 'tostringlist'):
 		)
 else:
 	# New etree tostring API.
-	def xml_pack(xml, encoding, encoder,
+	def xml_pack(xml,
 		tostr = etree.tostring, et = etree.ElementTree,
 		str = str, isinstance = isinstance, tuple = tuple,
 	):
+		# Binary XML is never converted from the client_encoding. The server
+		# observes the declared encoding and takes anything else for UTF-8.
 		if isinstance(xml, bytes):
 			return xml
-		if isinstance(xml, str):
-			# If it's a string, encode and return.
-			return encoder(xml)
-		elif isinstance(xml, tuple):
+		if isinstance(xml, tuple):
 			# If it's a tuple, encode and return the joined items.
 			# We do not accept lists here--emphasizing lists being used for ARRAY
 			# bounds.
-			##
-			# 3.2
-			# XXX: tostring doesn't include declaration with utf-8?
-			x = b''.join(
-				x.encode('utf-8') if isinstance(x, str) else
-				tostr(x, encoding = "utf-8")
+			xml = ''.join(
+				x if isinstance(x, str) else tostr(x, encoding = "unicode")
 				for x in xml
 			)
-		else:
-			##
-			# 3.2
-			# XXX: tostring doesn't include declaration with utf-8?
-			x = tostr(xml, encoding = "utf-8")
-		if encoding in ('utf8','utf-8'):
-			return x
-		else:
-			return encoder(x.decode('utf-8'))
+		if isinstance(xml, str):
+			declared = declared_encoding(xml)
+			return xml.encode(declared.group(1) if declared else 'utf-8')
+		##
+		# 3.2
+		# XXX: tostring doesn't include declaration with utf-8?
+		return tostr(xml, encoding = "utf-8")
 
 	def xml_io_factory(typoid, typio, c = compose):
-		def local_xml_pack(x, encoder = typio.encode, typio = typio, xml_pack = xml_pack):
-			return xml_pack(x, typio.encoding, encoder)
-		return (local_xml_pack, c((typio.decode, xml_unpack)), etree.ElementTree,)
+		return (xml_pack, c((typio.decode, xml_unpack)), etree.ElementTree,)
 
 oid_to_io = {
 	XMLOID : xml_io_factory
-- 
2.43.0


From dd6e3cb77f42c1c9fb0a041717001ae217da127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 049/153] fix: a transaction is rolled back although an
 operation in progress fails

---
 postgresql/driver/pq3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 8d46ae2..1860eb7 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2293,6 +2293,10 @@ class Transaction(pg_api.Transaction):
 			q = self._rollback_to_string(hex(id(self)))
 		else:
 			raise RuntimeError("unknown transaction type " + repr(self.type))
+		if self.database.pq.xact is not None:
+			# An operation is still in progress. Its failure
+			# must not get in the way of the rollback.
+			self.database.pq.complete()
 		self.database.execute(q)
 		self.state = 'aborted'
 	abort = rollback
-- 
2.43.0


From 0f495088c7ec30d495723dd29018ffc07b74c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 050/153] fix: a block left by any exception, or whose commit
 fails, is rolled back

---
 postgresql/driver/pq3.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 1860eb7..797b319 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2186,13 +2186,14 @@ class Transaction(pg_api.Transaction):
 					self.commit()
 					# If an error occurs, clean up the transaction state
 					# and raise as needed.
-				except pg_exc.ActiveTransactionError as err:
-					if not self.database.closed:
-						# adjust the state so rollback will do the right thing and abort.
-						self.state = 'open'
+					# That may also be the error of an operation, a row stream,
+					# that was still in progress when the block was left.
+				except pg_exc.Error as err:
+					if self.state == 'open' and not self.database.closed \
+					and self.database.pq.state != b'I':
 						self.rollback()
 					raise
-		elif issubclass(typ, Exception):
+		else:
 			# There's an exception, so only rollback if the connection
 			# exists. If the rollback() was called here, it would just
 			# contribute noise to the error.
-- 
2.43.0


From fc3634fcc3d4824432897c1185d2b76693aedcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 051/153] fix: forward and backward seeks follow the cursor's
 direction

---
 postgresql/driver/pq3.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 797b319..915667d 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1194,21 +1194,25 @@ class Cursor(Output, pg_api.Cursor):
 		if offset == 'ALL':
 			if rwhence not in ('BACKWARD', 'FORWARD'):
 				rwhence = 'BACKWARD' if self.direction is False else 'FORWARD'
+			elif self.direction is False:
+				rwhence = 'FORWARD' if rwhence == 'BACKWARD' else 'BACKWARD'
 		else:
 			if offset < 0 and rwhence == 'BACKWARD':
 				offset = -offset
 				rwhence = 'FORWARD'
 
 			if self.direction is False:
-				if offset == 'ALL' and rwhence != 'FORWARD':
-					rwhence = 'BACKWARD'
+				if rwhence == 'RELATIVE':
+					offset = -offset
+				elif rwhence == 'ABSOLUTE':
+					rwhence = 'FROM_END'
+				elif rwhence == 'FROM_END':
+					rwhence = 'ABSOLUTE'
+				elif offset < 0 or rwhence == 'BACKWARD':
+					offset = abs(offset)
+					rwhence = 'FORWARD'
 				else:
-					if rwhence == 'RELATIVE':
-						offset = -offset
-					elif rwhence == 'ABSOLUTE':
-						rwhence = 'FROM_END'
-					else:
-						rwhence = 'ABSOLUTE'
+					rwhence = 'BACKWARD'
 
 		if rwhence in ('RELATIVE', 'BACKWARD', 'FORWARD'):
 			if offset == 'ALL':
-- 
2.43.0


From d42690a530bf4c0d0cec3220baea1b94f1389579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 052/153] fix: column errors of cursors opened by identifier
 are reported

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 915667d..ce5e753 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -812,7 +812,7 @@ class Output(object):
 					itemnum,
 					self.column_names[itemnum],
 					self.database.typio.sql_type_from_oid(
-						self.statement.pg_column_types[itemnum]
+						self.pg_column_types[itemnum]
 					) or '<unknown>',
 				)
 			),
-- 
2.43.0


From 5ed1c7471c1d47d7005c1dbacd76fd8a55f29a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 053/153] fix: a closed cursor refuses to read and seek

---
 postgresql/driver/pq3.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index ce5e753..a9d1a48 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1171,7 +1171,17 @@ class Cursor(Output, pg_api.Cursor):
 		dir = self._which_way(direction)
 		return self._fetch(dir, quantity)
 
+	def _refuse_closed(self):
+		if self.closed:
+			em = element.ClientError((
+				(b'S', 'ERROR'),
+				(b'C', '34000'),
+				(b'M', "cursor is closed"),
+			))
+			self.database.typio.raise_client_error(em, creator = self)
+
 	def _fetch(self, direction, quantity):
+		self._refuse_closed()
 		x = self._ins(
 			self._pq_xp_fetch(direction, quantity) + \
 			(element.SynchronizeMessage,)
@@ -1183,6 +1193,7 @@ class Cursor(Output, pg_api.Cursor):
 		))
 
 	def seek(self, offset, whence = 'ABSOLUTE'):
+		self._refuse_closed()
 		rwhence = self._seek_whence_map.get(whence, whence)
 		if rwhence is None or rwhence.upper() not in \
 		self._seek_whence_map.values():
-- 
2.43.0


From 07dbafb4946775d544b3040ad7c77df7db159b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 054/153] fix: load_rows() executes every statement to its end

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index a9d1a48..c8cd1c8 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1861,7 +1861,7 @@ class Statement(pg_api.Statement):
 							),
 							(),
 						),
-						Execute(b'', 1),
+						Execute(b'', 0xFFFFFFFF),
 					)
 					for t in chunk
 				]
-- 
2.43.0


From 231c45d129cbc0eccb23c9e68c5953da203b5066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 055/153] fix: sending a large amount of data does not deadlock
 with the server

---
 postgresql/protocol/client3.py | 49 ++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 2a99ff4..ec1a02c 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -5,11 +5,17 @@
 Protocol version 3.0 client and tools.
 """
 import os
+import selectors
 import weakref
 from .buffer import pq_message_stream
 from . import element3 as element
 from . import xact3 as xact
 
+try:
+	from ssl import SSLWantReadError as ssl_want_read
+except ImportError:
+	ssl_want_read = BlockingIOError
+
 __all__ = ('Connection',)
 
 client_detected_protocol_error = element.ClientError((
@@ -292,6 +298,46 @@ class Connection(object):
 		return r
 	read_messages = standard_read_messages
 
+	def send_and_receive(self):
+		"""
+		Send `message_data` while buffering the data that is being received.
+
+		The server stops reading when its own output is not read, so a large
+		amount of data cannot be sent without receiving.
+		"""
+		sock = self.socket
+		if sock.fileno() < 0:
+			return
+		data = self.message_data
+		view = memoryview(data)
+		sent = 0
+		if self.read_data is not None:
+			self.message_buffer.write(self.read_data)
+			self.read_data = None
+		timeout = sock.gettimeout()
+		try:
+			with selectors.DefaultSelector() as selector:
+				selector.register(sock, selectors.EVENT_READ | selectors.EVENT_WRITE)
+				while sent < len(data):
+					for key, events in selector.select():
+						if events & selectors.EVENT_READ:
+							sock.settimeout(0)
+							try:
+								received = sock.recv(self.recvsize)
+							except (BlockingIOError, ssl_want_read):
+								pass
+							else:
+								if not received:
+									# Closed. Leave it to send() and recv() to fail.
+									return
+								self.message_buffer.write(received)
+							finally:
+								sock.settimeout(timeout)
+						if events & selectors.EVENT_WRITE:
+							sent += sock.send(view[sent:sent + self.sendsize])
+		finally:
+			self.message_data = data[sent:]
+
 	def send_message_data(self):
 		"""
 		send all `message_data`.
@@ -301,6 +347,8 @@ class Connection(object):
 		"""
 		SEND_DATA = self.socket.send
 		try:
+			if len(self.message_data) > self.sendsize:
+				self.send_and_receive()
 			while self.message_data:
 				# Send data while there is data to send.
 				self.message_data = self.message_data[
@@ -573,6 +621,7 @@ class Connection(object):
 
 		self.message_buffer = pq_message_stream()
 		self.recvsize = 8192
+		self.sendsize = 1024 * 64
 
 		self.read = ()
 		# bytes received.
-- 
2.43.0


From 8ae999216c4bc9beacb9592fd01fb04b58e258d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 056/153] fix: interrupt() returned before the server processed
 the request

---
 postgresql/protocol/client3.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index ec1a02c..4d1e2ea 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -117,6 +117,14 @@ class Connection(object):
 		s = self.socket_factory(timeout = timeout)
 		try:
 			s.sendall(cq)
+			# The server closes the connection once the request was processed.
+			# Without waiting for that, a later operation may be interrupted.
+			try:
+				while s.recv(16):
+					pass
+			except OSError:
+				# Not relevant; the request has been sent.
+				pass
 		finally:
 			s.close()
 
-- 
2.43.0


From 9d722aa799f543a06fb09b9f8ff7ce3c0ff1313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 057/153] fix: an abandoned copy was reported as complete

---
 postgresql/copyman.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 486d555..38c6174 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -697,6 +697,11 @@ class CopyManager(Element, Iterator):
 			# Don't bother, it's an interrupt or sufficient resources.
 			return
 
+		if typ is None and not self._seen_stop_iteration:
+			# Not ran until exhaustion; the receivers must not complete theirs.
+			val = CopyFail(self, "copy was not ran until exhaustion")
+			typ = CopyFail
+
 		profail = None
 		try:
 			# Does nothing if the COPY was successful.
-- 
2.43.0


From 7e1e0b10496586820886d5ff63d4d5fc9b5ebf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 058/153] fix: messages following the completion of a COPY
 failed the CopyManager

---
 postgresql/copyman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 38c6174..077afa8 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -504,8 +504,8 @@ class StatementProducer(ProtocolProducer):
 		# XXX: Better way? Probably shouldn't do the full track_state if complete..
 		if self._chunks._xact.state is xactComplete:
 			# It's over, don't hand off to recv_view.
+			# Messages that are not part of the COPY were given back by recover().
 			self.nextchunk = self.confiscate
-			assert self._state.final_view is None
 		return r
 
 	def recover(self, view):
-- 
2.43.0


From 11a6d72b8a572cf2f8cc1b9b6eb7a052a5f23d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 059/153] fix: copying to a receiver whose server sends notices
 deadlocked

---
 postgresql/copyman.py          | 12 ++++++++++++
 postgresql/protocol/client3.py |  6 +++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 077afa8..31bf188 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -586,6 +586,18 @@ class StatementReceiver(ProtocolReceiver):
 		# Note the transaction object; we'll use it on exit.
 		self.xact = self.statement._begin_copy()
 
+	def transmit(self):
+		##
+		# The server stops reading when its own output(notices) is not read,
+		# so receive while sending.
+		pq = self.statement.database.pq
+		pq.message_data = self.view
+		try:
+			pq.send_and_receive()
+		finally:
+			self.view, pq.message_data = pq.message_data, b''
+		super().transmit()
+
 	def __exit__(self, typ, val, tb):
 		if self.xact is None:
 			# Nothing to do.
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 4d1e2ea..31493e2 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -7,6 +7,7 @@ Protocol version 3.0 client and tools.
 import os
 import selectors
 import weakref
+from socket import timeout as socket_timeout
 from .buffer import pq_message_stream
 from . import element3 as element
 from . import xact3 as xact
@@ -327,7 +328,10 @@ class Connection(object):
 			with selectors.DefaultSelector() as selector:
 				selector.register(sock, selectors.EVENT_READ | selectors.EVENT_WRITE)
 				while sent < len(data):
-					for key, events in selector.select():
+					ready = selector.select(timeout)
+					if not ready:
+						raise socket_timeout("timed out")
+					for key, events in ready:
 						if events & selectors.EVENT_READ:
 							sock.settimeout(0)
 							try:
-- 
2.43.0


From a1c5149f7446b3fab90abb0e674ed823c37e8221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 060/153] fix: listen() and unlisten() did not quote the
 channel as notify() does

---
 postgresql/driver/pq3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index c8cd1c8..4b766a7 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2781,7 +2781,7 @@ class Connection(pg_api.Connection):
 			# XXX: hardcoded identifier length?
 			if len(x) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; LISTEN ' + x.replace('"', '""')
+			qstr += '; LISTEN "' + x.replace('"', '""') + '"'
 		return self.execute(qstr)
 
 	def unlisten(self, *channels, len = len):
@@ -2790,7 +2790,7 @@ class Connection(pg_api.Connection):
 			# XXX: hardcoded identifier length?
 			if len(x) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; UNLISTEN ' + x.replace('"', '""')
+			qstr += '; UNLISTEN "' + x.replace('"', '""') + '"'
 		return self.execute(qstr)
 
 	def iternotifies(self, timeout = None):
-- 
2.43.0


From dcacb1d41b898f29723cfcf238f050c779adaad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 061/153] fix: a zero timeout did not check the wire for
 notifications

---
 postgresql/notifyman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index cc6ef2c..a53bcb2 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -195,7 +195,8 @@ class NotificationManager(object):
 		return self
 
 	def __next__(self, time = time):
-		checked_wire = True
+		# When polling, the wire must be checked before stopping.
+		checked_wire = self.timeout != 0
 		# Loop until NOTIFY received or timeout.
 		while True:
 			if self.incoming is not None:
-- 
2.43.0


From 624b0874c0f451c9f366cb5e1de0e17bdb78b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 062/153] fix: notifications received by a failing connection
 were lost

---
 postgresql/notifyman.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index a53bcb2..9c71d6a 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -69,6 +69,9 @@ class NotificationManager(object):
 				self._last_time = time()
 				max_duration = self.timeout or 10
 
+		# Connections that are about to be removed may have something queued.
+		self._pull_from_connections()
+
 		# Connections already marked as "bad" should not be checked.
 		check = self.connections - self.garbage
 		for db in check:
@@ -90,6 +93,9 @@ class NotificationManager(object):
 				# failed to collect notifies; put in exception list.
 				# It is very unlikely that this is *not* a FATAL error.
 				x.append(db)
+		if x:
+			# Received before the failure.
+			self._pull_from_connections()
 		self.trash(x)
 
 	def trash(self, connections):
-- 
2.43.0


From 02aa6b8a9bcdf6e5610af90fb743043c10dd6d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 063/153] fix: notifications received with the end of an
 operation were not noticed

---
 postgresql/notifyman.py        | 7 +++++++
 postgresql/protocol/client3.py | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index 9c71d6a..27cfc49 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -80,7 +80,14 @@ class NotificationManager(object):
 				self.garbage.add(db)
 		check = self.connections - self.garbage
 
+		# Messages that were received along with the end of a prior operation
+		# are not on the wire anymore.
+		received = [db for db in check if db.pq.has_received()]
+		if received:
+			max_duration = 0
+
 		r, w, x = select(check, (), check, max_duration)
+		r.extend(db for db in received if db not in r)
 		# Make sure the connection's _notifies get filled.
 		for db in r:
 			# Collect any pending events.
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 31493e2..f969610 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -307,6 +307,12 @@ class Connection(object):
 		return r
 	read_messages = standard_read_messages
 
+	def has_received(self):
+		"""
+		Whether there are received messages that have not been processed.
+		"""
+		return bool(self.read) or self.message_buffer.has_message()
+
 	def send_and_receive(self):
 		"""
 		Send `message_data` while buffering the data that is being received.
-- 
2.43.0


From 44f74543fb4777d5e36d00fca41bf42874ee042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:02 +0000
Subject: [PATCH 064/153] fix: the send() of a copy receiver was bypassed while
 receiving

---
 postgresql/copyman.py          | 16 ++------
 postgresql/protocol/client3.py | 68 +++++++++++++++++-----------------
 2 files changed, 38 insertions(+), 46 deletions(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 31bf188..00b074e 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -578,7 +578,9 @@ class StatementReceiver(ProtocolReceiver):
 		self.statement = statement
 		self.parameters = parameters
 		self.xact = None
-		super().__init__(statement.database.pq.socket.send,)
+		# The server stops reading when its own output(notices) is not read,
+		# so receive while sending.
+		super().__init__(statement.database.pq.send_and_receive,)
 
 	def __enter__(self):
 		super().__enter__()
@@ -586,18 +588,6 @@ class StatementReceiver(ProtocolReceiver):
 		# Note the transaction object; we'll use it on exit.
 		self.xact = self.statement._begin_copy()
 
-	def transmit(self):
-		##
-		# The server stops reading when its own output(notices) is not read,
-		# so receive while sending.
-		pq = self.statement.database.pq
-		pq.message_data = self.view
-		try:
-			pq.send_and_receive()
-		finally:
-			self.view, pq.message_data = pq.message_data, b''
-		super().transmit()
-
 	def __exit__(self, typ, val, tb):
 		if self.xact is None:
 			# Nothing to do.
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index f969610..6dd2878 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -313,48 +313,45 @@ class Connection(object):
 		"""
 		return bool(self.read) or self.message_buffer.has_message()
 
-	def send_and_receive(self):
+	def send_and_receive(self, view):
 		"""
-		Send `message_data` while buffering the data that is being received.
+		Send some of `view` once the socket takes it, while buffering the data
+		that is being received. Returns the number of bytes that were sent.
 
 		The server stops reading when its own output is not read, so a large
 		amount of data cannot be sent without receiving.
 		"""
 		sock = self.socket
+		timeout = sock.gettimeout()
+		view = view[:self.sendsize]
 		if sock.fileno() < 0:
-			return
-		data = self.message_data
-		view = memoryview(data)
-		sent = 0
+			# Leave it to send() to fail.
+			return sock.send(view)
 		if self.read_data is not None:
 			self.message_buffer.write(self.read_data)
 			self.read_data = None
-		timeout = sock.gettimeout()
-		try:
-			with selectors.DefaultSelector() as selector:
-				selector.register(sock, selectors.EVENT_READ | selectors.EVENT_WRITE)
-				while sent < len(data):
-					ready = selector.select(timeout)
-					if not ready:
-						raise socket_timeout("timed out")
-					for key, events in ready:
-						if events & selectors.EVENT_READ:
-							sock.settimeout(0)
-							try:
-								received = sock.recv(self.recvsize)
-							except (BlockingIOError, ssl_want_read):
-								pass
-							else:
-								if not received:
-									# Closed. Leave it to send() and recv() to fail.
-									return
-								self.message_buffer.write(received)
-							finally:
-								sock.settimeout(timeout)
-						if events & selectors.EVENT_WRITE:
-							sent += sock.send(view[sent:sent + self.sendsize])
-		finally:
-			self.message_data = data[sent:]
+		with selectors.DefaultSelector() as selector:
+			selector.register(sock, selectors.EVENT_READ | selectors.EVENT_WRITE)
+			while True:
+				ready = selector.select(timeout)
+				if not ready:
+					raise socket_timeout("timed out")
+				for key, events in ready:
+					if events & selectors.EVENT_READ:
+						sock.settimeout(0)
+						try:
+							received = sock.recv(self.recvsize)
+						except (BlockingIOError, ssl_want_read):
+							pass
+						else:
+							if not received:
+								# Closed. Leave it to send() and recv() to fail.
+								return sock.send(view)
+							self.message_buffer.write(received)
+						finally:
+							sock.settimeout(timeout)
+					if events & selectors.EVENT_WRITE:
+						return sock.send(view)
 
 	def send_message_data(self):
 		"""
@@ -366,7 +363,12 @@ class Connection(object):
 		SEND_DATA = self.socket.send
 		try:
 			if len(self.message_data) > self.sendsize:
-				self.send_and_receive()
+				view = memoryview(self.message_data)
+				try:
+					while view:
+						view = view[self.send_and_receive(view):]
+				finally:
+					self.message_data = bytes(view)
 			while self.message_data:
 				# Send data while there is data to send.
 				self.message_data = self.message_data[
-- 
2.43.0


From 399c3426c93ae782f7f60cbfc6db96cf944ed842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:09 +0000
Subject: [PATCH 065/153] fix: a failed blocking acquire() kept the advisory
 locks it had obtained

---
 postgresql/alock.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/postgresql/alock.py b/postgresql/alock.py
index 4391f38..0073f6b 100644
--- a/postgresql/alock.py
+++ b/postgresql/alock.py
@@ -62,6 +62,21 @@ class ALock(element.Element):
 		]
 		return (id_pairs, ids)
 
+	def _acquire_each(self):
+		# One at a time, so that those that were acquired can be released
+		# when acquiring another one fails: timeout, deadlock, interrupt.
+		acquired = []
+		try:
+			for id in self.identifiers:
+				self._acquire(*self._split_lock_identifiers((id,)))
+				acquired.append(id)
+		except Exception:
+			if acquired and not self.database.closed \
+			and self.database.pq.state != b'E':
+				acquired.reverse()
+				self._release(*self._split_lock_identifiers(acquired))
+			raise
+
 	def acquire(self, blocking = True, len = len):
 		"""
 		Acquire the locks using the configured identifiers.
@@ -70,7 +85,10 @@ class ALock(element.Element):
 			# _count is zero, so the locks need to be acquired.
 			wait = bool(blocking)
 			if wait:
-				self._acquire(self._id_pairs, self._ids)
+				if len(self.identifiers) < 2:
+					self._acquire(self._id_pairs, self._ids)
+				else:
+					self._acquire_each()
 			else:
 				# grab the success of each lock id. if some were
 				# unsuccessful, then the ones that were successful need to be
-- 
2.43.0


From 869a021cdc2f41e35844daab581686f908350097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:22 +0000
Subject: [PATCH 066/153] fix: leaving a settings context in a failed
 transaction replaced the exception

---
 postgresql/driver/pq3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 4b766a7..2532dbb 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2009,7 +2009,11 @@ class SettingsCM(object):
 		self.database.settings.update(self.settings_to_set)
 
 	def __exit__(self, typ, val, tb):
-		self.database.settings.update(self.stored_settings)
+		db = self.database
+		if typ is not None and (db.closed or db.pq.state == b'E'):
+			# Not possible here. Rolling the block back restores the settings.
+			return
+		db.settings.update(self.stored_settings)
 
 class Settings(pg_api.Settings):
 	_e_factors = ('database',)
-- 
2.43.0


From eceed4e78e134858db0dea97d48a5bce1b22184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:22 +0000
Subject: [PATCH 067/153] fix: an empty search_path could not be read through
 settings.path

---
 postgresql/driver/pq3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 2532dbb..43746c7 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2060,7 +2060,8 @@ class Settings(pg_api.Settings):
 
 	def path():
 		def fget(self):
-			return pg_str.split_ident(self["search_path"])
+			path = self["search_path"]
+			return pg_str.split_ident(path) if path.strip() else []
 		def fset(self, value):
 			self['search_path'] = ','.join([
 				'"%s"' %(x.replace('"', '""'),) for x in value
-- 
2.43.0


From bc554a70e958a0ec44139010791931bbd6e00999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:22 +0000
Subject: [PATCH 068/153] fix: settings were read from a stale cache, by exact
 case, and customized ones not at all

---
 postgresql/driver/pq3.py  | 81 +++++++++++++++++++++++----------------
 postgresql/lib/libsys.sql | 12 ++++--
 2 files changed, 56 insertions(+), 37 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 43746c7..5870209 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2028,29 +2028,33 @@ class Settings(pg_api.Settings):
 	def _clear_cache(self):
 		self.cache.clear()
 
+	def _cached(self, k):
+		##
+		# Only the settings that the server reports are cached: others may be
+		# changed(SET, ROLLBACK) without notice. Changes made by an operation
+		# in progress might not have been seen.
+		pq = getattr(self.database, 'pq', None)
+		if pq is None or pq.xact is None:
+			return self.cache.get(k.lower())
+
+	def _unlisted(self, k):
+		# Customized settings are not listed in pg_settings.
+		if (self.database.version_info or ())[:2] >= (9,6):
+			return self.database.sys.setting_get_unlisted(k)
+
 	def __getitem__(self, i):
-		v = self.cache.get(i)
+		v = self.get(i)
 		if v is None:
-			r = self.database.sys.setting_get(i)
-
-			if r:
-				v = r[0][0]
-			else:
-				raise KeyError(i)
+			raise KeyError(i)
 		return v
 
 	def __setitem__(self, i, v):
-		cv = self.cache.get(i)
-		if cv == v:
-			return
-		setas = self.database.sys.setting_set(i, v)
-		self.cache[i] = setas
+		self.database.sys.setting_set(i, v)
 
 	def __delitem__(self, k):
 		self.database.execute(
 			'RESET "' + k.replace('"', '""') + '"'
 		)
-		self.cache.pop(k, None)
 
 	def __len__(self):
 		return self.database.sys.setting_len()
@@ -2076,33 +2080,38 @@ class Settings(pg_api.Settings):
 	path = property(**path())
 
 	def get(self, k, alt = None):
-		if k in self.cache:
-			return self.cache[k]
-
-		db = self.database
-		r = self.database.sys.setting_get(k)
-		if r:
-			v = r[0][0]
-			self.cache[k] = v
-		else:
-			v = alt
+		v = self._cached(k)
+		if v is None:
+			r = self.database.sys.setting_get(k)
+			v = r[0][0] if r else self._unlisted(k)
+			if v is None:
+				v = alt
 		return v
 
 	def getset(self, keys):
 		setmap = {}
 		rkeys = []
 		for k in keys:
-			v = self.cache.get(k)
+			v = self._cached(k)
 			if v is not None:
 				setmap[k] = v
 			else:
 				rkeys.append(k)
 
 		if rkeys:
-			r = self.database.sys.setting_mget(rkeys)
-			self.cache.update(r)
-			setmap.update(r)
-			rem = set(rkeys) - set([x['name'] for x in r])
+			r = {
+				x['name'].lower() : x['setting']
+				for x in self.database.sys.setting_mget(rkeys)
+			}
+			rem = set()
+			for k in rkeys:
+				v = r.get(k.lower())
+				if v is None:
+					v = self._unlisted(k)
+				if v is None:
+					rem.add(k)
+				else:
+					setmap[k] = v
 			if rem:
 				raise KeyError(rem)
 		return setmap
@@ -2119,19 +2128,18 @@ class Settings(pg_api.Settings):
 
 	def update(self, d):
 		kvl = [list(x) for x in dict(d).items()]
-		self.cache.update(self.database.sys.setting_update(kvl))
+		self.database.sys.setting_update(kvl)
 
 	def _notify(self, msg):
 		subs = getattr(self, '_subscriptions', {})
 		d = self.database.typio._decode
 		key = d(msg.name)[0]
 		val = d(msg.value)[0]
-		for x in subs.get(key, ()):
-			x(self.database, key, val)
-		if None in subs:
-			for x in subs[None]:
+		try:
+			for x in subs.get(key.lower(), []) + subs.get(None, []):
 				x(self.database, key, val)
-		self.cache[key] = val
+		finally:
+			self.cache[key.lower()] = val
 
 	def subscribe(self, key, callback):
 		"""
@@ -2147,6 +2155,9 @@ class Settings(pg_api.Settings):
 		>>> db.settings.subscribe('TimeZone', watch)
 		"""
 		subs = self._subscriptions = getattr(self, '_subscriptions', {})
+		if key is not None:
+			# The names of settings are not case sensitive.
+			key = key.lower()
 		callbacks = subs.setdefault(key, [])
 		if callback not in callbacks:
 			callbacks.append(callback)
@@ -2160,6 +2171,8 @@ class Settings(pg_api.Settings):
 		>>> db.settings.unsubscribe('TimeZone', watch)
 		"""
 		subs = getattr(self, '_subscriptions', {})
+		if key is not None:
+			key = key.lower()
 		callbacks = subs.get(key, ())
 		if callback in callbacks:
 			callbacks.remove(callback)
diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index 4ca5db2..37b5646 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -137,7 +137,11 @@ SELECT TRUE FROM pg_catalog.pg_prepared_xacts WHERE gid::text = $1
 SELECT statement FROM pg_catalog.pg_prepared_statements WHERE name = $1
 
 [setting_get]
-SELECT setting FROM pg_catalog.pg_settings WHERE name = $1
+SELECT setting FROM pg_catalog.pg_settings WHERE lower(name) = lower($1)
+
+[setting_get_unlisted::first]
+-- 9.6 and greater
+SELECT pg_catalog.current_setting($1, true)
 
 [setting_set::first]
 SELECT pg_catalog.set_config($1, $2, false)
@@ -146,10 +150,12 @@ SELECT pg_catalog.set_config($1, $2, false)
 SELECT count(*) FROM pg_catalog.pg_settings
 
 [setting_item]
-SELECT name, setting FROM pg_catalog.pg_settings WHERE name = $1
+SELECT name, setting FROM pg_catalog.pg_settings WHERE lower(name) = lower($1)
 
 [setting_mget]
-SELECT name, setting FROM pg_catalog.pg_settings WHERE name = ANY ($1)
+SELECT name, setting FROM pg_catalog.pg_settings
+WHERE lower(name) IN (SELECT lower(($1::text[])[i])
+	FROM pg_catalog.generate_series(1, array_upper($1::text[], 1)) g(i))
 
 [setting_keys]
 SELECT name FROM pg_catalog.pg_settings ORDER BY name
-- 
2.43.0


From 8186da0948dcf9f3cafca5a64a5ed5c5a931be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 069/153] fix: errors of class 54, program limit exceeded, were
 raised as plain Errors

---
 postgresql/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/exceptions.py b/postgresql/exceptions.py
index 5d71d01..c6542e3 100644
--- a/postgresql/exceptions.py
+++ b/postgresql/exceptions.py
@@ -344,7 +344,7 @@ class DiskFullError(IRError):
 class TooManyConnectionsError(IRError):
 	code = '53300'
 
-class PLEError(OverflowError):
+class PLEError(Error, OverflowError):
 	"""
 	Program Limit Exceeded
 	"""
-- 
2.43.0


From fb6152a35eead428208097049e0faa18854ac0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 070/153] fix: the class of 22019, invalid escape character,
 was replaced by that of 2200C

---
 postgresql/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/exceptions.py b/postgresql/exceptions.py
index c6542e3..0d44c6c 100644
--- a/postgresql/exceptions.py
+++ b/postgresql/exceptions.py
@@ -590,9 +590,9 @@ class EscapeSequenceError(DataError):
 	code = '22025'
 class EscapeCharacterConflictError(DataError):
 	code = '2200B'
-class EscapeCharacterError(DataError):
+class UseOfEscapeCharacterError(EscapeCharacterError):
 	"""
-	Invalid escape character.
+	Invalid use of an escape character.
 	"""
 	code = '2200C'
 
-- 
2.43.0


From 62de495123095efff16e0fdbab6745f159ddaf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 071/153] fix: warnings of servers using another language were
 not recognized

---
 postgresql/driver/pq3.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 5870209..ba95a6c 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -595,10 +595,14 @@ class TypeIO(pg_api.TypeIO):
 		MessageType = pg_msg.Message
 	):
 		fields = self.decode_notice(message)
-		m = fields.pop('message')
-		c = fields.pop('code')
+		m = fields.pop('message', '')
+		c = fields.pop('code', None)
+		if c.__class__ is not str:
+			c = '00000'
 
-		if fields['severity'].upper() == 'WARNING':
+		# 'S' is subject to the server's lc_messages; 'V', when present, is not.
+		severity = message.get(b'V') or message.get(b'S') or b''
+		if severity.upper() == b'WARNING':
 			MessageType = self.lookup_warning(c)
 
 		message = MessageType(m, code = c, details = fields,
-- 
2.43.0


From 95bb4177c62ad54d5bbb8c01bb092160921ad45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 072/153] fix: notices received while connecting were dropped

---
 postgresql/driver/pq3.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index ba95a6c..fa4e0cf 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -5,6 +5,7 @@
 PG-API interface for PostgreSQL using PQ version 3.0.
 """
 import os
+import sys
 import weakref
 import socket
 from traceback import format_exception
@@ -2685,6 +2686,15 @@ class Connection(pg_api.Connection):
 		# First word from the version string.
 		self.type = self.version.split()[0]
 
+		# Notices that were received during negotiation.
+		for x in neg.asyncs:
+			if x.type != element.ShowOption.type:
+				try:
+					self._receive_async(x)
+				except Exception:
+					# As for any other asynchronous message.
+					sys.excepthook(*sys.exc_info())
+
 		##
 		# Set standard_conforming_strings
 		scstr = self.settings.get('standard_conforming_strings')
-- 
2.43.0


From 0b5568d97a265ddf918e0fbd1012e6a6a53911ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:12 +0000
Subject: [PATCH 073/153] fix: closed statements could be declared, and
 executed outside of blocks

---
 postgresql/driver/pq3.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index fa4e0cf..db2a167 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1606,7 +1606,23 @@ class Statement(pg_api.Statement):
 		self.closed = False
 		self._xact = None
 
+	def _refuse_closed(self):
+		"""
+		Complete the initialization, if need be. Closed statements are refused.
+		"""
+		if self.closed is None:
+			# Not fully initialized; assume interrupted.
+			self._fini()
+		elif self.closed:
+			em = element.ClientError((
+				(b'S', 'ERROR'),
+				(b'C', '26000'),
+				(b'M', "prepared statement is closed"),
+			))
+			self.database.typio.raise_client_error(em, creator = self)
+
 	def __call__(self, *parameters):
+		self._refuse_closed()
 		if self._input is not None:
 			if len(parameters) != len(self._input):
 				raise TypeError("statement requires %d parameters, given %d" %(
@@ -1635,8 +1651,7 @@ class Statement(pg_api.Statement):
 		return r
 
 	def declare(self, *parameters):
-		if self.closed is None:
-			self._fini()
+		self._refuse_closed()
 		if self._input is not None:
 			if len(parameters) != len(self._input):
 				raise TypeError("statement requires %d parameters, given %d" %(
@@ -1652,8 +1667,7 @@ class Statement(pg_api.Statement):
 	__iter__ = rows
 
 	def chunks(self, *parameters):
-		if self.closed is None:
-			self._fini()
+		self._refuse_closed()
 		if self._input is not None:
 			if len(parameters) != len(self._input):
 				raise TypeError("statement requires %d parameters, given %d" %(
@@ -1684,9 +1698,7 @@ class Statement(pg_api.Statement):
 		return chain.from_iterable(chunks)
 
 	def first(self, *parameters):
-		if self.closed is None:
-			# Not fully initialized; assume interrupted.
-			self._fini()
+		self._refuse_closed()
 		if self._input is not None:
 			# Use a regular TypeError.
 			if len(parameters) != len(self._input):
@@ -1777,8 +1789,7 @@ class Statement(pg_api.Statement):
 		Execute the COPY ... FROM STDIN statement. Returns the protocol
 		transaction when the remote end is ready for COPY lines.
 		"""
-		if self.closed is None:
-			self._fini()
+		self._refuse_closed()
 		x = xact.Instruction((
 				element.Bind(
 					b'',
@@ -1900,8 +1911,7 @@ class Statement(pg_api.Statement):
 		In cases of ``COPY ... FROM STDIN``, iterable must be an iterable of
 		sequences of `bytes`.
 		"""
-		if self.closed is None:
-			self._fini()
+		self._refuse_closed()
 		if not self._input or parameters:
 			return self._load_copy_chunks(chunks)
 		else:
-- 
2.43.0


From f09c52f092ea9034cea58d9baa48a11f9164c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:12 +0000
Subject: [PATCH 074/153] fix: chunks() of a statement made from an identifier
 raised AttributeError

---
 postgresql/driver/pq3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index db2a167..a9f0301 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1000,6 +1000,7 @@ class SingleXactCopy(FetchAll):
 
 class SingleXactFetch(FetchAll):
 	_expect = element.Tuple.type
+	_process_chunk = FetchAll._process_tuple_chunk
 
 class MultiXactStream(Chunks):
 	chunksize = 1024 * 4
-- 
2.43.0


From 5c6de5f5d33589d81e62b0272e72cbfc2e18a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:12 +0000
Subject: [PATCH 075/153] fix: iterators to rows were part of a cycle, keeping
 their cursors on the server

---
 postgresql/driver/pq3.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index a9f0301..f34e57c 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -874,7 +874,9 @@ class Output(object):
 			return self._complete_message.extract_count()
 
 class Chunks(Output, pg_api.Chunks):
-	pass
+	# A plain function given the cursor and the messages. It may be set on the
+	# cursor, where a bound method would be a cycle keeping the cursor alive.
+	_process_chunk = staticmethod(Output._process_tuple_chunk)
 
 ##
 # FetchAll - A Chunks cursor that gets *all* the records in the cursor.
@@ -980,7 +982,7 @@ class FetchAll(Chunks):
 			y for y in x.completed[0][1]
 			if y.__class__ in data_types
 		]
-		r = self._process_chunk(chunk)
+		r = self._process_chunk(self, chunk)
 
 		# Scan for _complete_message.
 		# Arguably, this can fail, but it would be a case
@@ -996,16 +998,15 @@ class FetchAll(Chunks):
 
 class SingleXactCopy(FetchAll):
 	_expect = element.CopyToBegin.type
-	_process_chunk = FetchAll._process_copy_chunk
+	_process_chunk = staticmethod(FetchAll._process_copy_chunk)
 
 class SingleXactFetch(FetchAll):
 	_expect = element.Tuple.type
-	_process_chunk = FetchAll._process_tuple_chunk
 
 class MultiXactStream(Chunks):
 	chunksize = 1024 * 4
 	# only tuple streams
-	_process_chunk = Output._process_tuple_chunk
+	_process_chunk = staticmethod(Output._process_tuple_chunk)
 
 	def _e_metas(self):
 		yield ('chunksize', self.chunksize)
@@ -1060,7 +1061,7 @@ class MultiXactStream(Chunks):
 			if not chunk:
 				# chunk is empty, it's done *right* now.
 				raise StopIteration
-		chunk = self._process_chunk(chunk)
+		chunk = self._process_chunk(self, chunk)
 		return chunk
 
 ##
@@ -1636,7 +1637,7 @@ class Statement(pg_api.Statement):
 			c = SingleXactCopy(self, parameters)
 		else:
 			c = SingleXactFetch(self, parameters)
-			c._process_chunk = c._process_tuple_chunk_Row
+			c._process_chunk = Output._process_tuple_chunk_Row
 
 		# iff output is None, it's not a tuple returning query.
 		# however, if it's a copy, detect that fact by SingleXactCopy's
@@ -1663,7 +1664,7 @@ class Statement(pg_api.Statement):
 	def rows(self, *parameters, **kw):
 		chunks = self.chunks(*parameters, **kw)
 		if chunks._output_io:
-			chunks._process_chunk = chunks._process_tuple_chunk_Row
+			chunks._process_chunk = Output._process_tuple_chunk_Row
 		return chain.from_iterable(chunks)
 	__iter__ = rows
 
@@ -1695,7 +1696,7 @@ class Statement(pg_api.Statement):
 
 	def column(self, *parameters, **kw):
 		chunks = self.chunks(*parameters, **kw)
-		chunks._process_chunk = chunks._process_tuple_chunk_Column
+		chunks._process_chunk = Output._process_tuple_chunk_Column
 		return chain.from_iterable(chunks)
 
 	def first(self, *parameters):
-- 
2.43.0


From 728779e5ce5f0b1fc186b25a0b66e756ced6ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:12 +0000
Subject: [PATCH 076/153] fix: stored procedures could not be called with
 keyword arguments

---
 postgresql/driver/pq3.py | 53 ++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index f34e57c..e79d3c3 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1935,25 +1935,33 @@ class StoredProcedure(pg_api.StoredProcedure):
 			self.procedure_id, self.statement.string
 		)
 
-	def __call__(self, *args, **kw):
-		if kw:
-			input = []
-			argiter = iter(args)
-			try:
-				word_idx = [(kw[k], self._input_attmap[k]) for k in kw]
-			except KeyError as k:
+	def _fill_arguments(self, args, kw):
+		"""
+		The parameters, in order, from the positional arguments filling the gaps
+		between those given by keyword.
+		"""
+		count = len(self._proargs)
+		words = {}
+		for k, v in kw.items():
+			if k not in self._input_attmap:
 				raise TypeError("%s got unexpected keyword argument %r" %(
-						self.name, k.message
+						self.name, k
 					)
 				)
-			word_idx.sort(key = get1)
-			current_word = word_idx.pop(0)
-			for x in range(argc):
-				if x == current_word[1]:
-					input.append(current_word[0])
-					current_word = word_idx.pop(0)
-				else:
-					input.append(argiter.next())
+			words[self._input_attmap[k]] = v
+		if len(args) + len(words) != count:
+			raise TypeError("%s requires %d parameters, given %d" %(
+				self.name, count, len(args) + len(words)
+			))
+		positional = iter(args)
+		return [
+			words[x] if x in words else next(positional)
+			for x in range(count)
+		]
+
+	def __call__(self, *args, **kw):
+		if kw:
+			input = self._fill_arguments(args, kw)
 		else:
 			input = args
 
@@ -1984,14 +1992,17 @@ class StoredProcedure(pg_api.StoredProcedure):
 		self.oid = proctup[0]
 		self.name = proctup["proname"]
 
+		self._proargs = proargs = proctup['proargtypes']
 		self._input_attmap = {}
 		argnames = proctup.get('proargnames') or ()
-		for x in range(len(argnames)):
-			an = argnames[x]
-			if an is not None:
-				self._input_attmap[an] = x
+		# When there are no modes, they are all IN.
+		argmodes = proctup.get('proargmodes') or (b'i',) * len(argnames)
+		inputs = [an for an, mode in zip(argnames, argmodes) if mode in (b'i', b'b', b'v')]
+		for x in range(len(inputs)):
+			# Arguments without a name have an empty one.
+			if inputs[x]:
+				self._input_attmap[inputs[x]] = x
 
-		proargs = proctup['proargtypes']
 		for x in proargs:
 			# get metadata filled out.
 			database.typio.resolve(x)
-- 
2.43.0


From 63990c80eb12e11711df7c99c6bd12f72d2302a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:21 +0000
Subject: [PATCH 077/153] fix: stored procedures truncated character arguments
 and followed search_path to other functions

---
 postgresql/driver/pq3.py  |  2 +-
 postgresql/lib/libsys.sql | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index e79d3c3..991e745 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2012,7 +2012,7 @@ class StoredProcedure(pg_api.StoredProcedure):
 				proctup['_proid'],
 				# ($1::type, $2::type, ... $n::type)
 				', '.join([
-					 '$%d::%s' %(x + 1, database.typio.sql_type_from_oid(proargs[x]))
+					 '$%d::%s' %(x + 1, proctup['_argtypes'][x])
 					 for x in range(0, len(proargs))
 				]),
 				# Description for anonymous record returns
diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index 37b5646..ac83ae8 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -90,7 +90,17 @@ WHERE
 SELECT
  pg_proc.oid,
  pg_proc.*,
- pg_proc.oid::regproc AS _proid,
+ -- Qualified, as the statement must keep its meaning when search_path changes.
+ (SELECT quote_ident(ns.nspname) FROM pg_catalog.pg_namespace ns
+  WHERE ns.oid = pg_proc.pronamespace) || '.' || quote_ident(pg_proc.proname) AS _proid,
+ ARRAY(
+  SELECT quote_ident(ns.nspname) || '.' || quote_ident(argt.typname)
+  FROM
+   pg_catalog.generate_series(0, pg_proc.pronargs - 1) AS g(i)
+   JOIN pg_catalog.pg_type argt ON (argt.oid = pg_proc.proargtypes[g.i])
+   JOIN pg_catalog.pg_namespace ns ON (ns.oid = argt.typnamespace)
+  ORDER BY g.i
+ ) AS _argtypes,
  pg_proc.oid::regprocedure as procedure_id,
  COALESCE(string_to_array(trim(replace(textin(oidvectorout(proargtypes)), ',', ' '), '{}'), ' ')::oid[], '{}'::oid[])
   AS proargtypes,
-- 
2.43.0


From 2c1e64a2778ee3d42f707e02c685f478df33df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:21 +0000
Subject: [PATCH 078/153] fix: variadic functions could not be used as stored
 procedures

---
 postgresql/driver/pq3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 991e745..b5d61ba 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2007,12 +2007,17 @@ class StoredProcedure(pg_api.StoredProcedure):
 			# get metadata filled out.
 			database.typio.resolve(x)
 
+		# The array of a variadic function is given as such.
+		variadic = len(proargs) - 1 if proctup.get('provariadic') else None
 		self.statement = database.prepare(
 			"SELECT * FROM %s(%s) AS func%s" %(
 				proctup['_proid'],
 				# ($1::type, $2::type, ... $n::type)
 				', '.join([
-					 '$%d::%s' %(x + 1, proctup['_argtypes'][x])
+					 '%s$%d::%s' %(
+						'VARIADIC ' if x == variadic else '',
+						x + 1, proctup['_argtypes'][x]
+					 )
 					 for x in range(0, len(proargs))
 				]),
 				# Description for anonymous record returns
-- 
2.43.0


From c7ab2ef000f1a338f48168f5fbe4650f54fbd769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:21 +0000
Subject: [PATCH 079/153] fix: stored procedures gave the first column of
 domains of composites

---
 postgresql/lib/libsys.sql | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index ac83ae8..2f80e1b 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -104,7 +104,18 @@ SELECT
  pg_proc.oid::regprocedure as procedure_id,
  COALESCE(string_to_array(trim(replace(textin(oidvectorout(proargtypes)), ',', ' '), '{}'), ' ')::oid[], '{}'::oid[])
   AS proargtypes,
- (pg_type.oid = 'record'::regtype or pg_type.typtype = 'c') AS composite
+ (pg_type.oid = 'record'::regtype or pg_type.typtype = 'c' or (
+  -- A domain of a composite is as well.
+  pg_type.typtype = 'd' AND EXISTS (
+   WITH RECURSIVE base(oid) AS (
+    SELECT pg_type.typbasetype
+    UNION ALL
+    SELECT bt.typbasetype
+     FROM base JOIN pg_catalog.pg_type bt ON (bt.oid = base.oid)
+     WHERE bt.typtype = 'd'
+   ) SELECT 1 FROM base JOIN pg_catalog.pg_type bt ON (bt.oid = base.oid) WHERE bt.typtype = 'c'
+  )
+ )) AS composite
 FROM
  pg_catalog.pg_proc LEFT JOIN pg_catalog.pg_type ON (
   pg_proc.prorettype = pg_type.oid
-- 
2.43.0


From a2c62e1103aaa198ebbdb754466eb032776b784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 080/153] fix: percent escapes of the database and path
 components of IRIs were neither decoded nor made

---
 postgresql/iri.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 7a90aee..afacc65 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -55,8 +55,8 @@ def structure(d, fieldproc = ri.unescape):
 	if path:
 		# Only state the database field's existence if the first path is non-empty.
 		if path[0]:
-			cpd['database'] = path[0]
-		path = path[1:]
+			cpd['database'] = fieldproc(path[0])
+		path = [fieldproc(x) for x in path[1:]]
 		if path:
 			cpd['path'] = path
 
@@ -131,10 +131,13 @@ def construct(x, obscure_password = False):
 		port = x.get('port')
 
 	path = []
-	if 'database' in x:
+	if x.get('database') is not None:
 		path.append(x['database'])
-	if 'path' in x:
-		path.extend(x['path'] or ())
+	if x.get('path'):
+		if not path:
+			# The first component is the database, which is not given.
+			path.append('')
+		path.extend(x['path'])
 
 	password = x.get('password')
 	if obscure_password and password is not None:
@@ -158,7 +161,7 @@ def construct(x, obscure_password = False):
 			None if 'port' not in x else str(x['port'])
 		)),
 		None if not path else '/'.join([
-			ri.escape_path_re.sub(path_comp, '/')
+			ri.escape_path_re.sub(ri.re_pct_encode, path_comp)
 			for path_comp in path
 		]),
 		(ri.construct_query(driver_params) if driver_params else None)
-- 
2.43.0


From acfce131c2d3ed61b6f7a9fb575b72341d8c2271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 081/153] fix: an @ in the host or port of an IRI was not
 escaped, and escapes were not decoded as UTF-8

---
 postgresql/resolved/riparse.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/postgresql/resolved/riparse.py b/postgresql/resolved/riparse.py
index f91a261..9b8b163 100644
--- a/postgresql/resolved/riparse.py
+++ b/postgresql/resolved/riparse.py
@@ -47,8 +47,8 @@ percent_escapes_re = re.compile('(%[0-9a-fA-F]{2,2})+')
 escape_re = re.compile('[%s]' %(re.escape(unescaped),))
 escape_user_re = re.compile('[%s]' %(re.escape(unescaped + ':@/?#'),))
 escape_password_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
-escape_host_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
-escape_port_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
+escape_host_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
+escape_port_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
 escape_path_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
 escape_query_key_re = re.compile('[%s]' %(re.escape(unescaped + '&=#'),))
 escape_query_value_re = re.compile('[%s]' %(re.escape(unescaped + '&#'),))
@@ -64,13 +64,24 @@ for x in range(256):
 scheme_chars = '-.+0123456789'
 del x
 
+def unescape_run(m):
+	"""
+	Decode a run of percent escapes as UTF-8 or, failing that, as the code points
+	of the characters.
+	"""
+	octets = bytes.fromhex(m.group(0).replace('%', ''))
+	try:
+		return octets.decode('utf-8')
+	except UnicodeDecodeError:
+		return octets.decode('latin-1')
+
 def unescape(x, mkval = chr):
 	"""
 	Substitute percent escapes with literal characters.
 	"""
-	nstr = type(x)('')
 	if isinstance(x, str):
-		mkval = chr
+		return percent_escapes_re.sub(unescape_run, x)
+	nstr = type(x)('')
 	pos = 0
 	end = len(x)
 	while pos != end:
-- 
2.43.0


From f843714e7370c9bb456abc4f7db23dab7043d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 082/153] fix: hosts, socket paths, ports and passwords were
 lost or confused in serialised IRIs

---
 postgresql/iri.py | 65 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index afacc65..7fd236e 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -25,6 +25,8 @@ del itemgetter
 
 import re
 escape_path_re = re.compile('[%s]' %(re.escape(ri.unescaped + ','),))
+escape_host_re = re.compile('[%s]' %(re.escape(ri.unescaped + '@/?#[]'),))
+escape_unix_re = re.compile('[%s]' %(re.escape(ri.unescaped + '@?#[]:'),))
 
 def structure(d, fieldproc = ri.unescape):
 	"""
@@ -46,9 +48,9 @@ def structure(d, fieldproc = ri.unescape):
 		if host.startswith('[') and host.endswith(']'):
 			host = host[1:-1]
 			if host.startswith('unix:'):
-				cpd['unix'] = host[len('unix:'):].replace(':','/')
+				cpd['unix'] = fieldproc(host[len('unix:'):].replace(':','/'))
 			else:
-				cpd['host'] = host
+				cpd['host'] = fieldproc(host)
 		else:
 			cpd['host'] = fieldproc(host)
 
@@ -91,6 +93,18 @@ def construct_path(x, re = escape_path_re):
 	"""
 	return ','.join((re.sub(ri.re_pct_encode, y) for y in x))
 
+def unsplit_netloc(user, password, host, port):
+	"""
+	Create the netloc using a host that has already been escaped.
+	"""
+	if host is None:
+		return ri.unsplit_netloc((user, password, None, None))
+	return (
+		ri.unsplit_netloc((user, password, None, None)) or ''
+	) + host + (
+		'' if port is None else ':' + ri.escape_port_re.sub(ri.re_pct_encode, port)
+	)
+
 def construct(x, obscure_password = False):
 	"""
 	Construct a RI dictionary from a clientparams dictionary.
@@ -117,18 +131,26 @@ def construct(x, obscure_password = False):
 	if search_path is not None and isinstance(search_path, str):
 		search_path = split_ident(search_path, sep = ',')
 
-	port = None
-	if 'unix' in x:
-		host = '[unix:' + x['unix'].replace('/',':') + ']'
-		# ignore port.. it's a mis-config.
-	elif 'host' in x:
-		host = x['host']
-		if ':' in host:
+	user = x.get('user')
+	port = x.get('port')
+	if port is not None:
+		port = str(port)
+
+	# The host part is escaped here, as the brackets and the colons that
+	# are markers have to be told from those that are not.
+	if x.get('unix') is not None:
+		host = '[unix:' + escape_unix_re.sub(
+			ri.re_pct_encode, x['unix']
+		).replace('/', ':') + ']'
+	elif x.get('host') is not None:
+		host = escape_host_re.sub(ri.re_pct_encode, x['host'])
+		if host.startswith('unix:'):
+			# Not a path to a socket.
+			host = '[unix%3A' + host[len('unix:'):] + ']'
+		elif ':' in host or (not host and port is None):
 			host = '[' + host + ']'
-		port = x.get('port')
 	else:
 		host = None
-		port = x.get('port')
 
 	path = []
 	if x.get('database') is not None:
@@ -142,24 +164,27 @@ def construct(x, obscure_password = False):
 	password = x.get('password')
 	if obscure_password and password is not None:
 		password = '***'
-	driver_params = list({
-		'[' + k + ']' : str(v) for k,v in x.items()
+	driver_params = {
+		'[' + k + ']' : None if v is None else str(v) for k,v in x.items()
 		if k not in (
 			'user', 'password', 'port', 'database', 'ssl',
 			'path', 'host', 'unix', 'ipv','settings'
 		)
-	}.items())
+	}
+	# Parameters that have no place of their own in this IRI.
+	if user is None and password is not None:
+		driver_params['[password]'] = password
+	if host is None and port is not None:
+		driver_params['[port]'] = port
+	if x.get('database') == '':
+		driver_params['[database]'] = ''
+	driver_params = list(driver_params.items())
 	driver_params.sort(key=get0)
 
 	return (
 		'pqs' if x.get('ssl', False) is True else 'pq',
 		# netloc: user:pass@host[:port]
-		ri.unsplit_netloc((
-			x.get('user'),
-			password,
-			host,
-			None if 'port' not in x else str(x['port'])
-		)),
+		unsplit_netloc(user, password, host, port),
 		None if not path else '/'.join([
 			ri.escape_path_re.sub(ri.re_pct_encode, path_comp)
 			for path_comp in path
-- 
2.43.0


From c9cfda0abc2fec51ea20ad947b5e6fb05f77e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 083/153] fix: IRI settings and parameters lost or refused:
 bracketed names, no value, empty search paths

---
 postgresql/iri.py | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 7fd236e..42b5612 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -25,6 +25,7 @@ del itemgetter
 
 import re
 escape_path_re = re.compile('[%s]' %(re.escape(ri.unescaped + ','),))
+escape_setting_re = re.compile('[%s]' %(re.escape(ri.unescaped + '&=#['),))
 escape_host_re = re.compile('[%s]' %(re.escape(ri.unescaped + '@/?#[]'),))
 escape_unix_re = re.compile('[%s]' %(re.escape(ri.unescaped + '@?#[]:'),))
 
@@ -70,11 +71,11 @@ def structure(d, fieldproc = ri.unescape):
 			qiter = query
 		for k, v in qiter:
 			if k.startswith('[') and k.endswith(']'):
-				k = k[1:-1]
+				k = fieldproc(k[1:-1])
 				if k != 'settings' and k not in cpd:
-					cpd[fieldproc(k)] = fieldproc(v)
+					cpd[k] = None if v is None else fieldproc(v)
 			elif k:
-				settings[fieldproc(k)] = fieldproc(v)
+				settings[fieldproc(k)] = None if v is None else fieldproc(v)
 			# else: ignore empty query keys
 
 	if frag:
@@ -123,13 +124,27 @@ def construct(x, obscure_password = False):
 			search_path = [(k,v) for k,v in siter if k == 'search_path']
 			search_path.append((None,None))
 			search_path = search_path[-1][1]
-		no_path_settings = [(k,v) for k,v in siter if k != 'search_path']
-		if not no_path_settings:
-			no_path_settings = None
+		no_path_settings = [
+			(k, None if v is None else str(v))
+			for k,v in siter if k != 'search_path'
+		]
 
 	# It could be a string search_path, split if it is.
-	if search_path is not None and isinstance(search_path, str):
-		search_path = split_ident(search_path, sep = ',')
+	if search_path is not None:
+		if isinstance(search_path, str):
+			try:
+				fragment = split_ident(search_path, sep = ',')
+			except ValueError:
+				# Not a list of identifiers to this module, so leave it as it is.
+				fragment = None
+		else:
+			fragment = list(search_path)
+			search_path = ''
+		if not fragment:
+			# An empty path is not expressible with the fragment.
+			no_path_settings.append(('search_path', search_path))
+			fragment = None
+		search_path = fragment
 
 	user = x.get('user')
 	port = x.get('port')
@@ -189,12 +204,14 @@ def construct(x, obscure_password = False):
 			ri.escape_path_re.sub(ri.re_pct_encode, path_comp)
 			for path_comp in path
 		]),
-		(ri.construct_query(driver_params) if driver_params else None)
-		if no_path_settings is None else (
-			ri.construct_query(
-				driver_params + no_path_settings
-			)
-		),
+		'&'.join([
+			ri.construct_query(q) for q in (driver_params,)
+			if q
+		] + [
+			# Keys in brackets are driver parameters.
+			ri.construct_query(q, key_re = escape_setting_re)
+			for q in (no_path_settings,) if q
+		]) or None,
 		None if search_path is None else construct_path(search_path),
 	)
 
-- 
2.43.0


From d57015194f84113af5891e0bb7fa21b15604a68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 084/153] fix: environment variables of settings were not
 collected and PGREQUIRESSL gave a tuple

---
 postgresql/clientparameters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 5540976..0c7e5d3 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -189,7 +189,7 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	reqssl = modifier('REQUIRESSL')
 	if reqssl in environ:
 		if environ[reqssl].strip() == '1':
-			yield ('sslmode',), ('require', reqssl + '=1')
+			yield ('sslmode',), 'require'
 
 	for k, v in default_envvar_map.items():
 		k = modifier(k)
@@ -201,9 +201,9 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	envvar_settings_map = ((
 		(modifier(k), v) for k,v in default_envvar_settings_map.items()
 	))
-	settings = [
-		(('settings', v,), environ[k]) for k, v in envvar_settings_map if k in environ
-	]
+	for k, v in envvar_settings_map:
+		if k in environ:
+			yield (('settings', v), environ[k])
 
 	# PGSYSCONFDIR based
 	if pg_sysconfdir_envvar in environ:
-- 
2.43.0


From 584e36cbf90f7b11f2cbfdc78b2b9eba2edfbebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 085/153] fix: an invalid setting option raised NameError and
 prompt titles were ignored

---
 postgresql/clientparameters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 0c7e5d3..9e0872c 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -281,7 +281,7 @@ def append_settings(option, opt_str, value, parser):
 	"""
 	kv = value.split('=', 1)
 	if len(kv) != 2:
-		raise OptionValueError("invalid setting argument, %r" %(value,))
+		raise optparse.OptionValueError("invalid setting argument, %r" %(value,))
 	parser.values.db_client_parameters.append(
 		((option.dest, kv[0]), kv[1])
 	)
@@ -391,11 +391,12 @@ def resolve_password(parameters, getpass = getpass, prompt_title = ''):
 	"""
 	prompt_for_password = parameters.pop('prompt_password', False)
 	pgpassfile = parameters.pop('pgpassfile', None)
-	prompt_title = parameters.pop('prompt_title', None)
+	prompt_title = prompt_title or parameters.get('prompt_title') or ''
+	parameters.pop('prompt_title', None)
 	if prompt_for_password is True:
 		# it's a prompt
 		if sys.stdin.isatty():
-			prompt = prompt_title or parameters.pop('prompt_title', '')
+			prompt = prompt_title
 			prompt += '[' + pg_iri.serialize(parameters, obscure_password = True) + ']'
 			parameters['password'] = getpass("Password for " + prompt +": ")
 		else:
-- 
2.43.0


From 161ed9a5f9339fdfc0131aa9a5a1899f7860df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 086/153] fix: white space at the end of passwords in password
 files was lost, and lookups without a host failed

---
 postgresql/pgpassfile.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postgresql/pgpassfile.py b/postgresql/pgpassfile.py
index ee0ae73..892bc2a 100644
--- a/postgresql/pgpassfile.py
+++ b/postgresql/pgpassfile.py
@@ -7,7 +7,8 @@ Parse pgpass files and subsequently lookup a password.
 import os.path
 
 def split(line, len = len):
-	line = line.strip()
+	# White space at the end is part of the password.
+	line = line.lstrip().rstrip('\r\n')
 	if not line:
 		return None
 	r = []
@@ -64,7 +65,9 @@ def lookup_pgpass(d, passfile, exists = os.path.exists):
 	# If the password file exists, lookup the password
 	# using the config's criteria.
 	if exists(passfile):
+		# The entries for 'localhost' are those for local sockets too.
+		user = d.get('user')
 		return lookup_password_file(passfile, (
-			str(d['user']), str(d['host']), str(d['port']),
-			str(d.get('database', d['user']))
+			str(user), str(d.get('host') or 'localhost'), str(d.get('port') or 5432),
+			str(d.get('database') or user)
 		))
-- 
2.43.0


From 7189d19ddbd30ae987b52cd2747ff36057c86e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 087/153] fix: sslrootcrlfile of a service was taken for a
 setting

---
 postgresql/clientparameters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 9e0872c..3b173f9 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -85,6 +85,7 @@ pg_service_driver_parameters = set([
 	'sslkeyfile',
 	'sslrootcrtfile',
 	'sslrootkeyfile',
+	'sslrootcrlfile',
 
 	'sslmode',
 	'server_encoding',
-- 
2.43.0


From d5a7934764b4dd3e150f09b0f15d50471342e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 088/153] fix: parameters with a socket path could not be used
 with the default host

---
 postgresql/clientparameters.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 3b173f9..685de25 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -558,6 +558,19 @@ def normalize_parameter(kv):
 		v = v.lower()
 	return (tuple(k),v)
 
+def select_address(iter):
+	"""
+	A socket's path and a host exclude each other: leave out those given with
+	a lower precedence than the other.
+	"""
+	items = list(iter)
+	given = [k[0] for k, v in items if k in (('unix',), ('host',)) and v is not None]
+	if given and given[-1] == 'unix':
+		exclude = (('host',), ('port',))
+	else:
+		exclude = (('unix',),) if given else ()
+	return [x for x in items if x[0] not in exclude]
+
 def normalize(iter):
 	"""
 	Normally takes the output of `extrapolate` and makes a dictionary suitable
@@ -630,7 +643,7 @@ def collect(
 	if cop:
 		d_parameters.append(cop)
 
-	cpd = normalize(extrapolate(chain(*d_parameters)))
+	cpd = normalize(select_address(extrapolate(chain(*d_parameters))))
 	if prompt_title is not None:
 		resolve_password(cpd, prompt_title = prompt_title)
 	return cpd
-- 
2.43.0


From a6211da0964ec4d445e0e3b3912ad92f4837c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 089/153] fix: quoted text with line breaks, unterminated
 quotes, e'' and names with E or $ were split wrongly

---
 postgresql/string.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 53799d3..205bf95 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -49,11 +49,14 @@ def quote_ident_if_needed(text):
 	"""
 	return quote_ident(text) if needs_quoting(text) else text
 
-quote_re = re.compile(r"""(?xu)
-	E'(?:''|\\.|[^'])*(?:'|$)          (?# Backslash escapes E'str')
-|	'(?:''|[^'])*(?:'|$)               (?# Regular literals 'str')
-|	"(?:""|[^"])*(?:"|$)               (?# Identifiers "str")
-|	(\$(?:[^0-9$]\w*)?\$).*?(?:\1|$)   (?# Dollar quotes $$str$$)
+quote_re = re.compile(r"""(?xus)
+	[eE]'(?:''|\\.|[^'\\])*(?:(')|\\?\Z)   (?# Backslash escapes E'str')
+|	'(?:''|[^'])*(?:(')|\Z)              (?# Regular literals 'str')
+|	"(?:""|[^"])*(?:(")|\Z)              (?# Identifiers "str")
+|	(\$(?:[a-zA-Z_\x80-\U0010ffff][\w\x80-\U0010ffff]*)?\$).*?(?:(\4)|\Z)
+	                                     (?# Dollar quotes $$str$$)
+|	([a-zA-Z_\x80-\U0010ffff][$\w\x80-\U0010ffff]*)
+	                                     (?# Names, which may have an E or a $)
 """)
 
 def split(text):
@@ -80,28 +83,27 @@ def split(text):
 	scan = re.scanner(text)
 	match = scan.search()
 	while match is not None:
+		if match.group(6) is not None:
+			# A name, it's not quoted.
+			match = scan.search()
+			continue
 		# text preceding the quotation
 		yield text[lastend:match.start()]
 		# the dollar quote, if any
-		dq = match.groups()[0]
+		dq = match.group(4)
 		if dq is not None:
 			endoff = len(dq)
 			quote = dq
-			end = quote
 		else:
 			endoff = 1
 			q = text[match.start()]
-			if q == 'E':
-				quote = "E'"
-				end = "'"
+			if q in 'eE':
+				quote = q + "'"
 			else:
-				end = quote = q
+				quote = q
 
-		# If the end is not the expected quote, it consumed
-		# the end. Be sure to check that the match's end - end offset
-		# is *not* the start, ie an empty quotation at the end of the string.
-		if text[match.end()-endoff:match.end()] != end \
-		or match.end() - endoff == match.start():
+		# If no group has the closing quote, it consumed the end.
+		if not any(match.group(1, 2, 3, 5)):
 			yield (quote, text[match.start()+len(quote):])
 			break
 		else:
@@ -127,7 +129,7 @@ def unsplit(splitted_iter):
 		try:
 			q, qtext = next(i)
 			s += q + qtext
-			if q == "E'":
+			if q in ("E'", "e'"):
 				endq = "'"
 			else:
 				endq = q
-- 
2.43.0


From b5956ae12e06c8f20f9ba87e2ba90881b5921ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 090/153] fix: identifiers with upper case letters or that are
 key words were left unquoted

---
 postgresql/string.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 205bf95..e7d883c 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -33,6 +33,25 @@ def escape_ident(text):
 	"""
 	return text.replace('"', '""')
 
+# The key words that are not unreserved; as identifiers, they need quotes.
+keywords = frozenset("""
+	all analyse analyze and any array as asc asymmetric authorization between bigint binary
+	bit boolean both case cast char character check coalesce collate collation column
+	concurrently constraint create cross current_catalog current_date current_role
+	current_schema current_time current_timestamp current_user dec decimal default
+	deferrable desc distinct do else end except exists extract false fetch float for
+	foreign freeze from full grant greatest group grouping having ilike in initially inner
+	inout int integer intersect interval into is isnull join json_array json_arrayagg
+	json_object json_objectagg lateral leading least left like limit localtime
+	localtimestamp national natural nchar none normalize not notnull null nullif numeric
+	offset on only or order out outer overlaps overlay placing position precision primary
+	real references returning right row select session_user setof similar smallint some
+	substring symmetric system_user table tablesample then time timestamp to trailing treat
+	trim true union unique user using values varchar variadic verbose when where window
+	with xmlattributes xmlconcat xmlelement xmlexists xmlforest xmlnamespaces xmlparse
+	xmlpi xmlroot xmlserialize xmltable
+""".split())
+
 def needs_quoting(text):
 	return not (text and not text[0].isdecimal() and text.replace('_', 'a').isalnum())
 
@@ -47,7 +66,10 @@ def quote_ident_if_needed(text):
 	If needed, replace every instance of '"' with '""' *and* place '"' on each end.
 	Otherwise, just return the text.
 	"""
-	return quote_ident(text) if needs_quoting(text) else text
+	# The server folds the case of identifiers that are not quoted.
+	if needs_quoting(text) or text != text.lower() or text in keywords:
+		return quote_ident(text)
+	return text
 
 quote_re = re.compile(r"""(?xus)
 	[eE]'(?:''|\\.|[^'\\])*(?:(')|\\?\Z)   (?# Backslash escapes E'str')
-- 
2.43.0


From 9932d0d9f5b6fb63f8c34cee6f7c36a31062e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 091/153] fix: malformed quoted identifiers were accepted and
 separators longer than one character miscounted

---
 postgresql/string.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index e7d883c..ee30665 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -211,10 +211,12 @@ def split_using(text, quote, sep = '.', maxsplit = -1):
 				break
 
 			l.append(text[offset:nextsep])
-			offset = nextsep + 1
+			offset = nextsep + len(sep)
 	l.append(text[offset:])
 	return l
 
+quoted_ident_re = re.compile('(?s)"(?:""|[^"])*"')
+
 def split_ident(text, sep = ',', quote = '"', maxsplit = -1):
 	"""
 	Split a series of identifiers using the specified separator.
@@ -223,7 +225,7 @@ def split_ident(text, sep = ',', quote = '"', maxsplit = -1):
 	for x in split_using(text, quote, sep = sep, maxsplit = maxsplit):
 		x = x.strip()
 		if x.startswith('"'):
-			if not x.endswith('"'):
+			if not quoted_ident_re.fullmatch(x):
 				raise ValueError(
 					"unterminated identifier quotation", x
 				)
-- 
2.43.0


From 062b91c4e4558eb5be80604dccba5deb96c1774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:28 +0000
Subject: [PATCH 092/153] fix: configuration files: settings with qualified
 names, without '=' and next to directives are read and altered

---
 postgresql/configfile.py | 102 ++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 54 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 2f94f0e..254cf97 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -6,67 +6,61 @@ PostgreSQL configuration file parser and editor functions.
 """
 import sys
 import os
+import re
 from . import string as pg_str
 from . import api as pg_api
 
 quote = "'"
 comment = '#'
+# Not settings, even though they look like them.
+directives = ('include', 'include_if_exists', 'include_dir')
+
+def setting_re(equality, comment):
+	"""
+	Expression for the part of a line before the value: optional comment marks,
+	the name, and the equal sign.
+	"""
+	return re.compile(r'(\s*)([\s%s]*)([^\W\d]\w*(?:\.[^\W\d]\w*)*)[^\S\n\r]*(%s)?[^\S\n\r]*' %(
+		re.escape(comment), re.escape(equality)
+	))
 
 def parse_line(line, equality = '=', comment = comment, quote = quote):
-	keyval = line.split(equality, 1)
-	if len(keyval) == 2:
-		key, val = keyval
-
-		prekey_len = 0
-		for c in key:
-			if not c.isspace() and c not in comment:
-				break
-			prekey_len += 1
-
-		key_len = 0
-		for c in key[prekey_len:]:
-			if not (c.isalpha() or c.isdigit() or c in '_'):
-				break
-			key_len += 1
-
-		# If non-whitespace exists after the key,
-		# it's a complex comment, so just bail out.
-		if key[prekey_len + key_len:].strip():
-			return
-
-		preval_len = 0
-		for c in val:
-			if not c.isspace() or c in '\n\r':
-				break
-			preval_len += 1
-
-		inquotes = False
-		escaped = False
-		val_len = 0
-		for i in range(preval_len, len(val)):
-			c = val[i]
-			if c == quote:
-				if inquotes is False:
-					inquotes = True
-				else:
-					if escaped is False:
-						# Peek ahead to see if it's escaped with another quote
-						escaped = (len(val) > i+1 and val[i+1] == quote)
-						if escaped is False:
-							inquotes = False
-					elif escaped is True:
-						# It *was* an escaped quote.
-						escaped = False
-			elif inquotes is False and (c.isspace() or c in comment):
-				break
-			val_len += 1
-
-		return (
-			# The key slice
-			slice(prekey_len, key_len + prekey_len),
-			# The value slice
-			slice(len(key) + 1 + preval_len, len(key) + 1 + preval_len + val_len)
-		)
+	m = setting_re(equality, comment).match(line)
+	if m is None or m.group(3).lower() in directives:
+		return None
+	if m.group(2):
+		# A commented setting, or merely a comment.
+		if not m.group(4):
+			return None
+	start = end = m.end()
+	if not m.group(4) and line[start:start+1] != quote and (
+		start == m.end(3) or not line[start:].strip() or line[start] in comment
+	):
+		# Without the equal sign, white space and a value are needed.
+		return None
+
+	# The value ends with the first white space or comment outside of the quotes.
+	inquotes = False
+	while end < len(line):
+		c = line[end]
+		if inquotes:
+			if c == '\\' or line[end:end+2] == quote * 2:
+				# Escapes the next one.
+				end += 1
+			elif c == quote:
+				inquotes = False
+		elif c == quote:
+			inquotes = True
+		elif c.isspace() or c in comment:
+			break
+		end += 1
+
+	return (
+		# The key slice
+		slice(m.start(3), m.end(3)),
+		# The value slice
+		slice(start, min(end, len(line)))
+	)
 
 def unquote(s, quote = quote):
 	"""
-- 
2.43.0


From 9632ab8e68553da0b484f9d419dd3e16a4912b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:28 +0000
Subject: [PATCH 093/153] fix: configuration files: backslash escapes and
 newlines in values are read and written

---
 postgresql/configfile.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 254cf97..b189213 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -69,7 +69,27 @@ def unquote(s, quote = quote):
 	s = s.strip()
 	if not s.startswith(quote):
 		return s
-	return s[1:-1].replace(quote*2, quote)
+	return escape_re.sub(unescape, s[1:-1])
+
+# Escapes in quoted values.
+escape_re = re.compile(r"''|\\([0-7]{1,3}|.)", re.S)
+escapes = {'b' : '\b', 'f' : '\f', 'n' : '\n', 'r' : '\r', 't' : '\t'}
+
+def unescape(m):
+	c = m.group(1)
+	if c is None:
+		return "'"
+	if c[0] in '01234567':
+		return chr(int(c, 8) & 0xFF)
+	return escapes.get(c, c)
+
+def quote_value(s):
+	"""
+	Quote the string `s` for use as the value of a setting.
+	"""
+	return "'" + s.replace('\\', '\\\\').replace("'", "''").replace(
+		'\n', '\\n'
+	).replace('\r', '\\r') + "'"
 
 def write_config(map, writer, keys = None):
 	"""
@@ -120,7 +140,7 @@ def alter_config(map, fo, keys = None):
 			if val is not None:
 				if not lines[-1].endswith(os.linesep):
 					lines[-1] = lines[-1] + os.linesep
-				lines.append("%s = '%s'" %(key, val.replace("'", "''")))
+				lines.append("%s = %s" %(key, quote_value(val)))
 
 	# Multiple lines may have the key, so make a decision based on the value.
 	for ck in candidates.keys():
@@ -189,7 +209,7 @@ def alter_config(map, fo, keys = None):
 			# way to set something without delving into setting types.
 			lines[line_num] = \
 				bol + l[sk.start:sv.start] + \
-				"'%s'" %(to_set_val.replace("'", "''"),) + post_val
+				quote_value(to_set_val) + post_val
 	return lines
 
 def read_config(iter, d = None, selector = None):
-- 
2.43.0


From 43d15a5614e1cec816fb588a604d3879e9a2b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:28 +0000
Subject: [PATCH 094/153] fix: configuration files: setting names are case
 insensitive

---
 postgresql/configfile.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index b189213..e0e5a4a 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -218,7 +218,8 @@ def read_config(iter, d = None, selector = None):
 	for line in iter:
 		kv = parse_line(line)
 		if kv:
-			key = line[kv[0]]
+			# The case of the names does not matter.
+			key = line[kv[0]].lower()
 			if comment not in line[:kv[0].start] and \
 			(selector is None or selector(key)):
 				d[key] = unquote(line[kv[1]])
@@ -264,8 +265,8 @@ class ConfigFile(pg_api.Settings):
 		with self._open(self.path) as cfo:
 			return read_config(
 				cfo,
-				selector = k.__eq__
-			)[k]
+				selector = k.lower().__eq__
+			)[k.lower()]
 
 	def __setitem__(self, k, v):
 		self.update({k : v})
@@ -297,7 +298,7 @@ class ConfigFile(pg_api.Settings):
 
 	def get(self, k, alt = None):
 		with self._open(self.path) as cf:
-			return read_config(cf, selector = k.__eq__).get(k, alt)
+			return read_config(cf, selector = k.lower().__eq__).get(k.lower(), alt)
 
 	def keys(self):
 		return read_config(self._open(self.path)).keys()
@@ -326,8 +327,6 @@ class ConfigFile(pg_api.Settings):
 		with self._open(self.path) as cfo:
 			cfg = read_config(
 				cfo,
-				selector = keys.__contains__
+				selector = {x.lower() for x in keys}.__contains__
 			)
-			for x in (keys - set(cfg.keys())):
-				cfg[x] = None
-			return cfg
+			return {x : cfg.get(x.lower()) for x in keys}
-- 
2.43.0


From 215ee05a1a08996652ceaa7ce4a8fb8919271d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:28 +0000
Subject: [PATCH 095/153] fix: configuration files: empty files, deletion,
 iteration and membership agree with the contents

---
 postgresql/configfile.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index e0e5a4a..33e6504 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -138,7 +138,7 @@ def alter_config(map, fo, keys = None):
 			val = map[key]
 			# Can't comment without an uncommented candidate.
 			if val is not None:
-				if not lines[-1].endswith(os.linesep):
+				if lines and not lines[-1].endswith(os.linesep):
 					lines[-1] = lines[-1] + os.linesep
 				lines.append("%s = %s" %(key, quote_value(val)))
 
@@ -242,7 +242,7 @@ class ConfigFile(pg_api.Settings):
 		self.path = path
 		self._open = open
 		self._store = []
-		self._restore = {}
+		self._restore = []
 
 	def __repr__(self):
 		return "%s.%s(%r)" %(
@@ -259,7 +259,7 @@ class ConfigFile(pg_api.Settings):
 	def __delitem__(self, k):
 		with self._open(self.path) as cf:
 			lines = alter_config({k : None}, cf)
-		self._save()
+		self._save(lines)
 
 	def __getitem__(self, k):
 		with self._open(self.path) as cfo:
@@ -273,12 +273,16 @@ class ConfigFile(pg_api.Settings):
 
 	def __call__(self, **kw):
 		self._store.insert(0, kw)
+		return self
 
 	def __context__(self):
 		return self
 
 	def __iter__(self):
-		return self.keys()
+		return iter(self.keys())
+
+	def __contains__(self, k):
+		return self.get(k) is not None
 
 	def __len__(self):
 		return len(list(self.keys()))
@@ -290,24 +294,25 @@ class ConfigFile(pg_api.Settings):
 		self._restore.append(res)
 
 	def __exit__(self, exc, val, tb):
-		self._restored.update(self._restore[-1])
+		self.update(self._restore[-1])
 		del self._restore[-1]
-		self.update(self._restored)
-		self._restored.clear()
-		return exc is None
 
 	def get(self, k, alt = None):
 		with self._open(self.path) as cf:
 			return read_config(cf, selector = k.lower().__eq__).get(k.lower(), alt)
 
+	def _read(self):
+		with self._open(self.path) as cf:
+			return read_config(cf)
+
 	def keys(self):
-		return read_config(self._open(self.path)).keys()
+		return self._read().keys()
 
 	def values(self):
-		return read_config(self._open(self.path)).values()
+		return self._read().values()
 
 	def items(self):
-		return read_config(self._open(self.path)).items()
+		return self._read().items()
 
 	def update(self, keyvals):
 		"""
-- 
2.43.0


From 732dd3923314e1ec075bcd6f7c3497adf343b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:28 +0000
Subject: [PATCH 096/153] fix: pg_dotconf: the command runs again

---
 postgresql/bin/pg_dotconf.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/postgresql/bin/pg_dotconf.py b/postgresql/bin/pg_dotconf.py
index 31306e9..ea82104 100644
--- a/postgresql/bin/pg_dotconf.py
+++ b/postgresql/bin/pg_dotconf.py
@@ -3,7 +3,7 @@ import sys
 import os
 from optparse import OptionParser
 from .. import configfile
-from .. import __version__
+from .. import project
 
 __all__ = ['command']
 
@@ -13,7 +13,7 @@ def command(args):
 	"""
 	op = OptionParser(
 		"%prog [--stdout] [-f settings] postgresql.conf ([param=val]|[param])*",
-		version = __version__
+		version = project.version
 	)
 	op.add_option(
 		'-f', '--file',
@@ -36,11 +36,7 @@ def command(args):
 	settings = {}
 	for sfp in co.settings:
 		with open(sfp) as sf:
-			for line in sf:
-				pl = configfile.parse_line(line)
-				if pl is not None:
-					if comment not in line[pl[0].start]:
-						settings[line[pl[0]]] = unquote(line[pl[1]])
+			configfile.read_config(sf, settings)
 
 	prev = None
 	for p in ca[1:]:
-- 
2.43.0


From a4f4857f119bf1fc8a06353604f6eb0f7ec951c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 097/153] fix: Cluster: repr() works and the description names
 the pid

---
 postgresql/cluster.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 122103e..c7b1afa 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -117,7 +117,7 @@ class Cluster(pg_api.Cluster):
 		state = self.state
 		yield (None, '[' + state + ']')
 		if state == 'running':
-			yield ('pid', self.state)
+			yield ('pid', self.pid)
 
 	@property
 	def daemon_path(self):
@@ -178,10 +178,10 @@ class Cluster(pg_api.Cluster):
 
 	def __repr__(self, format = "{mod}.{name}({ins!r}, {dir!r})".format):
 		return format(
-			type(self).__module__,
-			type(self).__name__,
-			self.installation,
-			self.data_directory,
+			mod = type(self).__module__,
+			name = type(self).__name__,
+			ins = self.installation,
+			dir = self.data_directory,
 		)
 
 	def __enter__(self):
-- 
2.43.0


From 8766e190812ec1300e4f6027f6fd07d02cc7e811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 098/153] fix: Cluster: pid files that are stale, empty or not
 a postmaster's neither raise nor direct signals elsewhere

---
 postgresql/cluster.py | 52 ++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index c7b1afa..cb85a0a 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -129,25 +129,55 @@ class Cluster(pg_api.Cluster):
 	def get_pid_from_file(self):
 		"""
 		The current pid from the postmaster.pid file.
+
+		`None` if there is no file, or if it does not identify a postmaster:
+		the file is momentarily empty when it is created, and standalone
+		backends record their pid as a negative number.
 		"""
 		try:
 			path = os.path.join(self.data_directory, self.DEFAULT_PID_FILENAME)
 			with open(path) as f:
-				return int(f.readline())
+				pid = int(f.readline())
 		except IOError as e:
-			if e.errno in (errno.EIO, errno.ENOENT):
+			if e.errno in (errno.EIO, errno.ENOENT, errno.ENOTDIR, errno.EISDIR):
 				return None
+			raise
+		except ValueError:
+			return None
+		# A stale file may hold the pid of this very process or of its parent.
+		if pid <= 0 or pid in (os.getpid(), os.getppid()):
+			return None
+		return pid
+
+	def _pid_exists(self, pid):
+		"""
+		Whether the process exists and could be the cluster's. A process that
+		may not be signalled belongs to someone else.
+		"""
+		try:
+			pg_kill(pid, signal.SIG_DFL)
+		except OverflowError:
+			return False
+		except OSError as e:
+			if e.errno not in (errno.ESRCH, errno.EPERM):
+				raise
+			return False
+		return True
 
 	@property
 	def pid(self):
 		"""
+		The pid of the server process; `None` if it is not running.
+
 		If we have the subprocess, use the pid on the object.
 		"""
+		d = self.daemon_process
+		if d is not None and d.poll() is None:
+			return d.pid
 		pid = self.get_pid_from_file()
-		if pid is None:
-			d = self.daemon_process
-			if d is not None:
-				return d.pid
+		if pid is not None and not self._pid_exists(pid):
+			# The server did not get to remove its file.
+			return None
 		return pid
 
 	@property
@@ -457,13 +487,7 @@ class Cluster(pg_api.Cluster):
 			pid = self.get_pid_from_file()
 			if pid is None:
 				return False
-			try:
-				pg_kill(pid, signal.SIG_DFL)
-			except OSError as e:
-				if e.errno != errno.ESRCH:
-					raise
-				return False
-			return True
+			return self._pid_exists(pid)
 
 	def connector(self, **kw):
 		"""
@@ -627,8 +651,6 @@ class Cluster(pg_api.Cluster):
 			# pickup the exit code.
 			if self.daemon_process is not None:
 				self.last_exit_code = self.daemon_process.poll()
-			else:
-				self.last_exit_code = pg_kill(self.get_pid_from_file(), 0)
 			if time.time() - start >= timeout:
 				raise ClusterTimeoutError(
 					'timeout on shutdown',
-- 
2.43.0


From 18daaf39eec79192df93317b1261bd644e812449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 099/153] fix: Cluster: settings given to start() are passed
 and honoured by address(), defaults are used for readiness

---
 postgresql/cluster.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index cb85a0a..9037f15 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -205,6 +205,7 @@ class Cluster(pg_api.Cluster):
 		)
 		self.daemon_process = None
 		self.daemon_command = None
+		self.daemon_settings = {}
 
 	def __repr__(self, format = "{mod}.{name}({ins!r}, {dir!r})".format):
 		return format(
@@ -364,10 +365,19 @@ class Cluster(pg_api.Cluster):
 		"""
 		if self.running():
 			return
-		cmd = (self.daemon_path, '-D', self.data_directory)
-		if settings is not None:
-			for k,v in dict(settings).items():
-				cmd.append('--{k}={v}'.format(k=k,v=v))
+		if self.daemon_path is None:
+			raise ClusterStartupError(
+				"unable to find executable for starting the cluster",
+				details = {
+					'detail' : "The installation does not have 'postgres' or 'postmaster'.",
+				},
+				creator = self
+			)
+		cmd = [self.daemon_path, '-D', self.data_directory]
+		settings = dict(settings) if settings is not None else {}
+		for k,v in settings.items():
+			cmd.append('--{k}={v}'.format(k=k,v=v))
+		cmd = tuple(cmd)
 
 		p = sp.Popen(
 			cmd,
@@ -383,6 +393,7 @@ class Cluster(pg_api.Cluster):
 		p.stdin.close()
 		self.daemon_process = p
 		self.daemon_command = cmd
+		self.daemon_settings = settings
 
 	def restart(self, logfile = None, settings = None, timeout = 10):
 		"""
@@ -526,13 +537,15 @@ class Cluster(pg_api.Cluster):
 		"""
 		Get the host-port pair from the configuration.
 		"""
-		d = self.settings.getset((
-			'listen_addresses', 'port',
-		))
+		keys = ('listen_addresses', 'port')
+		d = self.settings.getset(keys)
+		if self.daemon_process is not None:
+			# Settings given to `start` override those of the file.
+			d.update((k, str(v)) for k, v in self.daemon_settings.items() if k in keys)
 		if d.get('listen_addresses') is not None:
 			# Prefer localhost over other addresses.
 			# More likely to get a successful connection.
-			addrs = d.get('listen_addresses').lower().split(',')
+			addrs = [x.strip() for x in d.get('listen_addresses').lower().split(',')]
 			if 'localhost' in addrs or '*' in addrs:
 				host = 'localhost'
 			elif '127.0.0.1' in addrs:
@@ -557,7 +570,7 @@ class Cluster(pg_api.Cluster):
 		host, port = self.address()
 		connection = self.driver.fit(
 			user = ' -*- ping -*- ',
-			host = host, port = port,
+			host = host or 'localhost', port = port or 5432,
 			database = 'template1',
 			sslmode = 'disable',
 		)()
-- 
2.43.0


From 5ee4662920dd2c1a581dea3e4ce1480d52bd354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 100/153] fix: Cluster: ready_for_connections() returns True,
 False or None as documented

---
 postgresql/cluster.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 9037f15..762999f 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -562,10 +562,18 @@ class Cluster(pg_api.Cluster):
 		"""
 		If the daemon is running, and is not in startup mode.
 
+		`True` when the cluster accepts connections, `False` when it does not,
+		and `None` if it is not running at all.
+
 		This only works for clusters configured for TCP/IP connections.
 		"""
+		r = self._check_readiness()
+		return r if r is None else r is True
+
+	def _check_readiness(self):
+		# True, None if not running, or the error that keeps clients out.
 		if not self.running():
-			return False
+			return None
 		e = None
 		host, port = self.address()
 		connection = self.driver.fit(
@@ -629,7 +637,7 @@ class Cluster(pg_api.Cluster):
 						"postgres daemon has not been started",
 						creator = self
 					)
-			r = self.ready_for_connections()
+			r = self._check_readiness()
 
 			checkpoint = time.time()
 			if r is True:
@@ -645,7 +653,7 @@ class Cluster(pg_api.Cluster):
 					'timeout on startup',
 					creator = self
 				)
-				if r not in (True,False):
+				if r is not None:
 					raise e from r
 				raise e
 			time.sleep(delay)
-- 
2.43.0


From 9d015f283ed82c0bf582505f34cddd0bb4bd00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 101/153] fix: Cluster: drop() removes symbolic links without
 failing

---
 postgresql/cluster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 762999f..64e4f5a 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -356,7 +356,12 @@ class Cluster(pg_api.Cluster):
 			for name in files:
 				os.remove(os.path.join(root, name))
 			for name in dirs:
-				os.rmdir(os.path.join(root, name))	
+				path = os.path.join(root, name)
+				if os.path.islink(path):
+					# Tablespaces and relocated WAL; only the link is ours.
+					os.remove(path)
+				else:
+					os.rmdir(path)
 		os.rmdir(self.data_directory)
 
 	def start(self, logfile = None, settings = None):
-- 
2.43.0


From 84a0aea758dd11ab2c4054cf60f04cc8e9674e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 102/153] fix: Cluster: init() accepts None for options left at
 their defaults

---
 postgresql/cluster.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 64e4f5a..b4e6cbd 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -256,18 +256,21 @@ class Cluster(pg_api.Cluster):
 
 		# A default is used rather than looking at the environment to, well,
 		# avoid looking at the environment.
-		kw.setdefault('encoding', self.DEFAULT_CLUSTER_ENCODING)
+		if kw.get('encoding') is None:
+			kw['encoding'] = self.DEFAULT_CLUSTER_ENCODING
 		opts = []
 		for x in kw:
 			if x in ('logfile', 'extra_arguments'):
 				continue
 			if x not in initdb_option_map:
 				raise TypeError("got an unexpected keyword argument %r" %(x,))
+			if kw[x] is None:
+				continue
 			opts.append(initdb_option_map[x])
 			opts.append(kw[x])
 		logfile = kw.get('logfile') or sp.PIPE
 		extra_args = tuple([
-			str(x) for x in kw.get('extra_arguments', ())
+			str(x) for x in kw.get('extra_arguments') or ()
 		])
 
 		supw_file = ()
-- 
2.43.0


From 8f336c5008df5ab0998a2ebea40cf4c00d46c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 103/153] fix: temporal: open connections do not keep the
 temporary cluster alive, builtins are restored

---
 postgresql/temporal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index a19a845..e028a36 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -44,7 +44,7 @@ class Temporal(object):
 		'settings',
 		'prepare',
 		'sqlexec',
-		'newdb',
+		'new',
 	}
 
 	def __init__(self):
@@ -66,9 +66,12 @@ class Temporal(object):
 		# Don't destroy if it's not the initializing process.
 		if os.getpid() == self._init_pid_:
 			# Kill all the open connections.
+			cluster = self.cluster
 			try:
 				c = cluster.connection(user = 'test', database = 'template1',)
 				with c:
+					# Auxiliary processes are not backends.
+					c.settings['client_min_messages'] = 'error'
 					if c.version_info[:2] <= (9,1):
 						c.sys.terminate_backends()
 					else:
@@ -76,7 +79,6 @@ class Temporal(object):
 			except Exception:
 				# Doesn't matter much if it fails.
 				pass
-			cluster = self.cluster
 			self.cluster = None
 			self._init_pid_ = None
 			if cluster is not None:
@@ -218,7 +220,7 @@ class Temporal(object):
 		if len(self.builtins_stack) > 1:
 			builtins.__dict__.update(self.builtins_stack[-1][0])
 		else:
-			previous = self.builtins_stack.popleft()
+			previous, _ = self.builtins_stack.popleft()
 			for x in self.builtins_keys:
 				if x in previous:
 					builtins.__dict__[x] = previous[x]
-- 
2.43.0


From f2b3a4939517e9162ef055b80e1c5145164bc0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 104/153] fix: version strings with a packager's note are
 parsed

---
 postgresql/installation.py  | 2 +-
 postgresql/versionstring.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/installation.py b/postgresql/installation.py
index 5856816..16ab957 100644
--- a/postgresql/installation.py
+++ b/postgresql/installation.py
@@ -209,7 +209,7 @@ class Installation(pg_api.Installation):
 		"""
 		self.info = info
 		self.version = self.info["version"]
-		self.type, vs = self.version.split()
+		self.type, vs = self.version.split(None, 1)
 		self.version_info = versionstring.normalize(versionstring.split(vs))
 		self.configure_options = dict(
 			parse_configure_options(self.info.get('configure', ''))
diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index 04c065a..fa353e8 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -13,7 +13,8 @@ def split(vstr: str) -> tuple:
 	Split a PostgreSQL version string into a tuple.
 	(major, minor, patch, ..., state_class, state_level)
 	"""
-	v = vstr.strip().split('.')
+	# Packagers append a note: '16.2 (Debian 16.2-1.pgdg120+2)'.
+	v = vstr.partition('(')[0].strip().split('.')
 
 	# Get rid of the numbers around the state_class (beta,a,dev,alpha, etc)
 	state_class = v[-1].strip('0123456789')
-- 
2.43.0


From d22cd2a39189f9ebb9f39decf3c66748902e7564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:08 +0000
Subject: [PATCH 105/153] fix: Array: negative and out of range indexes of
 multidimensional arrays

---
 postgresql/types/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 81cdc0e..6c40eaa 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -533,8 +533,10 @@ class Array(object):
 		else:
 			# get a sub-array
 			l = len(self)
-			if item > l:
-				raise IndexError("index {0} is out of range".format(l))
+			if not -l <= item < l:
+				raise IndexError("index {0} is out of range".format(item))
+			if item < 0:
+				item += l
 			return self.__class__.from_elements(
 				self._elements[self._weight*item:self._weight*(item+1)],
 				lowerbounds = self.lowerbounds[1:],
-- 
2.43.0


From dca233d58816f70692fa2a1d3d34f7bb50cb86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:08 +0000
Subject: [PATCH 106/153] fix: Array: lower bounds given without upper bounds

---
 postgresql/types/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 6c40eaa..ca5e70a 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -357,7 +357,7 @@ class Array(object):
 				upperbounds = ()
 				dimensions = ()
 			else:
-				upperbounds = (nelements,)
+				upperbounds = tuple([lb + nelements - 1 for lb in lowerbounds[:1]])
 				dimensions = (nelements,)
 
 		# consistency..
-- 
2.43.0


From 5ff02044b17bb0b048997ad9120fb7a5d66a88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:08 +0000
Subject: [PATCH 107/153] fix: Array: sql_get_element() with another number of
 subscripts is NULL

---
 postgresql/types/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index ca5e70a..91e2041 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -466,8 +466,11 @@ class Array(object):
 	def sql_get_element(self, address):
 		"""
 		Like `get_element`, but with SQL indirection semantics. Notably, returns
-		`None` on IndexError.
+		`None` on IndexError, and when the number of subscripts is not that of
+		the dimensions.
 		"""
+		if len(address) != self.ndims:
+			return None
 		try:
 			a = [a - lb for (a, lb) in zip(address, self.lowerbounds)]
 			# get_element accepts negatives, so check the converted sequence.
-- 
2.43.0


From 3a795f50637f7f00c7716e729056c0ad8f1ffe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:08 +0000
Subject: [PATCH 108/153] fix: Row: get() with the lowest negative index

---
 postgresql/types/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 91e2041..b9d46c9 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -583,7 +583,7 @@ class Row(tuple):
 	def get(self, i, gi = tuple.__getitem__, len = len):
 		if type(i) is int:
 			l = len(self)
-			if -l < i < l:
+			if -l <= i < l:
 				return gi(self, i)
 		else:
 			idx = self.keymap.get(i)
-- 
2.43.0


From 2c3f40995764adddc37a57b3c36b8d5d29d720a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 109/153] fix: DB-API: percent escapes and operators next to
 parameters

---
 postgresql/driver/dbapi20.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index dafd49a..5fa9959 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -232,19 +232,8 @@ class Cursor(object):
 							kmap[x] = '$' + str(len(keys) + 1)
 							keys.append(x)
 				if r:
-					if pcount:
-						# format
-						params = tuple([
-							'$' + str(i+1) for i in range(count, count + pcount)
-						])
-						count += pcount
-						rparts.append(part % params)
-					else:
-						# pyformat
-						rparts.append(part % kmap)
-				else:
-					# no parameters identified in string
-					rparts.append(part)
+					count += pcount
+				rparts.append(part)
 
 		if keys:
 			if count:
@@ -254,6 +243,22 @@ class Cursor(object):
 			transformer = partial(convert_keywords, keys)
 			count = len(keys)
 
+		if count:
+			# Only statements with parameters have escapes; in those, any other
+			# percent sign is left alone.
+			position = iter(range(1, count + 1))
+			def substitute(m):
+				x = m.group(1)
+				if x is None:
+					return '%' * (len(m.group(0)) // 2)
+				elif x == 's':
+					return '$' + str(next(position))
+				return kmap[x[1:-2]]
+			rparts = [
+				x if x.__class__ is tuple else parameters_re.sub(substitute, x)
+				for x in rparts
+			]
+
 		return (pg_str.unsplit(rparts) if rparts else string, transformer, count)
 
 	def execute(self, statement, parameters = ()):
-- 
2.43.0


From 0584f706ed9c1501e9505a430933d27c0e973cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 110/153] fix: DB-API: nothing to fetch after statements that
 return no rows

---
 postgresql/driver/dbapi20.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index 5fa9959..c54ada7 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -131,7 +131,6 @@ class Cursor(object):
 
 	def __init__(self, C):
 		self.database = self.connection = C
-		self.description = ()
 		self.__portals = []
 
 	# Describe the "real" cursor as a "portal".
@@ -289,9 +288,8 @@ class Cursor(object):
 			if self.rowcount is None:
 				self.rowcount = -1
 			self.description = None
-			# execute bumps any current portal
-			if self.__portals:
-				del self._portal
+			# nothing to fetch, neither from this nor from earlier statements
+			del self.__portals[:]
 		return self
 
 	def executemany(self, statement, parameters):
@@ -306,6 +304,8 @@ class Cursor(object):
 		else:
 			ps.load_rows(parameters)
 		self.rowcount = -1
+		self.description = None
+		del self.__portals[:]
 		return self
 
 	def close(self):
-- 
2.43.0


From f277344d7cda2cc98f06e8e000ca4876d6b59ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 111/153] fix: DB-API: executemany() of statements without
 parameters

---
 postgresql/driver/dbapi20.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index c54ada7..68c4bf2 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -299,10 +299,11 @@ class Cursor(object):
 
 		sql, pxf, nparams = self._convert_query(statement)
 		ps = self.database.prepare(sql)
-		if ps._input is not None:
+		if nparams:
 			ps.load_rows(map(pxf, parameters))
 		else:
-			ps.load_rows(parameters)
+			for x in parameters:
+				ps(*pxf(x))
 		self.rowcount = -1
 		self.description = None
 		del self.__portals[:]
-- 
2.43.0


From 4da50dac18f5c02c1e32188868f165a5f295aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 112/153] fix: DB-API: callproc() describes its columns, and
 its parameters are optional

---
 postgresql/driver/dbapi20.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index 68c4bf2..91e7cbd 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -168,7 +168,7 @@ class Cursor(object):
 			raise Error("cursor is closed",
 				source = 'CLIENT', creator = self.database)
 
-	def callproc(self, proname, args):
+	def callproc(self, proname, args = ()):
 		if self.__portals is None:
 			raise Error("cursor is closed",
 				source = 'CLIENT', creator = self.database)
@@ -178,7 +178,9 @@ class Cursor(object):
 				'$' + str(x) for x in range(1, len(args) + 1)
 			])
 		))
-		self.__portals.insert(0, Portal(p.chunks(*args)))
+		c = p.chunks(*args)
+		self._describe(p)
+		self.__portals.insert(0, Portal(c))
 		return args
 
 	def fetchone(self):
@@ -260,6 +262,15 @@ class Cursor(object):
 
 		return (pg_str.unsplit(rparts) if rparts else string, transformer, count)
 
+	def _describe(self, ps):
+		# name, relationId, columnNumber, typeId, typlen, typmod, format
+		self.rowcount = -1
+		self.description = tuple([
+			(self.database.typio.decode(x[0]), dbapi_type(x[3]),
+			None, None, None, None, None)
+			for x in ps._output
+		])
+
 	def execute(self, statement, parameters = ()):
 		if self.__portals is None:
 			raise Error("cursor is closed",
@@ -275,13 +286,7 @@ class Cursor(object):
 		ps = self.database.prepare(sql)
 		c = ps.chunks(*pxf(parameters))
 		if ps._output is not None and len(ps._output) > 0:
-			# name, relationId, columnNumber, typeId, typlen, typmod, format
-			self.rowcount = -1
-			self.description = tuple([
-				(self.database.typio.decode(x[0]), dbapi_type(x[3]),
-				None, None, None, None, None)
-				for x in ps._output
-			])
+			self._describe(ps)
 			self.__portals.insert(0, Portal(c))
 		else:
 			self.rowcount = c.count()
-- 
2.43.0


From 9ce2682001d4c05da6cecfcb72d0f7191679ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 113/153] fix: DB-API: TimestampFromTicks() took the weekday
 for microseconds

---
 postgresql/driver/dbapi20.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index 91e7cbd..b6e696b 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -58,7 +58,7 @@ Time = datetime.time
 Timestamp = datetime.datetime
 DateFromTicks = lambda x: Date(*time.localtime(x)[:3])
 TimeFromTicks = lambda x: Time(*time.localtime(x)[3:6])
-TimestampFromTicks = lambda x: Timestamp(*time.localtime(x)[:7])
+TimestampFromTicks = lambda x: Timestamp(*time.localtime(x)[:6])
 
 def dbapi_type(typid):
 	if typid in (
-- 
2.43.0


From 21fb9c9e162df7f4e2cd7f6dee60c457514ec45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 114/153] fix: DB-API: a refused commit() left the connection
 outside a transaction

---
 postgresql/driver/dbapi20.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index b6e696b..74d0e26 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -394,7 +394,15 @@ class Connection(Connection):
 				},
 				creator = self
 			)
-		self._xact.commit()
+		try:
+			self._xact.commit()
+		except Exception:
+			# Refused, by a deferred constraint for instance. The block is over
+			# then, and the statements to come belong to a new one.
+			if not self.closed and self.pq.state == b'I':
+				self._xact = self.xact()
+				self._xact.start()
+			raise
 		self._xact = self.xact()
 		self._xact.start()
 
-- 
2.43.0


From 85c40ee52c319356d4721a5d6f116a41ee2ac15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 115/153] fix: system library: catalogs are named with their
 schema

---
 postgresql/lib/libsys.sql | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index 2f80e1b..bcf16ea 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -24,7 +24,7 @@ SELECT
   )
  ) AS textual
 FROM pg_catalog.pg_type bt
- LEFT JOIN pg_type ae
+ LEFT JOIN pg_catalog.pg_type ae
   ON (
    bt.typlen = -1 AND
    bt.typelem != 0 AND
@@ -43,7 +43,7 @@ SELECT
 FROM
  pg_catalog.pg_type t LEFT JOIN pg_catalog.pg_attribute a
   ON (t.typrelid = a.attrelid)
- LEFT JOIN pg_type tt ON (a.atttypid = tt.oid)
+ LEFT JOIN pg_catalog.pg_type tt ON (a.atttypid = tt.oid)
 WHERE
  attrelid = $1 AND NOT attisdropped AND attnum > 0
 ORDER BY attnum ASC
@@ -56,7 +56,7 @@ SELECT
                t2.typbasetype,
                0
            FROM
-               pg_type t2
+               pg_catalog.pg_type t2
            WHERE
                t2.oid = tt.oid
           UNION ALL
@@ -64,7 +64,7 @@ SELECT
                t2.typbasetype,
                th.depth + 1
            FROM
-               pg_type t2,
+               pg_catalog.pg_type t2,
                typehierarchy th
            WHERE
                th.typid = t2.oid
@@ -104,7 +104,7 @@ SELECT
  pg_proc.oid::regprocedure as procedure_id,
  COALESCE(string_to_array(trim(replace(textin(oidvectorout(proargtypes)), ',', ' '), '{}'), ' ')::oid[], '{}'::oid[])
   AS proargtypes,
- (pg_type.oid = 'record'::regtype or pg_type.typtype = 'c' or (
+ (pg_type.oid = 'pg_catalog.record'::regtype or pg_type.typtype = 'c' or (
   -- A domain of a composite is as well.
   pg_type.typtype = 'd' AND EXISTS (
    WITH RECURSIVE base(oid) AS (
@@ -141,7 +141,7 @@ SELECT
 			AND (
 				owner = $1::text
 				OR (
-					(SELECT rolsuper FROM pg_roles WHERE rolname = $1::text)
+					(SELECT rolsuper FROM pg_catalog.pg_roles WHERE rolname = $1::text)
 				)
 			)
 		ORDER BY prepared ASC
@@ -282,7 +282,7 @@ WHERE
 SELECT pg_catalog.pg_database_size(current_database())::bigint
 
 [sizeof_cluster:transient:first]
-SELECT SUM(pg_catalog.pg_database_size(datname))::bigint FROM pg_database
+SELECT SUM(pg_catalog.pg_database_size(datname))::bigint FROM pg_catalog.pg_database
 
 [sizeof_relation::first]
 SELECT pg_catalog.pg_relation_size($1::text)::bigint
-- 
2.43.0


From 86fd894d78736d3b4ef837e8380650c889f56df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 116/153] fix: libraries: constants that are NULL are resolved
 once

---
 postgresql/lib/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 1307a3b..f597e0b 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -358,8 +358,10 @@ class Binding(object):
 		db = d['__database__']
 		lib = d['__symbol_library__']
 
-		bs = s.get(name)
-		if bs is None:
+		# The value of a constant may be None.
+		if name in s:
+			bs = s[name]
+		else:
 			# No symbol cached with that name.
 			# Everything is crammed in here because
 			# we do *not* want methods on this object.
-- 
2.43.0


From 3198fe88e821bebdc53ef62ecfc20e2d403aaf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 117/153] fix: Category: binding over an attribute raises the
 AttributeError

---
 postgresql/lib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index f597e0b..d6f30be 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -429,7 +429,7 @@ class Category(pg_api.Category):
 			B = Binding(database, l)
 			for n in names:
 				if hasattr(database, n):
-					raise AttributeError("attribute already exists: " + name)
+					raise AttributeError("attribute already exists: " + n)
 				setattr(database, n, B)
 
 def find_libsql(libname, paths, prefix = 'lib', suffix = '.sql'):
-- 
2.43.0


From ff9db7b2b313049ce2ca5722ef88fd2b6e357567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 118/153] fix: open() from several threads at first

---
 postgresql/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/__init__.py b/postgresql/__init__.py
index 60ce8e5..f27112f 100644
--- a/postgresql/__init__.py
+++ b/postgresql/__init__.py
@@ -57,9 +57,10 @@ def open(iri = None, prompt_title = None, **kw):
 	"""
 	global _pg_iri, _pg_driver, _pg_param
 	if _pg_iri is None:
-		from . import iri as _pg_iri
 		from . import driver as _pg_driver
 		from . import clientparameters as _pg_param
+		# Last; to other threads, this says that all of them are there.
+		from . import iri as _pg_iri
 
 	return_connector = False
 	if iri is not None:
-- 
2.43.0


From b755e585cd74fd0bee6a02192509b7f35729a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 119/153] fix: versionstring: unsplit() of states without a
 level

---
 postgresql/versionstring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index fa353e8..83b5053 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -43,7 +43,8 @@ def unsplit(vtup: tuple) -> str:
 	"""
 	svtup = [str(x) for x in vtup[:-2] if x is not None]
 	state_class, state_level = vtup[-2:]
-	return '.'.join(svtup) + ('' if state_class is None else state_class + str(state_level))
+	return '.'.join(svtup) + (state_class or '') + \
+		('' if state_level is None else str(state_level))
 
 def normalize(split_version: tuple) -> tuple:
 	"""
-- 
2.43.0


From 043916d902f8eaa1a1f9629cf9d8fc0727476865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 120/153] fix: versionstring: versions of more than three
 numbers

---
 postgresql/versionstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index 83b5053..0051213 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -34,7 +34,7 @@ def split(vstr: str) -> tuple:
 		state_class = None
 		vlist = [int(x or '0') for x in v]
 		# pad the difference with `None` objects, and +2 for the state_*.
-		vlist += [None] * ((3 - len(vlist)) + 2)
+		vlist += [None] * (max(3 - len(vlist), 0) + 2)
 	return tuple(vlist)
 
 def unsplit(vtup: tuple) -> str:
-- 
2.43.0


From 989585600b12395bdf06bdd3ababc33d36f85e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 121/153] fix: versionstring: any note after the version is
 ignored

---
 postgresql/versionstring.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index 0051213..9dc088b 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -13,8 +13,9 @@ def split(vstr: str) -> tuple:
 	Split a PostgreSQL version string into a tuple.
 	(major, minor, patch, ..., state_class, state_level)
 	"""
-	# Packagers append a note: '16.2 (Debian 16.2-1.pgdg120+2)'.
-	v = vstr.partition('(')[0].strip().split('.')
+	# Packagers append a note: '16.2 (Debian 16.2-1.pgdg120+2)' or
+	# '17.2 - Percona Server for PostgreSQL 17.2.1'.
+	v = (vstr.partition('(')[0].split(None, 1) or [''])[0].split('.')
 
 	# Get rid of the numbers around the state_class (beta,a,dev,alpha, etc)
 	state_class = v[-1].strip('0123456789')
-- 
2.43.0


From 086c4276a1bcccac52145635efecd406075f3cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 122/153] fix: Installation: configure options keep the quotes
 and dashes of their values

---
 postgresql/installation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postgresql/installation.py b/postgresql/installation.py
index 16ab957..3bd1e2f 100644
--- a/postgresql/installation.py
+++ b/postgresql/installation.py
@@ -83,7 +83,7 @@ def pg_config_dictionary(*pg_config_path, encoding='utf-8', timeout=8):
 ##
 # Build a key-value pair list of the configure options.
 # If the item is quoted, mind the quotes.
-def parse_configure_options(confopt, quotes = '\'"', dash_and_quotes = '-\'"'):
+def parse_configure_options(confopt, quotes = '\'"'):
 	# This is not a robust solution, but it will usually work.
 	# Chances are that there is a quote at the beginning of this string.
 	# However, in the windows pg_config.exe, this appears to be absent.
@@ -102,14 +102,17 @@ def parse_configure_options(confopt, quotes = '\'"', dash_and_quotes = '-\'"'):
 	parts = pg_str.split_using(confopt, quote, sep = ' ')
 	qq = quote * 2
 	for x in parts:
+		# remove the quotes around the option, but not those of its value
+		if x[0:1] in quotes:
+			x = x[1:-1] if x[0:1] == x[-1:] else x[1:]
 		if qq in x:
 			# singularize the quotes
 			x = x.replace(qq, quote)
-		# remove the quotes around '--' from option.
+		# remove the '--' from option.
 		# if it splits once, the '1' index will
 		# be `True`, indicating that the flag was given, but
 		# was not given a value.
-		kv = x.strip(dash_and_quotes).split('=', 1) + [True]
+		kv = x.lstrip('-').split('=', 1) + [True]
 		key = kv[0].replace('-','_')
 		# Ignore empty keys.
 		if key:
-- 
2.43.0


From 2c9967a2486fb942c07b1a0527b287c1fdb5161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 123/153] fix: Installation: includedir_server is found

---
 postgresql/installation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/installation.py b/postgresql/installation.py
index 3bd1e2f..12ade04 100644
--- a/postgresql/installation.py
+++ b/postgresql/installation.py
@@ -223,7 +223,8 @@ class Installation(pg_api.Installation):
 		exists = os.path.exists
 		join = os.path.join
 		for k in self.pg_directories:
-			self.paths[k] = self.info.get(k)
+			# pg_config's names have dashes: INCLUDEDIR-SERVER
+			self.paths[k] = self.info.get(k, self.info.get(k.replace('_', '-')))
 
 		# find all the PG executables that exist for the installation.
 		bindir_path = self.info.get('bindir')
-- 
2.43.0


From 69f9b32015e0184415fff18b18d3f0182366c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 124/153] fix: Installation: ssl is false for --with-ssl=no

---
 postgresql/installation.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/postgresql/installation.py b/postgresql/installation.py
index 12ade04..b6e1c7f 100644
--- a/postgresql/installation.py
+++ b/postgresql/installation.py
@@ -244,11 +244,9 @@ class Installation(pg_api.Installation):
 		"""
 		Whether the installation was compiled with SSL support.
 		"""
-		if 'with_openssl' in self.configure_options:
-			return True
-		# Parameterized form in newer versions.
-		for x in self.configure_options:
-			if 'with_ssl' in x:
+		# Parameterized form, with_ssl, in newer versions.
+		for k, v in self.configure_options.items():
+			if (k == 'with_openssl' or 'with_ssl' in k) and v != 'no':
 				return True
 		return False
 
-- 
2.43.0


From edf042ad6d9d509900ffd41358c787e34cc7dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:01 +0000
Subject: [PATCH 125/153] fix: executing a Python command replaced os.environ
 with a plain dictionary

---
 postgresql/python/command.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/postgresql/python/command.py b/postgresql/python/command.py
index d88b154..35badb0 100644
--- a/postgresql/python/command.py
+++ b/postgresql/python/command.py
@@ -584,18 +584,21 @@ class Execution(object):
 			return rv
 
 	def __call__(self, *args, **kw):
-		storage = (
-			sys.modules.get('__context__'),
-			sys.modules.get('__main__'),
-			sys.argv,
-			os.environ.copy(),
-		)
+		modules = {k : sys.modules.get(k) for k in ('__context__', '__main__')}
+		argv, environ = sys.argv, os.environ.copy()
 		try:
 			return self._call(*args, **kw)
 		finally:
-			sys.modules['__context__'], \
-			sys.modules['__main__'], \
-			sys.argv, os.environ = storage
+			for k, m in modules.items():
+				if m is None:
+					sys.modules.pop(k, None)
+				else:
+					sys.modules[k] = m
+			sys.argv = argv
+			# Not the object; only os.environ reaches the actual environment.
+			for k in set(os.environ) - set(environ):
+				del os.environ[k]
+			os.environ.update(environ)
 
 	def get_main_source(self):
 		"""
-- 
2.43.0


From 3e8b6d8937aef205cfd1498d29617202135d64ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:01 +0000
Subject: [PATCH 126/153] fix: modules run by -m could not import relatively

---
 postgresql/python/command.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/python/command.py b/postgresql/python/command.py
index 35badb0..9cb7bef 100644
--- a/postgresql/python/command.py
+++ b/postgresql/python/command.py
@@ -472,6 +472,9 @@ class Execution(object):
 		mod.__package__ = None
 		self.module__main__ = mod
 		path = getattr(self.main[1], 'fullname', None)
+		if path is None and not isinstance(self.main[1], (single_loader, file_loader)):
+			# Loaders of importlib.
+			path = getattr(self.main[1], 'name', None)
 		if path is not None:
 			mod.__package__ = '.'.join(path.split('.')[:-1])
 
-- 
2.43.0


From f3aa19b8d824c21bebae794fe39c8ac287e57227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:01 +0000
Subject: [PATCH 127/153] fix: pg_python left its built-ins behind, as None

---
 postgresql/bin/pg_python.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postgresql/bin/pg_python.py b/postgresql/bin/pg_python.py
index a97aa97..ed43de6 100644
--- a/postgresql/bin/pg_python.py
+++ b/postgresql/bin/pg_python.py
@@ -121,10 +121,11 @@ def command(argv = sys.argv):
 					del connection.pq.socket
 		finally:
 			# restore __builtins__
-			builtins_d.update(restore)
-			for k, v in builtin_overload.items():
+			for k, v in restore.items():
 				if v is None:
-					del builtins_d[x]
+					builtins_d.pop(k, None)
+				else:
+					builtins_d[k] = v
 			if trace_file is not None:
 				trace_file.close()
 	except:
-- 
2.43.0


From 87ffbaf9b63b469a8390a51bab7ce544aa02b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:56 +0000
Subject: [PATCH 128/153] fix: a search_path in a sequence of settings was
 dropped from serialised IRIs

---
 postgresql/iri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 42b5612..5af6118 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -122,7 +122,7 @@ def construct(x, obscure_password = False):
 		else:
 			siter = list(settings)
 			search_path = [(k,v) for k,v in siter if k == 'search_path']
-			search_path.append((None,None))
+			search_path.insert(0, (None,None))
 			search_path = search_path[-1][1]
 		no_path_settings = [
 			(k, None if v is None else str(v))
-- 
2.43.0


From 8d45529c2d442b1fe3c82e6a3cf63e8864b63e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:13 +0000
Subject: [PATCH 129/153] fix: column names of a statement or cursor changed
 with client_encoding

---
 postgresql/driver/pq3.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index b5d61ba..6841170 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -647,6 +647,7 @@ class Output(object):
 	_output_io = None
 	_output_formats = None
 	_output_attmap = None
+	_output_names = None
 
 	closed = False
 	cursor_id = None
@@ -671,6 +672,7 @@ class Output(object):
 			self._row_constructor = stmt._row_constructor
 			self._output_formats = stmt._output_formats or ()
 			self._output_attmap = stmt._output_attmap
+			self._output_names = stmt._output_names
 
 		self._pq_cursor_id = self.database.typio.encode(cursor_id)
 		# If the cursor's id was generated, it should be garbage collected.
@@ -837,7 +839,7 @@ class Output(object):
 	@property
 	def column_names(self):
 		if self._output is not None:
-			return list(self.database.typio.decodes(self._output.keys()))
+			return list(self._output_names)
 		# `None` if _output does not exist; not row data
 
 	@property
@@ -1150,6 +1152,8 @@ class Cursor(Output, pg_api.Cursor):
 					typio = self.database.typio
 					self._output = m
 					self._output_attmap = typio.attribute_map(self._output)
+					# client_encoding may be changed later on
+					self._output_names = list(typio.decodes(self._output.keys()))
 					self._row_constructor = typio.RowTypeFactory(self._output_attmap)
 					# tuple output
 					self._output_io = typio.resolve_descriptor(
@@ -1307,6 +1311,7 @@ class Statement(pg_api.Statement):
 	_output_io = None
 	_output_formats = None
 	_output_attmap = None
+	_output_names = None
 
 	def _e_metas(self):
 		yield (None, '[' + self.state + ']')
@@ -1475,7 +1480,7 @@ class Statement(pg_api.Statement):
 		if self.closed is None:
 			self._fini()
 		if self._output is not None:
-			return list(self.database.typio.decodes(self._output.keys()))
+			return list(self._output_names)
 
 	@property
 	def parameter_types(self):
@@ -1575,6 +1580,7 @@ class Statement(pg_api.Statement):
 			# Not typed output.
 			self._output = None
 			self._output_attmap = None
+			self._output_names = None
 			self._output_io = None
 			self._output_formats = None
 			self._row_constructor = None
@@ -1583,6 +1589,8 @@ class Statement(pg_api.Statement):
 			self._output_attmap = dict(
 				typio.attribute_map(tupdesc)
 			)
+			# client_encoding may be changed later on
+			self._output_names = list(typio.decodes(tupdesc.keys()))
 			self._row_constructor = self.database.typio.RowTypeFactory(self._output_attmap)
 			# tuple output
 			self._output_io = typio.resolve_descriptor(tupdesc, 1)
-- 
2.43.0


From 73e135c7ce852a306d5c1e98dde250d5462edcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:13 +0000
Subject: [PATCH 130/153] fix: deleting settings.path raised AttributeError

---
 postgresql/driver/pq3.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6841170..d9dbf14 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2112,10 +2112,8 @@ class Settings(pg_api.Settings):
 				'"%s"' %(x.replace('"', '""'),) for x in value
 			])
 		def fdel(self):
-			if self.database.connector.path is not None:
-				self.path = self.database.connector.path
-			else:
-				self.database.execute("RESET search_path")
+			# The one that the connection was started with.
+			self.database.execute("RESET search_path")
 		doc = 'structured search_path interface'
 		return locals()
 	path = property(**path())
-- 
2.43.0


From 5f159deb41ab40310339e93b05ef753d3f19b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:13 +0000
Subject: [PATCH 131/153] fix: Connection.reset left temporary tables and
 non-conforming strings

---
 postgresql/driver/pq3.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index d9dbf14..951335e 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2541,6 +2541,9 @@ class Connection(pg_api.Connection):
 		objects.
 		"""
 		self.execute("ABORT; RESET ALL;")
+		if self.version_info[:2] >= (8,3):
+			self.execute("DISCARD TEMP;")
+		self._conform_strings()
 
 	def __enter__(self):
 		self.connect()
@@ -2729,10 +2732,15 @@ class Connection(pg_api.Connection):
 					# As for any other asynchronous message.
 					sys.excepthook(*sys.exc_info())
 
+		self._conform_strings()
+
+		super().connect()
+
+	def _conform_strings(self):
 		##
 		# Set standard_conforming_strings
 		scstr = self.settings.get('standard_conforming_strings')
-		if scstr is None or vi == (8,1):
+		if scstr is None or self.version_info[:2] == (8,1):
 			# There used to be a warning emitted here.
 			# It was noisy, and had little added value
 			# over a nice WARNING at the top of the driver documentation.
@@ -2740,8 +2748,6 @@ class Connection(pg_api.Connection):
 		elif scstr.lower() not in ('on','true','yes'):
 			self.settings['standard_conforming_strings'] = 'on'
 
-		super().connect()
-
 	def _pq_push(self, xact, controller = None):
 		x = self.pq.xact
 		if x is not None:
-- 
2.43.0


From 22e1161ea901f01e164ba74e674868a20806c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:13 +0000
Subject: [PATCH 132/153] fix: clones of statements and cursors made from
 identifiers failed

---
 postgresql/driver/pq3.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 951335e..736d00a 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1103,7 +1103,11 @@ class Cursor(Output, pg_api.Cursor):
 		yield ('type', 'Cursor')
 
 	def clone(self):
-		return type(self)(self.statement, self.parameters, self.database, None)
+		return type(self)(
+			self.statement, self.parameters, self.database,
+			# Nothing to declare it from; refer to the same cursor.
+			self.cursor_id if self.statement is None else None
+		)
 
 	def __init__(self, statement, parameters, database, cursor_id):
 		self.database = database or statement.database
@@ -1374,7 +1378,12 @@ class Statement(pg_api.Statement):
 			yield ('sql_column_types', ct)
 
 	def clone(self):
-		ps = self.__class__(self.database, None, self.string)
+		ps = self.__class__(
+			self.database,
+			# Without a string, refer to the same statement.
+			self.statement_id if self.string is None else None,
+			self.string
+		)
 		ps._init()
 		ps._fini()
 		return ps
-- 
2.43.0


From f0d29fab01fcdf475714e69541a4e3ac4a11b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:13 +0000
Subject: [PATCH 133/153] fix: identifiers of statements and cursors kept the
 bytes of an earlier client_encoding

---
 postgresql/driver/pq3.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 736d00a..7c5f0c7 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -674,13 +674,17 @@ class Output(object):
 			self._output_attmap = stmt._output_attmap
 			self._output_names = stmt._output_names
 
-		self._pq_cursor_id = self.database.typio.encode(cursor_id)
 		# If the cursor's id was generated, it should be garbage collected.
 		if cursor_id == ID(self):
 			self.database.pq.register_cursor(self, self._pq_cursor_id)
 		self._quoted_cursor_id = '"' + cursor_id.replace('"', '""') + '"'
 		self._init()
 
+	@property
+	def _pq_cursor_id(self):
+		# client_encoding may be changed in the meantime
+		return self.database.typio.encode(self.cursor_id)
+
 	def __iter__(self):
 		return self
 
@@ -1388,6 +1392,11 @@ class Statement(pg_api.Statement):
 		ps._fini()
 		return ps
 
+	@property
+	def _pq_statement_id(self):
+		# client_encoding may be changed in the meantime
+		return self.database.typio.encode(self.statement_id)
+
 	def __init__(self,
 		database, statement_id, string,
 		wref = weakref.ref
@@ -1397,7 +1406,6 @@ class Statement(pg_api.Statement):
 		self.statement_id = statement_id or ID(self)
 		self._xact = None
 		self.closed = None
-		self._pq_statement_id = database.typio._encode(self.statement_id)[0]
 
 		if not statement_id:
 			# Register statement on a connection to close it automatically on db end
-- 
2.43.0


From 84958a072d5ce2ab8b19a86bf03cf840e615a984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:14 +0000
Subject: [PATCH 134/153] fix: NaN and infinite numerics could not be
 transferred

---
 postgresql/types/io/stdlib_decimal.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/io/stdlib_decimal.py b/postgresql/types/io/stdlib_decimal.py
index efc0050..ec2537a 100644
--- a/postgresql/types/io/stdlib_decimal.py
+++ b/postgresql/types/io/stdlib_decimal.py
@@ -29,6 +29,13 @@ oid_to_type = {
 #  3. exponent, digits that fall to the right of the decimal point
 numeric_negative = 16384
 
+# Signs of the values that have no digits.
+numeric_specials = {
+	-16384 : Decimal('NaN'),
+	-12288 : Decimal('Infinity'), # Servers as of 14
+	-4096 : Decimal('-Infinity'),
+}
+
 def numeric_pack(x,
 	numeric_digit_length : "number of decimal digits in a numeric digit" = 4,
 	get0 = itemgetter(0),
@@ -38,9 +45,11 @@ def numeric_pack(x,
 ):
 	if not isinstance(x, Decimal):
 		x = Decimal(x)
+	if not x.is_finite():
+		if x.is_nan():
+			return pack(((0, 0, -16384, 0), ()))
+		return pack(((0, 0, -12288 if x > 0 else -4096, 0), ()))
 	x = x.as_tuple()
-	if x.exponent == 'F':
-		raise ValueError("numeric does not support infinite values")
 
 	# normalize trailing zeros (truncate em')
 	# this is important in order to get the weight and padding correct
@@ -148,6 +157,8 @@ numeric_signs = {
 
 def numeric_unpack(x, unpack = lib.numeric_unpack):
 	header, digits = unpack(x)
+	if header[2] in numeric_specials:
+		return numeric_specials[header[2]]
 	# The number of digits may exceed the range of the signed field.
 	npad = (header[3] - ((len(digits) - (header[1] + 1)) * 4))
 	return Decimal((
-- 
2.43.0


From 3594ad4478299b7c9148fb8b2e9cd95a19319247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:19 +0000
Subject: [PATCH 135/153] fix: Connection.backend_start was text instead of a
 datetime

---
 postgresql/lib/libsys.sql | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index bcf16ea..341d058 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -198,13 +198,13 @@ FROM
 -- 8.2 and greater
 SELECT
  pg_catalog.version()::text AS version,
- backend_start::text,
+ backend_start::pg_catalog.timestamptz,
  client_addr::text,
  client_port::int
 FROM pg_catalog.pg_stat_activity WHERE procpid = pg_catalog.pg_backend_pid()
 UNION ALL SELECT
  pg_catalog.version()::text AS version,
- NULL::text AS backend_start,
+ NULL::pg_catalog.timestamptz AS backend_start,
  NULL::text AS client_addr,
  NULL::int AS client_port
 LIMIT 1;
@@ -213,13 +213,13 @@ LIMIT 1;
 -- 9.2 and greater
 SELECT
  pg_catalog.version()::text AS version,
- backend_start::text,
+ backend_start::pg_catalog.timestamptz,
  client_addr::text,
  client_port::int
 FROM pg_catalog.pg_stat_activity WHERE pid = pg_catalog.pg_backend_pid()
 UNION ALL SELECT
  pg_catalog.version()::text AS version,
- NULL::text AS backend_start,
+ NULL::pg_catalog.timestamptz AS backend_start,
  NULL::text AS client_addr,
  NULL::int AS client_port
 LIMIT 1;
@@ -229,7 +229,7 @@ LIMIT 1;
 -- immediately present.
 SELECT
  pg_catalog.version()::text AS version,
- NULL::text AS backend_start,
+ NULL::pg_catalog.timestamptz AS backend_start,
  client_addr::text,
  client_port::int
 FROM pg_catalog.pg_stat_activity WHERE procpid = pg_catalog.pg_backend_pid();
@@ -238,7 +238,7 @@ FROM pg_catalog.pg_stat_activity WHERE procpid = pg_catalog.pg_backend_pid();
 -- In 8.0, there's nothing there.
 SELECT
  pg_catalog.version()::text AS version,
- NULL::text AS backend_start,
+ NULL::pg_catalog.timestamptz AS backend_start,
  NULL::text AS client_addr,
  NULL::int AS client_port;
 
-- 
2.43.0


From d15ab461e312295e1adbf4c435fbb0603f882eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:19 +0000
Subject: [PATCH 136/153] fix: types on the search_path named like built-ins
 broke the driver's own queries

---
 postgresql/lib/libsys.sql | 92 +++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 46 deletions(-)

diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index 341d058..fefc892 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -12,8 +12,8 @@ SELECT
  bt.typelem,
  bt.typrelid,
  ae.oid AS ae_typid,
- ae.typreceive::oid != 0 AS ae_hasbin_input,
- ae.typsend::oid != 0 AS ae_hasbin_output,
+ ae.typreceive::pg_catalog.oid != 0 AS ae_hasbin_input,
+ ae.typsend::pg_catalog.oid != 0 AS ae_hasbin_output,
  -- Whether the binary form is the text.
  EXISTS (
   SELECT 1 FROM pg_catalog.pg_proc p
@@ -37,8 +37,8 @@ WHERE bt.oid = $1
 [lookup_composite]
 -- Get the type Oid and name of the attributes in `attnum` order.
 SELECT
- CAST(atttypid AS oid) AS atttypid,
- CAST(attname AS text) AS attname,
+ CAST(atttypid AS pg_catalog.oid) AS atttypid,
+ CAST(attname AS pg_catalog.text) AS attname,
  tt.typtype = 'd'      AS is_domain
 FROM
  pg_catalog.pg_type t LEFT JOIN pg_catalog.pg_attribute a
@@ -91,20 +91,20 @@ SELECT
  pg_proc.oid,
  pg_proc.*,
  -- Qualified, as the statement must keep its meaning when search_path changes.
- (SELECT quote_ident(ns.nspname) FROM pg_catalog.pg_namespace ns
-  WHERE ns.oid = pg_proc.pronamespace) || '.' || quote_ident(pg_proc.proname) AS _proid,
+ (SELECT pg_catalog.quote_ident(ns.nspname) FROM pg_catalog.pg_namespace ns
+  WHERE ns.oid = pg_proc.pronamespace) || '.' || pg_catalog.quote_ident(pg_proc.proname) AS _proid,
  ARRAY(
-  SELECT quote_ident(ns.nspname) || '.' || quote_ident(argt.typname)
+  SELECT pg_catalog.quote_ident(ns.nspname) || '.' || pg_catalog.quote_ident(argt.typname)
   FROM
    pg_catalog.generate_series(0, pg_proc.pronargs - 1) AS g(i)
    JOIN pg_catalog.pg_type argt ON (argt.oid = pg_proc.proargtypes[g.i])
    JOIN pg_catalog.pg_namespace ns ON (ns.oid = argt.typnamespace)
   ORDER BY g.i
  ) AS _argtypes,
- pg_proc.oid::regprocedure as procedure_id,
- COALESCE(string_to_array(trim(replace(textin(oidvectorout(proargtypes)), ',', ' '), '{}'), ' ')::oid[], '{}'::oid[])
+ pg_proc.oid::pg_catalog.regprocedure as procedure_id,
+ COALESCE(pg_catalog.string_to_array(trim(pg_catalog.replace(pg_catalog.textin(pg_catalog.oidvectorout(proargtypes)), ',', ' '), '{}'), ' ')::pg_catalog.oid[], '{}'::pg_catalog.oid[])
   AS proargtypes,
- (pg_type.oid = 'pg_catalog.record'::regtype or pg_type.typtype = 'c' or (
+ (pg_type.oid = 'pg_catalog.record'::pg_catalog.regtype or pg_type.typtype = 'c' or (
   -- A domain of a composite is as well.
   pg_type.typtype = 'd' AND EXISTS (
    WITH RECURSIVE base(oid) AS (
@@ -133,32 +133,32 @@ FROM
 SELECT
 	COALESCE(ARRAY(
 		SELECT
-			gid::text
+			gid::pg_catalog.text
 		FROM
 			pg_catalog.pg_prepared_xacts
 		WHERE
 			database = current_database()
 			AND (
-				owner = $1::text
+				owner = $1::pg_catalog.text
 				OR (
-					(SELECT rolsuper FROM pg_catalog.pg_roles WHERE rolname = $1::text)
+					(SELECT rolsuper FROM pg_catalog.pg_roles WHERE rolname = $1::pg_catalog.text)
 				)
 			)
 		ORDER BY prepared ASC
-	), ('{}'::text[]))
+	), ('{}'::pg_catalog.text[]))
 
 [regtypes::column]
-SELECT pg_catalog.regtypein(pg_catalog.textout(($1::text[])[i]))::oid AS typoid
-FROM pg_catalog.generate_series(1, array_upper($1::text[], 1)) AS g(i)
+SELECT pg_catalog.regtypein(pg_catalog.textout(($1::pg_catalog.text[])[i]))::pg_catalog.oid AS typoid
+FROM pg_catalog.generate_series(1, pg_catalog.array_upper($1::pg_catalog.text[], 1)) AS g(i)
 
 [xact_is_prepared::first]
-SELECT TRUE FROM pg_catalog.pg_prepared_xacts WHERE gid::text = $1
+SELECT TRUE FROM pg_catalog.pg_prepared_xacts WHERE gid::pg_catalog.text = $1
 
 [get_statement_source::first]
 SELECT statement FROM pg_catalog.pg_prepared_statements WHERE name = $1
 
 [setting_get]
-SELECT setting FROM pg_catalog.pg_settings WHERE lower(name) = lower($1)
+SELECT setting FROM pg_catalog.pg_settings WHERE pg_catalog.lower(name) = pg_catalog.lower($1)
 
 [setting_get_unlisted::first]
 -- 9.6 and greater
@@ -168,15 +168,15 @@ SELECT pg_catalog.current_setting($1, true)
 SELECT pg_catalog.set_config($1, $2, false)
 
 [setting_len::first]
-SELECT count(*) FROM pg_catalog.pg_settings
+SELECT pg_catalog.count(*) FROM pg_catalog.pg_settings
 
 [setting_item]
-SELECT name, setting FROM pg_catalog.pg_settings WHERE lower(name) = lower($1)
+SELECT name, setting FROM pg_catalog.pg_settings WHERE pg_catalog.lower(name) = pg_catalog.lower($1)
 
 [setting_mget]
 SELECT name, setting FROM pg_catalog.pg_settings
-WHERE lower(name) IN (SELECT lower(($1::text[])[i])
-	FROM pg_catalog.generate_series(1, array_upper($1::text[], 1)) g(i))
+WHERE pg_catalog.lower(name) IN (SELECT pg_catalog.lower(($1::pg_catalog.text[])[i])
+	FROM pg_catalog.generate_series(1, pg_catalog.array_upper($1::pg_catalog.text[], 1)) g(i))
 
 [setting_keys]
 SELECT name FROM pg_catalog.pg_settings ORDER BY name
@@ -189,38 +189,38 @@ SELECT name, setting FROM pg_catalog.pg_settings ORDER BY name
 
 [setting_update]
 SELECT
-	($1::text[][])[i][1] AS key,
-	pg_catalog.set_config(($1::text[][])[i][1], $1[i][2], false) AS value
+	($1::pg_catalog.text[][])[i][1] AS key,
+	pg_catalog.set_config(($1::pg_catalog.text[][])[i][1], $1[i][2], false) AS value
 FROM
-	pg_catalog.generate_series(1, array_upper(($1::text[][]), 1)) g(i)
+	pg_catalog.generate_series(1, pg_catalog.array_upper(($1::pg_catalog.text[][]), 1)) g(i)
 
 [startup_data:transient:first]
 -- 8.2 and greater
 SELECT
- pg_catalog.version()::text AS version,
+ pg_catalog.version()::pg_catalog.text AS version,
  backend_start::pg_catalog.timestamptz,
- client_addr::text,
+ client_addr::pg_catalog.text,
  client_port::int
 FROM pg_catalog.pg_stat_activity WHERE procpid = pg_catalog.pg_backend_pid()
 UNION ALL SELECT
- pg_catalog.version()::text AS version,
+ pg_catalog.version()::pg_catalog.text AS version,
  NULL::pg_catalog.timestamptz AS backend_start,
- NULL::text AS client_addr,
+ NULL::pg_catalog.text AS client_addr,
  NULL::int AS client_port
 LIMIT 1;
 
 [startup_data_92:transient:first]
 -- 9.2 and greater
 SELECT
- pg_catalog.version()::text AS version,
+ pg_catalog.version()::pg_catalog.text AS version,
  backend_start::pg_catalog.timestamptz,
- client_addr::text,
+ client_addr::pg_catalog.text,
  client_port::int
 FROM pg_catalog.pg_stat_activity WHERE pid = pg_catalog.pg_backend_pid()
 UNION ALL SELECT
- pg_catalog.version()::text AS version,
+ pg_catalog.version()::pg_catalog.text AS version,
  NULL::pg_catalog.timestamptz AS backend_start,
- NULL::text AS client_addr,
+ NULL::pg_catalog.text AS client_addr,
  NULL::int AS client_port
 LIMIT 1;
 
@@ -228,18 +228,18 @@ LIMIT 1;
 -- 8.1 only, but is unused as often the backend's activity row is not
 -- immediately present.
 SELECT
- pg_catalog.version()::text AS version,
+ pg_catalog.version()::pg_catalog.text AS version,
  NULL::pg_catalog.timestamptz AS backend_start,
- client_addr::text,
+ client_addr::pg_catalog.text,
  client_port::int
 FROM pg_catalog.pg_stat_activity WHERE procpid = pg_catalog.pg_backend_pid();
 
 [startup_data_only_version:transient:first]
 -- In 8.0, there's nothing there.
 SELECT
- pg_catalog.version()::text AS version,
+ pg_catalog.version()::pg_catalog.text AS version,
  NULL::pg_catalog.timestamptz AS backend_start,
- NULL::text AS client_addr,
+ NULL::pg_catalog.text AS client_addr,
  NULL::int AS client_port;
 
 [terminate_backends:transient:column]
@@ -285,7 +285,7 @@ SELECT pg_catalog.pg_database_size(current_database())::bigint
 SELECT SUM(pg_catalog.pg_database_size(datname))::bigint FROM pg_catalog.pg_database
 
 [sizeof_relation::first]
-SELECT pg_catalog.pg_relation_size($1::text)::bigint
+SELECT pg_catalog.pg_relation_size($1::pg_catalog.text)::bigint
 
 [pg_reload_conf:transient:]
 SELECT pg_reload_conf()
@@ -304,9 +304,9 @@ WHERE listenerpid = pg_catalog.pg_backend_pid();
 [notify::first]
 -- 9.0 and greater
 SELECT
-	COUNT(pg_catalog.pg_notify(($1::text[])[i][1], $1[i][2]) IS NULL)
+	COUNT(pg_catalog.pg_notify(($1::pg_catalog.text[])[i][1], $1[i][2]) IS NULL)
 FROM
-	pg_catalog.generate_series(1, array_upper($1, 1)) AS g(i)
+	pg_catalog.generate_series(1, pg_catalog.array_upper($1, 1)) AS g(i)
 
 [release_advisory_shared]
 SELECT
@@ -317,7 +317,7 @@ SELECT
 		pg_catalog.pg_advisory_unlock_shared($2[i])
 	END AS released
 FROM
-	pg_catalog.generate_series(1, COALESCE(array_upper($2::int8[], 1), array_upper($1::int4[], 1))) AS g(i)
+	pg_catalog.generate_series(1, COALESCE(pg_catalog.array_upper($2::int8[], 1), pg_catalog.array_upper($1::int4[], 1))) AS g(i)
 
 [acquire_advisory_shared]
 SELECT COUNT((
@@ -329,7 +329,7 @@ SELECT COUNT((
 	END
 ) IS NULL) AS acquired
 FROM
-	pg_catalog.generate_series(1, COALESCE(array_upper($2::int8[], 1), array_upper($1::int4[], 1))) AS g(i)
+	pg_catalog.generate_series(1, COALESCE(pg_catalog.array_upper($2::int8[], 1), pg_catalog.array_upper($1::int4[], 1))) AS g(i)
 
 [try_advisory_shared]
 SELECT
@@ -340,7 +340,7 @@ SELECT
 		pg_catalog.pg_try_advisory_lock_shared($2[i])
 	END AS acquired
 FROM
-	pg_catalog.generate_series(1, COALESCE(array_upper($2::int8[], 1), array_upper($1::int4[], 1))) AS g(i)
+	pg_catalog.generate_series(1, COALESCE(pg_catalog.array_upper($2::int8[], 1), pg_catalog.array_upper($1::int4[], 1))) AS g(i)
 
 [release_advisory_exclusive]
 SELECT
@@ -351,7 +351,7 @@ SELECT
 		pg_catalog.pg_advisory_unlock($2[i])
 	END AS released
 FROM
-	pg_catalog.generate_series(1, COALESCE(array_upper($2::int8[], 1), array_upper($1::int4[], 1))) AS g(i)
+	pg_catalog.generate_series(1, COALESCE(pg_catalog.array_upper($2::int8[], 1), pg_catalog.array_upper($1::int4[], 1))) AS g(i)
 
 [acquire_advisory_exclusive]
 SELECT COUNT((
@@ -363,7 +363,7 @@ SELECT COUNT((
 	END
 ) IS NULL) AS acquired -- Guaranteed to be acquired once complete.
 FROM
-	pg_catalog.generate_series(1, COALESCE(array_upper($2::int8[], 1), array_upper($1::int4[], 1))) AS g(i)
+	pg_catalog.generate_series(1, COALESCE(pg_catalog.array_upper($2::int8[], 1), pg_catalog.array_upper($1::int4[], 1))) AS g(i)
 
 [try_advisory_exclusive]
 SELECT
@@ -374,4 +374,4 @@ SELECT
 		pg_catalog.pg_try_advisory_lock($2[i])
 	END AS acquired
 FROM
-	pg_catalog.generate_series(1, COALESCE(array_upper($2::int8[], 1), array_upper($1::int4[], 1))) AS g(i)
+	pg_catalog.generate_series(1, COALESCE(pg_catalog.array_upper($2::int8[], 1), pg_catalog.array_upper($1::int4[], 1))) AS g(i)
-- 
2.43.0


From 20d3e914b3cc0bbb834898f0320a071bb9e6b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 137/153] fix: a search_path in a sequence of settings was sent
 as its repr, and None as a name

---
 postgresql/driver/pq3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 7c5f0c7..105ad08 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2985,10 +2985,10 @@ class Connector(pg_api.Connector):
 		}
 		if self.settings:
 			s = dict(self.settings)
-			if 'search_path' in self.settings:
-				sp = s.get('search_path')
+			if 'search_path' in s:
+				sp = s['search_path']
 				if sp is None:
-					self.settings.pop('search_path')
+					del s['search_path']
 				elif not isinstance(sp, str):
 					s['search_path'] = ','.join(
 						pg_str.quote_ident(x) for x in sp
-- 
2.43.0


From 4e8efb89c4eae6da456e1260f6448ef771d0f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:55 +0000
Subject: [PATCH 138/153] fix: points could not be divided, and the quotient
 was wrong

---
 postgresql/types/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/geometry.py b/postgresql/types/geometry.py
index ba996e5..e82f995 100644
--- a/postgresql/types/geometry.py
+++ b/postgresql/types/geometry.py
@@ -39,12 +39,12 @@ class Point(tuple):
 		ry = (self[0] * wy) + (self[1] * wx)
 		return type(self)((rx, ry))
 
-	def __div__(self, ob):
+	def __truediv__(self, ob):
 		sx, sy = self
 		wx, wy = ob
 		div = (wx * wx) + (wy * wy)
 		rx = ((sx * wx) + (sy * wy)) / div
-		ry = ((wx * sy) + (wy * sx)) / div
+		ry = ((wx * sy) - (wy * sx)) / div
 		return type(self)((rx, ry))
 
 	def distance(self, ob, sqrt = math.sqrt):
-- 
2.43.0


From c82ebeb72b34c28e543f2e8698dcf29360810695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:55 +0000
Subject: [PATCH 139/153] fix: slopes of vertical segments raised and
 perpendicular segments were misjudged

---
 postgresql/types/geometry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/geometry.py b/postgresql/types/geometry.py
index e82f995..2ed7314 100644
--- a/postgresql/types/geometry.py
+++ b/postgresql/types/geometry.py
@@ -62,7 +62,9 @@ class Lseg(tuple):
 	vertical = property(fget = lambda s: s[0][0] == s[1][0])
 	horizontal = property(fget = lambda s: s[0][1] == s[1][1])
 	slope = property(
-		fget = lambda s: (s[1][1] - s[0][1]) / (s[1][0] - s[0][0])
+		fget = lambda s: math.inf if s.vertical else (
+			(s[1][1] - s[0][1]) / (s[1][0] - s[0][0])
+		)
 	)
 	center = property(
 		fget = lambda s: Point((
@@ -96,7 +98,9 @@ class Lseg(tuple):
 		return self.slope == type(self)(ob).slope
 
 	def perpendicular(self, ob):
-		return (self.slope / type(self)(ob).slope) == -1.0
+		ob = type(self)(ob)
+		(ax, ay), (bx, by) = self[1] - self[0], ob[1] - ob[0]
+		return (ax * bx) + (ay * by) == 0
 
 class Box(tuple):
 	"""
-- 
2.43.0


From 48d0e2558dbcc0e0d1262e7ccb9e6866226da75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:55 +0000
Subject: [PATCH 140/153] fix: repr of an Lseg did not evaluate to it

---
 postgresql/types/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/geometry.py b/postgresql/types/geometry.py
index 2ed7314..3d5b456 100644
--- a/postgresql/types/geometry.py
+++ b/postgresql/types/geometry.py
@@ -79,7 +79,7 @@ class Lseg(tuple):
 
 	def __repr__(self):
 		# Avoid the point representation
-		return '%s.%s(%s, %s)' %(
+		return '%s.%s((%s, %s))' %(
 			type(self).__module__,
 			type(self).__name__,
 			tuple.__repr__(self[0]),
-- 
2.43.0


From aec2d4c13dcbc360bfe0053b51e8bb3f45461176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:55 +0000
Subject: [PATCH 141/153] fix: the bytea codec took malformed octal sequences

---
 postgresql/encodings/bytea.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postgresql/encodings/bytea.py b/postgresql/encodings/bytea.py
index 3c406df..1642b15 100644
--- a/postgresql/encodings/bytea.py
+++ b/postgresql/encodings/bytea.py
@@ -41,14 +41,15 @@ def encode(data):
 				except StopIteration:
 					# requires three digits
 					raise ValueError("incomplete backslash sequence")
-				try:
-					x = int(os, base = 8)
-				except ValueError:
+				if os.strip('01234567') or os > '377':
 					raise ValueError("invalid bytea octal sequence '%s'" %(os,))
+				x = int(os, base = 8)
 			else:
 				raise ValueError("invalid backslash follow '%s'" %(y,))
 		else:
 			x = ord(x)
+			if x > 255:
+				raise ValueError("character %r does not represent a byte" %(chr(x),))
 		output.append(x)
 	return struct.pack(str(len(output)) + 'B', *output)
 
-- 
2.43.0


From 2a826331ec88a848bbea1825fa648d3d716eeaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 142/153] fix: COPY producers and receivers could not be
 described (no state, division by zero)

---
 postgresql/copyman.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 00b074e..b26a97d 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -256,6 +256,7 @@ class WireState(object):
 
 class Fitting(Element):
 	_e_label = 'FITTING'
+	state = 'created'
 
 	def _e_metas(self):
 		yield None, '[' + self.state + ']'
@@ -282,7 +283,8 @@ class Producer(Fitting, Iterator):
 			yield x
 		yield 'data', str(self.total_bytes / (1024**2)) + 'MB'
 		yield 'messages', self.total_messages
-		yield 'average size', (self.total_bytes / self.total_messages)
+		if self.total_messages:
+			yield 'average size', (self.total_bytes / self.total_messages)
 
 	def __init__(self):
 		self.total_messages = 0
-- 
2.43.0


From 603fe593e7053d140f08f9c52a2978bf83a0fdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 143/153] fix: stored procedures did not name their connection

---
 postgresql/driver/pq3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 105ad08..3c2873e 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2005,6 +2005,7 @@ class StoredProcedure(pg_api.StoredProcedure):
 				return self.statement(*input)[0][0]
 
 	def __init__(self, ident, database, description = ()):
+		self.database = database
 		# Lookup pg_proc on database.
 		if isinstance(ident, int):
 			proctup = database.sys.lookup_procedure_oid(int(ident))
-- 
2.43.0


From dbfa2854e5222f4148087fb07fdcc78854dc3421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 144/153] fix: BACKWORD in cursor descriptions

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 3c2873e..ce438b2 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1103,7 +1103,7 @@ class MultiXactOutsideBlock(MultiXactStream):
 class Cursor(Output, pg_api.Cursor):
 	_process_tuple = Output._process_tuple_chunk_Row
 	def _e_metas(self):
-		yield ('direction', 'FORWARD' if self.direction else 'BACKWORD')
+		yield ('direction', 'FORWARD' if self.direction else 'BACKWARD')
 		yield ('type', 'Cursor')
 
 	def clone(self):
-- 
2.43.0


From bc2d7b0d129565913c5b5cbdacd4cb998ed41107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 145/153] fix: floating-point times lost a microsecond to
 truncation

---
 postgresql/types/io/lib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index 45198ea..4289a7c 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -77,7 +77,9 @@ date_pack, date_unpack = long_pack, long_unpack
 def mktimetuple(ts, floor = floor):
 	'make a pair of (seconds, microseconds) out of the given double'
 	seconds = floor(ts)
-	return (int(seconds), int(1000000 * (ts - seconds)))
+	# Truncating would often be one microsecond short.
+	carry, microseconds = divmod(round(1000000 * (ts - seconds)), 1000000)
+	return (int(seconds) + carry, microseconds)
 
 def mktimetuple64(ts, divmod = divmod):
 	'make a pair of (seconds, microseconds) out of the given long'
-- 
2.43.0


From 1047e8f178f81ef2b63195bfc0257ee8165d999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 146/153] fix: a protocol trace repeated messages left of an
 earlier read

---
 postgresql/protocol/client3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 6dd2878..164594e 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -436,8 +436,10 @@ class Connection(object):
 		"""
 		`message_reader` used when tracing.
 		"""
+		# What is left of an earlier read has already been traced.
+		remaining = bool(self.read)
 		r = self.standard_read_messages()
-		for msg in self.read:
+		for msg in () if remaining else self.read:
 			self._tracer('↓ %r(%d): %r%s' %(
 				msg[0], len(msg[1]), msg[1], os.linesep)
 			)
-- 
2.43.0


From fad7c978aaef05b1eec05eb7987b648e6091f3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 147/153] fix: protocol connections could not be shown

---
 postgresql/protocol/client3.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 164594e..5bd90d9 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -7,6 +7,7 @@ Protocol version 3.0 client and tools.
 import os
 import selectors
 import weakref
+from traceback import format_exception_only
 from socket import timeout as socket_timeout
 from .buffer import pq_message_stream
 from . import element3 as element
@@ -604,15 +605,19 @@ class Connection(object):
 		self.garbage_statements.append(pq_statement_id)
 
 	def __str__(self):
-		if hasattr(self, 'ssl_negotiation'):
-			if self.ssl_negotiation is True:
-				ssl = 'SSL'
-			elif self.ssl_negotiation is False:
-				ssl = 'NOSSL after SSL'
+		negotiation = getattr(self, 'ssl_negotiation', None)
+		if negotiation is True:
+			ssl = 'SSL'
+		elif negotiation is False:
+			ssl = 'NOSSL after SSL'
 		else:
 			ssl = 'NOSSL'
 
-		excstr = ''.join(self.exception_string(type(self.exception), self.exception))
+		exception = getattr(self.xact, 'exception', None)
+		if exception is None:
+			excstr = ''
+		else:
+			excstr = ''.join(format_exception_only(type(exception), exception))
 		return str(self.socket_factory) \
 			+ ' -> (' + ssl + ')' \
 			+ os.linesep + excstr.strip()
-- 
2.43.0


From a525e5d846cb3feb19b307f6963f1d3dceef48f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:09 +0000
Subject: [PATCH 148/153] fix: rows of cursors made by cursor_from_id answer to
 their column names

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index ce438b2..c0a3df4 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1159,7 +1159,7 @@ class Cursor(Output, pg_api.Cursor):
 				if m.type == tupledesc:
 					typio = self.database.typio
 					self._output = m
-					self._output_attmap = typio.attribute_map(self._output)
+					self._output_attmap = dict(typio.attribute_map(self._output))
 					# client_encoding may be changed later on
 					self._output_names = list(typio.decodes(self._output.keys()))
 					self._row_constructor = typio.RowTypeFactory(self._output_attmap)
-- 
2.43.0


From 3643020efdc3dcf69e0f117a9ba54a96131dcdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:11 +0000
Subject: [PATCH 149/153] fix: statements read by rows(), chunks() or column()
 outside a block were executed twice

In order to hold a cursor with SCROLL, the server rewinds it when the
transaction ends, and executes the statement again.
---
 postgresql/driver/pq3.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index c0a3df4..8f54f99 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -89,6 +89,8 @@ def declare_statement_string(
 		s += ' INSENSITIVE'
 	if scroll is True:
 		s += ' SCROLL'
+	else:
+		s += ' NO SCROLL'
 	s += ' CURSOR'
 	if hold is True:
 		s += ' WITH HOLD'
@@ -722,12 +724,13 @@ class Output(object):
 			element.Execute(b'', 0xFFFFFFFF),
 		)
 
-	def _pq_xp_declare(self):
+	def _pq_xp_declare(self, scroll = True):
 		return (
 			element.Parse(b'', self.database.typio.encode(
 					declare_statement_string(
 						str(self._quoted_cursor_id),
-						str(self.statement.string)
+						str(self.statement.string),
+						scroll = scroll
 					)
 				), ()
 			),
@@ -1085,7 +1088,10 @@ class MultiXactInsideBlock(MultiXactStream):
 # The cursor is streamed to the client on demand *outside* of
 # a single SQL transaction block. [DECLARE ... WITH HOLD]
 class MultiXactOutsideBlock(MultiXactStream):
-	_bind = MultiXactStream._pq_xp_declare
+	def _bind(self):
+		# It is only read forward. In order to hold a cursor with SCROLL, the
+		# server would rewind it, and execute the statement again.
+		return self._pq_xp_declare(scroll = False)
 
 	def _fetch(self):
 		##
-- 
2.43.0


From b3f03b333f7749f1802cec58f552785d025ef587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:11 +0000
Subject: [PATCH 150/153] fix: EUC_KR, SJIS and SHIFT_JIS_2004 were not encoded
 as the server decodes them

---
 postgresql/encodings/aliases.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postgresql/encodings/aliases.py b/postgresql/encodings/aliases.py
index 7f86830..e460bc8 100644
--- a/postgresql/encodings/aliases.py
+++ b/postgresql/encodings/aliases.py
@@ -20,9 +20,10 @@ postgres_to_python = {
 	'sql_ascii' : 'ascii',
 	'euc_jp' : 'eucjp',
 	'euc_cn' : 'euccn',
-	'euc_kr' : 'euckr',
-	'shift_jis_2004' : 'euc_jis_2004',
-	'sjis' : 'shift_jis',
+	# euckr also encodes Hangul without a code of its own, as sequences of Jamo.
+	'euc_kr' : 'cp949',
+	# The server's mapping is that of Windows; shift_jis encodes the yen sign as a backslash.
+	'sjis' : 'cp932',
 	'alt' : 'cp866', # IBM866
 	'abc' : 'cp1258',
 	'vscii' : 'cp1258',
-- 
2.43.0


From 8477d2301fcbe34f69aaa59ce52aa461f6e23853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:11 +0000
Subject: [PATCH 151/153] fix: a client encoding without a codec left the
 former one in use

The text was exchanged in the encoding of before, and the setting still
read as before. Only ASCII is known to be read the same.
---
 postgresql/driver/pq3.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 8f54f99..8d2aea2 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -177,7 +177,12 @@ class TypeIO(pg_api.TypeIO):
 		"""
 		self.encoding = value.lower().strip()
 		enc = get_python_name(self.encoding)
-		ci = lookup_codecs(enc or self.encoding)
+		try:
+			ci = lookup_codecs(enc or self.encoding)
+		except LookupError:
+			# Without the codec, only ASCII is known to be read the same.
+			self._encode, self._decode, *_ = lookup_codecs('ascii')
+			raise
 		self._encode, self._decode, *_ = ci
 
 	def encode(self, string_data):
@@ -2820,9 +2825,9 @@ class Connection(pg_api.Connection):
 		c = controller or getattr(self, '_controller', self)
 		typ = msg.type
 		if typ == showoption:
+			self.settings._notify(msg)
 			if msg.name == b'client_encoding':
 				self.typio.set_encoding(msg.value.decode('ascii'))
-			self.settings._notify(msg)
 		elif typ == notice:
 			m = self.typio.emit_message(msg, creator = c)
 		elif typ == notify:
-- 
2.43.0


From 3fd00bf266f39d26ff9a63c67752952066647769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:11 +0000
Subject: [PATCH 152/153] fix: a notice shown during the preparation of a
 statement broke the connection

The description of the statement completed the preparation that it was
part of.
---
 postgresql/driver/pq3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 8d2aea2..bd251f0 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1374,6 +1374,9 @@ class Statement(pg_api.Statement):
 				except:
 					import traceback
 					yield ('LINE', traceback.format_exc(chain=False))
+		if self.closed is None:
+			# The preparation is in progress; a message of it is being shown.
+			return
 		spt = self.sql_parameter_types
 		if spt is not None:
 			yield ('sql_parameter_types', spt)
-- 
2.43.0


From b873a1ba08755d6d1637b770b6d875a2df1dc917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:11 +0000
Subject: [PATCH 153/153] fix: composites altered in the session were delivered
 as other values

The attributes were unpacked as the types they had when the type was
first used.
---
 postgresql/driver/pq3.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index bd251f0..787f40c 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -148,6 +148,7 @@ class TypeIO(pg_api.TypeIO):
 			pg_types.REGCLASSOID : textio,
 		}
 		self.typinfo = {}
+		self._identified = set()
 		super().__init__()
 
 	def lookup_type_info(self, typid):
@@ -372,6 +373,15 @@ class TypeIO(pg_api.TypeIO):
 			(oid, io if io.__class__ is tuple else io(oid, self))
 			for oid, io in zip(oids, ios)
 		])
+		self._identified.update(oids)
+
+	def forget(self):
+		"""
+		Forget the types that were looked up, as they have been altered since.
+		"""
+		for typid in self.typinfo:
+			if typid not in self._identified:
+				self._cache.pop(typid, None)
 
 	def array_parts(self, array, ArrayType = pg_types.Array):
 		if array.__class__ is not ArrayType:
@@ -480,7 +490,12 @@ class TypeIO(pg_api.TypeIO):
 				process_tuple = process_tuple,
 				row_constructor = row_constructor
 			):
-			data = tuple([x[1] for x in unpack(data)])
+			data = tuple(unpack(data))
+			if [x[0] for x in data] != typids:
+				# The attributes would be taken for something else.
+				self.forget()
+				raise TypeError("the attributes of composite %s have been altered" %(composite_name,))
+			data = tuple([x[1] for x in data])
 			return row_constructor(process_tuple(funpack, data, raise_unpack_tuple_error))
 
 		sorted_atts = sorted(attmap.items(), key = get1)
-- 
2.43.0

