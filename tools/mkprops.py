"""Writes /verif/properties.jsonl (kept so that edits stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
	a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
	if observe: a['observe_at'] = observe
	if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
	a['hook_needed'] = hook
	P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p('C01', 'Message framing does not depend on how the byte stream is cut up',
	'Feeding any byte stream of well-formed backend messages to the message buffer in any sequence of writes, interleaved with any reads, yields exactly the messages of the stream, once each, in order, with their exact types and bodies; an incomplete message is never surfaced. The reported number of complete messages, the presence indicator, the unread byte content and truncation agree at every step with that stream. A message announcing an impossible length is refused with an error every time it is reached, and never delivered as data (a read of several messages may report it before delivering those ahead of it); the native and the pure-Python buffer agree on all of it.',
	['inputs', 'schedules'], 'all message streams (any types, sizes 0 to several hundred KiB, invalid lengths) x all splits into writes x all interleavings of write/read(n)/next/truncate',
	'The tests feed a handful of hand-cut streams; whether a header split at byte 3, a read limit in the middle of a batch or a chunk much larger than a message is handled is a question over all cuts and interleavings.',
	['postgresql/protocol/pbuffer.py', 'postgresql/protocol/buffer.py', 'postgresql/port/_optimized/buffer.c'],
	[('pq_message_stream (pure)', 'postgresql/protocol/pbuffer.py'), ('pq_message_stream (C)', 'postgresql/port/_optimized/buffer.c')],
	['read()/next_message()/len()/has_message()/getvalue() results'])

p('C02', 'Wire messages serialise to the protocol format and parse back unchanged',
	'Every frontend and backend protocol message that the client can build serialises to exactly the bytes the version 3 protocol prescribes for its contents, and parsing those bytes yields an equal message. A received message body whose declared counts, lengths, terminators or markers contradict its size is refused with an error instead of being turned into a message, and no body whatever makes parsing hang or the process die.',
	['inputs'], 'all message types x all field contents (empty, NULL, embedded separators, many fields, large values), and arbitrary malformed bodies',
	'The tests round-trip one or two samples per message type through the same code that produced them; conformance to the protocol for all field values needs an independent encoder/decoder.',
	['postgresql/protocol/element3.py', 'postgresql/protocol/version.py'],
	[('message classes serialize/parse', 'postgresql/protocol/element3.py')],
	['bytes produced and message objects parsed'])

p('C03', 'The native accelerator is observably identical to the pure-Python code',
	'For every operation that has both a native and a pure-Python implementation (integer and tuple packing, tuple message parsing, message concatenation, function composition, tuple and chunk transformation, message buffering, COPY wire state), the same inputs, of the types that the operation is documented to take, give the same result, or fail in both. Values and error contexts delivered to the user do not depend on whether the native module is available.',
	['inputs', 'configurations'], 'all argument values accepted or rejected by either implementation, including NULLs, empty and oversized values, wrong types and out-of-range integers; with and without the native module',
	'The tests compare a few fixed vectors; equivalence is a relation over all inputs and both configurations, and the suite never runs without the native module.',
	['postgresql/port/_optimized/structlib.c', 'postgresql/port/_optimized/functools.c', 'postgresql/port/_optimized/element3.c', 'postgresql/port/_optimized/wirestate.c', 'postgresql/python/structlib.py', 'postgresql/python/functools.py', 'postgresql/protocol/element3.py', 'postgresql/types/io/lib.py'],
	[('accelerated functions with pure fallbacks', 'postgresql/port/_optimized/*.c'), ('fallback selection', 'postgresql/port/optimized import sites')],
	['return values and exceptions of both implementations'])

p('C04', 'The native module is memory-safe on every input',
	'No sequence of calls into the native module, with any argument types, buffer contents, sizes or exceptions raised by callbacks, reads or writes outside its objects, uses freed memory, corrupts reference counts or crashes the interpreter. Bad input is reported as a Python exception.',
	['inputs', 'histories'], 'all call sequences with arbitrary bytes/objects, including malformed tuple messages, negative and huge lengths, non-ASCII message types, failing callbacks and re-entrant use',
	'A normal build does not notice an out-of-bounds read that happens to hit mapped memory; the tests pass well-formed values only.',
	['postgresql/port/_optimized/buffer.c', 'postgresql/port/_optimized/element3.c', 'postgresql/port/_optimized/structlib.c', 'postgresql/port/_optimized/functools.c', 'postgresql/port/_optimized/wirestate.c', 'postgresql/port/_optimized/module.c'],
	[('bounds checks and reference handling', 'postgresql/port/_optimized/*.c')], ['sanitizer reports, object reference counts'])

p('C05', 'Each server response reaches its own request, in order, under any interleaving',
	'In a sequence of pipelined requests, every request receives exactly the responses that the server sent for it, in order, however the responses are fragmented. After an error the requests up to the next synchronisation point report as failed or unanswered and the connection is back in step afterwards. Notices, notifications and parameter changes may arrive at any point of the stream; each is delivered to the asynchronous handler exactly once, in order, and never alters, swallows or reorders a response.',
	['inputs', 'schedules', 'fault_sequences'], 'all request sequences x all positions of errors and asynchronous messages x all fragmentations',
	'The tests replay fixed message lists; the guarantee is over every position at which asynchronous messages, errors and packet boundaries can fall.',
	['postgresql/protocol/xact3.py', 'postgresql/protocol/client3.py', 'postgresql/protocol/element3.py'],
	[('Instruction state machine', 'postgresql/protocol/xact3.py Instruction'), ('asynchronous hook', 'postgresql/protocol/xact3.py asyncs / client3.py')],
	['completed requests and their messages, asynchronous hook calls'])

p('C06', 'A broken or misbehaving server is always reported, never mistaken for success',
	'If the server closes the connection, resets it, or sends bytes that violate the protocol, at any point of a startup, query, bulk load, copy or transaction, in the clear or beneath TLS, the operation in progress raises a database error without hanging and never returns truncated data as a complete result. From then on the connection reports itself closed and every further operation raises an error promptly. Sockets are released and reconnecting with the same connector works.',
	['crash_points', 'fault_sequences'], 'a cut or corruption at every byte offset and message boundary of the server stream of representative sessions',
	'The tests kill a backend in one or two places; there are thousands of cut points per session.',
	['postgresql/protocol/client3.py', 'postgresql/protocol/xact3.py', 'postgresql/driver/pq3.py', 'postgresql/exceptions.py'],
	[('read_into / eof / fatal error handling', 'postgresql/protocol/client3.py'), ('fatal state', 'postgresql/protocol/xact3.py'), ('_raise_pq_error', 'postgresql/driver/pq3.py')],
	['exception raised, returned rows, closed flag, later operations'])

p('C07', 'The SSL mode is honoured against every server behaviour',
	'With sslmode require the client sends no startup packet, user name or password on an unencrypted channel and fails to connect unless TLS is established; with disable it never requests TLS. With prefer it asks for TLS first and uses plaintext only when the server declines or the TLS attempt fails, and with allow it tries plaintext first and TLS only when that fails; every attempt made is one the mode permits, in that order. Trailing or unexpected bytes in the negotiation never count as consent. The root and client certificates that were configured are those used, and over TLS every operation gives what it gives without.',
	['configurations', 'fault_sequences'], 'all sslmodes x server responses to the SSL request (S, N, error message, garbage, close) x authentication outcomes per channel',
	'The tests need a TLS server and only see cooperative ones; downgrade behaviour is about servers and middleboxes that misbehave.',
	['postgresql/driver/pq3.py', 'postgresql/protocol/client3.py', 'postgresql/clientparameters.py'],
	[('_establish / attempt list', 'postgresql/driver/pq3.py Connection._establish'), ('SSL negotiation', 'postgresql/protocol/client3.py connect')],
	['bytes received by a hostile server, exceptions'])

p('C08', 'Authentication answers exactly what the server asked for',
	'During startup the client sends the configured user, database and settings unchanged, and answers a password request with exactly the response that method prescribes for the configured credentials; it sends the password or its digest only when asked. An authentication method it does not support, or a rejected password, is reported as an error and never as a usable connection. Values that the protocol cannot carry, containing NUL, are refused. Connection parameters announced by the server during startup are all visible on the connection.',
	['inputs', 'configurations', 'fault_sequences'], 'all credentials (including non-ASCII, empty, long) x auth methods (ok, cleartext, crypt, md5 with any salt, unsupported ones, malformed requests) x order of parameter, key, notice and error messages',
	'Tests cover the three methods against one cooperative server with one password.',
	['postgresql/protocol/xact3.py', 'postgresql/driver/pq3.py', 'postgresql/resolved/crypt.py'],
	[('Negotiation', 'postgresql/protocol/xact3.py Negotiation'), ('startup parameters', 'postgresql/driver/pq3.py Connector')],
	['bytes received by the server'])

p('C09', 'Interrupting or failing an operation leaves the connection usable and in step',
	'A query cancelled by interrupt or by the server, at any point, surfaces as an error or completes, and the next operations on that connection get their own results. An exception raised on the client side while a request is being produced or a result consumed (signal, failing row source, abandoned iteration) never desynchronises the connection, or, when it struck inside a socket operation, closes it and says so: subsequent statements on an open connection return correct results and never data left over from the earlier one.',
	['schedules', 'fault_sequences'], 'all points at which a cancel, client-side exception or abandonment can strike x all kinds of operation',
	'The tests interrupt one sleep call; the points between messages are not reachable without injected delays and faults.',
	['postgresql/protocol/client3.py', 'postgresql/driver/pq3.py'],
	[('interrupt / cancel connection', 'postgresql/protocol/client3.py'), ('resynchronisation', 'postgresql/driver/pq3.py Connection._pq_complete / synchronize')],
	['results of later operations on the same connection'])

p('C10', 'All ways of executing a statement return the same, complete result',
	'For any query and parameters, calling the statement, iterating its rows, its chunks, its first-column iterator, declaring a cursor and taking the first row all deliver exactly the rows the server produces, in order, without loss or duplication, inside and outside a transaction, for every result size and fetch granularity, with several results being read alternately. Row counts and command tags reported for data-modifying statements equal what the server did; column names and order are the server\'s. Each execution runs the statement to its end exactly once, and reading part of a large result transfers a bounded part of it.',
	['inputs', 'programs', 'histories'], 'all result sizes around the fetch-size boundaries x access methods x transaction contexts x interleavings of several open results x NULLs, zero columns and wide rows',
	'Tests read small results with one method at a time; boundary sizes and interleavings of open portals are unbounded.',
	['postgresql/driver/pq3.py', 'postgresql/protocol/client3.py', 'postgresql/types/__init__.py'],
	[('Output/FetchAll/MultiXactInsideBlock/MultiXactOutsideBlock', 'postgresql/driver/pq3.py'), ('Statement access methods', 'postgresql/driver/pq3.py Statement')],
	['rows obtained by each method vs the generating expression'])

p('C11', 'Parameters reach the server unchanged',
	'Every value bound to a statement parameter is received by the server as that value: its textual form computed on the server equals the canonical text of the client value, for every supported parameter type, in every position, including NULL, empty and very large values and text in any script, under every client encoding of the server (a character is the same in both directions or refused). A value that cannot be converted or is out of range, or a wrong number of parameters, is refused with an error naming the parameter, and nothing is executed. Types without a native codec accept and deliver the value\'s textual form and are never sent as something else.',
	['inputs'], 'all parameter types x values (boundary, NULL, empty, huge, hostile text) x positions and arities',
	'Tests round-trip samples through both encoder and decoder, so a symmetric error cancels out; the server\'s own text form is the independent oracle over all values.',
	['postgresql/driver/pq3.py', 'postgresql/types/io/__init__.py', 'postgresql/types/io/lib.py', 'postgresql/types/io/builtins.py', 'postgresql/protocol/element3.py'],
	[('Statement parameter formats and packing', 'postgresql/driver/pq3.py Statement._fini/_pq_parameters'), ('type I/O resolution', 'postgresql/driver/pq3.py TypeIO')],
	['server-side ::text of each parameter'])

p('C12', 'Numbers, text, bytes and UUIDs survive both directions exactly',
	'Every integer, boolean, floating-point, numeric, text, character, bytea, oid and uuid value the server can produce is either delivered as the equal client value or reported as an error, never as a different value; numeric keeps its scale and floats their exact bit value. Every client value of these types that the server accepts is stored as that exact value.',
	['inputs'], 'all values of the types, dense at boundaries: integer limits, float subnormals/inf/nan/-0, numerics with any weight, scale, sign and up to thousands of digits, any Unicode text, any bytes',
	'The tests list fixed samples; numeric base-10000 digit grouping alone has far more weight/scale combinations than any table.',
	['postgresql/types/io/builtins.py', 'postgresql/types/io/stdlib_decimal.py', 'postgresql/types/io/lib.py', 'postgresql/types/io/stdlib_uuid.py', 'postgresql/encodings/bytea.py'],
	[('numeric_pack/numeric_unpack', 'postgresql/types/io/stdlib_decimal.py'), ('scalar codecs', 'postgresql/types/io/builtins.py')],
	['server text form vs client value, both directions'])

p('C13', 'Dates, times, timestamps and intervals survive both directions exactly',
	'Every date, time, time with zone, timestamp, timestamp with zone and interval value is delivered as the client value denoting the same point, offset or length, or reported as an error or (for a calendar-relative interval) warned about, never silently as another one; and every client value is stored as that same one, to the microsecond (date.max and datetime.max stand for infinity). The result does not depend on the session time zone or on the server\'s date style, or on whether the server transfers times as integers or as doubles (as far as these tell microseconds apart).',
	['inputs', 'configurations'], 'all values over the representable range x microseconds x offsets x session time zones',
	'The tests round-trip a few values client-server-client, which cannot see a symmetric sign, epoch or rounding error.',
	['postgresql/types/io/stdlib_datetime.py', 'postgresql/python/datetime.py', 'postgresql/types/io/lib.py'],
	[('datetime codecs', 'postgresql/types/io/stdlib_datetime.py')], ['server text form vs client value, both directions'])

p('C14', 'Arrays and composites keep their shape, elements and NULLs',
	'Arrays of any supported element type, any dimensions and any NULL positions, and composite values and records of any nesting, are delivered with exactly the server\'s shape, element values, attribute names and NULLs, and are stored with exactly the client\'s. A ragged or mistyped structure is refused with an error that identifies the position. An element or attribute type without a native codec is delivered in its textual form or refused, never as undecoded bytes. A composite altered in mid-session, by any session, is delivered and stored in its new shape, after at most an error telling of it; values are never taken for the attribute types of before. (New names of attributes of unchanged types are not noticed.)',
	['inputs', 'programs'], 'all element types x 0 to 6 dimensions x NULL placement x composite definitions (nested, with dropped attributes, domains, arrays of composites)',
	'Tests use a few literal arrays and one or two composite types; shapes and type nesting are combinatorial.',
	['postgresql/driver/pq3.py', 'postgresql/types/__init__.py', 'postgresql/types/io/lib.py', 'postgresql/types/io/__init__.py'],
	[('array_io_factory / record_io_factory', 'postgresql/driver/pq3.py TypeIO'), ('Array', 'postgresql/types/__init__.py')],
	['server text/array functions vs client structure'])

p('C15', 'Bit strings, geometry, network, hstore, json and xml values survive unchanged',
	'Bit strings, geometric values, network addresses with their masks, hstore maps, json/jsonb documents and xml content are delivered as client values that denote exactly the server\'s value, and client values are stored as exactly the value they denote. The client-side operations on the bit-string type (length, indexing, truth, equality, textual form) agree with the bits.',
	['inputs'], 'all bit lengths 0 to several hundred, all finite/infinite coordinates, all address/mask combinations, hstore maps with any keys, values, NULLs, any JSON text, xml documents and fragments',
	'One or two samples per type in the tests, round-tripped symmetrically.',
	['postgresql/types/bitwise.py', 'postgresql/types/geometry.py', 'postgresql/types/io/pg_bitwise.py', 'postgresql/types/io/pg_geometry.py', 'postgresql/types/io/pg_network.py', 'postgresql/types/io/contrib_hstore.py', 'postgresql/types/io/stdlib_jsonb.py', 'postgresql/types/io/stdlib_xml_etree.py', 'postgresql/types/io/lib.py'],
	[('codecs', 'postgresql/types/io/')], ['server text form vs client value, both directions'])

p('C16', 'Transaction blocks commit or roll back exactly their own work',
	'For any nesting of transaction and savepoint blocks, explicit or by context manager, with errors raised by the server, by the client or by nobody at any point, the data visible afterwards is exactly the work of the blocks that committed with all their enclosing blocks. A block left by an exception is rolled back and the exception propagates; a block whose transaction the server aborted never reports a successful commit. Invalid uses (starting a finished block again, committing a rolled back or never started block) are refused without affecting the data, and isolation level and access mode requested for a block take effect on the server.',
	['programs', 'histories', 'fault_sequences'], 'all programs of begin/commit/rollback/savepoint/insert/error/exception with nesting depth up to several, every isolation level and mode',
	'The tests exercise a dozen scripted sequences; the guarantee is over all programs.',
	['postgresql/driver/pq3.py'], [('Transaction', 'postgresql/driver/pq3.py Transaction')], ['rows seen from a second connection vs a model'])

p('C17', 'A scrollable cursor behaves like a position in the result list',
	'For every sequence of reads, relative and absolute seeks and moves, in both directions and with any counts, a scrollable cursor returns exactly the rows that a position in the full ordered result would give, including at and beyond both ends. Its reported distances and the rows of a backward-declared cursor follow the same model. A closed cursor refuses every use.',
	['histories'], 'all operation sequences over results of 0 to some hundred rows, both cursor directions, with and without hold',
	'One random script exists outside the suite; edge positions and direction switches are a state space, not a sample.',
	['postgresql/driver/pq3.py'], [('Cursor', 'postgresql/driver/pq3.py Cursor'), ('declare', 'postgresql/driver/pq3.py Statement.declare')], ['rows returned by each operation vs list model'])

p('C18', 'Bulk loading delivers every row exactly once or reports the failure',
	'Loading any sequence of rows or row chunks through a prepared statement executes it once per row, in order, with exactly those values, for every chunking and number of rows, for both inserts and COPY. If any row is refused by the client or the server the error is raised, it identifies the offending row, inside a transaction nothing survives the rollback, and the connection remains usable. Copying out yields exactly the bytes the server produced, whatever the chunking.',
	['inputs', 'fault_sequences'], 'all row counts around batch sizes x chunk layouts (empty chunks, generators) x position and kind of the failing row x COPY text/binary/CSV line splits',
	'The tests load a few fixed batches; off-by-one losses show only at particular sizes and failure positions.',
	['postgresql/driver/pq3.py', 'postgresql/protocol/xact3.py', 'postgresql/protocol/element3.py'],
	[('load_rows/load_chunks', 'postgresql/driver/pq3.py Statement'), ('COPY IN pushing', 'postgresql/protocol/xact3.py put_copydata/put_tupledata')], ['table contents vs the rows supplied'])

p('C19', 'The COPY manager delivers every message to every receiver exactly once',
	'Copying from one producer to any number of receivers delivers to each surviving receiver exactly the producer\'s message sequence, however the producer\'s data is fragmented. When a receiver or the producer fails, the fault is reported against that party, the transfer can be resumed without losing or repeating a message for the others, and the reported counts of messages and bytes equal what was transferred. Finishing without every party complete is always reported as a failure, and leaves no rows of an abandoned copy.',
	['inputs', 'schedules', 'fault_sequences'], 'all fragmentations of the COPY stream x numbers of receivers x kinds (statement, call, null, protocol/wire) x fault positions and recovery choices',
	'The tests split at a few offsets with two receivers; alignment errors depend on the exact split relative to message headers.',
	['postgresql/copyman.py', 'postgresql/port/_optimized/wirestate.c', 'postgresql/protocol/buffer.py'],
	[('CopyManager', 'postgresql/copyman.py'), ('WireState', 'postgresql/copyman.py / wirestate.c'), ('reconcile/realign', 'postgresql/copyman.py')], ['receiver contents, counters, faults'])

p('C20', 'Notifications are delivered exactly once, in order and unaltered',
	'Every notification the server sends to a listening connection is handed out exactly once, in the order the server sent it, with its channel, payload and sender unchanged, whether it arrives while idle or in the middle of other operations. No notification sent after unlistening completed appears for its channel, channel names of any spelling address the same channel in notify, listen and unlisten, and an iteration with a timeout reports idleness without consuming a notification.',
	['histories', 'schedules'], 'all interleavings of notify/listen/unlisten/queries over several connections and channels, with any payloads up to the server limit',
	'The tests send a few notifications sequentially on a quiet connection.',
	['postgresql/notifyman.py', 'postgresql/driver/pq3.py', 'postgresql/protocol/xact3.py', 'postgresql/api.py'],
	[('NotificationManager', 'postgresql/notifyman.py'), ('listen/unlisten/notify', 'postgresql/driver/pq3.py Connection')], ['notifications obtained vs those committed by senders'])

p('C21', 'Advisory locks are held exactly while acquired',
	'From a successful acquire until the matching number of releases, every identifier of the lock is held by the session on the server in the requested mode, and no conflicting lock can be acquired elsewhere; after the last release none of them is held. A non-blocking acquire that cannot get all identifiers returns false and leaves none of them held. Releasing a lock that is not acquired is refused, and a closed connection holds nothing.',
	['histories', 'schedules'], 'all sequences of blocking/non-blocking acquire and release, nested, shared and exclusive, over several sessions and identifier sets including repeated identifiers',
	'The tests look at one lock object at a time and never at the server\'s lock table between nested releases.',
	['postgresql/alock.py', 'postgresql/lib/libsys.sql'], [('ALock.acquire/release', 'postgresql/alock.py'), ('lock statements', 'postgresql/lib/libsys.sql')], ['pg_locks seen by another session'])

p('C22', 'Settings always reflect and control the session',
	'Reading a setting gives the value in force on the server, assigning one makes exactly that value take effect for any value text, and a settings context restores every setting it changed to its previous value on exit, normal or by exception. Subscribers learn of every reported change exactly once with the new value. Unknown settings and refused values raise an error and change nothing.',
	['histories', 'inputs'], 'all sequences of get/set/update/getset/context/transaction rollback and direct SET commands, over reported and unreported settings, with hostile value strings',
	'Tests change one or two settings in straight-line code; staleness appears only in histories mixing caching, rollback and server-side changes.',
	['postgresql/driver/pq3.py'], [('Settings cache', 'postgresql/driver/pq3.py Settings')], ['SHOW/current_setting vs mapping interface'])

p('C23', 'Every server error reaches the user as its own class, with its details',
	'An error or warning with a given SQLSTATE is raised or delivered as the exception class designated for that code, or failing that for its class, and is always distinguishable as error or warning; its message, severity, detail, hint, context and position fields arrive unchanged. Registered message hooks see every notice once, in order from the object that caused it outward through connection, connector and driver to the system hook, and suppressing one stops further delivery. Without a hook every notice is shown, whole, as it comes in, and showing it changes nothing in any operation.',
	['inputs', 'fault_sequences'], 'all five-character codes x all field combinations x message hook configurations',
	'The tests provoke a dozen errors; the mapping is over the whole code space and every field combination.',
	['postgresql/exceptions.py', 'postgresql/message.py', 'postgresql/driver/pq3.py', 'postgresql/python/element.py', 'postgresql/sys.py'],
	[('ErrorLookup/WarningLookup', 'postgresql/exceptions.py'), ('_convert_pq_message', 'postgresql/driver/pq3.py')], ['exception class and details'])

p('C24', 'Statements and cursors live exactly as long as their owner wants',
	'A prepared statement or cursor keeps working until it is closed or its last reference goes away, regardless of what other objects are created, closed or collected in any order; after that its server-side object is released by the next exchange, and in a long session the number of server-side objects stays bounded by the live ones. Using a closed object is refused. Objects created from an identifier owned by someone else are never closed on the server by mere collection.',
	['histories'], 'all interleavings of prepare/declare/execute/close/drop-reference/collect/transaction end',
	'Leaks and premature closes show only over long histories and particular collection orders.',
	['postgresql/driver/pq3.py', 'postgresql/protocol/client3.py'], [('garbage cursor/statement queues', 'postgresql/protocol/client3.py / postgresql/driver/pq3.py')], ['pg_prepared_statements, pg_cursors'])

p('C25', 'Stored procedures return what the server function returns',
	'A function reference calls exactly the function it names, whatever its schema, name spelling, overloading or argument types, with the given arguments, and returns its value: a scalar for a scalar function, a row for a composite result, an iterable of all rows for a set-returning one, and NULL as None. Functions whose signature cannot be called that way (polymorphic arguments, undescribed records, SQL procedures) are refused with an error. Wrong argument counts are refused, and an ambiguous or unknown function is reported as such.',
	['inputs', 'programs'], 'all function signatures (arity, overloads, defaults, OUT parameters, set-returning, composite, void, quoted names) x arguments',
	'Tests call a handful of functions.',
	['postgresql/driver/pq3.py', 'postgresql/lib/libsys.sql'], [('StoredProcedure', 'postgresql/driver/pq3.py StoredProcedure'), ('procedure lookup', 'postgresql/lib/libsys.sql')], ['returned values vs SELECT through an independent client'])

p('C26', 'Connection IRIs parse and serialise without loss',
	'Serialising connection parameters to an IRI and parsing it back gives the same parameters, as texts, for every non-empty user, password, host, port, database, path, settings and search_path contents, whatever reserved, quoting, percent or non-ASCII characters they hold. Percent escapes in an IRI are decoded in every component, reserved characters introduced by decoding never change the structure, and an obscured serialisation never contains the password.',
	['inputs'], 'all strings in every component, with any subset of components present',
	'The tests use a table of samples without reserved characters in most components.',
	['postgresql/iri.py', 'postgresql/resolved/riparse.py'], [('structure/construct', 'postgresql/iri.py'), ('split/unsplit, escapes', 'postgresql/resolved/riparse.py')], ['parse(serialize(x))'])

p('C27', 'Client parameters and passwords resolve by documented precedence',
	'Parameters given by defaults, environment, IRI, option parsing and explicit arguments combine by the documented precedence, key by key, with settings merged and nothing taken from a source of lower precedence than one that specifies it. A password is taken from the first matching line of the password file, with escapes and wildcards as documented, only when none was given, and a service file section supplies exactly its entries.',
	['inputs', 'configurations'], 'all subsets of sources x keys x values, all password files with escapes, wildcards, comments, malformed lines',
	'Tests check a few combinations in isolation.',
	['postgresql/clientparameters.py', 'postgresql/pgpassfile.py', 'postgresql/__init__.py'], [('collect/normalize/resolve', 'postgresql/clientparameters.py'), ('lookup_password', 'postgresql/pgpassfile.py')], ['resolved dictionaries vs an independent model'])

p('C28', 'SQL quoting and splitting are lossless and injection-proof',
	'Under standard_conforming_strings, any string quoted as a literal or identifier denotes exactly that string to the server and nothing else, whatever it contains. Splitting SQL text and joining it back reproduces it, statements are separated exactly at semicolons outside quotes of any kind (comments aside), and splitting a list of qualified identifiers returns exactly the identifiers that were joined.',
	['inputs'], 'all strings over the SQL-significant alphabet (quotes, dollar tags, backslashes, semicolons, dots, Unicode) and all nestings of quoting forms',
	'A finite table of strings cannot cover the interplay of quoting forms; the server itself is the oracle.',
	['postgresql/string.py', 'postgresql/driver/pq3.py'], [('quote_*/escape_*/split*/unsplit', 'postgresql/string.py')], ['server-side evaluation of quoted text'])

p('C29', 'Editing a configuration file changes exactly the requested settings',
	'After altering any PostgreSQL configuration file, the settings in force according to the server\'s own reading of the file are the requested ones and all others of that file are as before; comments, ordering and unrelated lines are preserved. Setting to nothing disables every occurrence, duplicates leave one effective value, values with quotes and special characters read back unchanged, and all mapping operations on a configuration file agree with each other and with its contents.',
	['inputs', 'histories'], 'all configuration files (comments, duplicates, quoting, missing final newline, empty) x all change sets and operation sequences',
	'The tests alter a fixed set of small files and re-read them with the same parser.',
	['postgresql/configfile.py', 'postgresql/cluster.py'], [('parse_line/alter_config/read_config', 'postgresql/configfile.py'), ('ConfigFile', 'postgresql/configfile.py')], ['independent GUC-file reader; server pg_file_settings'])

p('C30', 'A cluster object tells the truth about its server and controls only that one',
	'Through any history of initialise, start, stop, restart, kill, drop and external crashes, the cluster object\'s state predicates match the real state of the server process and data directory, waits return only once the awaited state is reached or fail with a timeout, and stopping or dropping affects only this cluster. Failures are reported with cluster errors and leave the object usable; initialising twice or starting a running cluster never damages data.',
	['histories', 'crash_points'], 'all sequences of lifecycle operations, with the server killed at arbitrary points and stale or missing pid files',
	'The tests run one start/stop sequence.',
	['postgresql/cluster.py', 'postgresql/installation.py', 'postgresql/temporal.py', 'postgresql/versionstring.py'], [('Cluster', 'postgresql/cluster.py'), ('Temporal', 'postgresql/temporal.py')], ['process table, data directory, connections'])

p('C31', 'The container types obey their sequence and mapping laws',
	'Array and row objects behave as immutable sequences of their contents: construction from nested data preserves shape and elements, indexing, slicing, iteration, equality, flattening and conversion agree with the nested list they stand for, and rows answer lookups by position and by name consistently with their attribute order, including transformation of individual fields.',
	['inputs', 'programs'], 'all shapes up to 6 dimensions, all index and slice expressions, all key sets and transformations',
	'The tests check some indices of some shapes.',
	['postgresql/types/__init__.py', 'postgresql/types/namedtuple.py', 'postgresql/python/functools.py', 'postgresql/python/itertools.py', 'postgresql/python/string.py'], [('Array, Row', 'postgresql/types/__init__.py')], ['results vs nested list/dict model'])

p('C32', 'The DB-API layer executes what was asked with the semantics of PEP 249',
	'Any statement with named or positional format parameters executes with exactly those values, percent signs and quoting in the statement text never being mistaken for parameters, and fetchone, fetchmany, fetchall and iteration in any mixture return each result row exactly once in order, with description, rowcount and exception classes as PEP 249 prescribes. Work is invisible until commit, discarded by rollback or close, and immediate in autocommit mode.',
	['inputs', 'histories'], 'all statement texts with parameters, percent signs and quoting x parameter containers x fetch sequences x commit/rollback/autocommit/close histories',
	'The standard compliance suite uses fixed statements and sequences.',
	['postgresql/driver/dbapi20.py'], [('Cursor/Connection/Portal', 'postgresql/driver/dbapi20.py'), ('parameter conversion', 'postgresql/driver/dbapi20.py convert_pyformat/percent')], ['second-connection view, fetched rows vs model'])

p('C33', 'Interface libraries bind every symbol to exactly its text',
	'Loading any library file yields exactly its declared symbols, with type, method, source text and preload flags as written, and binding a library to a database executes each symbol\'s own text by its declared method with the given parameters; reference symbols resolve to the statement they produce. The built-in system library answers in agreement with the server\'s catalogs, and a name that does not exist is refused.',
	['inputs', 'programs'], 'all library texts (sections, types, methods, parameters, comments, text with section-like lines) x all symbol kinds',
	'One fixed test library.',
	['postgresql/lib/__init__.py', 'postgresql/lib/libsys.sql', 'postgresql/sys.py'], [('ILF / Library / Binding', 'postgresql/lib/__init__.py')], ['symbols and results vs an independent parse'])

p('C34', 'Connections used by several threads stay isolated and correct',
	'Any number of threads, each with its own connection, sharing the library\'s modules, connectors and type caches, obtain exactly the results a single-threaded run would, under any schedule; no thread ever receives another\'s rows, parameters, errors or notices.',
	['schedules'], 'thread interleavings with forced switches, heterogeneous workloads, first-use races on lazily initialised caches',
	'The tests are single-threaded.',
	['postgresql/driver/pq3.py', 'postgresql/protocol/client3.py', 'postgresql/types/io/__init__.py', 'postgresql/message.py'], [('per-connection state', 'postgresql/driver/pq3.py'), ('module-level type I/O caches', 'postgresql/types/io/__init__.py')], ['per-thread results tagged with unique values'])

p('C35', 'Version strings and installation facts are parsed faithfully',
	'Splitting a server version string and joining it again gives back the same version, and the normalised form does not depend on whether trailing components were given. The information read from an installation equals what its own tools report, for any spelling of their output.',
	['inputs'], 'all version spellings (major.minor[.patch], devel/beta/rc states with and without level) and pg_config outputs',
	'A small table of strings.',
	['postgresql/versionstring.py', 'postgresql/installation.py'], [('split/unsplit/normalize', 'postgresql/versionstring.py'), ('pg_config_dictionary', 'postgresql/installation.py')], ['round trip vs model'])

p('C36', 'pg_python runs exactly the given program on the chosen database, like Python',
	'A program given to pg_python (script, module, command string, standard input or console lines) runs exactly once, after its context pieces in their order, as a __main__ with the arguments, file name, relative imports and exit status that Python itself would give it, and with built-ins (db, connector, xact, settings, prepare, proc, do, sqlexec) that act on the database, user and settings asked for. What it committed stays and what it left open is discarded; an uncaught error is shown, makes the status non-zero and is passed to the postmortem function; the trace shows what was exchanged. Console commands (\\E, \\i, \\e, \\x and so on) do what their help says. Afterwards built-ins, os.environ and sys.argv are what they were.',
	['programs', 'inputs'], 'all ways of naming the program and the connection x context pieces x arguments x exits (return, SystemExit with any status, errors, syntax errors, open transactions) x console histories',
	'Two command lines are tested.',
	['postgresql/bin/pg_python.py', 'postgresql/python/command.py'], [('command', 'postgresql/bin/pg_python.py'), ('Execution/ExtendedConsole', 'postgresql/python/command.py')], ['exit status, output and database contents vs a model of the program'])
p('C37', 'What statements and cursors say about themselves is what the server says',
	'A prepared statement, however it was made (prepare, with an identifier, from the identifier of one made in SQL, as a clone), and a cursor (declared, from an identifier, cloned) tells the truth: the number, names and order of its columns and parameters, the oid of each (the base type for columns of a domain), an SQL name that on the current search_path means exactly that type, and the Python type that its values then are; its string, identifier, parameters, direction and statement; whether it is open. Statements without rows have none of these. None of this changes with later changes of client_encoding or search_path, or after closing; clones are equal but independent.',
	['programs', 'inputs'], 'all column lists, names, types (every type in the catalog and user-defined ones, also those hiding built-in names) and parameter lists x ways of creation x client_encoding and search_path changes x closing',
	'Tests check the types of a few built-in types.',
	['postgresql/driver/pq3.py:645-2030', 'postgresql/types/__init__.py', 'postgresql/lib/libsys.sql'], [('Statement', 'postgresql/driver/pq3.py'), ('TypeIO', 'postgresql/driver/pq3.py')], ['metadata attributes vs the server\'s catalog and the construction of the statement'])
p('C38', 'A connection tells the truth about its session, and can be cloned and reset',
	'A connection made through any connector (IPv4, unix socket, host name with any number of addresses, of which the first that works is used) is a session of the user, database and settings asked for. What it says (backend_id, backend_start, version, version_info, type, client_address, client_port, security, fileno, closed, state) is what the server says of it. clone() gives a new session started like the first, whatever happened to the first. reset() ends the transaction, drops temporary objects and restores the settings the session started with, and leaves committed work and statements alone. settings.path is the search path as a list; do() runs exactly the given source. Connecting fails with the reasons for each address, and failed or closed connections refuse operations and leave no backend.',
	['programs', 'configurations'], 'all connectors x users, databases and startup settings x histories of settings, transactions and temporary objects x address lists x sources',
	'Tests make a clone and look at few attributes.',
	['postgresql/driver/pq3.py:2371-3240', 'postgresql/lib/libsys.sql'], [('Connection', 'postgresql/driver/pq3.py'), ('Connector/Host/IP4/IP6/Unix/Driver', 'postgresql/driver/pq3.py')], ['attributes vs pg_stat_activity and pg_settings as another session sees them'])
p('C39', 'Geometry objects and the bytea codec compute what PostgreSQL computes',
	'Sums, differences, products, quotients and distances of points; length, centre, slope, verticality, horizontality, parallelism and perpendicularity of segments; corners and centre of boxes; centre and radius of circles are what the server operators give for the same operands, in whichever sequence form these are. str() of any geometry object is its SQL literal, repr() evaluates to it, and copies and pickles equal it. The bytea codec turns bytes into the server\'s escape format and back without loss, and takes exactly the escaped texts that the server takes, with the same meaning.',
	['inputs'], 'all operands, including vertical, horizontal, infinite and extreme ones; all bytes and escaped texts, well-formed or not',
	'Tests check one codec round trip and no geometry operator.',
	['postgresql/types/geometry.py', 'postgresql/encodings/bytea.py'], [('Point/Lseg/Box/Circle', 'postgresql/types/geometry.py'), ('encode/decode', 'postgresql/encodings/bytea.py')], ['results vs the server\'s operators and functions'])
p('C40', 'An error can always be shown, with everything that led to it and without secrets',
	'str(), repr(), the traceback and the formatted description of every exception the driver raises, and of every connection, statement, cursor, reader, procedure, transaction, lock, COPY part, library and symbol, work in every state: before connecting, in use, failed, closed, or with the connection lost. A report of a server error begins with the server\'s message and has its code, hint and detail, then the objects that led to the failure down to the connection, each with the facts that identify it (the statement\'s text, cursor\'s parameters and direction, symbol and library), the state of the connection as it is. An error position marks the offending character of the query. The password appears in none of them.',
	['inputs', 'histories'], 'all kinds of failures, objects, states and query texts',
	'Tests check a few exceptions by type or code and never the text, or an object in an odd state.',
	['postgresql/python/element.py', 'postgresql/sys.py', 'postgresql/message.py', 'postgresql/exceptions.py', 'postgresql/driver/pq3.py', 'postgresql/copyman.py'], [('format_element', 'postgresql/python/element.py'), ('default_errformat', 'postgresql/sys.py'), ('_e_metas', 'postgresql/driver/pq3.py')], ['str() and format_element() of exceptions and of every object'])
p('C41', 'A protocol trace shows all that was exchanged, in order, and changes nothing',
	'A tracer set on a connection, before or after connecting (also by pg_python --pq-trace), is given one line for every message sent and received, with its exact type, length and contents (the data, for COPY), once each and in the order of the wire, nothing else (the request for TLS and its answer, which are no messages of the session, excepted), for every operation, transport and failure; removed, it is given nothing more. The results, errors and effects of a traced session are those of the untraced one.',
	['histories', 'schedules'], 'all operations, failing ones included, and all fragmentations and asynchronous messages',
	'No test sets a tracer.',
	['postgresql/protocol/client3.py', 'postgresql/driver/pq3.py', 'postgresql/bin/pg_python.py'], [('traced_read_messages', 'postgresql/protocol/client3.py'), ('traced_write_messages', 'postgresql/protocol/client3.py')], ['trace lines vs the bytes at the socket'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
	for x in P:
		assert len(x['title']) <= 80, x['title']
		f.write(json.dumps(x) + '\n')
print(len(P))
