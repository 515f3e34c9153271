"""Writes /verif/known_findings.json."""
import json, os
F = []
def fixed(prop, commit, what):
	F.append(dict(property=prop, status='fixed', commit=commit, mechanism='fixed:' + commit, what=what, record='fixed: property=%s %s %s' % (prop, commit, what)))
def known(prop, mech, what, why=None):
	d = dict(property=prop, status='known', mechanism=mech, what=what)
	if why: d['why_not_repaired'] = why
	F.append(d)

fixed('C04', 'c38d1d0', 'the native buffer indexed its message type table with a signed byte: types >= 0x80 read outside it')
fixed('C01', '05fab32', 'the native read() stopped silently before a message with an invalid size instead of reporting it')
fixed('C04', 'e016d09', 'compose() called through a NULL item of a sequence shorter than its len()')
fixed('C04', '347932f', 'cat_messages() leaked the result of a serialize() that is not bytes')
fixed('C10', '2501df6', 'column() raised NameError on NULLs and on undecodable values')
fixed('C11', '007f990', 'parameters of types without a binary codec were declared binary and their text sent')
fixed('C13', '25ff84e', 'timetz offsets had the wrong sign in both directions')
fixed('C13', '7bcee73', 'FixedOffset dropped the seconds of its offset')
fixed('C15', 'c8745f8', 'inet lost its netmask in both directions')
fixed('C15', '0b6b7f4', 'Varbit.getbit() applied ord() to an integer')
fixed('C15', '10380ed', 'comparing a single Bit with a longer bit string raised ValueError')
fixed('C15', 'fdb3f57', 'the truth value of bit strings was that of their length')
fixed('C21', 'd995f63', 'the first release() of a nested ALock released the server locks')
fixed('C03', 'e630e61', 'the pure-Python Tuple.parse() accepted truncated and oversized bodies')
fixed('C02', 'a3cb39b', 'Notice and Error messages were serialized without their terminator')
fixed('C02', 'ed6337c', 'WireMessage.serialize() indexed the message object')
fixed('C03', '07de62a', 'the pure-Python WireState accepted impossible message sizes')
fixed('C02', '740a000', 'CopyDone declared a field it never has')
fixed('C02', '16030e4', 'messages with different contents compared equal')
fixed('C05', '7139fdf', 'equal asynchronous messages received together were delivered once')
fixed('C04', '68fe180', 'callbacks shrinking the list being processed caused reads of freed memory')
fixed('C05', 'f314bb5', 'asynchronous messages received while closing objects or synchronizing were lost')
fixed('C05', 'd95688c', 'a failed function call was taken for a protocol violation')
fixed('C05', 'c3c9c46', 'errors whose severity word is localized were considered fatal to the connection')
fixed('C06', '62509cb', 'a protocol violation met by Connection.step() was raised raw and left the connection open')
fixed('C06', '787a646', 'synchronize() discarded the fatal transaction of a lost connection, which then appeared usable')
fixed('C06', 'b7bf7ff', 'socket errors during SSL negotiation were raised raw and leaked the socket')
fixed('C06', 'a0fc5de', 'requests that could not be started on a lost connection failed with a ValueError or not at all')
fixed('C06', '245db85', 'a row stream failing during another operation was delivered truncated')
fixed('C08', 'ce79643', 'connecting failed when a non-ASCII setting was announced before client_encoding')
fixed('C08', '2c33a47', 'operations on a connection that could not be established raised AttributeError')
fixed('C08', '9ba6e65', 'connection parameters containing NUL were sent as other parameters')
fixed('C08', '9f97b41', 'any message was taken for the answer to the password')
fixed('C06', 'afb3878', 'server errors without a usable code or message were raised as KeyError')
fixed('C09', '8330c92', 'a COPY whose source failed was terminated by, and reported to, the next operation')
fixed('C09', '78143c2', 'an error met after the first rows of a result was raised again by the next operation')
fixed('C19', 'ea5693f', 'copies of the COPY manager were terminated when started (a consequence of 8330c92, completed here)')
fixed('C12', '6ac44a7', 'numerics of the greatest length were delivered as other values')
fixed('C13', 'f067825', 'times with a datetime.timezone were refused')
fixed('C24', 'fdd3b41', 'the Python types of uuid, oid, record and hstore columns could not be told')
fixed('C14', '5b0c81d', 'items of arrays and records without binary support were delivered undecoded')
fixed('C14', '335fd30', 'strings in place of the lists of an array were taken apart')
fixed('C12', '8630489', 'first() raised the errors of codecs unreported')
fixed('C15', '8772390', 'malformed bit strings were accepted and comparing bit strings with other objects failed')
fixed('C15', '010f8f6', 'malformed MAC addresses were stored as other addresses')
fixed('C15', '5bac49f', 'text before the first element of XML content was not delivered')
fixed('C15', 'ebabb13', 'the scope of IPv6 addresses was dropped silently')
fixed('C15', '7a734a9', 'XML was sent in the client_encoding, which the server takes for UTF-8')
fixed('C18', '231c45d', 'sending a large amount of data does not deadlock with the server')
fixed('C18', '07dbafb', 'load_rows() executes every statement to its end')
fixed('C17', '5ed1c74', 'a closed cursor refuses to read and seek')
fixed('C17', 'd42690a', 'column errors of cursors opened by identifier are reported')
fixed('C17', 'fc3634f', "forward and backward seeks follow the cursor's direction")
fixed('C16', '0f49508', 'a block left by any exception, or whose commit fails, is rolled back')
fixed('C16', 'dd6e3cb', 'a transaction is rolled back although an operation in progress fails')
fixed('C09', '8ae9992', 'interrupt() returned before the server processed the request')
fixed('C19', '11a6d72', 'copying to a receiver whose server sends notices deadlocked')
fixed('C19', '7e1e0b1', 'messages following the completion of a COPY failed the CopyManager')
fixed('C19', '9d722aa', 'an abandoned copy was reported as complete')
fixed('C20', '02aa6b8', 'notifications received with the end of an operation were not noticed')
fixed('C20', '624b087', 'notifications received by a failing connection were lost')
fixed('C20', 'dcacb1d', 'a zero timeout did not check the wire for notifications')
fixed('C20', 'a1c5149', 'listen() and unlisten() did not quote the channel as notify() does')
fixed('C19', '44f7454', 'the send() of a copy receiver was bypassed while receiving')
fixed('C21', '399c342', 'a failed blocking acquire() kept the advisory locks it had obtained')
known('C21', 'failed-acquire-in-block', 'inside a transaction block, a blocking acquire() of several identifiers that fails part-way (lock timeout, cancellation, deadlock) leaves the identifiers it already had locked in the session; outside a block they are released', 'the failed block refuses the release until it is rolled back, which the lock object takes no part in; a savepoint around every acquisition would change what happens to the block')
fixed('C22', 'bc554a7', 'settings were read from a stale cache, by exact case, and customized ones not at all')
fixed('C22', 'eceed4e', 'an empty search_path could not be read through settings.path')
fixed('C22', '869a021', 'leaving a settings context in a failed transaction replaced the exception')
fixed('C23', '95bb417', 'notices received while connecting were dropped')
fixed('C23', '62de495', 'warnings of servers using another language were not recognized')
fixed('C23', 'fb6152a', 'the class of 22019, invalid escape character, was replaced by that of 2200C')
fixed('C23', '8186da0', 'errors of class 54, program limit exceeded, were raised as plain Errors')
fixed('C24', '0b5568d', 'closed statements could be declared, and executed outside of blocks')
fixed('C24', 'f09c52f', 'chunks() of a statement made from an identifier raised AttributeError')
fixed('C24', '5c6de5f', 'iterators to rows were part of a cycle, keeping their cursors on the server')
fixed('C25', '728779e', 'stored procedures could not be called with keyword arguments')
fixed('C25', '63990c8', 'stored procedures truncated character arguments and followed search_path to other functions')
fixed('C25', '2c1e64a', 'variadic functions could not be used as stored procedures')
fixed('C25', 'c7ab2ef', 'stored procedures gave the first column of domains of composites')
fixed('C26', 'a2c62e1', 'percent escapes of the database and path components of IRIs were neither decoded nor made')
fixed('C26', 'acfce13', 'an @ in the host or port of an IRI was not escaped, and escapes were not decoded as UTF-8')
fixed('C26', 'f843714', 'hosts, socket paths, ports and passwords were lost or confused in serialised IRIs')
fixed('C26', 'c9cfda0', 'IRI settings and parameters lost or refused: bracketed names, no value, empty search paths')
fixed('C27', 'd570151', 'environment variables of settings were not collected and PGREQUIRESSL gave a tuple')
fixed('C27', '584e36c', 'an invalid setting option raised NameError and prompt titles were ignored')
fixed('C27', '161ed9a', 'white space at the end of passwords in password files was lost, and lookups without a host failed')
fixed('C27', '7189d19', 'sslrootcrlfile of a service was taken for a setting')
fixed('C27', 'd5a7934', 'parameters with a socket path could not be used with the default host')
fixed('C28', 'a6211da', "quoted text with line breaks, unterminated quotes, e'' and names with E or $ were split wrongly")
fixed('C28', 'b5956ae', 'identifiers with upper case letters or that are key words were left unquoted')
fixed('C28', '9932d0d', 'malformed quoted identifiers were accepted and separators longer than one character miscounted')
fixed('C29', '062b91c', "configuration files: settings with qualified names, without '=' and next to directives are read and altered")
fixed('C29', '9632ab8', 'configuration files: backslash escapes and newlines in values are read and written')
fixed('C29', '43d15a5', 'configuration files: setting names are case insensitive')
fixed('C29', '215ee05', 'configuration files: empty files, deletion, iteration and membership agree with the contents')
fixed('C29', '732dd39', 'pg_dotconf: the command runs again')
fixed('C30', 'a4f4857', 'Cluster: repr() works and the description names the pid')
fixed('C30', '8766e19', "Cluster: pid files that are stale, empty or not a postmaster's neither raise nor direct signals elsewhere")
fixed('C30', '18daaf3', 'Cluster: settings given to start() are passed and honoured by address(), defaults are used for readiness')
fixed('C30', '5ee4662', 'Cluster: ready_for_connections() returns True, False or None as documented')
fixed('C30', '9d015f2', 'Cluster: drop() removes symbolic links without failing')
fixed('C30', '84a0aea', 'Cluster: init() accepts None for options left at their defaults')
fixed('C30', '8f336c5', 'temporal: open connections do not keep the temporary cluster alive, builtins are restored')
fixed('C35', 'f2b3a49', "version strings with a packager's note are parsed")
known('C30', 'pidfile-foreign', 'a stale postmaster.pid whose pid now belongs to another process the caller may signal: running() is true and stop()/shutdown()/kill()/reload() signal that process', 'telling a postmaster from another process by its pid needs platform specific means; pg_ctl has the same limit (this process, its parent and processes of other users are recognised)')
known('C30', 'frozen-server-wait', 'wait_until_started() has no timeout of its own on the connection it tries: a server process that accepts TCP connections but never answers (stopped by a signal) keeps it waiting beyond its timeout', 'the connect timeout of the driver covers only the TCP connection; covering the negotiation changes the driver for every user')
fixed('C31', 'd22cd2a', 'Array: negative and out of range indexes of multidimensional arrays')
fixed('C31', 'dca233d', 'Array: lower bounds given without upper bounds')
fixed('C31', '5ff0204', 'Array: sql_get_element() with another number of subscripts is NULL')
fixed('C31', '3a795f5', 'Row: get() with the lowest negative index')
fixed('C32', '2c3f409', 'DB-API: percent escapes and operators next to parameters')
fixed('C32', '0584f70', 'DB-API: nothing to fetch after statements that return no rows')
fixed('C32', 'f277344', 'DB-API: executemany() of statements without parameters')
fixed('C32', '4da50da', 'DB-API: callproc() describes its columns, and its parameters are optional')
fixed('C32', '9ce2682', 'DB-API: TimestampFromTicks() took the weekday for microseconds')
fixed('C32', '21fb9c9', 'DB-API: a refused commit() left the connection outside a transaction')
known('C32','warning-not-exception','dbapi20.Warning is not a subclass of Exception','the DB-API asks for an exception class; the name is the base of the PG-API warning messages, which are Messages, and making it an Exception changes the PG-API class tree')
fixed('C33', '85c40ee', 'system library: catalogs are named with their schema')
fixed('C33', '86fd894', 'libraries: constants that are NULL are resolved once')
fixed('C33', '3198fe8', 'Category: binding over an attribute raises the AttributeError')
fixed('C34', 'ff9db7b', 'open() from several threads at first')
fixed('C35', 'b755e58', 'versionstring: unsplit() of states without a level')
fixed('C35', '043916d', 'versionstring: versions of more than three numbers')
fixed('C35', '9895856', 'versionstring: any note after the version is ignored')
fixed('C35', '086c427', 'Installation: configure options keep the quotes and dashes of their values')
fixed('C35', '2c9967a', 'Installation: includedir_server is found')
fixed('C35', '69f9b32', 'Installation: ssl is false for --with-ssl=no')
fixed('C36', 'edf042a', 'executing a Python command replaced os.environ with a plain dictionary')
fixed('C36', '3e8b6d8', 'modules run by -m could not import relatively')
fixed('C36', 'f3aa19b', 'pg_python left its built-ins behind, as None')
fixed('C26', '87ffbaf', 'a search_path in a sequence of settings was dropped from serialised IRIs')
fixed('C37', '8d45529', 'column names of a statement or cursor changed with client_encoding')
fixed('C37', '22e1161', 'clones of statements and cursors made from identifiers failed')
fixed('C37', 'f0d29fa', 'identifiers of statements and cursors kept the bytes of an earlier client_encoding')
fixed('C12', '84958a0', 'NaN and infinite numerics could not be transferred')
fixed('C37', 'd15ab46', "types on the search_path named like built-ins broke the driver's own queries")
fixed('C38', '73e135c', 'deleting settings.path raised AttributeError')
fixed('C38', '5f159de', 'Connection.reset left temporary tables and non-conforming strings')
fixed('C38', '3594ad4', 'Connection.backend_start was text instead of a datetime')
fixed('C38', '20d3e91', 'a search_path in a sequence of settings was sent as its repr, and None as a name')
fixed('C39', '4e8efb8', 'points could not be divided, and the quotient was wrong')
fixed('C39', 'c82ebeb', 'slopes of vertical segments raised and perpendicular segments were misjudged')
fixed('C39', '48d0e25', 'repr of an Lseg did not evaluate to it')
fixed('C39', 'aec2d4c', 'the bytea codec took malformed octal sequences')
fixed('C40', '2a82633', 'COPY producers and receivers could not be described (no state, division by zero)')
fixed('C40', '603fe59', 'stored procedures did not name their connection')
fixed('C40', 'dbfa285', 'BACKWORD in cursor descriptions')
fixed('C13', 'bc2d7b0', 'floating-point times lost a microsecond to truncation')
fixed('C41', '1047e8f', 'a protocol trace repeated messages left of an earlier read')
fixed('C40', 'fad7c97', 'protocol connections could not be shown')
fixed('C10', 'a525e5d', 'rows of cursors made by cursor_from_id raised TypeError when asked for a column by name')
fixed('C10', '3643020', 'statements read by rows(), chunks() or column() outside a block were executed twice')
fixed('C11', 'b3f03b3', 'EUC_KR, SJIS and SHIFT_JIS_2004: characters were received as others (the yen sign as a backslash)')
fixed('C11', '8477d23', 'a client encoding without a Python codec (EUC_TW) left the former one in use: text garbled, setting stale')
fixed('C23', '3fd00bf', 'a notice shown during the preparation of a statement (an identifier that is too long) broke the connection')
fixed('C14', 'b873a1b', 'a composite altered in the session was delivered with values of the former attribute types')
for e, i, o in (('EUC_JP', 'U+00A2 A3 A5 A6 AC 2016 203E 2212 301C', 'U+2225 FF0D FF5E FFE0 FFE1 FFE2 FFE4'), ('EUC_JIS_2004', 'U+2015 2985 2986 FFE3 FFE5', 'U+00A5 2014 203E FF5F FF60'), ('SJIS', 'U+00A2 A3 AC 2016 2212 301C', 'U+00A2 A3 A5 AC 2016 203E 2212 301C'), ('BIG5', 'U+02CD 2574 FFE3', 'U+FFFD'), ('SHIFT_JIS_2004', 'U+00A5 2015 203E 2985 2986', 'U+005C 7E 2014 FF5F FF60')):
	for way, c in (('received', i), ('delivered', o)):
		known('C11', 'codec-table:%s:%s' % (e, way), 'under client_encoding %s these characters are %s as others: %s' % (e, way, c), 'the tables of the Python codec and of the server differ; Python has no codec with the table of the server')

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'known_findings.json'), 'w') as f:
	json.dump(dict(findings=F), f, indent=1); f.write('\n')
print(len(F))
