NA = {}
T = {
 'C01': dict(module='c01', level='exploration',
  technique='runtime monitor: online reference-model checker over randomised fragmentation/interleaving of the message buffers',
  note='Native and pure buffers are driven in lockstep with a from-scratch decoder after every operation; every 2-cut split of a short stream is enumerated. Held on the cases explored; streams above a few MiB and >4 GiB buffers are not driven.'),
 'C02': dict(module='c02', level='exploration',
  technique='runtime monitor: independent protocol codec as oracle over generated and mutated messages',
  note='Every message class is driven with random contents in the native and the pure configuration and compared byte for byte with a codec written from the protocol description; malformed and arbitrary bodies are fuzzed under a progress watchdog. Sampled, not exhaustive.'),
 'C03': dict(module='c03', level='exploration', pg=True,
  technique='runtime monitor: differential oracle, native against pure-Python implementation, per call and per whole session',
  note='Each accelerated function runs beside its fallback (a second import of the library with the extension disabled) on random and malformed arguments; a database session of several hundred steps is run with and without the module and its transcripts, values and error contexts compared.'),
 'C04': dict(module='c04', level='exploration', pg=True, ext=['asan', 'plain'],
  technique='AddressSanitizer and UndefinedBehaviorSanitizer builds under hostile calls, with reference-count and allocator monitors',
  note='The extension is compiled with ASan+UBSan (alignment excluded) and driven with malformed buffers of exact size, wrong types, failing, re-entrant and container-shrinking callbacks; reference counts of sentinels and malloc statistics are compared around repeated calls; a whole database session runs on the sanitizer build.'),
 'C05': dict(module='c05', level='exploration', pg=True,
  technique='runtime monitor: scripted protocol server as trace oracle (attribution, order, exactly-once) plus whole sessions over a fragmenting, message-injecting transport',
  note='Random pipelines of every request kind run against an in-process server that remembers what it answered; errors, asynchronous messages, partial sends, EINTR/EAGAIN and fragment boundaries fall at random places. A database session is repeated with injected asynchronous messages at message boundaries and compared step by step. Sampled.'),
 'C06': dict(module='c06', level='exploration', pg=True, tls=True,
  technique='runtime monitor: fault injection at byte offsets and messages of real sessions, undisturbed run as oracle',
  note='Nineteen scenarios run against a real server through a transport that ends or resets the stream at chosen offsets (message boundaries first) or breaks the protocol at a chosen message; result, error class, closed flag, later operations, sockets and reconnection are judged; beneath TLS (real server, a relay of bytes) the stream ends, is reset or is spoilt at chosen bytes. Offsets are sampled in the quick tier, enumerated as time allows in the thorough tier.'),
 'C07': dict(module='c07', level='exploration', pg=True, tls=True,
  technique='runtime monitor: attempt-trace oracle over a recording server on real sockets with real TLS',
  note='Every sslmode meets every reply to the SSL request, TLS outcome and authentication outcome, on one or several addresses; the bytes each connection carried in the clear and under TLS, the sequence of attempts and the reported result are compared with what the mode permits; servers that ask for a client certificate say which they were shown; whole sessions with a real server are compared with those in the clear. The behaviour after trailing bytes behind an N, and whether prefer retries in the clear after a TLS or transport failure, are left open.'),
 'C08': dict(module='c08', level='exploration', pg=True,
  hba='local all all trust\nhost all postgres 127.0.0.1/32 trust\nhost all /^vfp_ 127.0.0.1/32 password\nhost all /^vfm_ 127.0.0.1/32 md5\nhost all /^vft_ 127.0.0.1/32 trust\nhost all /^vfs_ 127.0.0.1/32 scram-sha-256\n',
  technique='runtime monitor: recording startup server with independent digest oracles, plus a real server as verifier',
  note='Random credentials, settings, methods, salts, message orders and malformed startup dialogues are answered by a recording server; the startup packet, every password message, the announced parameters, the cancel key and the outcome are compared with independent computations. Roles of a real server cover cleartext, MD5, trust and SCRAM (refused). Sampled.'),
 'C09': dict(module='c09', level='exploration', pg=True, tls=True,
  technique='runtime monitor: strikes (cancel, exceptions) at chosen socket operations, failing sources and abandonment, with marked witness operations as oracle',
  note='Every kind of operation is struck at chosen socket operations by a cancel request or by exceptions out of recv/send, fed from failing sources or abandoned and resumed; three marked operations afterwards must return exactly their own data. Exceptions between two bytecodes of the driver are not injected; an Exception raised inside a socket call may cost the connection, provided it says so.'),
 'C10': dict(module='c10', level='exploration', pg=True, tls=True,
  technique='runtime monitor: reference rows computed from the parameters, compared with every access method, alternately read results and reported counts',
  note='Random statements and sizes around the fetch size are executed through nineteen access methods inside and outside transactions; several results are read alternately with other work between. Command counts are compared with the effect; a sequence counts how often and how far each way executes a statement, and the bytes received are counted for the first rows of a large result; a part of the sessions is over TLS. Statements that cannot be declared may be refused outside a block. Sampled.'),
 'C11': dict(module='c11', level='exploration', pg=True,
  technique='runtime monitor: the server\'s own textual account of each received parameter compared with an independent canonical form',
  note='Every supported type, and types without a client codec, in random positions, arities, execution methods and client encodings; refused values must name the parameter and leave a sequence untouched. Characters (thorough: of the whole basic plane) are sent and delivered under all client encodings of the server. Values are dense at boundaries but sampled.'),
 'C12': dict(module='c12', level='exploration', pg=True,
  technique='runtime monitor: bidirectional comparison with the server\'s textual form of each value',
  note='int2, single bytes and "char" are exhaustive; code points are exhaustive in the thorough tier; floats by bit pattern, numerics by digit groups, scales and signs up to thousands of digits; NaN and infinite numerics may be refused. Otherwise sampled.'),
 'C13': dict(module='c13', level='exploration', pg=True,
  technique='runtime monitor: bidirectional comparison with the server\'s account of each point in time, across session time zones and styles',
  note='Fifteen session time zones with every DateStyle and IntervalStyle; a second session in a fixed configuration says what was stored. The extreme date/datetime values stand for infinity and naive values for timestamptz are left open. Sampled within the ranges; whole-minute offsets are exhaustive in the thorough tier. Servers with floating-point times, and those whose intervals have no days, are simulated by relabelling bytea columns and parameters on the wire.'),
 'C14': dict(module='c14', level='exploration', pg=True,
  technique='runtime monitor: every leaf, bound and NULL of generated structures selected from the server by explicit subscripts, against the client value',
  note='Random type definitions (arrays to 6 dimensions, composites with dropped attributes, table rows, domains, enums, nesting to depth 4) and values; corrupted structures must be refused naming parameter and attribute. Composites are altered in mid-session (attributes added, dropped, retyped, replaced, by this or another session) and read and sent on their own, in arrays, composites and domains, by new and old statements.'),
 'C15': dict(module='c15', level='exploration', pg=True,
  technique='runtime monitor: bidirectional comparison with the server\'s account of each value; bit strings against a string model; malformed text against the server\'s reading',
  note='Bit strings of every length to about 70 and longer ones; coordinates by bit pattern, infinities included (NaN corners of boxes excluded); mutated textual addresses must mean what the server takes them for, or be refused; xml comments, processing instructions and document types have no client counterpart.'),
 'C16': dict(module='c16', level='exploration', pg=True,
  technique='runtime monitor: model of block frames as oracle over random block programs, with a second session observing committed data after every block',
  note='Random programs to nesting depth 6 over with, explicit and generator-held blocks, all ways of inserting, swallowed and propagating server errors, client exceptions (BaseExceptions included) and half-read results that fail later; configured blocks over every isolation level and mode; commits refused by the server; blocks ended out of order. An explicit commit() of a failed outermost block may return silently, as documented. Sampled.'),
 'C17': dict(module='c17', level='exploration', pg=True,
  technique='runtime monitor: position-in-a-list reference model compared after every cursor operation',
  note='Random histories of reads, seeks, direction switches and iteration over results of 0 to 300 rows, cursors declared by statement, SQL or identifier, with and without hold, two objects on one cursor, with other work between; all pairs of 47 operations over results of 0 to 3 rows in both directions (sampled in the quick tier). Distances are judged for forward, backward and ALL moves; negative absolute positions of a reversed cursor and negative read counts are left open.'),
 'C18': dict(module='c18', level='exploration', pg=True, tls=True,
  technique='runtime monitor: conservation oracle, rows in the table (with their execution order) against the rows supplied, under failures placed in source, client and server',
  note='Random row counts around batch sizes, chunk layouts and kinds of iterables, for INSERT, other statements and COPY in text, CSV and binary with data cut anywhere; failures by source, client codec, arity and server at random rows, outside and inside blocks; COPY out against bytes made here; chunk-wise transfers between connections (one of them over TLS); a chunk larger than the transport holds, with a deadlock monitor on the server\'s wait state. Statements without parameters are not loaded. Sampled.'),
 'C19': dict(module='c19', level='exploration', pg=True,
  technique='runtime monitor: delivery ledger (exactly-once, order, totals) over scripted and real producers and receivers with injected faults',
  note='Wire and iterator producers, callable, wire, null and statement receivers, cut at arbitrary offsets, with failures of parties, reconciled, dropped or fatal, with early exits and with asynchronous messages among the data; contents, counts, fault reports and the state of the connections are judged. A receiver put back later than at once after its fault is left open.'),
 'C20': dict(module='c20', level='exploration', pg=True, tls=True,
  technique='runtime monitor: delivery ledger with server-ordered fences over random histories, injected positions and failing connections',
  note='Listeners (some over TLS, some behind a transport that fragments and puts notifications at any message boundary), senders in and outside transactions, hostile channel names and payloads, every way of iterating. Notifications sent before an unlisten completed are left open, as is leaving an iterator elsewhere than at an idle event.'),
 'C21': dict(module='c21', level='exploration', pg=True, technique="runtime monitoring: pg_locks read by another session after every operation, compared with an executable model of the acquisitions; an online mutual-exclusion monitor over concurrent threads; injected contention, lock timeouts, cancellations and closed sessions", note='identifier sequences (int8 and int4 pairs, repeated, overlapping), both modes, re-acquisition, blocks and failed blocks, contended, waiting and failing acquisitions'),
 'C22': dict(module='c22', level='exploration', pg=True,
  technique='runtime monitor: the server\'s own account of the session and a mirror session as oracles over random histories; subscribers against the reports on the wire',
  note='Random histories of assignments, updates, contexts, structured search paths, SET, SET LOCAL, RESET, functions and blocks over 25 settings with accepted and refused values, read in every way and spelling of the name; reports, real and put on the wire at message boundaries, against what subscribers were told. Values of customized settings that were only ever mentioned count as unset; a context left in a failed block is restored by the rollback.'),
 'C23': dict(module='c23', level='exploration', pg=True,
  technique='runtime monitor: raised errors and hook calls against the messages on the wire (own parser), and a golden table of SQLSTATE classes',
  note='Every standard SQLSTATE and sampled unknown ones; random operations on connections, statements and cursors with notices put at message boundaries and errors and notices rewritten with random severities, localized severities, codes, fields and texts, in two encodings; hooks of every level with random results and failures; sessions ended by the server; the same work in a quiet session and in sessions up to debug5 with the standard hook, results compared, messages shown counted against the trace. Fields that do not decode, and orders of notices within the start of a session, are left open.'),
 'C24': dict(module='c24', level='exploration', pg=True,
  technique='runtime monitor: pg_prepared_statements and pg_cursors against the objects held, after random histories with objects let go of at injected points',
  note='Statements, cursors and iterators made in every way, owned or from identifiers, used, cloned, closed and let go of in any order: plainly, by the cyclic collector, in other threads, while a message is processed, by producers of loads; in blocks, failed blocks and after errors; addresses are reused; several statements have the same text. Objects that are part of a cycle with an exception count as held until collected. A long session is bounded.'),
 'C25': dict(module='c25', level='exploration', pg=True,
  technique='runtime monitor: functions that report their own identity, arguments and number of executions, against references and calls by random histories',
  note='Random functions of 24 kinds of results in 5 schemas, hostile names, overloads, variadic, defaulted, named and OUT arguments; referenced by every spelling and oid; called with positional and keyword arguments, in blocks, with the search path changing; wrong arguments and unknown functions refused. Polymorphic functions, undescribed records and SQL procedures are refused by errors and not judged; a NULL composite is a row of NULLs.'),
 'C26': dict(module='c26', level='exploration', pg=False,
  technique='runtime monitor: round trips and an independent percent-encoder over random parameters with hostile contents in every component',
  note='All subsets of user, password, host (names, IPv4, IPv6 with zones, brackets), socket path, port, database, path, driver parameters, settings and search paths, with reserved, percent, control and non-ASCII characters; obscured forms; arbitrary texts; the IRI that connectors and their errors show. Values compare as text; an empty identifier in a search path is left open.'),
 'C27': dict(module='c27', level='exploration', pg=False,
  technique='runtime monitor: an independent precedence model against random combinations of real sources (files, environment, options, IRIs, keywords)',
  note='Defaults and their files, base parameters, environments with any prefix, services found in the documented places, options in every spelling, prompts, password files with escapes, wildcards, comments and malformed lines, and postgresql.open(). A variable and a service entry for the same key are not combined (undocumented); the home directory is a scratch one.'),
 'C28': dict(module='c28', level='exploration', pg=True,
  technique='runtime monitor: the server evaluates what was quoted; an independent scanner and statements with values known by construction judge splitting',
  note='Hostile texts and every key word as literals and identifiers; qualified names and identifier lists; arbitrary texts split and joined; generated scripts whose statements the server then executes. Comments are not understood by the module and not judged; standard_conforming_strings is on.'),
 'C29': dict(module='c29', level='exploration', pg=True,
  technique='runtime monitor: an independent reader of the configuration grammar and the server itself (pg_file_settings) read every altered file; a dict model judges every mapping operation',
  note='Generated files (comments, commented settings, duplicates, quoting and escapes, missing =, qualified and mixed-case names, missing final newline, empty, directives) and operation sequences through ConfigFile, alter_config and pg_dotconf. Include directives are not followed by the module; invalid UTF-8 and CRLF are left open.'),
 'C30': dict(module='c30', level='exploration', pg=False,
  technique='runtime monitor: lifecycle histories on real servers; the process table, psql and the file system judge predicates, waits and drops; every signal is recorded with its target before delivery',
  note='Init (failing, repeated, with None), start/stop/shutdown/kill/restart/reload/context managers with clients connected, several objects on one directory, servers started by pg_ctl, killed outside and during startup, recovering, frozen, unable to start; stale, empty, garbage, negative, own, foreign and vanishing pid files; addresses; drops with links and running servers; random histories; the temporary cluster. A child whose parent has not reaped it counts as running.'),
 'C31': dict(module='c31', level='exploration', pg=True,
  technique='runtime monitor: every observation of arrays, rows and row factories compared with the nested list, tuple and dict they stand for; SQL subscripts also with the server',
  note='Arrays up to 6 dimensions with random bounds: nesting, flattening, indexing, slicing, addresses, SQL subscripts, equality, ordering, copies, pickling, refused shapes and bounds; rows from sequences and mappings; transform; named tuples; helpers of postgresql.python. Duplicate column names of rows are left open.'),
 'C32': dict(module='c32', level='exploration', pg=True,
  technique='runtime monitor: statements built from pieces of known value are evaluated by the server, fetched rows are compared with a list, and transaction histories are judged against a model through a second connection',
  note='Named and positional parameters, hostile values, percent signs, quoting and wrong counts; fetchone, fetchmany, fetchall, iteration and nextset mixed; executemany, callproc, descriptions, rowcounts, type objects, exception classes; commit, rollback, refused commits, failures, autocommit and closing. Warning is not an exception class: a known finding.'),
 'C33': dict(module='c33', level='exploration', pg=True,
  technique='runtime monitor: generated library files compared with the symbols they were made from; bound symbols with unique values executed on servers; the system library compared with direct catalog queries, also with masking temporary tables',
  note='Sections, types, methods, references, comments, preface and section-like lines; loading by path, name and lines; refused types, methods, references and names; every execution method, constants (resolved once), transient and preloaded symbols, procedures, reference symbols, several bindings of one library, categories. Constants are resolved at first use; modules as libraries are not supported by the code and not judged.'),
 'C34': dict(module='c34', level='exploration', pg=True,
  technique='runtime monitor: fresh interpreters whose threads all start at once with tagged workloads, forced switches and delays inside the package and a busy garbage collector; every value, error, notice and notification must carry the tag of its own thread',
  note='4 to 8 threads, each with connections of its own, made through open(), the driver, a shared connector and the DB-API; 33 kinds of operations; distinct (line left, line entered) pairs at thread switches are counted as evidence.'),
 'C35': dict(module='c35', level='exploration', pg=True,
  technique='runtime monitor: version strings and pg_config outputs generated from their parts, read back and compared; the real tools and a real connection as well',
  note='One to four numbers, states with and without level, packager notes; the command line of versionstring; stand-ins for pg_config in old and new style with hostile values; configure options, directories, executables, ssl, the default installation.'),
 'C36': dict(module='c36', level='exploration', pg=True,
  technique='runtime monitor: command lines run as child processes against a live server; exit status, output, visible names, traces and stored rows are compared with a model of the generated program',
  note='Scripts, modules (also relative imports), command strings, standard input and console sessions; contexts, exits of every kind, open transactions, connection options, settings, traces, postmortem functions, terminals; Execution and command() also inside one process, which must be as before afterwards. sys.path[0] of scripts and the package __init__ are left open.'),
 'C37': dict(module='c37', level='exploration', pg=True,
  technique='runtime monitor: metadata of statements, cursors and clones built from known columns is compared with their construction, the catalog as another client sees it, pg_prepared_statements, pg_cursors and the values then received',
  note='Every type of the catalog under search_paths that hide built-in names; random statements under changes of client_encoding; statements without rows; closing, renewing and cloning.'),
 'C38': dict(module='c38', level='exploration', pg=True,
  technique='runtime monitor: attributes, startup settings and effects of random histories on live sessions are compared with pg_stat_activity, pg_settings and tables as other sessions see them',
  note='All connectors; startup settings of several forms; clones of changed, closed and busy-in-block connections; resets after random histories; substituted address lists; do() with hostile sources.'),
 'C39': dict(module='c39', level='exploration', pg=True,
  technique='runtime monitor: every operation on random geometric operands, and the codec on random bytes and texts, is compared with the operators and functions of a live server',
  note='Points, segments (many vertical, horizontal, parallel, perpendicular), boxes, circles in several sequence forms; literals, repr, copies and pickles; escaped texts well-formed and malformed.'),
 'C40': dict(module='c40', level='exploration', pg=True,
  technique='runtime monitor: every exception and every object, in whatever state random histories bring them to, is shown by str, repr, traceback and format_element; an oracle has the facts that must be there in order, and the password that must not',
  note='26 kinds of failures in random sessions, 20 kinds of objects before, during and after use, closed and lost; error positions against the server; failed connection attempts of all modes.'),
 'C41': dict(module='c41', level='exploration', pg=True, tls=True,
  technique='runtime monitor: the lines given to a tracer are parsed and compared with the messages at the socket in both directions; the results with those of the same session untraced',
  note='Random sessions of 19 kinds of operations under fragmentation and injected asynchronous messages; tracers set before connecting, on the open connection, removed and set again, in the clear and over TLS; pg_python --pq-trace.'),
}
