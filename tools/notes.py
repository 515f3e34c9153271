# per property: what is excluded or left open, and why; extra remarks
N = {
'C01': '',
'C02': 'Bodies the protocol description does not define (trailing bytes of some messages) are compared between the two configurations only.',
'C03': 'Exceptions are compared by class and where their text is produced by the package; texts made by CPython itself (argument parsing) are not.',
'C04': 'UBSan alignment excluded, see above.',
'C06': 'The server is ended at its transport, not killed; a killed server is in C23 and C30.',
'C09': 'Exceptions between two bytecodes (asynchronous exceptions) are not part of the statement.',
'C16': 'An explicit commit() of a failed outermost block returns silently: documented ("rolled back"), left open.',
'C17': 'Negative absolute positions of a reversed cursor and negative read counts are left open (the documentation says nothing and the directions contradict each other).',
'C18': 'Statements without parameters are not loaded.',
'C19': 'A receiver put back later than at once after its fault is left open.',
'C21': 'A failing acquire of several identifiers inside a transaction block is a known finding (the failed block refuses the release).',
'C24': 'Closed statements are refused client side with 26000. Objects that are part of a cycle with a raised exception count as held until collected; a cursor holds its statement; closing a chunk reader half-way, and cloning a closed statement, are left open.',
'C25': 'Polymorphic arguments, undescribed records and SQL procedures are refused by errors; a NULL composite is a row of NULLs; ambiguous overloads excluded; the value of a void function is open.',
'C26': 'Values compare as text; ssl/ipv keys, empty identifiers in a search path, empty setting names and an empty path list are excluded. A connector\'s repr shows the password (left open: nothing says otherwise).',
'C27': 'A PG variable against a service entry for the same key, PGSERVICEFILE against an explicit pg_service_file, PGREQUIRESSL against PGSSLMODE, pgpass lines of more than five fields and escapes other than `\\:` and `\\\\` are open. Sockets look up "localhost".',
'C28': 'Comments are not understood by the module (its documentation does not claim it). standard_conforming_strings is on. `1e\'` and a digit followed by a letter differ between server versions and are not compared.',
'C29': 'include directives are not followed; invalid UTF-8 and CRLF are open; deleting a missing key may or may not raise; a commented-out occurrence may be reused.',
'C30': 'Zombies count as running; drop() of a void cluster is open; postgresql.auto.conf is ignored by the code and not judged.',
'C31': 'Duplicate column names are open; Arrays are unhashable like lists; one-dimensional slices are lists.',
'C32': 'Quoted text is sent verbatim; statements without parameters are sent verbatim; a bare % next to parameters may be an operator or an error; extra mapping keys, fetchmany(0) and negative counts are open; comments with quotes are excluded.',
'C33': 'Constants are resolved at first use (the documentation says bind; open). load() of a module names a class that does not exist: unsupported, not judged. A reference to a procedure whose text starts with a comment, and CRLF files, are excluded. Of duplicate symbol names the last wins.',
'C34': '"Stuck" only after 100 s without progress and without CPU use; children over 500 s are counted as abandoned. Thread switches are forced by settrace in the harness at line granularity, inside the package only.',
'C35': 'Options containing `\'\'\'` (autoconf output through a C string), mixed quoting (the repository\'s test shows it failing) and "--without-x" after "--with-x" are excluded.',
 'C36': 'sys.path[0] of scripts, whether `-m package` runs the package\'s __init__, an unimportable PYTHON_POSTMORTEM module, whether SystemExit runs the postmortem, libpath left behind on success and the console\'s temporary files are left open.',
 'C37': 'The Python types of inet, cidr, xml and bit(n) (which differ between what is announced and delivered for historical reasons), `date` where search_path puts another type of that name before pg_catalog (the name given is that of the SQL standard), declare() on a statement known only by its identifier, type names cached before ALTER TYPE ... RENAME are left open.',
 'C38': 'The /32 that the server adds to client_address, the text of errors before an encoding is known, roles set by SET ROLE (RESET ALL keeps them), LISTENs and Transaction objects that were open at a reset are left open.',
 'C39': 'Segments of no length, results that depend on rounding or on the tolerance of the server, and characters from 128 to 255 given to the codec are left open.',
 'C40': 'The layout (indentation, order of facts within one object) is left open; repr() of a connector is the call that makes another and has the password by design; the description of a ConfigFile whose file does not exist is left open.',
 'C41': 'Interrupted writes are left open: what was traced when an exception struck inside a send may be told again. Passwords are part of a trace by design.',
}
