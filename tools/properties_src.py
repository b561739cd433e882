"""Single source of the property list; tools/mkmeta.py turns it into
properties.jsonl and MANIFEST.json."""

T = 'impactutils/transfer/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None,
         observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c)
                                      for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b)
                                          for a, b in mech],
                               observe_at=observe or [],
                               hook_needed=None)))


prop('C01', 'A copy send that returns has mirrored exactly what it was given',
     'When sending by file-system copy returns, every given file is present in the remote directory under its own '
     'name, and every file under the given directory (hidden ones and all depths included) is present at the same '
     'relative path, each byte-identical to its source; the returned count equals the number of files sent, no '
     'leftover temporary or other extra file exists there, files already there that are not being sent are untouched, '
     'the sources are untouched and a previous cancel file is gone. '
     'If any file could not be copied, for whatever reason, the call raises instead of returning. '
     'This holds for absolute, relative and trailing-slash spellings of the local and remote directories and for any '
     'file names.',
     ['inputs', 'fault_sequences', 'histories'],
     'all file trees, names, sizes and path spellings; all sequences of sends; an I/O error, short write or full disk '
     'at any file operation',
     'The copy test sends one small fixed directory with absolute paths to a fresh folder and no disk error; it never '
     'sees nesting corner cases, relative paths, repeated sends or a failing operation.',
     [T + 'copysender.py', T + 'sender.py'],
     [('copy to temporary name then rename', 'CopySender._copy_file_with_path'),
      ('recursive listing', 'Sender.getAllLocalFiles'),
      ('file count', 'CopySender.send')],
     [('_local_files/_local_directory', 'what is to be sent', 'Sender.__init__')],
     ['return value or exception of send()', 'contents of the remote directory'])

prop('C02', 'A poller never sees a partial file under its final name (copy)',
     'At every instant while one or more copy senders (threads or processes, also when they write to the same remote '
     'directory and the same names) run, fail or are killed, any file visible in the remote directory under the final '
     'name of a file being sent is either exactly what was there before or a complete copy of one of the sources being '
     'sent to that name. '
     'While a file is being replaced its name never disappears. '
     'A sender whose send returns has its own complete file, or one a concurrent sender put there, under each name.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'all interleavings of file-system operations of concurrent senders and a poller, all kill points, all disk faults',
     'Tests run one sender, look only after it returned, and never interrupt it.',
     [T + 'copysender.py'],
     [('unique temporary file in the same directory, then atomic rename', 'CopySender._copy_file_with_path')],
     observe=['remote directory after every file-system operation'])

prop('C03', 'An FTP send that returns has uploaded everything, else it raises',
     'When an FTP send returns, every given file is in the remote directory under its own name and every file under '
     'the given directory is at the same relative path below it, byte-identical to its source, the returned count is '
     'the number of files sent and no temporary file is left. '
     'If any upload, rename, directory creation or login failed, or the connection broke before everything was '
     'confirmed, the call raises an exception instead of returning. '
     'This holds for absolute, relative and trailing-slash remote directories and any local path spelling, and files '
     'on the server that are not being sent are untouched.',
     ['inputs', 'fault_sequences', 'crash_points'],
     'all file trees and path spellings; refusal, error replies, resets, truncated or stalled connections at any point '
     'of the control or data connections',
     'The FTP test needs a live anonymous server (there is none here, and it is skipped or fails); no test injects an '
     'error reply or a broken connection.',
     [T + 'ftpsender.py', T + 'sender.py'],
     [('STOR to temporary name then RNFR/RNTO', 'FTPSender.__sendfile'),
      ('directory creation', 'FTPSender._create_remote_directory'),
      ('error conversion', 'FTPSender.send')],
     observe=['return value or exception of send()', 'server file system'])

prop('C04', 'A poller of the FTP server never sees a partial file',
     'At every instant during FTP sends, including several concurrent ones to the same directory and names, broken '
     'connections and killed clients, any file on the server under the final name of a file being sent is either what '
     'was there before or a complete copy of a source being sent to that name. '
     'While a file is being replaced its name never disappears. '
     'Sending also never destroys or overwrites a file on the server other than the destinations of the files being '
     'sent, whatever the files are called.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'all interleavings of server-side effects of concurrent sessions, all kill points and connection faults',
     'No test observes the server during a transfer, breaks a connection, or runs two senders.',
     [T + 'ftpsender.py'],
     [('temporary name unique to the transfer, renamed only after the transfer was confirmed',
       'FTPSender.__sendfile')],
     observe=['server file system after every server-side effect'])

prop('C05', 'An SSH send that returns has delivered everything, else it raises',
     'When sending over SSH returns, every given file is already in the remote directory under its own name and every '
     'file under the given directory is at the same relative path below it, byte-identical to its source, the returned '
     'count is the number of files sent, no temporary file is left and unrelated remote files are untouched (only a '
     'plain file standing where a remote folder has to be is replaced by that folder). '
     'If a remote command or transfer failed or the connection broke before that was confirmed, the call raises. '
     'This holds for relative and absolute remote directories, and for names with spaces or characters special to the '
     'remote shell.',
     ['inputs', 'fault_sequences', 'schedules'],
     'all file trees, names and path spellings; remote command failures, disk-full, slow remote commands, '
     'disconnections and refused channels at any point',
     'The SSH test needs a real host and key and is skipped; nothing tests failures, odd names or slow remote '
     'commands.',
     [T + 'securesender.py', 'impactutils/extern/scp/scp.py'],
     [('scp to a temporary name then remote mv', 'SecureSender._copy_file_with_path'),
      ('remote folder creation', 'SecureSender._make_remote_folder')],
     observe=['return value or exception of send()', 'remote file system'])

prop('C06', 'A poller on the SSH host never sees a partial file',
     'At every instant during SSH sends, including concurrent ones to the same directory and names, broken '
     'connections and killed clients, any file on the remote host under the final name of a file being sent is either '
     'what was there before or a complete copy of a source being sent to that name. '
     'While a file is being replaced its name never disappears. '
     'Sending never destroys or overwrites remote files other than the destinations of the files being sent (a plain '
     'file standing where a remote folder has to be is replaced by that folder).',
     ['schedules', 'crash_points', 'fault_sequences'],
     'all interleavings of remote effects of concurrent sessions, all kill points and connection faults',
     'No test observes the remote host during a transfer, breaks a connection, or runs two senders.',
     [T + 'securesender.py', 'impactutils/extern/scp/scp.py'],
     [('temporary name unique to the transfer, then remote mv', 'SecureSender._copy_file_with_path')],
     observe=['remote file system after every remote effect'])

prop('C07', 'A cancel that returns has placed the cancel file, a send removes it',
     'When cancel() of the copy, FTP or SSH sender returns, a file with the configured cancel file name exists in the '
     'remote directory and its content is exactly the given content (empty if none was given; one trailing line break '
     'is allowed), no other remote file is changed and no temporary file is left locally or remotely; if it could not '
     'be created the call raises. '
     'A later copy send to the same directory removes the cancel file, and a cancel after it creates it again.',
     ['histories', 'inputs', 'fault_sequences'],
     'all sequences of send and cancel over the three transports, all cancel names and contents, a fault at any step',
     'Tests cancel once after one send over the copy transport and check only that the file exists.',
     [T + 'copysender.py', T + 'ftpsender.py', T + 'securesender.py'],
     [('cancel file creation', 'CopySender.cancel / FTPSender.cancel / SecureSender.cancel'),
      ('removal on send', 'CopySender.send')],
     observe=['remote directory', 'return value or exception'])

prop('C08', 'Mail: every recipient is reached exactly once, or the caller is told',
     'When an e-mail send or cancel returns, a server has accepted the message for every recipient exactly once: a '
     'recipient accepted by one server is never sent the message again through another. '
     'Servers are tried in the configured order until the message is accepted, so it is delivered whenever some '
     'server would accept it for every recipient. '
     'If any recipient was not accepted by any server, the call raises; the only permitted exception to exactly-once '
     'is a connection lost after the whole message was transmitted but before the server answered.',
     ['fault_sequences', 'inputs', 'schedules'],
     'all recipient lists and batch sizes, any number of servers, refused connections, error replies to any command, '
     'partial recipient refusals, connections lost at any point including after acceptance',
     'The mail test needs a real SMTP server given on the command line; no test has a second server or an error '
     'reply.',
     [T + 'emailsender.py'],
     [('failover loop over servers', '_send_email'), ('batching', '_split_addresses')],
     observe=['envelopes accepted by each server', 'return value or exception'])

prop('C09', 'Mail: subject, text and attachments arrive bit for bit',
     'Every accepted message of a send carries the configured sender, subject and text, and as attachments exactly '
     'the given files and the files of the given directory: each decodes to the exact bytes of its source under its '
     'own file name, or, when zipping was asked for, one zip archive with that name that unpacks to exactly those '
     'files at their relative paths. '
     'This holds for any file content, any file type and non-ASCII text, the returned count is the number of files '
     'attached, and no temporary file or folder is left behind whether the call returns or raises. A cancel message carries the configured sender, the cancel subject (if none is configured, the subject) and as its whole text the configured cancel text, else the given one, else the documented default.',
     ['inputs', 'fault_sequences'],
     'all file contents, names, types, message texts, zipped or not, several batches, read errors and mail failures',
     'The mail test cannot run without a server and would not decode what arrived.',
     [T + 'emailsender.py'],
     [('MIME encoding', '_get_encoded_message'), ('zip creation', 'EmailSender.send')],
     observe=['message data received by the simulated server', 'temporary directory'])

prop('C10', 'Mail: recipients stay private and batches respect the limit',
     'When recipients are batched, nothing in a transmitted message (any header or the body) discloses the address of '
     'any recipient, and no message has more than the configured number of blind-copied recipients; when batching is '
     'switched off (limit 0), each recipient gets a message of his own naming only him. '
     'Every limit from 0 upwards and every list length terminates, and the same recipients are covered by send and '
     'cancel.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all recipient list lengths and limits, with or without a primary recipient, with failover between servers',
     'Tests never inspect a transmitted message and the batching tests use one or two sizes.',
     [T + 'emailsender.py'],
     [('batching', '_split_addresses'), ('headers', 'EmailSender.send / _get_encoded_message')],
     observe=['envelope and data received by the simulated server'])

prop('C11', 'A sender transmits what its own history of calls says, nothing else',
     'After any sequence of constructing senders, adding files, changing the directory and changing properties, a '
     'send over any transport transmits exactly the files given to that sender at construction and since, plus its '
     'current directory, all with their present content, also after an earlier send of it failed; a '
     'call rejected because a file or directory does not exist raises FileNotFoundError and changes nothing. '
     'Senders built from the same list or used concurrently never affect each other or the caller\'s list.',
     ['histories', 'schedules'],
     'all call histories on one or several senders sharing argument objects, files appearing and disappearing, '
     'interleaved by threads',
     'Tests construct a sender and send once; the methods that change a sender are never called.',
     [T + f for f in ('sender.py', 'copysender.py', 'ftpsender.py', 'securesender.py', 'emailsender.py', 'pdlsender.py')],
     [('file list handling', 'Sender.__init__ / addFiles / changeDirectory')],
     observe=['remote directory after each send', 'caller-owned list', 'exceptions'])

prop('C12', 'PDL: one command per call, every value intact, failure reported',
     'A PDL send or cancel runs the client exactly once (status UPDATE for send, DELETE for cancel), passing each '
     'required value, optional value, product property, file and directory as one intact argument whatever characters '
     'it contains, formatted to the documented precision. '
     'The call returns if and only if that command exited successfully and otherwise raises PDLError carrying the '
     'output; more than one file is rejected without running anything, and the returned count is the number of files '
     'sent.',
     ['inputs', 'fault_sequences', 'histories'],
     'all property values, exit codes and signals, all output sizes and encodings, all sequences of send and cancel',
     'Tests run a fake jar through echo-like commands with simple values only.',
     [T + 'pdlsender.py', 'impactutils/io/cmd.py'],
     [('command template filling', 'PDLSender._replace_*'), ('exit status check', 'PDLSender.send/cancel')],
     observe=['argument vector of the simulated process', 'return value or exception'])

prop('C13', 'Running a command returns its true status and its whole output',
     'Running an external command runs it exactly once and returns success exactly when it exited with status zero '
     '(not for other statuses or death by signal), with everything it wrote to standard output and to standard error, '
     'byte for byte and each in its own stream. '
     'It terminates however much the command writes to either stream and in whatever order.',
     ['schedules', 'inputs', 'fault_sequences'],
     'all interleavings of child writes and parent reads over bounded pipes, all sizes, exit codes and signals',
     'The test runs ls on an existing and a missing file.',
     ['impactutils/io/cmd.py'],
     [('concurrent draining of both pipes', 'get_command_output')],
     observe=['returned tuple', 'simulated child progress'])

prop('C14', 'scp upload: the remote copy is exact or an error is raised',
     'When an scp upload returns, each local file (in recursive mode each file of each tree at its relative path) '
     'exists remotely with exactly the content read, the announced permissions and, if asked, times. '
     'If the remote side reports an error, closes early or does not answer within the timeout, or the local file '
     'cannot be read in full, the upload raises, and it always terminates.',
     ['inputs', 'fault_sequences', 'schedules'],
     'all trees, names and sizes around the buffer size, any reply sequence, disconnection or stall point, local '
     'files that shrink, grow or fail while read',
     'There are no tests of the bundled scp client.',
     ['impactutils/extern/scp/scp.py'],
     [('protocol state machine', 'SCPClient.put/_send_files/_send_recursive/_recv_confirm')],
     observe=['remote file system', 'exception'])

prop('C15', 'scp download: exact, terminating, and never outside the local path',
     'When an scp download returns, the local copies are byte-identical to what the remote side announced and sent, with '
     'the announced permissions (new folders within the umask) and, if asked, times; '
     'if the remote side reports an error, breaks off or stalls, or the local disk fails, it raises, and it always '
     'terminates. '
     'Whatever the remote side sends, no file or directory outside the requested local path is created, changed or '
     'removed.',
     ['inputs', 'fault_sequences'],
     'all protocol message sequences (also hostile ones), fragmentations, disconnections, stalls and local disk '
     'errors',
     'There are no tests of the bundled scp client.',
     ['impactutils/extern/scp/scp.py'],
     [('receive loop', 'SCPClient._recv_all/_recv_file/_recv_pushd/_recv_popd')],
     observe=['local file system', 'exception'])

prop('C16', 'Web-service answers are returned faithfully or an error is raised',
     'A GeoServe or ComCat object that was constructed reports exactly the content the service sent in a complete '
     'successful answer (places, regions, authoritative network, event ids, sources and parameters). '
     'A "service unavailable" answer is retried exactly once after a pause and then succeeds or raises; every other '
     'error status, broken, truncated or undecodable answer raises and never yields an object, and no more requests '
     'are made than that. '
     'If the service stalls, construction fails within its timeout.',
     ['fault_sequences', 'inputs'],
     'all sequences of HTTP statuses, truncations, resets, stalls, refusals and payloads over the requests made',
     'The tests need the live USGS service; none sees an error status.',
     ['impactutils/comcat/query.py'],
     [('fetch with one retry', '_get_url_data'), ('accessors', 'GeoServe / ComCatInfo')],
     observe=['requests and their times at the simulated server', 'accessor values or exception'])

prop('C17', 'A grid download yields the exact file, or None and no damage',
     'When a ShakeMap grid download returns a local path, the file there holds exactly the bytes the service sent '
     'for the grid; on any failure to download or write it the call returns None. '
     'A failed download leaves a file already at that path untouched, and a failed write never leaves the path '
     'reported as good; without a local path the URL is returned and nothing is written.',
     ['fault_sequences', 'inputs'],
     'all HTTP outcomes, payloads (line endings, non-ASCII), pre-existing files and disk errors',
     'The test needs the live service and never fails a download.',
     ['impactutils/comcat/query.py'],
     [('download and write', 'ComCatInfo.getShakeGrid')],
     observe=['local file', 'return value'])

prop('C18', 'Time-zone download: complete, contained, harmless to other files',
     'When the time-zone download returns, every file of the published archive is in the output directory itself with '
     'exactly the archived bytes and the returned path is its shapefile. '
     'Whatever the archive contains, files and directories that were in the output directory under other names, and '
     'everything outside it, are untouched. '
     'A page without the link, a broken or truncated download, a corrupt archive or a disk error raises.',
     ['inputs', 'fault_sequences', 'histories'],
     'all release pages and archive layouts (flat, nested, directory entries, hostile names), HTTP and disk faults, '
     'pre-existing contents, repeated downloads',
     'The test is network-bound and disabled here; it knows one archive layout.',
     ['impactutils/time/timeutils.py'],
     [('link search, download, extraction', 'get_recent_timezone_data')],
     observe=['output directory and surroundings', 'return value or exception'])

prop('C19', 'City download equals what was served and leaves nothing behind',
     'Loading cities by download yields exactly the rows of the served table that have a non-empty plain-ASCII name, '
     'in order, with their coordinates, country, capital flag and population. '
     'If the download, the archive or the table is broken, it raises. '
     'Whether it succeeds or fails, no temporary file or folder remains.',
     ['inputs', 'fault_sequences'],
     'all tables, HTTP faults, corrupt archives, malformed rows and disk errors',
     'Tests read a local file that is missing here, and never exercise the download or a failure.',
     ['impactutils/mapping/city.py'],
     [('download and extraction', '_fetchGeoNames'), ('parsing and clean-up', 'Cities.fromGeoNames')],
     observe=['resulting data frame', 'temporary directory'])

prop('C20', 'Flat HDF container: reads return the latest stored value',
     'After any sequence of stores, drops, closes and reopenings of dictionaries, lists, arrays (with metadata), '
     'strings and data frames, each getter returns the value last stored under that name and kind, each listing is '
     'exactly the set of stored names of that kind, and a missing, dropped or already stored name is refused with an '
     'error that changes nothing. '
     'What was stored when close() returned is all there after a crash and reload, and values handed in or out can be '
     'modified without changing the container, including the order, labels, column types, exact numbers and times of data '
     'frames of numbers, texts, truth values and times. A created container is empty, whatever the file held before, and '
     'loading a file that does not exist raises and creates none.',
     ['histories', 'crash_points', 'inputs'],
     'all operation histories over all kinds and names, closes, crashes after close and reopenings, all values in the '
     'supported types',
     'Each test stores a few fixed values once and reads them back in one or two sessions.',
     ['impactutils/io/container.py'],
     [('typed groups of datasets', 'HDFContainer.set*/get*/drop*')],
     observe=['getters and listings', 'the file after close'])

prop('C21', 'Grouped HDF container: reads return the latest stored value',
     'The same for the hierarchical container: after any history of stores, drops, closes and reopenings, under any '
     'nesting of sub-groups, a getter returns the last value stored at that path, listings contain exactly the stored '
     'paths, and missing, dropped or already stored paths are refused with an error that changes nothing. '
     'Entries of different kinds, groups and names never affect one another, and a created container is empty.',
     ['histories', 'crash_points', 'inputs'],
     'all operation histories over kinds, group paths and names, closes, crashes after close and reopenings',
     'Each test stores a few fixed values once and reads them back.',
     ['impactutils/io/smcontainers.py'],
     [('nested groups of datasets', 'HDFContainerBase')],
     observe=['getters and listings', 'the file after close'])

prop('C22', 'A store that fails leaves the HDF containers as they were',
     'When storing an object fails because the value is not storable or has the wrong type, the container still holds '
     'exactly what it held before: the previous value of a replaceable item is kept, listings gain no name, and the '
     'file is not committed to a data type. '
     'When it fails because the storage layer reports an error, the error reaches the caller, and all other entries '
     'are still intact and readable, also after closing and reloading; a read that fails raises too.',
     ['fault_sequences', 'histories'],
     'every failing store in every history: bad values of every kind, a storage error at any internal step',
     'No test makes a store fail and then looks at the container.',
     ['impactutils/io/smcontainers.py', 'impactutils/io/container.py'],
     [('validation before change', 'set* methods of ShakeMapContainerBase and HDFContainerBase')],
     observe=['getters and listings before and after', 'exception'])

prop('C23', 'ShakeMap output file: grid or points, and IMTs read back exactly',
     'A ShakeMap output container is either a grid or a points file from its first accepted intensity layer on, over '
     'all later sessions; storing or asking for the other kind is refused and changes nothing. '
     'Each stored intensity measure is read back with exactly its arrays and metadata for its component, the listings '
     'of measures and components are exactly the stored pairs, and dropping a measure removes it from all components '
     'and nothing else. '
     'Configuration, rupture, station, version-history and metadata dictionaries read back as last set.',
     ['histories', 'crash_points', 'inputs'],
     'all histories of stores, replacements, drops, closes, crashes after close and reopenings, both data types',
     'Tests store two layers in one order and one mismatch.',
     ['impactutils/io/smcontainers.py'],
     [('data type guard', 'ShakeMapOutputContainer.setDataType'), ('IMT groups', 'setIMTGrids/setIMTArrays/dropIMT')],
     observe=['getters and listings', 'the file after close'])

prop('C24', 'Product writers: what was written reads back, write errors are raised',
     'When saving a rupture (GeoJSON or text file), an origin event file or a city table returns, the whole content is '
     'in the target file or stream and reading it back gives the same object data, to the precision of the format '
     '(text files four decimals, event files their documented digits and whole seconds). '
     'If the disk fails or is full at any point of the write, including at the final flush, the caller is told (an '
     'exception; for the event file the returned error message), and input objects are never changed by writing.',
     ['fault_sequences', 'inputs'],
     'all short writes, disk errors and full disks at any write or close, all ruptures and tables of the workload',
     'Tests write once to a healthy temporary file.',
     ['impactutils/rupture/base.py', 'impactutils/rupture/quad_rupture.py', 'impactutils/rupture/origin.py',
      'impactutils/mapping/city.py'],
     [('file writing', 'Rupture.writeGeoJson / writeTextFile / write_event_file / Cities.save')],
     observe=['target file', 'exception'])

prop('C25', 'Concurrent use of computational objects gives the sequential results',
     'Computing distances, GC2 coordinates, colours, elapsed times, time-zone conversions, text or city selections, or '
     'making ruptures from arrays, from several threads, on '
     'shared or separate ruptures, origins, palettes, time-zone rasters and city tables, gives each caller exactly the result the same '
     'call gives alone, and no call changes an input array or an object another caller reads. '
     'Repeating a call on the same object gives the same result whatever was called in between, on this or another '
     'object. Arrays, quadrilaterals, distance contexts and data frames that a call hands out stay what they are and are '
     "the caller's own: changing them changes no later result.",
     ['schedules', 'histories'],
     'all interleavings of calls by several threads at source-line granularity, and all call orders',
     'All tests are single-threaded and call each method once or twice.',
     ['impactutils/rupture/', 'impactutils/colors/cpalette.py', 'impactutils/mapping/city.py',
      'impactutils/time/timeutils.py'],
     [('no shared mutable state; copies of inputs', 'rupture, origin, palette and city classes')],
     observe=['results of every call'])

prop('C26', 'Elapsed-time strings match the clock for every reading',
     'For every start time and every reading of the system clock at or after it, the elapsed-time string names the '
     'exact whole weeks/days/hours/minutes/seconds in the two longest applicable units with correct plurals, reading '
     'the clock as UTC. '
     'If the clock reads earlier than the start (it was set back), it raises rather than reporting a time.',
     ['inputs', 'fault_sequences'],
     'all start times, clock readings, clock jumps and drift between successive calls',
     'The test uses a handful of explicit time pairs and never the system clock.',
     ['impactutils/time/timeutils.py'],
     [('clock reading and decomposition', 'ElapsedTime.getElapsedString/getTimeElapsed')],
     observe=['returned string', 'exception'])

prop('C27', 'Data files are read as one whole version, or the call raises',
     'Reading a rupture file (GeoJSON or text, either column order, UTF-8 or Latin-1), an event file with or without a '
     'source file, a colour palette file, a city table (CSV or GeoNames) or a time-zone raster gives exactly what the '
     'file holds: every segment and vertex (those of a text file from the top edge on), the reference, every field, colour, row and cell, however the system splits '
     'the reads. '
     'If opening or reading fails at any point, or the file is missing, the call raises; it never returns partial, default '
     'or earlier data. '
     'If another process replaces the file by renaming during the call, the result is exactly what the old or exactly '
     'what the new file holds, never a mixture, and the next call returns what is there then. '
     'Reading leaves all files, and the origin given with a rupture file, as they were.',
     ['inputs', 'fault_sequences', 'schedules', 'histories'],
     'all file contents of the workload, all failing or short reads, all instants of a replacement or removal of the file, '
     'all histories of replacing and reading',
     'Tests read healthy files that nobody else touches, each once.',
     ['impactutils/rupture/factory.py', 'impactutils/rupture/edge_rupture.py', 'impactutils/rupture/quad_rupture.py',
      'impactutils/rupture/origin.py', 'impactutils/colors/cpalette.py', 'impactutils/mapping/city.py',
      'impactutils/time/timeutils.py'],
     [('format detection and parsing', 'get_rupture / text_to_json'),
      ('event and source files', 'read_event_file / read_source / Origin.fromFile'),
      ('tables, palettes, rasters', 'Cities.fromCSV / fromGeoNames / ColorPalette.fromFile / TimeConversion.read_tiff')],
     observe=['returned object', 'exception', 'files'])

# --- properties this family cannot decide -----------------------------------
NA = {}


def na(id, title, statement, files, mech, reason, why):
    prop(id, title, statement, ['inputs'], 'all inputs of the functions', why, files, mech)
    NA[id] = reason


PURE = ('Pure function of its arguments: no schedule, clock, I/O, fault or other party for a simulator to control, so '
        'simulation could only relabel input generation. ')

na('N01', 'Rupture distances are exact geometric minima',
   'Rjb, Rrup, Rx, Ry0 and the other rupture distances are the true minimum distances between each site and the '
   'rupture, consistent with each other (Rjb never exceeds Rrup) for every rupture and site.',
   ['impactutils/rupture/distance.py', 'impactutils/rupture/quad_rupture.py', 'impactutils/rupture/edge_rupture.py'],
   [('distance computation', 'get_distance and Rupture.compute*')],
   PURE + '(Its independence from concurrent use is covered by C25.)',
   'Tests compare fixed cases with stored numbers.')
na('N02', 'Point-source distance corrections stay within their bounds',
   'Distances adjusted for point sources are finite, non-negative and between the extremes of the underlying tables for '
   'every magnitude, depth, mechanism and tectonic region.',
   ['impactutils/rupture/point_rupture.py'],
   [('table interpolation', 'PointRupture.computeRrup/computeRjb')], PURE,
   'Tests compare fixed cases with stored numbers.')
na('N03', 'Rupture construction accepts exactly valid geometries',
   'Reading a rupture from GeoJSON, text or arrays accepts every valid geometry, keeps its vertices and order, and '
   'rejects invalid ones with the documented exception.',
   ['impactutils/rupture/factory.py', 'impactutils/rupture/quad_rupture.py'],
   [('validation', 'get_rupture / rupture_from_dict / validate_json')], PURE,
   'Tests try a fixed set of files.')
na('N04', 'ECEF and vector conversions are inverse to each other',
   'Converting coordinates to Earth-centred form and back returns the original within numerical tolerance, and vector '
   'operations satisfy their algebraic identities.',
   ['impactutils/vectorutils/ecef.py', 'impactutils/vectorutils/vector.py'],
   [('conversion formulas', 'latlon2ecef / ecef2latlon / Vector')], PURE,
   'Tests check a few points.')
na('N05', 'Colour palettes interpolate monotonically between their anchors',
   'A palette maps every data value to the colour interpolated between the neighbouring anchors, and values outside '
   'the range to the end colours.',
   ['impactutils/colors/cpalette.py'],
   [('interpolation', 'ColorPalette.getDataColor')], PURE + '(Concurrent use is covered by C25.)',
   'Tests check a few values.')
na('N06', 'Number formatting rounds and separates correctly',
   'Rounding and thousands formatting of numbers is correct for every magnitude and precision.',
   ['impactutils/textformat/text.py'],
   [('formatting', 'pop_round / round_to_nearest / commify and others')], PURE,
   'Tests check a few values.')
na('N07', 'City selections return exactly the matching cities',
   'Limiting cities by bounds, radius, population, grid or name returns exactly the cities that satisfy the '
   'criterion.',
   ['impactutils/mapping/city.py'],
   [('filters', 'Cities.limitBy*')], PURE + '(Concurrent use is covered by C25.)',
   'Tests check a few data sets, some missing here.')
na('N08', 'Local time matches the zone containing the point',
   'The local time returned for a UTC time and a location is the one of the time zone containing that location, with '
   'nautical time as fall-back.',
   ['impactutils/time/timeutils.py'],
   [('zone lookup', 'LocalTime / LocalTimeNE / TimeConversion')],
   PURE + 'It reads only bundled, read-only data files, and with the installed pyproj the lookups raise on the '
   'unchanged tree (their tests are in the failing baseline).',
   'Their tests fail in this environment.')
na('N09', 'Map labels and scale bars do not overlap or leave the map',
   'City labels placed on a map do not collide with each other or the map edge, and scale bars have the stated length.',
   ['impactutils/mapping/mapcity.py', 'impactutils/mapping/scalebar.py', 'impactutils/mapping/mercatormap.py'],
   [('layout', 'MapCities.renderToMap / draw_scale')], PURE + 'cartopy data needed for it is not installed either.',
   'Their tests fail in this environment.')
na('N10', 'Historic times convert, compare and format like ordinary times',
   'Dates before year 1900 or 1 parse, format and subtract consistently with ordinary dates.',
   ['impactutils/time/ancient_time.py'],
   [('time arithmetic', 'HistoricTime')], PURE, 'Tests check a few dates.')
na('N11', 'Origins are read exactly from valid event files',
   'An origin read from an event file has exactly the attributes in the file, out-of-range or missing ones are refused '
   'with the documented exception.',
   ['impactutils/rupture/origin.py'],
   [('parsing and validation', 'read_event_file / Origin.__init__')], PURE +
   '(Its write/read round trip under disk faults is part of C24.)', 'Tests check a few files.')
