T_SAN = "ASan+UBSan monitored execution of hostile workloads"
N_SAN = "Everything explored ran on the real code, rebuilt from /repo, under ASan/UBSan; absence of an alarm covers the executions of the run, not all inputs. "

p("P01", "No byte stream from a client corrupts memory, crashes or hangs the server",
  "For every sequence of bytes arriving on a connection, however it is cut into segments and whatever size limits are configured, request intake never reads or writes memory it does not own, never executes undefined behaviour, aborts or loops forever. It always ends by running the handler, refusing the request or waiting for more data.",
  ["inputs", "configurations"], "all byte streams, all segmentations, all limit settings",
  "The tests feed a few dozen well-formed requests in one or a few pieces; memory errors need particular lengths, truncations and cuts.",
  ["src/onion/request_parser.c", "src/onion/request.c", "src/onion/codecs.c", "src/onion/http.c"],
  [("bounded token buffer", "src/onion/request_parser.c token_read_*"), ("bounded multipart buffer", "src/onion/request_parser.c prepare_POST")],
  T_SAN, N_SAN + "Streams: generated requests mutated with a protocol dictionary, token soup, noise, over-long tokens; 8 segmentation styles.",
  observe=["listen point read/write callbacks", "handler call"])

p("P02", "How request bytes are cut into segments never changes the outcome",
  "For one request, the way its bytes are split into network reads (one byte at a time, between CR and LF, inside a boundary or an escape) never changes whether it is accepted, refused or still incomplete, nor any value the handler sees.",
  ["inputs", "schedules"], "all streams holding one request, all segmentations of each",
  "Tests use one or two segmentations; the parser keeps state across reads in many places.",
  ["src/onion/request_parser.c", "src/onion/http.c"],
  [("resumable parser state", "src/onion/request_parser.c onion_request_write and parser functions")],
  "differential monitor: whole delivery vs segmented deliveries of the same bytes", N_SAN + "For short requests all two-segment cuts are enumerated; others sampled.",
  observe=["handler-visible request", "connection status"])

p("P03", "Request line, query, headers and cookies reach the handler exactly as sent",
  "For every valid request the handler sees the method, the decoded path, every query pair, every header (including repeated and folded ones, looked up in any letter case) and every cookie exactly as the client encoded them, and nothing else. A lookup of a name that was not sent yields nothing.",
  ["inputs"], "all valid request heads, any encoding choices, repeated names, CRLF or LF",
  "Tests check a handful of fixed requests.",
  ["src/onion/request_parser.c", "src/onion/request.c", "src/onion/codecs.c", "src/onion/dict.c"],
  [("query decoding", "src/onion/request_parser.c onion_request_parse_query_to_dict"), ("header dict, case-insensitive", "src/onion/request.c"), ("cookie split", "src/onion/request.c onion_request_get_cookies_dict")],
  "generated-request oracle over handler dumps, under ASan+UBSan", N_SAN + "Oracle is the generator's own record of what it encoded.", observe=["request getters inside a handler"])

p("P04", "Request bodies reach the handler complete and unchanged, or not at all",
  "For every valid request, url-encoded fields, multipart fields, uploaded files, raw bodies and PUT contents are delivered to the handler byte for byte, whatever they contain (near-boundaries, bare line ends, NULs in files) and however they arrive. If an upload cannot be stored completely the request is refused rather than delivered truncated.",
  ["inputs", "fault_sequences"], "all valid bodies and segmentations; temporary file creation or writes failing or writing short at any point",
  "Tests post a few fixed bodies and never fail storage.",
  ["src/onion/request_parser.c"],
  [("multipart state machine", "src/onion/request_parser.c parse_POST_multipart_*"), ("PUT to temporary file", "src/onion/request_parser.c parse_PUT")],
  "generated-body oracle plus injected storage faults, under ASan+UBSan", N_SAN + "mkstemp/write are wrapped at link time to inject faults on the library's temporary files only.",
  observe=["POST/FILES dictionaries, body data and temporary files inside a handler"])

p("P05", "Configured size limits bound what a client can make the server take in",
  "A body larger than the configured post limit, or files larger in total than the configured file limit, never reach the handler; bodies within both limits do. At no time does a request make the server store more file bytes than the file limit or hold more memory than the post limit plus an amount proportional to what the client really sent, whatever length the client claims.",
  ["inputs", "configurations"], "all limits, bodies around and over them, all claimed lengths",
  "Tests check one oversize case per kind.",
  ["src/onion/request_parser.c", "src/onion/onion.c"],
  [("limit checks", "src/onion/request_parser.c prepare_POST, prepare_PUT, prepare_CONTENT_LENGTH, parse_POST_multipart_file")],
  "boundary-value workload with storage and peak-heap monitors", N_SAN + "File bytes counted in the wrapped write(); heap peak from allocator hooks.",
  observe=["handler call", "bytes written to temporary files", "peak heap"])

p("P06", "Wherever a connection ends, its memory, files and descriptors are released",
  "Whatever byte a connection is cut at, whether a request was refused, failed to store, failed to answer or was served any number of times, once the connection ends the server holds no memory, descriptor or temporary file for it. The transport is closed exactly once.",
  ["crash_points", "fault_sequences", "inputs"], "every cut position of every request, with storage and write faults",
  "Tests never cut uploads half way and do not account for resources.",
  ["src/onion/request.c", "src/onion/request_parser.c", "src/onion/response.c"],
  [("request teardown", "src/onion/request.c onion_request_free/onion_request_clean"), ("parser teardown", "src/onion/request_parser.c onion_request_parser_data_free")],
  "cut-point enumeration with heap, descriptor and temp-file accounting monitors", N_SAN + "Heap balance by sanitizer allocation hooks around every case.",
  level="fault_enumeration", observe=["allocator", "/proc/self/fd", "temporary files"])

p("P07", "Every response is well-formed HTTP and frames exactly what the handler wrote",
  "For every sequence of status, header and content writes by a handler, the bytes sent are one well-formed response with that status, exactly those headers and a body, delimited by length, chunks or close, equal to what was written; HEAD gets the headers and no body. Content written through the HTML-safe call can never introduce markup.",
  ["inputs", "programs"], "all handler write sequences and sizes, methods, versions and connection options",
  "Tests check two short responses; buffering, chunking and header emission depend on sizes and order.",
  ["src/onion/response.c", "src/onion/handler.c", "src/onion/request.c"],
  [("delayed headers and buffer", "src/onion/response.c onion_response_flush"), ("framing choice", "src/onion/response.c onion_response_write_headers")],
  "strict client-side response parser as online monitor over generated handler scripts", N_SAN, observe=["bytes handed to the transport"])

p("P08", "Short or failed writes never corrupt what the client receives",
  "If the transport accepts only part of each write, the client still receives exactly the same bytes. If a write fails, what was delivered is a prefix of the correct response, nothing more is sent for it and the connection is not reused.",
  ["fault_sequences"], "every transport write partially accepted or failing, for all responses",
  "Tests never inject write faults.",
  ["src/onion/response.c"],
  [("write loop", "src/onion/response.c write_all/onion_response_flush")],
  "fault enumeration over transport writes against a fault-free reference run", N_SAN, level="fault_enumeration", observe=["bytes handed to the transport", "connection status"])

p("P09", "Requests sharing a connection are isolated and it is reused only when safe",
  "On a persistent connection every request is seen by its handler exactly as if it had come alone: no header, field, file, body, path or cookie of an earlier request shows. The connection stays open after a response only if the client asked for it and the response told the client where it ends; otherwise it is closed, and a reusable connection is not dropped.",
  ["histories", "inputs"], "all sequences of requests and responses on a connection",
  "Tests do a couple of keep-alive requests with identical shape.",
  ["src/onion/request.c", "src/onion/response.c"],
  [("request reset", "src/onion/request.c onion_request_clean"), ("reuse decision", "src/onion/response.c onion_response_free, onion_request_keep_alive")],
  "history monitor over multi-request connections with per-request oracles", N_SAN, observe=["handler dumps", "connection status"])

p("P10", "Handlers are chosen by the configured routes and results map to statuses",
  "A request is handled by the first handler, in registration order, whose route matches its path, which sees exactly the remaining path and the captured groups; the others do not run. A handler result of not-processed by all, forbidden, not implemented or internal error gives the client 404, 403, 501 or 500.",
  ["configurations", "inputs"], "all route tables (nested, static, regular expression, path handlers) and paths",
  "Tests try a few fixed tables.",
  ["src/onion/url.c", "src/onion/handler.c", "src/onion/handlers/path.c", "src/onion/handlers/static.c", "src/onion/request.c", "src/onion/onion.c"],
  [("url dispatch", "src/onion/url.c onion_url_handler"), ("handler chain", "src/onion/handler.c onion_handler_handle"), ("error handler", "src/onion/onion.c onion_default_error")],
  "reference dispatcher as online monitor over generated route tables", N_SAN, observe=["which handler ran, with what path and captures", "status"])

p("P11", "Concurrent clients each get exactly their own responses",
  "With any number of clients connected at once, in every server mode, each request is handled exactly once and its client receives exactly the response computed for it, complete and unmixed. Serving concurrently is free of data races.",
  ["schedules"], "all interleavings of concurrent connections, modes and thread counts",
  "Tests use one or two sequential clients.",
  ["src/onion/onion.c", "src/onion/poller.c", "src/onion/listen_point.c", "src/onion/request.c", "src/onion/response.c"],
  [("poller one-shot dispatch", "src/onion/poller.c"), ("thread pool", "src/onion/onion.c onion_listen")],
  "exactly-once log checker over concurrent socket clients; ThreadSanitizer", "Schedules are those the stress run produced (threads, delays, bursts); TSan sees races on executed paths.", observe=["client sockets", "handler log"])

p("P12", "Listening, stopping and timeouts: sockets open and close when they should",
  "After listening starts the configured address accepts connections; after stop, from any thread, signal or handler, listening returns and the port is closed, and the server can listen again or be freed; once stopped and freed, every connection, thread, descriptor and memory block is released. A connection idle longer than the configured timeout is closed, and one that keeps within it is not.",
  ["schedules", "histories"], "all stop moments relative to accepts, requests and idle connections; repeated cycles",
  "Tests stop an idle server once or twice.",
  ["src/onion/onion.c", "src/onion/listen_point.c", "src/onion/poller.c"],
  [("listen loop", "src/onion/onion.c onion_listen/onion_listen_stop"), ("timeouts", "src/onion/poller.c")],
  "lifecycle stress with socket, descriptor and heap monitors, ASan and TSan", "Timing claims are checked with wide margins.", observe=["connect results", "descriptors", "client sockets"])

p("P13", "The poller delivers every event once, honours timeouts and frees every slot",
  "A registered descriptor that becomes ready has its callback run, never by two threads at once, until the callback asks to stop, its peer hangs up, it is removed or it times out; then its shutdown function runs exactly once. With nothing to do, polling threads sleep. A descriptor idle for its timeout is shut down, not earlier and not while active. No descriptor is called after it was removed while idle or by its own callback, and no slot is leaked, for any interleaving of add, remove, events, polling threads and stop.",
  ["schedules", "histories"], "all interleavings of registration, readiness, removal, timeouts and polling threads",
  "Tests never use the poller directly or with several threads.",
  ["src/onion/poller.c"],
  [("slot list and epoll one-shot", "src/onion/poller.c onion_poller_poll")],
  "event-log checker over stressed poller runs, TSan and ASan", "Stress schedules, not enumeration.", observe=["callbacks and shutdowns, logged with thread and time"])

p("P14", "A dictionary behaves as an ordered map for every history of operations",
  "For every history of add, replace, remove, lookup, merge, copy and traversal, with or without duplicated keys, case folding, nested dictionaries and memory ownership flags, a dictionary returns what an ordered map would and visits keys in order. Every key and value it owns is freed exactly once and none it does not own is touched.",
  ["histories"], "all operation histories and ownership flags",
  "Tests run a few fixed histories.",
  ["src/onion/dict.c"],
  [("AA tree", "src/onion/dict.c"), ("ownership flags", "src/onion/dict.c onion_dict_node_data_free")],
  "model-based history checker with heap accounting, under ASan+UBSan", N_SAN, observe=["dict API results, traversal order, allocator"])

p("P15", "A dictionary shared between threads stays consistent",
  "When threads hold a dictionary through their own references and lock around use, every thread sees a consistent map, its contents live until the last reference goes and are then freed once, whatever the interleaving of duplication, use and release.",
  ["schedules"], "all interleavings of reference duplication, locked use and release",
  "The existing threaded test runs one pattern without race detection.",
  ["src/onion/dict.c"],
  [("reference count", "src/onion/dict.c onion_dict_dup/onion_dict_free"), ("lock", "src/onion/dict.c onion_dict_lock_*")],
  "ThreadSanitizer and conservation log over stress", "Stress schedules under TSan, heap balance under ASan.", observe=["allocator, per-thread results"])

p("P16", "JSON: what is written reads back the same, and no input is unsafe",
  "Every dictionary of strings and nested dictionaries, with any characters, is written as valid JSON with that content and reads back equal. Any text given to the JSON reader is either read with the values it denotes or rejected, and never causes a memory error or a leak.",
  ["inputs"], "all dictionaries, all texts",
  "Tests parse a few fixed documents.",
  ["src/onion/dict.c", "src/onion/codecs.c"],
  [("JSON writer/reader", "src/onion/dict.c onion_dict_to_json/onion_dict_from_json"), ("string escapes", "src/onion/codecs.c onion_json_*")],
  "round-trip and independent-parser oracle under ASan+UBSan", N_SAN + "Independent parser: Python's json.", observe=["JSON text", "dict contents"])

p("P17", "Codecs invert each other, agree with their standards and stay in bounds",
  "For every byte string, base64, URL, HTML, C and JSON encodings and SHA-1 give the standard result, decoding an encoding gives back the original, and decoding any text never reads or writes out of bounds.",
  ["inputs"], "all byte strings and texts, all buffer sizes",
  "Tests check a few strings.",
  ["src/onion/codecs.c"],
  [("codecs", "src/onion/codecs.c")],
  "reference-implementation oracle (Python) under ASan+UBSan", N_SAN, observe=["codec results"])

p("P18", "Blocks and pointer lists hold exactly what was added to them",
  "For every sequence of additions, clears and rewinds, a block's contents and size are exactly the concatenation of what was added, it is always NUL-terminated where exposed as text, and growth never loses or leaks data. For every sequence of additions, removals and filters a pointer list holds exactly the pointers left, newest first, and its elements are released once.",
  ["histories"], "all operation sequences and sizes",
  "Tests use a few fixed sizes.",
  ["src/onion/block.c", "src/onion/ptr_list.c"], [("growth", "src/onion/block.c onion_block_min_maxsize")],
  "model-based history checker under ASan+UBSan", N_SAN, observe=["block contents"])

p("P19", "Session data follows the client and only the client",
  "What a handler stores in a session is exactly what later requests carrying that session's cookie read, until it is changed or removed, in every backend; a request without it, or with an unknown, forged or removed id, never sees it and gets a fresh id. Ids are distinct, long and not chosen by the client.",
  ["histories", "inputs"], "all histories of requests, cookies and session operations, all backends",
  "Tests follow one session through two requests.",
  ["src/onion/sessions.c", "src/onion/sessions_mem.c", "src/onion/sessions_sqlite3.c", "src/onion/sessions_redis.c", "src/onion/request.c", "src/onion/response.c"],
  [("session lookup and save", "src/onion/request.c onion_request_get_session_dict"), ("backends", "src/onion/sessions_*.c")],
  "model-based history checker over multi-client session histories", N_SAN, observe=["session values read by handlers", "Set-Cookie"])

p("P20", "Concurrent use of sessions is safe and loses nothing",
  "Requests of many clients creating, reading, changing and removing sessions concurrently never corrupt memory, never mix sessions and never lose a stored session, whatever the interleaving.",
  ["schedules"], "all interleavings of session operations by concurrent requests",
  "Tests are single threaded.",
  ["src/onion/sessions_mem.c", "src/onion/sessions_sqlite3.c", "src/onion/dict.c"],
  [("session store", "src/onion/sessions_mem.c")],
  "TSan stress plus per-session conservation log", "Stress schedules.", observe=["values read by each client thread"])

p("P21", "WebSocket messages arrive intact and in order, and every frame sent is valid",
  "After a valid handshake, answered with the accept key the standard defines, every client message of any size, masked or fragmented and however cut into reads, reaches the callback intact and in order, and everything the server writes arrives as valid frames with that content. Pings are answered, close is honoured, and no frame sequence causes memory errors or endless loops.",
  ["inputs", "schedules"], "all frame sequences, sizes, segmentations, read sizes",
  "Tests send a few small frames.",
  ["src/onion/websocket.c"],
  [("frame reader and writer", "src/onion/websocket.c")],
  "independent RFC 6455 client as oracle over an in-memory transport, under ASan+UBSan", N_SAN, observe=["callback data", "frames on the transport"])

p("P22", "Served files: exact content, correct ranges and validators",
  "A file served in response to a request arrives byte for byte with its length and type; a valid byte range gives exactly those bytes and says so; an unsatisfiable or malformed one never gives other bytes under a partial status; a matching validator gives not-modified. HEAD gives the same headers and no body.",
  ["inputs", "fault_sequences"], "all file sizes, range and validator headers",
  "Tests check one or two ranges.",
  ["src/onion/shortcuts.c", "src/onion/mime.c"],
  [("file response", "src/onion/shortcuts.c onion_shortcut_response_file")],
  "reference range oracle over generated files and headers, under ASan+UBSan", N_SAN, observe=["response bytes"])

p("P23", "Exported directories never serve anything outside them",
  "For every request path (any encoding, dots, doubled slashes, symlinks, names around the length limits) an exported directory serves only files inside it, and every file inside it can be fetched. Directory listings name exactly the entries and cannot inject markup.",
  ["inputs", "configurations"], "all paths, trees and file names",
  "Tests try a couple of fixed names.",
  ["src/onion/handlers/exportlocal.c", "src/onion/shortcuts.c"],
  [("path containment", "src/onion/handlers/exportlocal.c onion_handler_export_local_handler")],
  "containment monitor on opened paths plus content oracle over hostile trees", N_SAN + "Runs on scratch trees holding only scratch secrets.", observe=["files opened", "response bytes"])

p("P24", "WebDAV changes exactly what was asked, and nothing outside its directory",
  "Every WebDAV request (put, delete, make collection, move, property query) has on the exported tree exactly the effect its method, path and destination ask for, or none and an error status. No path or destination, however encoded, lets it read, create, move or delete anything outside the exported directory.",
  ["inputs", "histories"], "all request histories, paths and destinations",
  "The tests only run a WebDAV server by hand.",
  ["src/onion/handlers/webdav.c"],
  [("path containment", "src/onion/handlers/webdav.c"), ("method dispatch", "src/onion/handlers/webdav.c onion_webdav_handler")],
  "filesystem-effect monitor against a model tree, destructive calls recorded by stand-ins", N_SAN + "unlink/rename/rmdir/mkdir are wrapped: anything outside the scratch tree is recorded and not executed.", observe=["filesystem calls", "tree contents", "status"])

p("P25", "Protected handlers run only for authenticated requests",
  "A handler behind HTTP authentication runs only for requests whose decoded credentials the authentication service it was given accepted, or that carry the session of a client which that service accepted before, and the user it sees is that one; every other request, however malformed its credentials, gets an authentication challenge and no protected content. No credentials cause a memory error.",
  ["inputs"], "all authorization headers and service answers",
  "Tests cannot use PAM.",
  ["src/onion/handlers/auth_pam.c"],
  [("credential check", "src/onion/handlers/auth_pam.c")],
  "gate monitor with a stand-in authentication service, under ASan+UBSan", N_SAN + "PAM replaced by a recording stand-in at link time.", observe=["protected handler calls", "service calls", "status"])

p("P26", "Templates render their variables, loops and conditions, escaped",
  "For every template the compiler accepts and every data dictionary, the rendered output is the template's text with variables replaced by their values (HTML-escaped), loops repeated per element in key order, conditions honoured, and includes, blocks and inheritance resolved. Compilation never corrupts the text, never crashes on any template, fails when it cannot do its work, and keeps every compiled template declared once in the assets header.",
  ["programs", "inputs"], "all templates and dictionaries",
  "Tests render three fixed templates.",
  ["tools/otemplate/parser.c", "tools/otemplate/tags.c", "tools/otemplate/variables.c", "tools/otemplate/otemplate.c"],
  [("template compiler", "tools/otemplate")],
  "translation monitor: compile, build and run generated templates against a reference renderer", N_SAN, observe=["rendered output"])

p("P27", "Packed assets are served exactly as they were packed",
  "For every set of files and directories, the packer produces code that compiles and whose handlers serve each file's exact bytes, length and type under its path and leave the connection usable, and do not serve anything else.",
  ["inputs"], "all file contents, names and trees",
  "A test packs a fixed tree.",
  ["tools/opack/opack.c", "src/onion/handlers/opack.c"],
  [("packer", "tools/opack/opack.c")],
  "round-trip monitor: pack, compile, serve and compare", N_SAN, observe=["served bytes"])

p("P28", "The C++ bindings expose the same behaviour and own their objects safely",
  "Through the C++ API, requests, responses, dictionaries, URLs and handlers behave as through the C API; objects may be copied, moved, reassigned and outlive each other as C++ values without leaks, double frees or dangling access.",
  ["programs", "histories"], "all sequences of C++ object operations",
  "Tests use a few straight-line programs without memory checking.",
  ["src/bindings/cpp"],
  [("wrappers", "src/bindings/cpp/*.hpp, *.cpp")],
  "model-based history checker with heap accounting under ASan+UBSan", N_SAN, observe=["C++ API results", "allocator"])

p("P29", "Serving over TLS delivers the same bytes as serving in clear",
  "Over a TLS listen point every request, response and websocket message of any size, in whatever records, is exchanged exactly as in clear, for concurrent clients and whatever signals the program gets, and the handler is told that the connection is secure. A client that is silent, or stays connected after its answer, never delays the others, and one that stalls in the middle of the handshake or of a record does for no longer than the server's timeout. A failed or abandoned handshake, a corrupted record or a client that does not talk TLS gets no content and leaves nothing behind. That TLS can not be initialized is reported.",
  ["inputs", "schedules"], "all request/response sizes, clients, handshake failures",
  "Tests do no TLS traffic.",
  ["src/onion/https.c"],
  [("TLS transport", "src/onion/https.c")],
  "end-to-end differential monitor with TLS and hostile clients, under ASan", "Independent TLS client: Python ssl (OpenSSL).", observe=["client bytes", "descriptors, heap"])

p("P30", "Every cookie set on a response reaches the client intact",
  "Every cookie a handler adds, alone or with others, is sent with exactly its name, value and the requested path, domain, expiry and flags; one too long to be sent is refused and reported, leaving the response intact. The session cookie is sent exactly when the session has data.",
  ["inputs"], "all cookies, lengths and combinations",
  "Tests set one cookie at a time.",
  ["src/onion/response.c"],
  [("cookie formatting", "src/onion/response.c onion_response_add_cookie")],
  "client-side cookie parser oracle under ASan+UBSan", N_SAN, observe=["Set-Cookie headers"])

p("P31", "MIME types are looked up consistently, also concurrently",
  "For every file name the MIME type returned is the one configured for its extension, or the default one, whether asked first, later or from several threads at once.",
  ["inputs", "schedules"], "all names, dictionaries and concurrent first uses",
  "Tests look up a few names from one thread.",
  ["src/onion/mime.c"],
  [("lazy table", "src/onion/mime.c onion_mime_fill")],
  "table oracle plus TSan on concurrent first use", "Stress schedules for the concurrent part.", observe=["lookup results"])

p("P32", "A request completed later from another thread is answered in full, once",
  "When a handler yields its request to be finished elsewhere, the response written by the other thread reaches that client exactly as a direct response would, once, while other clients keep being served and whatever the order in which the handler returns and the other thread finishes.",
  ["schedules"], "all interleavings of yield and completion",
  "No test covers it.",
  ["src/onion/request.c", "src/onion/handler.c", "src/onion/poller.c", "src/onion/response.c"],
  [("yield", "src/onion/request.c onion_request_process")],
  "exactly-once log checker over stressed long-poll completions, ASan", "Stress schedules with injected delays.", observe=["client sockets"])

p("P33", "Memory and threads go through the functions the application provides",
  "When an application gives the library its own allocation and thread functions, every block the library obtained from them is resized and released through them and nothing else is ever given to them, for every request, session, file, websocket or error path; every thread the server starts is created with them and joined with them.",
  ["inputs", "histories"], "all uses of the library with installed low-level functions",
  "The tests run with the default allocator, where crossing allocators goes unnoticed.",
  ["src/onion/low.c", "src/onion/request.c", "src/onion/dict.c", "src/onion/codecs.c", "src/onion/sessions.c", "src/onion/onion.c", "src/onion/handlers"],
  [("wrappers", "src/onion/low.c")],
  "tagged application allocator monitored by ASan under the workloads of the other properties; counted thread functions", "Workloads of the other properties at reduced size.", observe=["allocator calls"])
p("P34", "Shortcut responses say exactly what the handler asked for",
  "A text, redirect or JSON shortcut sends that status, exactly those headers, a length and that text, location or dictionary, whatever its size and content, and releases what it was given; an internal redirection gives the client what asking for the new path would have given, also when the new path comes from the request itself. Dates are written as the HTTP and ISO standards define for every time.",
  ["inputs"], "all texts, headers, urls, dictionaries and times",
  "Tests check a few.",
  ["src/onion/shortcuts.c", "src/onion/response.c", "src/onion/url.c"],
  [("shortcuts", "src/onion/shortcuts.c")],
  "strict HTTP client and calendar model over the shortcuts' output, ASan+UBSan", "Sampled inputs.", observe=["response bytes"])
p("P35", "A server told to drop its privileges never serves with them",
  "When a user was set, the listening sockets are opened with the privileges the program has, and before any connection is accepted the whole process, with all its threads, has exactly that user's uid, gid and groups, without a way back. If the user does not exist or any step of the change fails, listening ends with an error and nothing is served. Listening again after a stop keeps serving as that user.",
  ["configurations", "fault_sequences", "schedules"], "all users, server modes, starting identities, failing steps",
  "No test sets a user.",
  ["src/onion/onion.c"],
  [("drop before serving", "src/onion/onion.c onion_set_user, onion_listen")],
  "identity of process and threads, as the kernel reports it, monitored at each bind, accept and handler of real servers, with injected failures of the identity calls", "Sampled users and modes; every failing step.", level="fault_enumeration", observe=["/proc/self/task/*/status, getres[ug]id, getgroups", "bind, accept4, set*id, initgroups"])

p("P36", "A server is what it was configured to be, for as long as it lives",
  "Whatever the order of the configuration calls, starts, stops and restarts: a server listens at each of its listen points that can be opened and nowhere else (in the one-at-a-time modes it answers at the first of them), reports an error when it can open none, answers there with its protocol, current root and error handler, and gives the user data that was set; the getters return what was set. Idle connections end after the timeout set, 5 s by default. A stop, by call or by signal, closes them all. Signal dispositions change only as the flags say. User data, handlers, sockets and memory are released exactly once, at their replacement or with the server, and no socket is inherited by executed programs.",
  ["configurations", "histories"], "all configurations, histories of calls and lives of a server",
  "Tests configure a few servers, once each.",
  ["src/onion/onion.c", "src/onion/listen_point.c", "src/onion/handler.c", "src/onion/url.c"],
  [("listen points", "src/onion/onion.c onion_add_listen_point, onion_listen; src/onion/listen_point.c onion_listen_point_listen"), ("release", "src/onion/onion.c onion_free")],
  "model-based monitor of configured, started, probed, stopped and freed servers, with descriptor, heap, free-callback and signal-disposition accounting, under ASan+UBSan", N_SAN + "IPv4 loopback only.", observe=["answers and refusals at each address", "return values", "frees", "descriptors", "signal dispositions"])
