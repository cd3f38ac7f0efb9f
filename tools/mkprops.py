import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("W01","Every well-formed frame is decoded to exactly what was encoded",
"Decoding a well-formed WebSocket frame yields exactly the FIN and RSV bits, opcode, masking state and payload bytes that the sender encoded and consumes exactly the bytes of that frame, for every opcode, masking key and payload length (including both sides of each length-encoding boundary) and wherever the frame sits in the receive buffer. Frames placed back to back in one buffer decode one after another to the same sequence. The result is the same on every CPU-specific implementation (scalar, SSE, AVX2, AVX-512) of the unmasking code.",
["inputs"],"for all frame headers, masking keys, payload lengths 0..several MiB, payload contents, buffer alignments and sequences of frames",
"The unit tests decode about two dozen hand-made frames of a few fixed lengths at offset 0 in one CPU variant; unmasking has vector, word and byte tails whose bugs show only at particular lengths, offsets and keys.",
["src/frame.c","include/frame.h"],[("WSS_parse_frame","src/frame.c"),("unmask (per-CPU variants)","src/frame.c")],None,["fields of the returned frame and the advanced offset"])

p("W02","Decoding hostile or truncated frame bytes is safe and claims nothing unreceived",
"For every byte string, including truncated frames and frames declaring lengths up to 2^64-1, decoding never reads or writes outside the received bytes, never crashes, and never produces a payload that was not received. A frame of which only a part has arrived is reported as incomplete; it becomes complete exactly when its last byte arrives. A client sending such bytes can at most lose its own connection.",
["inputs"],"for all byte strings and all cut points of valid frames",
"The tests only pass complete frames plus a few truncations; memory safety over all declared lengths and cut points cannot be sampled by fixed vectors.",
["src/frame.c","src/worker.c"],[("WSS_parse_frame bounds handling","src/frame.c"),("WSS_read framing loop","src/worker.c")],None,["return value, offset and header fields of the decoder","AddressSanitizer"])

p("W03","A message is serialised to frames any RFC 6455 peer decodes to the same message",
"Whatever message is sent, the emitted bytes are decodable by an independent RFC 6455 decoder to the same opcode and payload: only the first frame carries the opcode and later ones are continuations, only the last has FIN, no frame payload exceeds the configured frame size, nothing is masked and lengths use the shortest encoding. Close frames carry the 2-byte status code in network order followed by a reason that fits a control frame.",
["inputs","configurations"],"for all opcodes, message lengths and contents, frame-size and frame-count limits, and close codes",
"Tests check frame counts and lengths for a few messages and never decode the serialised bytes with an independent decoder, nor look at opcodes of continuation frames.",
["src/frame.c","src/message.c"],[("WSS_create_frames","src/frame.c"),("WSS_stringify_frame(s)","src/frame.c"),("WSS_closing_frame / WSS_ping_frame / WSS_pong_frame","src/frame.c")],None,["bytes of the serialised frames"])

p("W04","UTF-8 validation accepts exactly the well-formed UTF-8 strings",
"A byte string is accepted as text if and only if it is well-formed UTF-8 as defined by Unicode (no overlong forms, surrogates, code points above U+10FFFF, stray or missing continuation bytes), whatever its length and wherever in the string a defect sits. The verdict depends only on the given bytes, not on alignment, on neighbouring memory or on which CPU-specific implementation is compiled in.",
["inputs"],"for all byte strings of any length, at any alignment, in every compiled variant",
"Tests check short fixed strings; the vectorised validators carry state between 16/32/64-byte blocks, and errors straddling a block edge or at the tail need generated positions.",
["src/utf8.c"],[("utf8_check (scalar, SSE4, AVX2 variants)","src/utf8.c")],None,["boolean verdict"])

p("H01","An accepted handshake answers with exactly the right 101 response",
"A valid opening request is answered with a 101 response whose accept token is base64(SHA-1(key + GUID)) of the client's key, with the Upgrade and Connection fields, at most one subprotocol that the client offered and the server has loaded (the client's order decides), and no extension the client did not offer. The response is well-formed HTTP that ends at its blank line: the next byte on the connection is the first byte of the first WebSocket frame. Header-name and token case, header order and unrelated headers do not change the outcome.",
["inputs","configurations"],"for all valid opening requests (keys, header orders, letter case, extra headers, protocol and extension lists) and loaded protocols",
"The tests call the upgrade code with a handful of fixed requests and never look at the bytes on the wire.",
["src/header.c","src/worker.c","src/sha1.c","src/b64.c"],[("WSS_parse_header / WSS_upgrade_header","src/header.c"),("generate_handshake_response / handshake_response","src/worker.c")],None,["bytes received by the client"])

p("H02","Opening requests are admitted or refused exactly as configured",
"A connection is upgraded only if the request is a GET over HTTP/1.1 whose path, query, host and origin match the configured allow-lists (an empty list of hosts or origins allows any; with no list of hosts, paths and queries every path is allowed, otherwise a path other than / and a query need a matching entry), whose upgrade, connection, version and key fields are valid and not duplicated where duplicates are forbidden, and whose sizes are within the configured limits. Every other request is refused with the matching HTTP status (400, 403, 404, 405, 413, 414, 426, 431, 501 or 505), and no byte sent by a refused client is ever treated as a WebSocket message.",
["inputs","configurations"],"for all opening requests that deviate in any combination of fields from a valid one, under all allow-lists and size limits",
"Tests cover single deviations with one configuration at the parser level; the combination of configuration and request is an input-space property.",
["src/header.c","src/worker.c","src/config.c","src/server.c"],[("WSS_parse_header","src/header.c"),("WSS_upgrade_header","src/header.c"),("allow-list regular expression","src/server.c")],None,["status line of the response","subsequent bytes on the connection"])

p("H03","Parsing a hostile opening request is memory-safe and bounded",
"For every byte string received as an opening request, parsing and answering it never reads or writes outside that request, never dereferences missing values, never hangs, and always yields either an upgrade or an HTTP refusal. Fields without a value, repeated or empty fields, lists made only of separators, and requests cut at any byte are all covered by this.",
["inputs"],"for all byte strings and all mutations of valid requests",
"Tests feed well-formed requests and a few malformed ones without a sanitizer; the parser tokenises in place with many pointer hand-offs.",
["src/header.c","src/subprotocols.c","src/extensions.c"],[("WSS_parse_header","src/header.c"),("WSS_upgrade_header","src/header.c")],None,["AddressSanitizer","returned status"])

p("H04","The opening handshake does not depend on how TCP splits the request",
"However an opening request is cut into TCP segments, at whatever byte positions and pauses shorter than the read and client timeouts, the server gives the same response as when it arrives in one piece. WebSocket frames the client sends after the handshake are served in the same way.",
["inputs","schedules"],"for all requests and all ways to cut them into segments",
"Every existing test hands the parser the complete request in one buffer.",
["src/worker.c","src/header.c","src/event.c"],[("WSS_handshake read loop","src/worker.c"),("epoll re-arm","src/event.c")],None,["response bytes"])

p("H05","HTTP refusals, support page and favicon are well-formed and leak no memory",
"Every non-upgrade HTTP answer (error page, upgrade-required page and favicon) is one complete HTTP/1.1 response: the right status line, a Content-Length equal to the bytes of the body that follow, and nothing after it, so that further requests on the same connection are answered in the same way. The favicon body equals the configured file byte for byte, and no answer contains bytes that are not derived from the request or the configuration.",
["inputs","configurations"],"for all refused requests, favicon files (including empty ones) and sequences of requests",
"No test performs an HTTP exchange with the server; response assembly is only exercised by hand.",
["src/worker.c","src/http.c"],[("upgrade_response / http_response / favicon_response","src/worker.c")],None,["bytes received until the connection closes"])

p("M01","Messages reach the application and are echoed back byte for byte, in order",
"Every valid text or binary message a client sends, of any size up to the limits, fragmented in any way, interleaved with control frames and pipelined with other messages, is delivered exactly once, complete and in order; with the echo protocol the client receives exactly the same sequence of messages with the same type and bytes. What the server sends is itself a valid frame sequence.",
["inputs","histories"],"for all sequences of messages, fragmentations, interleaved control frames and pipelining depths",
"Unit tests never drive a session through the read path; only the external Autobahn suite (not part of the tests) touches it.",
["src/worker.c","src/frame.c","src/message.c","subprotocols/echo/echo.c"],[("WSS_read","src/worker.c"),("WSS_message_send(_frames)","src/message.c, src/worker.c"),("WSS_write","src/worker.c")],[("session ring buffer","messages queued to be written")],["frames received by the client"])

p("M02","Pings are answered, pongs ignored, and close handshakes completed",
"Every ping is answered by a pong with the identical payload, in order and also in the middle of a fragmented message; pongs are never answered. A valid close frame is answered by one close frame with the same status code, no later input is processed, all messages completed before it are still answered first, and the connection is then closed by the server.",
["inputs","histories"],"for all control payloads, close codes and reasons and all positions in a message stream",
"No test exchanges control frames with a running session.",
["src/worker.c","src/frame.c"],[("WSS_read control-frame handling","src/worker.c"),("WSS_pong_frame, WSS_closing_frame","src/frame.c")],None,["frames received by the client","end of connection"])

p("M03","Protocol violations fail the connection with the right close code",
"A client that breaks RFC 6455 (unmasked frame, reserved bits without a negotiated extension, unknown opcode, fragmented or oversized control frame, continuation without a start, new data message inside a fragmented one, malformed close payload or code) receives a close frame with code 1002 or 1003 for the unknown opcode, and 1007 for text or close reasons that are not UTF-8; the connection then ends. Valid messages that arrived before the violation are still answered, nothing after it is, and an input that breaks no rule is never failed.",
["inputs","histories"],"for all kinds of violation at any position in a stream of valid frames",
"Rejection paths run only inside the server's read loop, which no test enters.",
["src/worker.c","src/frame.c","src/utf8.c"],[("WSS_read checks","src/worker.c"),("WSS_validate_frames","src/worker.c")],None,["close code received and end of connection"])

p("M04","Configured size limits are enforced exactly at the boundary",
"A frame whose payload is exactly the configured maximum frame size, a message of exactly the configured maximum number of fragments, and a request exactly at the configured header, URI or payload limits are accepted; one unit more is refused with close code 1009 (frames) or the matching HTTP status (requests). The verdict on a frame needs only its header: the server never waits for or stores the body of a frame declared over the limit.",
["configurations","inputs"],"for all limits and all inputs on either side of the boundary",
"Tests use default limits only and no input near a boundary.",
["src/worker.c","src/header.c","src/config.c"],[("size_frame / max_frames checks in WSS_read","src/worker.c"),("header, uri and payload limits","src/header.c")],None,["close code or status"])

p("M05","Server behaviour does not depend on how TCP splits the frame stream",
"For any byte stream of client frames, valid or not, the sequence of frames the server answers with is the same however the stream is cut into TCP segments. In particular every complete message is answered without waiting for later bytes to arrive.",
["inputs","schedules"],"for all frame streams and all segmentations of them",
"Segmentation is a schedule of read sizes that the unit tests do not model at all.",
["src/worker.c"],[("WSS_read partial-frame handling","src/worker.c"),("session->payload stash","include/session.h")],[("session->payload / payload_size","bytes of an incomplete frame kept for the next read")],["frames received by the client"])

p("B01","Broadcast reaches every other client exactly once, intact and in order",
"With the broadcast protocol every message is delivered exactly once and unmodified to every other client that is connected for the whole exchange, and never to its sender; messages of one sender arrive in the order sent. This holds whatever number of clients send concurrently and while others connect and disconnect.",
["schedules","histories"],"for all interleavings of concurrent senders, receivers, joins and leaves",
"No test opens more than one session at a time; delivery runs through a lock-free queue written by several worker threads.",
["subprotocols/broadcast/broadcast.c","src/worker.c","src/message.c","src/ringbuf.c"],[("WSS_message_send_frames","src/message.c"),("broadcast onMessage","subprotocols/broadcast/broadcast.c")],[("per-session ring buffer","messages awaiting delivery")],["messages received by each client"])

p("B02","A slow or stalled reader loses nothing and harms nobody",
"When a client stops reading, messages for it are buffered up to the configured queue size and, once it resumes, it receives every message whole, in order and without corruption, interleaving or duplication, however the kernel splits the writes; if the queue overflows it is disconnected instead of silently missing messages. Meanwhile every other client keeps being served.",
["schedules","histories"],"for all patterns of stalled and resumed readers and partial writes",
"Partial writes and EAGAIN depend on socket buffers being full, which the tests never provoke.",
["src/worker.c","src/message.c","src/ringbuf.c"],[("WSS_write partial-write resume","src/worker.c"),("session->written","include/session.h")],[("session->written","bytes of the current message already sent")],["byte stream received after the stall","service to other clients"])

p("X01","permessage-deflate negotiation answers only valid, requested parameters",
"For any list of extension offers the response contains permessage-deflate at most once and only if it was offered in a form the server accepts, every parameter in it has a legal value and is consistent with the accepted offer, what that offer leaves to the server is as the extension is configured, and offers with unknown, duplicate or malformed parameters are declined rather than half-applied. A declined offer leaves a working uncompressed connection.",
["inputs"],"for all Sec-WebSocket-Extensions values, valid or not, in one or several header fields",
"Tests load the extension but negotiate only a couple of offers.",
["extensions/permessage-deflate/permessage-deflate.c","src/header.c","src/extensions.c"],[("onOpen parameter parsing","extensions/permessage-deflate/permessage-deflate.c"),("extension selection","src/header.c")],None,["Sec-WebSocket-Extensions of the response","behaviour of the session afterwards"])

p("X02","Compressed sessions deliver the same messages as uncompressed ones",
"On a connection with permessage-deflate every message, compressed or not, fragmented or not, of any size including empty, over any history of earlier messages and any accepted context-takeover and window parameters, is delivered and echoed with exactly the same bytes. What the server sends is decodable by an independent zlib decoder honouring the negotiated parameters, with RSV1 set only on the first frame of compressed data messages.",
["inputs","histories","configurations"],"for all message histories and negotiated parameter sets",
"No test runs a compressed session; context takeover makes correctness a property of the entire history.",
["extensions/permessage-deflate/permessage-deflate.c","src/worker.c"],[("inFrames / outFrames","extensions/permessage-deflate/permessage-deflate.c")],[("per-connection z_streams","sliding windows shared between messages")],["messages received by the client"])

p("X03","Malformed compressed data fails only that connection",
"A compressed message that is not valid DEFLATE data, is truncated, or refers to data that was never sent never crashes the server, corrupts memory or is delivered as if it were a message. The offending connection is closed with an error code and other connections are unaffected.",
["inputs"],"for all byte strings sent as compressed payloads",
"No test feeds damaged compressed data.",
["extensions/permessage-deflate/permessage-deflate.c","src/worker.c"],[("inflate error handling","extensions/permessage-deflate/permessage-deflate.c")],None,["server liveness","frames received by the offending client"])

p("R01","No client can crash the server, disturb other clients or leak resources",
"Whatever bytes a client sends before, during or after the handshake and however it disconnects (normally, abruptly, mid-handshake, mid-message), the server keeps running and other clients keep getting correct service. After the client is gone its descriptor and session are released, and a later connection that reuses the same descriptor sees none of its data or state.",
["histories","inputs","fault_sequences"],"for all sequences of hostile, abrupt and well-behaved connections",
"Needs histories of connections against a live server; tests run isolated functions.",
["src/worker.c","src/server.c","src/session.c","src/event.c"],[("WSS_disconnect / session_delete","src/worker.c, src/session.c"),("descriptor-keyed session table","src/session.c")],[("session table","state per open descriptor")],["liveness probe, descriptor count, answers to other clients"])

p("R02","Concurrent clients never deadlock or starve the server",
"Under any interleaving of clients connecting, sending, reading, stalling and disconnecting, with any number of workers, every request of a live client is eventually answered: no combination of client behaviour leaves a worker blocked for ever or a connection permanently unserved.",
["schedules","histories"],"for all interleavings of concurrent client actions and worker counts",
"Deadlocks and lost wake-ups depend on schedules of several worker threads; tests are single threaded at this level.",
["src/worker.c","src/event.c","src/session.c","src/message.c","src/pool.c"],[("session lock, job counter and state machine","src/session.c, src/worker.c"),("EPOLLONESHOT re-arm","src/event.c")],[("session state and event","which worker may touch a session and what it waits for")],["answers within a bounded time after load"])

p("R03","Idle clients are pinged and timed out as configured, active ones never",
"A client that stays silent is sent the configured number of pings spread over the configured client timeout and is disconnected when that timeout passes without activity (to the granularity of one ping interval); a client that keeps sending (including just pongs) is not disconnected. With the timeout disabled nobody is pinged or disconnected for being idle, and a ping never lands inside another frame.",
["configurations","schedules"],"for all timeout and ping settings and activity patterns",
"Needs real time on live connections with varied configurations.",
["src/server.c","src/worker.c"],[("cleanup thread","src/server.c")],None,["pings and close frames received, and when"])

p("R04","Shutdown is complete and orderly",
"On an interrupt signal, whatever the clients are doing, the server stops accepting, closes every connection (what a client received until then is a valid prefix of its session) and exits with success within bounded time. No memory error occurs on the way, and the port can be bound again.",
["schedules","histories"],"for all states of clients and in-flight work at the moment of the signal",
"No test stops a server with live sessions.",
["src/server.c","src/main.c","src/session.c","src/pool.c"],[("server_stop / cleanup","src/server.c"),("WSS_session_delete_all","src/session.c")],None,["exit status, exit time, last frames seen by clients"])

p("R05","TLS connections behave exactly like plain ones",
"The same client behaviour over TLS yields the same responses, messages and close codes as over plain TCP, whatever the record and segment boundaries and message sizes. Garbage, truncated or aborted TLS handshakes affect only their own connection, however many there are.",
["inputs","histories","schedules"],"for all client scripts, record splits and failed handshakes",
"No test opens a TLS connection.",
["src/ssl.c","src/worker.c"],[("WSS_ssl_handshake / read / write","src/ssl.c")],None,["decrypted stream compared with the plain one"])

p("R06","Running out of memory harms no one but the connection concerned",
"If the memory that serving a connection takes (accepting it, its request, answering, receiving, assembling, echoing, compressing, broadcasting) cannot be allocated, the server neither crashes nor deadlocks, and each client concerned is either served completely and correctly or disconnected, having got nothing but a correct part of what it should have got: no client is left waiting, silently misses a message or gets a corrupted one. Everybody else is served, new clients are served once memory is available again, and nothing of clients that are gone remains allocated. (Not meant: allocations of the event loop and of the server's tables, without which the server ends itself.)",
["fault_sequences","histories","schedules"],"for all places and moments at which allocations fail, for all client histories",
"No test makes an allocation fail while a server runs.",
["src/worker.c","src/message.c","src/frame.c","src/header.c","extensions/permessage-deflate/permessage-deflate.c"],[("WSS_connect / handshake / WSS_read","src/worker.c"),("WSS_message_send_frames","src/message.c"),("WSS_parse_header","src/header.c")],None,["what clients receive while allocations of src/alloc.c are refused; heap and descriptors"])

p("R07","A server that cannot start says so and stops, one that starts is complete",
"If something the server needs to start is missing (a port in use or not permitted, a system call that sets up sockets, pipes or polling failing, a thread that cannot be created, a certificate, key, CA or DH file that is missing, damaged or does not fit, a pattern that does not compile, memory), main() returns with a failing exit status within bounded time, all its threads ended, without a memory error or a foreign descriptor closed, even if clients have connected to the port that already worked. A server that starts in spite of it admits nobody the configuration excludes. An interrupt at any moment of the start ends the server with success.",
["fault_sequences","schedules"],"for all single missing resources, all moments of an interrupt, all schedules and early clients",
"Tests start servers only where everything is available.",
["src/server.c","src/http.c","src/ssl.c","src/socket.c","src/event.c","src/pool.c"],[("WSS_server_start","src/server.c"),("WSS_http_server","src/http.c"),("WSS_http_ssl","src/ssl.c"),("WSS_poll_init","src/event.c")],None,["exit status, threads that still run, sanitizer report, answers to requests that must be refused"])

p("C01","Configuration is loaded faithfully",
"Every setting present (once, with a value of its type and range) in a valid configuration file has exactly the given value when the server starts, every absent one keeps its default, and list settings keep their elements and order, whatever the order of keys, white space, comments, string escapes or unknown members. Every host is also allowed together with each port in use. A file that is missing, is not JSON, is not an object or leaves no port keeps the server from starting with a failure exit status; no configuration text, valid or not, causes memory errors, leaks or leaves the configuration unusable for release.",
["configurations","inputs"],"for all configuration documents, valid or damaged",
"Tests load three fixed files.",
["src/config.c","src/json.c"],[("WSS_config_load","src/config.c")],None,["loaded values"])

p("C02","The JSON parser agrees with the JSON standard and is memory-safe",
"Every valid JSON document is parsed to exactly the values, nesting and order it denotes (including escapes, Unicode escapes and numbers; numbers too large for a 64-bit integer become floating-point ones, accurate to a relative error of 1e-12). Text that is not JSON is rejected with an error message, except for the forms the parser tolerates as extensions: comments where they are enabled, a trailing comma, unknown escapes, raw control characters and unpaired surrogates in strings, a minus sign without digits, and anything after a NUL byte, which ends the text. No byte string causes a memory error or a leak after release.",
["inputs"],"for all JSON documents and all byte strings",
"Only the configuration files in the repository are ever parsed by tests.",
["src/json.c","include/json.h"],[("json_parse_ex","src/json.c")],None,["value tree compared with a reference parser"])

p("K01","SHA-1 and base64 match their standards for every input",
"The SHA-1 digest of any byte string, fed in one piece or in any partition of pieces, equals the standard's; base64 encoding equals RFC 4648 and decoding it gives back the original bytes. Neither touches memory outside its arguments.",
["inputs"],"for all byte strings and all partitions",
"Tests compare a few fixed vectors.",
["src/sha1.c","src/b64.c"],[("SHA1Input / SHA1Result","src/sha1.c"),("b64_encode / b64_decode","src/b64.c")],None,["digest and encoded strings"])

p("D01","The message queue neither loses, duplicates, reorders nor corrupts entries",
"Under any interleaving of several producers and one consumer, every entry whose production was reported successful is consumed exactly once, entries of one producer in its order, and no slot is handed out twice or before it has been filled. A full queue refuses instead of overwriting, and free capacity is usable again after consumption, over any number of wrap-arounds.",
["schedules","histories"],"for all operation sequences, ring sizes and producer/consumer interleavings",
"Tests run a few fixed sequences; the structure is lock-free and its bugs are schedule and wrap-around dependent.",
["src/ringbuf.c","include/ringbuf.h"],[("ringbuf_acquire / produce / consume / release","src/ringbuf.c")],[("next, end, written, seen offsets","ring positions with wrap lock bits")],["offsets and bytes returned"])

p("D02","The thread pool runs every accepted job exactly once and shuts down cleanly",
"Every job the pool accepts is run exactly once by one of its threads, also under concurrent submission from many threads and during a graceful shutdown; a job is refused only when the queue is full or the pool is shutting down, with the matching error. Shutdown terminates: a graceful one after all accepted jobs, an immediate one after those running.",
["schedules","histories","configurations"],"for all thread counts, queue sizes, submission patterns and shutdown moments",
"Tests use a few fixed sizes without racing shutdown against submission.",
["src/pool.c","include/pool.h"],[("threadpool_add / threadpool_destroy","src/pool.c")],[("circular task queue","head, tail and count")],["job execution counts and return codes"])

p("D03","The session table is a faithful map from descriptors to sessions",
"After any sequence of additions, lookups and removals by any threads, looking up a descriptor gives the session added for it and not yet removed, with the same address and port, and nothing otherwise; adding a descriptor that is present is refused, and removing one that is absent changes nothing. Iteration visits each live session exactly once, and bulk deletion leaves the table empty with no leak.",
["histories","schedules"],"for all sequences and interleavings of table operations",
"Tests perform a few single-threaded steps.",
["src/session.c","include/session.h"],[("WSS_session_add / find / delete / all","src/session.c")],[("hash table of sessions","guarded by a read-write lock")],["returned sessions"])

p("D04","The allocation and string helpers behave like their C library counterparts",
"Any sequence of allocations, reallocations, copies and releases gives zero-initialised where promised, disjoint, suitably aligned memory that keeps its contents until released, preserving the common prefix on resize; a request too large to satisfy or of overflowing size yields no memory instead of a short block. The string helpers give the exact hexadecimal form, search result and file contents for any input.",
["histories","inputs"],"for all sequences of allocator calls and all strings",
"Tests make a handful of calls.",
["src/alloc.c","src/str.c","src/rpmalloc.c"],[("WSS_malloc / WSS_calloc / WSS_realloc / WSS_copy","src/alloc.c"),("strload, strinarray","src/str.c")],None,["contents of returned memory"])

p("S01","Subprotocol plugins see a consistent life cycle for each connection",
"A subprotocol is notified of a connection once, after it was selected and with the peer's address, port, path and cookies, before any message of it; then of each data message exactly once with its exact opcode, bytes and length; then of its end exactly once, after which nothing more arrives for it. Messages it sends for a connection are delivered.",
["histories","schedules"],"for all client behaviours from connect to disconnect, alone and concurrently",
"The tests' subprotocols are not run inside live connections.",
["src/worker.c","src/session.c","src/subprotocols.c","include/subprotocols.h"],[("connect / message / write / close callbacks","src/worker.c")],None,["call log of a recording subprotocol"])

p("S02","Extensions are applied to exactly the connections that negotiated them, in order",
"An extension's hooks run for a connection only if it was negotiated there: outgoing messages pass through the negotiated extensions in their order, incoming ones in the reverse order (RFC 6455 section 9.1), each hook exactly once per data frame and per message, and never two at once for the same direction. Its open hook is asked for each offer until it accepts one, its close hook runs exactly once for each connection that it accepted, also if the opening request is refused in the end. What the hooks make of the frames is what the application and the client see; connections without the extension are untouched.",
["histories","configurations"],"for all sets of loaded and offered extensions and all frame histories",
"No test runs extension hooks inside a connection.",
["src/worker.c","src/header.c","src/extensions.c","include/extensions.h"],[("open / inframe(s) / outframe(s) / close hooks","src/worker.c, src/header.c")],None,["call log of a recording extension and the bytes on the wire"])

p("S03","Plug-ins that can be used are loaded, all others are skipped",
"Of the configured subprotocols and extensions exactly those are usable whose file can be loaded and defines every function of its interface; each is known by its file name up to the first dot. Every other entry is skipped: none of its functions is called and neither the server nor the other plug-ins are affected. A usable plug-in is given the allocators and then initialised once, with its configuration text (or none) before any client is served, used only by the clients that negotiated it by its name, and destroyed once at shutdown. A client for which no subprotocol is available is refused with an HTTP status.",
["configurations","histories"],"for all lists of plug-in files, usable or not, and all offers of clients",
"The tests load fixed lists and never start a server; whether an unusable file has an effect on the others depends on the list.",
["src/subprotocols.c","src/extensions.c","src/header.c","src/worker.c"],[("WSS_load_subprotocols","src/subprotocols.c"),("WSS_load_extensions","src/extensions.c")],None,["call log of generated plug-ins, handshake responses and echoes"])

p("E01","The poll back end serves as the epoll back end does",
"Built with USE_POLL instead of epoll, the server gives the same guarantees: every complete message is answered exactly once and in order, broadcasts reach every client, a client that stops reading harms nobody and gets what is queued once it reads on, resources of clients that are gone are released, idle clients time out and are pinged as configured, subprotocols see a consistent life cycle, a full job queue loses nothing, and SIGINT ends the server completely. No descriptor is used after it was closed, and a descriptor number that is used again never gets events of its former connection.",
["histories","schedules"],"for all client histories and interleavings of the poll loop with the workers",
"The test suite is built for epoll and starts no server; the poll back end shares an unlocked event array between threads and is woken through a pipe.",
["src/event.c","include/event.h","src/server.c"],[("WSS_poll_delegate and rearm pipe (WSS_POLL)","src/event.c"),("WSS_poll_set_read / set_write / remove (WSS_POLL)","src/event.c")],[("events array","indexed by descriptor, shared by all threads")],["bytes received by clients","open descriptors and memory"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
print(len(P))
