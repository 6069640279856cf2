#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

S = "src/reactor/"
prop("C01", "A byte buffer always equals the byte sequence its edits describe",
     "After every in-range reserve, resize, insert, fill-insert, erase, compact or clear, the buffer's content equals the result of the same edit on an abstract byte sequence (bytes gained by growing with resize are unspecified), its reported size is that sequence's length and its capacity is never smaller. No operation reads or writes outside the buffer's own storage and the given source range, and storage is released exactly once.",
     ["inputs", "histories"], "Every well-formed buffer state (any content, size and capacity below 2^62), every in-range position, length, fill count and source content, and hence every history of operations.",
     "test/buffer.c performs a handful of edits on 3-20 byte buffers with sizes that never hit capacity boundaries in combination with interior positions; the tests cannot enumerate sizes, positions and growth histories.",
     [S+"buffer.c", S+"buffer.h"], [("capacity growth", S+"buffer.c:buffer_reserve"), ("gap opening/closing by memmove", S+"buffer.c:buffer_insert, buffer_insert_fill, buffer_erase")],
     [("size/capacity", "bytes in use / bytes allocated", S+"buffer.h")], ["buffer_data", "buffer_size", "buffer_capacity"])
prop("C02", "A vector always equals the element sequence its edits describe",
     "After every in-range insert, range insert, fill insert, erase, range erase, push, pop, reserve, shrink or clear, the vector holds exactly the elements of the edited abstract sequence in order, for any element size. Every removed element is passed to the release callback exactly once, in order and with its value intact, and no other element is.",
     ["inputs", "histories"], "Every element size, every well-formed vector, every in-range position and range, every element content.",
     "test/vector.c uses one element size (int) and short fixed scripts; boundary conditions depend on position, count, capacity and element size jointly.",
     [S+"vector.c", S+"vector.h", S+"buffer.c"], [("element/byte scaling", S+"vector.c"), ("release before erase", S+"vector.c:vector_erase_range, vector_erase")],
     [], ["vector_at", "vector_size", "release callback"])
prop("C03", "A linked list is always its edited sequence, in both directions",
     "After every push, insert, splice (including across lists and onto itself), erase or clear, walking a list forward and walking it backward both visit exactly the elements of the edited abstract sequence, and each element keeps its address and content for as long as it is in a list. Every erased element is passed to the release callback exactly once, in list order, while still intact and its memory is then freed exactly once; search returns the first element the comparison accepts and none when there is none.",
     ["inputs", "histories"], "Every list length, every position, every pair of lists, every object size and content, every comparison function.",
     "test/list.c checks one three-element script; link corruption shows only for particular neighbour configurations and histories.",
     [S+"list.c", S+"list.h"], [("double links with sentinel", S+"list.c:list_insert, list_splice, list_erase")], [], ["list_next", "list_previous", "list_find"])
prop("C04", "The integer-keyed map is a finite map for any keys and collisions",
     "For non-zero keys, after every history of insert, erase, reserve and clear, looking up a key returns the value stored by the insert that introduced it if it is present and zero otherwise, and the reported size is the number of keys present; lookups always terminate. Insert of a present key changes nothing and releases the offered entry exactly once; erase and clear release exactly the removed entries once each, with their key and value intact.",
     ["inputs", "histories"], "Every set of keys and every collision pattern (the proof treats the hash as an arbitrary function), every capacity, every history including growth and deletions that wrap around the table end.",
     "test/mapi.c inserts sequential integers; the deletion back-shift and growth logic depends on the relative hash positions of neighbouring entries and wrap-around, which such keys rarely exercise.",
     [S+"map.c", S+"mapi.c", S+"mapi.h", S+"map.h"], [("open addressing with linear probing", S+"map.c:map_at"), ("load factor at most one half", S+"map.c:map_reserve"), ("back-shift deletion", S+"map.c:map_erase")],
     [("elements_count/elements_capacity", "occupied slots / table size", S+"map.h")], ["mapi_at", "mapi_size", "release callback"])
prop("C05", "The string-keyed map is a finite map over key contents",
     "After every history of insert, erase, reserve and clear, looking up a string returns the value stored by the insert that introduced an equal-content key if present and zero otherwise, whatever the addresses of the key strings, and the reported size is the number of distinct keys present; lookups always terminate. Insert of a present key changes nothing and releases the offered entry exactly once; erase and clear release exactly the removed entries once each, intact.",
     ["inputs", "histories"], "Every set of key strings and every collision pattern, every capacity, every history.",
     "test/maps.c inserts a few formatted integers; collisions between live keys, wrap-around and content-equal keys at different addresses in a full cluster are not sampled.",
     [S+"map.c", S+"maps.c", S+"maps.h"], [("content equality and hash", S+"maps.c:equal, hash"), ("back-shift deletion", S+"map.c:map_erase")], [], ["maps_at", "maps_size", "release callback"])
prop("C06", "Strings equal their edited text, stay terminated, and free exactly once",
     "After every in-range insert, append, prepend, erase or resize, a string's bytes equal the edited abstract text (bytes gained by growing with resize are unspecified, binary content included), its size is the text's length, its capacity is no smaller, and a zero byte follows the last character. The shared empty string is never modified or freed, every other string is freed exactly once by free, and no operation touches memory outside the string and the given data.",
     ["inputs", "histories"], "Every string content including embedded zero bytes, every size/capacity relation, every in-range position and source data.",
     "test/string.c checks short literals; growth, termination and ownership interact with arbitrary sizes and offsets.",
     [S+"string.c", S+"string.h"], [("header before the characters", S+"string.c:string_header"), ("shared null object", S+"string.c:string_null_object, string_allocate, string_free"), ("termination", S+"string.c:string_resize")],
     [("size/capacity header", "length and allocation of the string", S+"string.c")], ["string_data", "string_size", "string_equal"])
prop("C07", "String search and replacement equal their mathematical definition",
     "Searching returns the first occurrence at or after the given position, or nothing when there is none or the pattern is empty. Replacing the first occurrence, or all non-overlapping occurrences scanned from the left, yields exactly the text with those occurrences substituted and every other byte unchanged, and never rescans inserted text.",
     ["inputs"], "Every text, pattern and replacement (empty, overlapping, self-containing, longer or shorter than the pattern), every start position up to the size.",
     "test/string.c tries two or three literals; termination and the scan position matter for patterns contained in their replacement, adjacent matches and matches at the end.",
     [S+"string.c"], [("first match by memmem", S+"string.c:string_find_at_data"), ("scan position advance", S+"string.c:string_replace_all_data")], [], ["string_replace_data", "string_replace_all_data", "string_find_data"])
prop("C08", "String file I/O transfers every byte exactly once under short transfers",
     "Reading a descriptor until end of file yields exactly the concatenation of the bytes it delivered, and writing a string delivers exactly its bytes in order, however the kernel splits the transfers. Saving to an existing file makes a later load of it return exactly that string, failure to open is reported without creating a file, and no descriptor is leaked.",
     ["inputs", "fault_sequences"], "Every string, every sequence of positive short reads and writes the kernel may choose, every previous file content.",
     "test/string.c writes to /dev/null and reads small files, where every transfer completes at once; short writes never occur in it.",
     [S+"string.c"], [("read loop", S+"string.c:string_read"), ("write loop", S+"string.c:string_write"), ("open flags", S+"string.c:string_save, string_load")], [], ["read/write/open/close system calls"])
prop("C09", "Data slices denote exactly the described bytes",
     "Constructing, selecting, consuming and measuring slices yields exactly the described address range; equality and prefix tests hold exactly when the bytes agree, whatever the contents and alignment. Pushing slices and bytes through a write cursor stores exactly those bytes consecutively and advances the cursor by exactly their length, without touching any other memory.",
     ["inputs"], "Every pair of slices, including empty, overlapping and binary ones, every offset and size in range.",
     "test/data.c and test/pointer.c use a few literals; equality is a statement about all contents and lengths.",
     [S+"data.c", S+"pointer.c"], [("length check before memcmp", S+"data.c:data_equal, data_prefix"), ("cursor advance", S+"pointer.c")], [], ["data_equal", "data_prefix", "pointer_push"])
prop("C10", "Decimal formatting is exact for every 32-bit value",
     "For every unsigned 32-bit value the reported length is the number of decimal digits without leading zeros, and formatting stores exactly those digits, most significant first, in exactly that many bytes (plus one terminating zero for the terminated variant). No other byte is written.",
     ["inputs"], "All 2^32 values.",
     "test/utility.c samples a few values; digit-count boundaries and table lookups are value specific.",
     [S+"utility.c"], [("digit count", S+"utility.c:utility_u32_len"), ("two digits at a time", S+"utility.c:utility_u32_sprint")], [], ["utility_u32_len", "utility_u32_sprint", "utility_u32_toa"])
prop("C11", "Hashing depends only on, and reads only, the hashed bytes",
     "Hashing a byte range reads no memory outside that range and equal contents always hash equally, whatever their address, alignment or surrounding bytes; hashing a string hashes exactly the characters before its terminator. Hashing a 64-bit integer never maps two different integers to the same value.",
     ["inputs"], "Every length (including 0, the 16/32/64 byte class boundaries and beyond) and content; all 64-bit integers.",
     "test/hash.c compares a few reference values; an over-read or dependence on outside bytes shows only at particular lengths.",
     [S+"hash.c"], [("length classes", S+"hash.c:cfarmhash"), ("64 byte blocks and tail", S+"hash.c:cfarmhash"), ("invertible mixing", S+"hash.c:hash_uint64")], [], ["hash_data", "hash_string", "hash_uint64"])
prop("C12", "Parsing HTTP messages never touches memory outside the given input",
     "For every input of every length, parsing a request or a response reads only bytes inside the input, writes only the result arguments and at most the given number of header entries, never modifies the input and always terminates. On success every returned slice lies inside the consumed part of the input and the consumed length is between 1 and the input length.",
     ["inputs"], "Every byte sequence of every length an allocation can have (below 2^56), every header capacity.",
     "test/http.c feeds a handful of well-formed messages; out-of-range reads need truncation at particular bytes.",
     ["src/picohttpparser/picohttpparser.c", S+"http.c"], [("end checks", "src/picohttpparser/picohttpparser.c:CHECK_EOF"), ("header capacity check", "src/picohttpparser/picohttpparser.c:parse_headers")], [], ["http_read_request", "http_read_response"])
prop("C13", "An accepted HTTP message is parsed into its exact parts",
     "When a request or response is accepted, method, target, status code, reason, field names and field values are exactly the substrings the HTTP/1.x grammar assigns (names up to the colon and made of token characters, values without surrounding blanks, lines ended by LF with an optional preceding CR, an empty line ending the header), fields are returned in order and counted exactly, and the consumed length ends right after that empty line. Messages with a missing method, target, version or colon, control characters in places the grammar forbids, or more fields than there is room for are rejected.",
     ["inputs"], "Every message head, with any spacing, any field count up to capacity and any bytes.",
     "test/http.c checks two or three literal messages; the partition must be right for every token length and blank pattern.",
     ["src/picohttpparser/picohttpparser.c", S+"http.c"], [("tokenising request line", "src/picohttpparser/picohttpparser.c:parse_request"), ("header loop and trimming", "src/picohttpparser/picohttpparser.c:parse_headers, get_token_to_eol")], [], ["http_read_request_data", "http_read_response"])
prop("C14", "HTTP parsing is independent of how the bytes arrive",
     "A message head that is accepted as a whole is reported incomplete, never rejected or accepted, for each of its proper prefixes, and adding bytes after a complete head changes neither the outcome nor any returned part. A head that is reported rejected stays rejected whatever bytes follow.",
     ["inputs", "schedules"], "Every message, every cut point, every following bytes.",
     "Tests deliver whole messages; the guarantee compares the outcome across all split points of all messages.",
     ["src/picohttpparser/picohttpparser.c", S+"http.c", S+"server.c"], [("incomplete result", "src/picohttpparser/picohttpparser.c:CHECK_EOF, get_token_to_eol, parse_http_version")], [], ["http_read_request_data", "http_read_response"])
prop("C15", "HTTP messages are written exactly and within the reserved space",
     "Writing a request or a response appends exactly the prescribed bytes to the stream's pending output (start line, the fixed and optional fields, a Content-Length equal to the body's decimal length, an empty line and the body) and nothing else, for any argument contents and lengths. Output already pending is unchanged and no byte outside the appended message is written.",
     ["inputs"], "Every status, date, type, method, target, host and body slice (body below 4 GiB), with any pending output.",
     "test/http.c writes a few fixed messages; the reserved size and the written size must agree for all lengths.",
     [S+"http.c", S+"stream.c", S+"utility.c", S+"pointer.c"], [("size computation and cursor pushes", S+"http.c:http_write_response, http_write_request")], [], ["stream output"])
prop("C16", "Header lookup returns the first case-insensitive match",
     "Looking up a field name returns the value of the first field whose name has the same length and equals it ignoring letter case, and an empty result when there is none. The lookup reads nothing outside the given fields and name.",
     ["inputs"], "Every field array and name.",
     "test/http.c looks up two names; prefix names, equal-length different names and repeated fields are not sampled.",
     [S+"http.c"], [("length check then case-insensitive compare", S+"http.c:http_field_lookup")], [], ["http_field_lookup"])
prop("C17", "The event loop delivers every ready event once, to live handlers only",
     "Each iteration of the event loop calls, in the order the kernel reported them, the registered handler of each ready descriptor exactly once, except that a handler removed earlier in the same batch is never called again for it, whatever the callbacks register, modify, remove or abort (callbacks do not re-enter the loop). The loop runs while it has not been aborted and descriptors are registered, and returns otherwise; an interrupted wait delivers nothing.",
     ["schedules", "histories", "inputs"], "Every batch of ready events of any size the kernel may return, every combination of handlers adding and removing themselves or others during the batch.",
     "test/core.c delivers one or two events; stale events require several handlers in one batch deleting each other.",
     [S+"core.c", S+"core.h"], [("stale event neutralisation", S+"core.c:reactor_delete"), ("dispatch loop", S+"core.c:reactor_loop_once"), ("descriptor accounting", S+"core.c:reactor_add, reactor_delete")],
     [("batch cursor", "current and end position of the batch being dispatched", S+"core.c")], ["handler callbacks", "epoll system calls"])
prop("C18", "A descriptor is watched as asked, closed once, and silent afterwards",
     "An open descriptor is registered with the kernel for exactly the requested readiness (reading, writing, level- or edge-triggered) plus hang-up, changing the request updates the registration, and each kernel report is translated to read, write and close notifications exactly as reported, in that order. Closing deregisters and closes the file descriptor exactly once, is harmless when repeated, and nothing is delivered after it, even from a report already being delivered.",
     ["histories", "inputs", "schedules"], "Every request mask, every reported event mask, every action a callback takes between notifications.",
     "test/descriptor.c uses one pipe and a few masks; the guarantee covers all mask pairs and closing at any point inside delivery.",
     [S+"descriptor.c", S+"core.c"], [("mask translation", S+"descriptor.c:descriptor_events"), ("report translation", S+"descriptor.c:descriptor_callback"), ("close", S+"descriptor.c:descriptor_close")], [], ["epoll_ctl and close system calls", "handler callbacks"])
prop("C19", "Timers are armed exactly and report every expiration once",
     "Setting a timer arms the kernel timer with exactly the requested delay and interval in nanoseconds (a zero delay fires at once rather than disarming), reusing its descriptor when set again. Every expiration count the kernel reports is delivered exactly once as a total, a wake-up without expirations delivers nothing and is harmless, and a cleared timer delivers nothing and releases its descriptor.",
     ["inputs", "histories", "schedules"], "Every delay and interval, every sequence of counts read, including re-arming between wake-up and delivery.",
     "test/timer.c fires a timer a few times; conversion boundaries and the re-arm race in one batch are not sampled.",
     [S+"timer.c"], [("conversion", S+"timer.c:timer_set"), ("drain loop", S+"timer.c:timer_callback")], [], ["timerfd_settime arguments", "timer callback"])
prop("C20", "Every event signal is delivered, none is invented",
     "The signals sent to an open event are all delivered: the counts passed to its callback add up exactly to the number of signals, however many are sent before the loop runs. Nothing is delivered without a signal or after the event is closed, and its descriptor is released exactly once.",
     ["histories", "schedules"], "Every number and timing of signals relative to loop iterations.",
     "test/event.c signals once per iteration; lost counts need several signals before one wake-up.",
     [S+"event.c"], [("eventfd counter and edge-triggered wake-up", S+"event.c:event_open, event_callback, event_signal")], [], ["event callback"])
prop("C21", "File notifications reach their watch with exact path, name and mask",
     "Every change record the kernel reports for a watched path is delivered exactly once, in order, with that watch's identifier and path and the record's own name and mask, however records are packed into reads; records that belong to no current watch are skipped. After clearing or destroying, including from inside the callback, nothing more is delivered, watches and paths are released exactly once and no freed memory is used.",
     ["inputs", "histories", "schedules"], "Every number of watches, every packing of records with names of any length, clearing or destroying at any delivery.",
     "test/notify.c watches one path and reads one record at a time.",
     [S+"notify.c", S+"list.c"], [("record walk", S+"notify.c:notify_callback"), ("cancellation flag", S+"notify.c:notify_destruct"), ("watch list", S+"notify.c:notify_watch")], [], ["notify callback"])
prop("C22", "Stream output reaches the peer once, in order, under any short write",
     "The bytes written or allocated on a stream are transmitted exactly once and in order, however the kernel or TLS layer splits or refuses transmissions; bytes not yet accepted stay queued unchanged. While bytes are queued after a flush the stream waits for writability, and when none are and no notification was requested it does not.",
     ["inputs", "fault_sequences", "schedules"], "Every pending output, every sequence of partial and refused writes, errors included, over sockets and TLS.",
     "test/stream.c writes small blocks into an empty pipe, where every write completes.",
     [S+"stream.c", S+"buffer.c"], [("write loop and erase of the sent prefix", S+"stream.c:stream_socket_write, stream_ssl_flush"), ("write interest", S+"stream.c:stream_socket_mask, stream_ssl_mask")], [], ["write/SSL_write calls", "epoll registration"])
prop("C23", "Stream input delivers every received byte once, in order",
     "The input a stream presents is always exactly the received bytes not yet consumed, in order, however reads are split; consuming removes exactly the leading bytes asked for. A read notification is given exactly when new bytes have been appended, and the descriptor is drained until the kernel has no more, so no received byte waits for a further wake-up.",
     ["inputs", "fault_sequences"], "Every sequence of read sizes and errors, every pending input, over sockets and TLS.",
     "test/stream.c reads small messages; full-block reads, errors after partial progress and growth while data is pending are not sampled.",
     [S+"stream.c", S+"buffer.c"], [("read loops", S+"stream.c:stream_socket_read, stream_ssl_read"), ("consume", S+"stream.c:stream_consume")], [], ["stream_read", "stream callback"])
prop("C24", "Closing a stream releases everything once and it can be reused",
     "Closing an open stream releases its descriptor, TLS session and buffers exactly once and leaves nothing pending; closing or destroying again is harmless, nothing is delivered afterwards, and a closed stream can be opened again, with or without TLS, behaving like a new one.",
     ["histories"], "Every history of opens (plain and TLS), writes, closes and destroys, on one or several streams.",
     "test/stream.c closes each stream once; TLS and plain reuse of the same stream does not occur.",
     [S+"stream.c", S+"descriptor.c"], [("close", S+"stream.c:stream_close, stream_destruct"), ("open", S+"stream.c:stream_open, stream_ssl_open")],
     [("ssl", "TLS session of the stream", S+"stream.h")], ["SSL_free/close/free calls"])
prop("C25", "The server answers pipelined requests one at a time, in order, exactly once",
     "On one connection the complete requests received are handed to the handler in order, each exactly once and with exactly its own method, target and fields, the next one only after the previous one has been answered, whether the answer is given inside the handler or later and however the bytes arrive. Each answer is sent exactly once in that order, a malformed request is answered with 400 and closes the connection, and unparsed bytes are kept for later.",
     ["inputs", "histories", "schedules"], "Every number of pipelined requests, every split of their bytes, every mix of immediate and deferred answers and closes.",
     "test/server.c sends one request per connection with immediate answers.",
     [S+"server.c", S+"http.c", S+"stream.c"], [("request state machine", S+"server.c:server_request_update, server_request_read, server_respond")],
     [("state/event_triggered/data", "progress of the connection", S+"server.h")], ["request handler callback", "stream output"])
prop("C26", "A server connection lives exactly as long as it is needed",
     "A connection's memory, socket and list entry are released exactly once, when it has been closed and every request handed to the handler has been answered or released, and never while an answer is still owed. Answering or closing after the peer has gone or the server was shut down is harmless, sends nothing and uses no freed memory; shutting down closes every connection and the listening socket, and may be repeated.",
     ["histories", "schedules"], "Every order of peer close, handler close, shutdown, hold, release and (late) answers.",
     "test/server.c covers a few fixed orders, one connection each.",
     [S+"server.c", S+"list.c"], [("reference count", S+"server.c:server_hold, server_release, server_close, server_shutdown")], [("ref", "owners of the connection", S+"server.h")], ["close and free calls", "handler callback"])
prop("C27", "Opening network sockets leaks nothing and never aborts",
     "For every address result and every failure of the underlying calls, opening a socket returns either an open non-blocking socket (bound and listening when passive, connecting otherwise) or an error value, with every other descriptor closed and the address result freed exactly once. Resolving returns the resolver's result or nothing on failure, and creating a TLS context returns a context holding both certificate and key, or nothing with everything released.",
     ["inputs", "fault_sequences"], "Every address result and every combination of call outcomes except the failures the code treats as fatal by contract (listen on a bound socket, context allocation).",
     "test/net.c cannot make socket creation or key loading fail after partial success.",
     [S+"net.c"], [("error paths", S+"net.c:net_socket, net_resolve, net_ssl_server_context")], [], ["socket, bind, close, freeaddrinfo, SSL_CTX_free calls"])
prop("C28", "A resolver reports each lookup once and owns its results",
     "A completed lookup reports success with its addresses or failure exactly once, using the host, service and options given; starting another lookup, cancelling or destroying releases the previous names and addresses exactly once. Nothing is delivered for a cancelled lookup.",
     ["histories", "inputs"], "Every history of lookup, completion, cancel, clear and destroy with any names (or none), with the worker's completion treated as an atomic step.",
     "test/resolver.c performs a few lookups; leaks and double frees need particular cancel/complete orders.",
     [S+"resolver.c", S+"async.c", S+"net.c"], [("ownership", S+"resolver.c:resolver_clear, resolver_cancel")], [], ["resolver callback", "freeaddrinfo/free calls"])
prop("C29", "Asynchronous calls run once and complete once under every interleaving",
     "An asynchronous call runs its work exactly once on another thread and then reports completion exactly once on the event loop thread. Cancelling before completion suppresses the report, and no interleaving of worker, completion, cancel and destroy touches released state.",
     ["schedules"], "Every interleaving of the worker thread with the event loop thread.",
     "test/async.c exercises one schedule per run.",
     [S+"async.c", S+"event.c"], [("detached thread plus event", S+"async.c:async_thread, async_callback, async_cancel")], [], ["async callback"])
prop("C30", "Chunked decoding is exact under any split of the input",
     "Decoding a chunked body in any number of pieces leaves in place exactly the concatenated chunk data of that piece, reports how much of it there is, and reports completion with exactly the bytes after the body left unconsumed, invalid framing as an error and anything else as incomplete. Lines may end in LF alone, carriage returns before it are ignored, a size has at most sixteen digits. It reads and writes only inside the given piece, for every input.",
     ["inputs", "schedules"], "Every byte sequence, every split into pieces, with and without trailer consumption.",
     "No test in the repository decodes chunked bodies.",
     ["src/picohttpparser/picohttpparser.c"], [("state machine", "src/picohttpparser/picohttpparser.c:phr_decode_chunked")], [("decoder state", "state, hex digit count and bytes left in the chunk", "src/picohttpparser/picohttpparser.h")], ["phr_decode_chunked"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
