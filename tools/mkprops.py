import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    P.append({"id":id,"title":title,"statement":stmt,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":obs or [],"hook_needed":None}})

p("P01","Stream decoder reassembles exactly the messages sent, for any chunking",
 "Feeding the protocol decoder (C and Python) any concatenation of valid messages, cut into chunks at arbitrary points, yields exactly those messages, in order, once each, with the same id and payload bytes. After corrupt bytes (bad magic, size field below the header size) the decoder skips forward and delivers again the first message whose header it meets while scanning, and it always reports how many input bytes it consumed and never returns a message when more data is needed. The outcome depends only on the byte stream, never on how it was split or on whether previously returned messages were released, kept or destroyed.",
 ["inputs","histories"],"all byte streams (messages, garbage, truncated and corrupt headers), all splittings, all release/keep/destroy histories of returned messages",
 "The tests decode one short message at a few fixed splits and a handful of bad bytes; splits at every offset, several messages per chunk, recovery after corruption and reuse of message objects are not sampled.",
 ["src/pomp_prot.c","python/pomp/protocol.py","src/pomp_conn.c"],
 [("byte-wise state machine IDLE/MAGIC0-3/HEADER/PAYLOAD","pomp_prot_decode_msg, src/pomp_prot.c"),("message object reuse","pomp_prot_release_msg"),("python decoder","Protocol.decodeMsg, python/pomp/protocol.py")],
 [{"name":"state/offheader/offpayload","meaning":"how far in the current frame the decoder is","where":"struct pomp_prot"}],
 ["pomp_prot_decode_msg return value and *msg","pomp_msg_get_id / pomp_msg_get_buffer of the result"])

p("P02","Typed encoding round-trips and matches the documented wire format",
 "Every sequence of arguments written through the typed encoder functions produces exactly the bytes prescribed by the protocol description (header, type bytes, little-endian and (zigzag) varint integers, NUL-terminated strings with 16-bit length, 32-bit length buffers, IEEE floats), and reading them back with the matching typed functions returns exactly the same values in order. Values outside what the format can carry (strings over 65534 characters) are refused with an error.",
 ["inputs"],"all argument type sequences and all values, including extreme integers, empty and maximal strings and buffers, NaN/inf bit patterns",
 "Tests encode one fixed list of values; boundaries of the 7-bit varint groups, of sizes and of buffer growth are not covered.",
 ["src/pomp_encoder.c","src/pomp_decoder.c","src/pomp_msg.c","protocol.txt"],
 [("encoder primitives","encoder_write_varint/encoder_write_data, src/pomp_encoder.c"),("decoder primitives","decoder_read_varint/decoder_read_data, src/pomp_decoder.c"),("header","pomp_msg_finish, src/pomp_msg.c")],None,
 ["pomp_msg_get_buffer bytes","pomp_decoder_read_* results"])

p("P03","Decoding arbitrary payloads is safe and type-checked",
 "Reading any payload, however malformed, with any sequence of typed reads, formatted reads or dumps never reads outside the message, crashes or leaks; each read succeeds only if the next argument has the requested type and is complete and well formed, and otherwise returns an error. A read of the wrong type leaves the position unchanged, so that the right read then succeeds, and a failed formatted read leaves the caller no string to free (every string already stored is released and reset to NULL).",
 ["inputs","programs"],"all payload byte strings (truncated, over-long varints, bad sizes, unterminated strings, unknown types) and all sequences of reads",
 "Tests decode well-formed payloads plus a few truncations; arbitrary bytes and mixed sequences are not explored.",
 ["src/pomp_decoder.c","src/pomp_buffer.c"],
 [("type check with rewind","decoder_read_data/decoder_read_varint/pomp_decoder_read_cstr, src/pomp_decoder.c"),("bounds check","pomp_buffer_read/pomp_buffer_cread, src/pomp_buffer.c"),("string cleanup on error","pomp_decoder_readv error path")],None,
 ["return values and outputs of pomp_decoder_read_*, pomp_msg_read, pomp_msg_dump, pomp_msg_adump"])

p("P04","printf-like, argv and typed APIs produce the same message",
 "Writing through a format string (varargs or textual argv) produces the same bytes as the equivalent typed calls, with %h/%hh/%l/%ll selecting the documented widths and %p%u a buffer with its size; a malformed format, a missing argument or an unsupported width is refused with an error. Reading through a format string yields the same values as typed reads.",
 ["inputs","programs"],"all format strings over the documented specifiers (valid and invalid) with all argument values",
 "Tests use a couple of fixed formats; combinations of flags, errors in the middle of a format and argv numeric forms are not covered.",
 ["src/pomp_encoder.c","src/pomp_decoder.c","src/pomp_msg.c","include/libpomp.h"],
 [("format interpreter (write)","encoder_writev_internal, src/pomp_encoder.c"),("format interpreter (read)","pomp_decoder_readv, src/pomp_decoder.c"),("textual buffers","parse_buffer_argv, src/pomp_encoder.c")],None,
 ["pomp_msg_write/pomp_msg_write_argv result bytes","pomp_msg_read outputs"])

p("P05","C and Python implementations interoperate",
 "Any message encoded by the Python implementation is byte-for-byte what the C implementation produces for the same format and values, and each implementation decodes the other's messages to the same values. Malformed payloads are refused by the Python decoder with its decode error, never accepted as other values. (Formats whose meaning is the same in both: the width of %l depends on the platform in C and is 32 bits in Python, %p takes no length in Python; strings are UTF-8 without NUL.)",
 ["inputs"],"all format strings supported by both and all values, all chunkings",
 "Python tests only check a fixed message against fixed bytes; nothing runs the two implementations against each other.",
 ["python/pomp/encoder.py","python/pomp/decoder.py","python/pomp/message.py","python/pomp/protocol.py","python/pomp/buffer.py","src/pomp_encoder.c","src/pomp_decoder.c"],
 [("python encoder","Encoder.write, python/pomp/encoder.py"),("python decoder","Decoder.read, python/pomp/decoder.py")],None,
 ["Message.write bytes","Message.read values"])

p("P06","Message dump text is complete, ordered and bounded",
 "The allocating dump of any decodable message returns the whole text: id and then every argument in order with its type name and value, whatever the sizes. The bounded dump writes at most the given size, is always NUL-terminated, equals the full text when it fits and otherwise is its prefix ending with an ellipsis.",
 ["inputs"],"all messages and all destination sizes",
 "Tests dump one message into one or two fixed buffer sizes; text lengths around allocation steps and every truncation point are not sampled.",
 ["src/pomp_decoder.c","src/pomp_msg.c"],
 [("growing output","dump_append, src/pomp_decoder.c"),("argument walk","pomp_decoder_walk/decoder_dump_cb, src/pomp_decoder.c")],None,
 ["pomp_msg_dump, pomp_msg_adump"])

p("P07","Message objects follow init, write, finish, clear strictly",
 "A message can be initialised only when empty, written only while initialised and unfinished, and finished once; afterwards its bytes never change until it is cleared, and every call made in a wrong state returns an error and changes nothing. A message copy or a message rebuilt from a finished buffer has the same id and bytes and is independent of the original; buffers without a consistent header are refused.",
 ["histories","programs"],"all call sequences over several messages, encoders, copies and rebuilt messages",
 "Tests call each function once in the right order plus a few NULL arguments.",
 ["src/pomp_msg.c","src/pomp_encoder.c","src/pomp_buffer.c"],
 [("finished flag and EPERM checks","pomp_msg_init/pomp_msg_finish/pomp_encoder_write_*"),("header validation","pomp_msg_new_with_buffer, src/pomp_msg.c"),("copy","pomp_msg_new_copy, src/pomp_msg.c")],
 [{"name":"finished","meaning":"message frozen","where":"struct pomp_msg"}],
 ["return codes; bytes of pomp_msg_get_buffer"])

p("P08","Buffers behave as byte arrays; shared buffers are read-only",
 "A buffer behaves as a growable byte array: reads return what was last written, growth preserves content, length and capacity change only as requested and refused operations change nothing. While a buffer is shared every operation that would modify or resize it fails with -EPERM and all holders keep seeing the same content; it becomes writable again when one reference remains and is freed exactly once, with the last one.",
 ["histories","inputs"],"all sequences of buffer operations with any positions and lengths, any reference counts, including appending a buffer to itself",
 "Tests use one buffer, a few lengths and one extra reference.",
 ["src/pomp_buffer.c"],
 [("refcount permission check","POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM), src/pomp_buffer.c"),("bounds checks and growth","pomp_buffer_write/read/cread/ensure_capacity")],
 [{"name":"refcount,len,capacity,data","meaning":"buffer state","where":"struct pomp_buffer"}],
 ["pomp_buffer_* return codes, pomp_buffer_get_cdata"])

p("P09","File descriptors in messages are duplicated, owned and closed once",
 "A descriptor put in a message is duplicated, so the caller keeps its own; the duplicate stays open exactly as long as some reference to the message buffer (or an in-flight send) needs it, and is then closed exactly once. Copies own their own duplicates, more than four descriptors or invalid ones are refused without leaking, and no descriptor not owned by the library is ever closed.",
 ["histories","fault_sequences"],"all sequences of fd writes, copies, references, clears, failures of dup, and reads",
 "Tests count descriptors for one message with one fd; error paths and shared/copied messages are not covered.",
 ["src/pomp_buffer.c","src/pomp_msg.c","src/pomp_encoder.c","src/pomp_decoder.c"],
 [("dup and registration","pomp_buffer_write_fd/pomp_buffer_register_fd"),("closing","pomp_buffer_clear"),("copy","pomp_buffer_new_copy")],
 [{"name":"fdcount/fdoffs","meaning":"owned descriptors","where":"struct pomp_buffer"}],
 ["open descriptors of the process; pomp_decoder_read_fd"])

p("P10","The loop dispatches exactly the requested events of registered fds",
 "For both loop implementations, one processing step calls the callback of each registered descriptor that is ready for an event it currently requests (or in error/hang-up), with the right descriptor, ready events and user data, and of no other; a descriptor removed or whose callback removes another one is never called afterwards. Adding twice, or updating or removing an unknown descriptor, fails with -EEXIST/-ENOENT and changes nothing; a step with nothing to do returns -ETIMEDOUT and otherwise 0.",
 ["histories","schedules"],"all histories of add/update/remove (also from inside callbacks), readiness changes and processing steps, on epoll and poll",
 "Tests watch one or two timer fds with one fixed scenario per implementation.",
 ["src/pomp_loop.c","src/pomp_loop_linux.c","src/pomp_loop_posix.c"],
 [("registry hash table","pomp_loop_find_pfd/add_pfd/remove_pfd, src/pomp_loop.c"),("dispatch re-lookup","pomp_loop_epoll_do_wait_and_process, pomp_loop_poll_do_wait_and_process")],
 [{"name":"pfds","meaning":"registered descriptors","where":"struct pomp_loop"}],
 ["callbacks given to pomp_loop_add; return codes"])

p("P11","Idle callbacks run exactly once, in order, unless removed",
 "Each idle callback registered on a loop runs exactly once, in registration order, as the loop is processed (including ones registered from within idle callbacks), and at most one runs per loop step; a flush runs the concerned ones before returning. Entries removed by callback and data or by cookie never run, other entries are not affected, and no entry is ever lost.",
 ["histories","schedules"],"all histories of add, add with cookie, remove, remove by cookie, flush, flush by cookie and processing steps, including calls made from idle callbacks",
 "Tests add a few entries and flush them once.",
 ["src/pomp_loop.c"],
 [("idle list and event","pomp_idle_evt_cb, pomp_loop_idle_add, pomp_loop_idle_remove, pomp_loop_idle_flush*, src/pomp_loop.c")],
 [{"name":"idle_entries","meaning":"pending idle entries","where":"struct pomp_loop"}],
 ["order of idle callbacks"])

p("P12","Cross-thread wakeups, idle adds and event signals are never lost",
 "When any thread calls the loop wakeup, adds an idle callback or signals an attached event, the loop thread, even if it is about to block, returns from its wait and (for idle and event) runs the callback; idle callbacks of one thread run in the order that thread added them, each exactly once. This holds under every interleaving of any number of threads with the loop thread.",
 ["schedules"],"all interleavings of loop processing with concurrent wakeup/idle add/remove/event signal calls from other threads",
 "Tests are single threaded for these calls or use one lucky schedule.",
 ["src/pomp_loop.c","src/pomp_evt.c","src/pomp_evt_linux.c","src/pomp_evt_posix.c","src/pomp_loop_linux.c","src/pomp_loop_posix.c"],
 [("mutex-protected idle list + signalled event","pomp_loop_idle_add/pomp_idle_evt_cb"),("wakeup fd","pomp_loop_epoll_do_wakeup/pomp_loop_poll_do_wakeup")],
 [{"name":"idle_entries, idle_evt, wakeup","meaning":"state shared by threads","where":"struct pomp_loop"}],
 ["wait_and_process return, callback order"])

p("P13","Events coalesce signals, clear on delivery and attach to one loop",
 "An event signalled any number of times while attached (or before being attached) causes exactly one callback at the next processing step, none if it was cleared or detached in between, and one more for a signal made during or after its callback. It can be attached to one loop at a time and destroyed only when detached; misuse returns -EEXIST, -ENOENT, -EINVAL or -EBUSY and changes nothing.",
 ["histories"],"all histories of new/signal/clear/attach/detach/destroy/process over several events and loops, on eventfd and pipe implementations",
 "Tests follow one linear script per implementation.",
 ["src/pomp_evt.c","src/pomp_evt_linux.c","src/pomp_evt_posix.c"],
 [("attachment checks","pomp_evt_attach_to_loop/detach_from_loop/destroy"),("auto clear","pomp_evt_fd_cb/pomp_evt_posix_cb")],
 [{"name":"evt.loop, efd/pipe content","meaning":"attachment and signal state","where":"struct pomp_evt"}],
 ["event callbacks and return codes"])

p("P14","Timers fire after their delay, once or periodically, never once cleared",
 "A one-shot timer calls its callback exactly once and not before its delay, a periodic one at its delay and then at each period until cleared; setting a timer again replaces its previous setting. Once cleared or destroyed a timer never calls its callback again, even if it had already expired, and independent timers do not affect each other; this holds for every timer implementation.",
 ["histories","schedules"],"all histories of new/set/set periodic/clear/destroy over several timers, with any interleaving of expirations, loop steps and calls from timer callbacks, on timerfd and POSIX timers",
 "Tests use one timer per implementation with real sleeps and no clear/expiry race.",
 ["src/pomp_timer.c","src/pomp_timer_linux.c","src/pomp_timer_posix.c"],
 [("arming","pomp_timer_fd_set/pomp_timer_posix_set"),("delivery","pomp_timer_fd_cb/pomp_timer_posix_cb"),("destroy","pomp_timer_fd_destroy/pomp_timer_posix_destroy")],
 [{"name":"timer armed/expired state","meaning":"kernel timer and notification pipe","where":"struct pomp_timer"}],
 ["timer callbacks"])

p("P15","The watchdog reports overlong loop steps, and only those",
 "With the watchdog enabled, a loop step whose processing lasts longer than the delay causes exactly one notification while it is still running, and a step that finishes before the delay, time spent waiting, or a disabled watchdog causes none. Enabling, re-enabling with another delay, disabling (also from inside a step) and destroying the loop work in any order without spurious or missed notification, crash or hang.",
 ["schedules","histories"],"all histories of enable/disable/steps of any duration and all interleavings with the watchdog thread",
 "Tests run one slow callback once.",
 ["src/pomp_watchdog.c","src/pomp_loop.c","src/pomp_loop_linux.c","src/pomp_loop_posix.c"],
 [("monitoring thread","pomp_watchdog_thread_cb"),("enter/leave","pomp_watchdog_enter/pomp_watchdog_leave")],
 [{"name":"monitoring,counter,next_timeout","meaning":"current monitored step","where":"struct pomp_watchdog"}],
 ["watchdog callback"])

p("P16","Connection notifications are paired and well nested",
 "For every connection of a server or client context the user sees exactly one CONNECTED, then any number of messages, then exactly one DISCONNECTED, and nothing (message, raw data, listing) about a connection before its CONNECTED or after its DISCONNECTED, apart from its final send statuses. The set of connections the context lists is at any time exactly the set notified connected and not yet disconnected (a server holds at most its maximum and refuses the excess without notification), and both ends of a connection eventually see it end when either one closes it. The local and peer addresses reported for a connection stay those of its socket.",
 ["histories","schedules","fault_sequences"],"all histories of connects, sends, disconnects, peer closes and resets, stops, and calls made inside callbacks, over several clients",
 "Tests run one server with one or a few clients through one fixed scenario.",
 ["src/pomp_ctx.c","src/pomp_conn.c"],
 [("accept and complete","server_accept_conn, client_complete_conn, src/pomp_ctx.c"),("removal","pomp_ctx_remove_conn, src/pomp_ctx.c"),("EOF/error detection","pomp_conn_cb/pomp_conn_process_read, src/pomp_conn.c")],
 [{"name":"conns/conn","meaning":"live connections of the context","where":"struct pomp_ctx"}],
 ["event callback; pomp_ctx_get_next_conn/pomp_ctx_get_conn"])

p("P17","Messages on a connection arrive intact, in order, exactly once",
 "Every message whose send was accepted on a stream connection that stays up is delivered to the peer exactly once, unmodified and in the order of the accepted sends, whatever the message sizes and however the kernel splits, delays, interrupts or partially accepts reads and writes; if the connection ends, what was delivered is a prefix of what was sent. A refused send (error return) delivers nothing.",
 ["schedules","fault_sequences","inputs"],"all message sequences and sizes in both directions, all patterns of partial reads/writes, EAGAIN and EINTR, sends from inside callbacks",
 "Tests send a few small messages through an otherwise empty socket, so queuing and partial I/O are hardly reached.",
 ["src/pomp_conn.c","src/pomp_ctx.c","src/pomp_prot.c"],
 [("direct write then queue","pomp_conn_send_buf_internal, src/pomp_conn.c"),("queue drain","pomp_conn_process_write, src/pomp_conn.c"),("read loop","pomp_conn_process_read/pomp_conn_process_read_buf, src/pomp_conn.c")],
 [{"name":"headbuf/tailbuf","meaning":"pending writes","where":"struct pomp_conn"}],
 ["MSG events at the peer versus accepted sends"])

p("P18","Every accepted send is reported exactly once, in order, with its true status",
 "With a send callback set, every accepted send of a connection produces exactly one completion, in the order of the sends, never from within the send call itself: OK once all its bytes have been handed to the system, ABORTED if the connection ended before (ERROR for a datagram the system refused), and the queue-empty flag exactly when no accepted send remains to be written. After the connection is closed no completion is outstanding, and none ever comes later. (A completion that could not be recorded because memory was exhausted at that moment may be missing.)",
 ["histories","schedules","fault_sequences"],"all histories of sends, partial writes, write errors, disconnects and stops, including sends and disconnects made from send callbacks",
 "Tests only send small buffers completing immediately; queued, aborted and re-entrant cases are not reached.",
 ["src/pomp_conn.c","src/pomp_ctx.c"],
 [("idle completion entries","pomp_conn_add_idle_cb/pomp_idle_cb/clear_pending_callbacks, src/pomp_conn.c"),("abort on close","pomp_conn_close, src/pomp_conn.c")],
 [{"name":"idlecbs_tail/head, headbuf","meaning":"completions to deliver, sends to write","where":"struct pomp_conn"}],
 ["send callback"])

p("P19","A started client or server keeps trying until stopped",
 "A started client that is not connected keeps attempting to connect, one attempt per two-second period, whatever the failure of the previous attempt (refused, unreachable, reset, lost connection, lack of resources), and connects as soon as an attempt succeeds; a server or datagram context whose address is not yet available retries likewise. After a stop no attempt is made.",
 ["fault_sequences","histories"],"all sequences of connection failures, failures of each system call involved, disconnections and restarts of the peer, and stops",
 "Tests connect to a listening server at once; only invalid addresses are tried beyond that.",
 ["src/pomp_ctx.c"],
 [("retry timer","timer_cb, client_start, client_complete_conn, server_start, dgram_start, pomp_ctx_remove_conn, src/pomp_ctx.c")],
 [{"name":"timer, addr, stopping","meaning":"context is started and waiting for a retry","where":"struct pomp_ctx"}],
 ["CONNECTED events; connection attempts on the system"])

p("P20","Stop ends everything, frees everything, and the context can start again",
 "After a stop (immediate, or deferred to the loop when asked from a callback) every connection has been notified disconnected, no further callback of the context occurs, and every descriptor, file and memory block it used is released; a started context refuses to start again or be destroyed with -EBUSY, stopping twice is harmless, and a stopped context can be started again in any role. A loop refuses to be destroyed with -EBUSY while descriptors or idle callbacks remain, and can be destroyed once they are gone.",
 ["histories","schedules","fault_sequences"],"all histories in which stop, start and destroy are called at any point, including inside any callback and after failed starts",
 "Tests stop at the end of each scenario, and once inside a message callback.",
 ["src/pomp_ctx.c","src/pomp_conn.c","src/pomp_loop.c"],
 [("deferred stop","pomp_ctx_stop/pomp_ctx_stop_idle, src/pomp_ctx.c"),("teardown","server_stop/client_stop/dgram_stop, pomp_conn_close"),("busy checks","pomp_ctx_destroy, pomp_loop_destroy")],
 [{"name":"stopping/notifying/addr","meaning":"life cycle of the context","where":"struct pomp_ctx"}],
 ["callbacks after stop; descriptors and memory of the process"])

p("P21","A server send reaches every connected client and only them",
 "A message sent on a server context is delivered once to every client connected at that moment, independently of the others: a slow, blocked or broken client neither prevents, delays, duplicates nor reorders delivery to the rest. A message sent on one connection is delivered to that client only.",
 ["histories","fault_sequences"],"all sets of clients, and any of them blocked, disconnecting or failing during the broadcast",
 "Tests broadcast with one client, or healthy clients only.",
 ["src/pomp_ctx.c","src/pomp_conn.c"],
 [("broadcast loop ignoring errors","pomp_ctx_send_msg/pomp_ctx_send_raw_buf, src/pomp_ctx.c"),("shared immutable buffers in send queues","pomp_io_buffer_new, src/pomp_conn.c")],None,
 ["MSG events at every client"])

p("P22","File descriptors travel with their own message",
 "Each message with file descriptors delivered over a local connection carries, at each descriptor argument, a new descriptor for the same open file the sender put there, whatever messages precede or follow and however reads and writes are split. Received descriptors are closed after the message callback unless the user duplicated them or kept a copy, sending descriptors on a non-local connection is refused with -EPERM, and neither side ever leaks a descriptor, even if the connection ends or a message is malformed.",
 ["inputs","schedules","fault_sequences"],"all sequences of messages with 0 to 4 descriptors, all read/write splittings, connection loss at any point",
 "Tests pass one descriptor in one message.",
 ["src/pomp_conn.c","src/pomp_buffer.c"],
 [("ancillary data send","pomp_io_buffer_write_with_cmsg"),("current/next tables","pomp_conn_process_read_with_cmsg, pomp_conn_fixup_rx_fds")],
 [{"name":"rx_fds_current/next","meaning":"descriptors received and not yet attributed","where":"struct pomp_conn"}],
 ["pomp_decoder_read_fd in callback; open descriptors"])

p("P23","Datagram contexts deliver each datagram as its own message",
 "Each message sent on a datagram context to an address is delivered at most once, intact, with the sender's address as peer (to which the callback can reply), and a datagram that is malformed, truncated or not a message affects no other datagram. Sending without a destination outside a callback is refused, and no error on one datagram stops the context from exchanging the following ones.",
 ["inputs","histories","fault_sequences"],"all sequences of valid and invalid datagrams between several peers, with send and receive errors",
 "Tests exchange a few valid datagrams between two peers.",
 ["src/pomp_conn.c","src/pomp_ctx.c","src/pomp_prot.c"],
 [("peer address kept during callback","pomp_conn_process_read, src/pomp_conn.c"),("send to","pomp_ctx_send_msg_to, pomp_conn_send_buf_internal")],
 [{"name":"peer_addr, prot state","meaning":"per-datagram state","where":"struct pomp_conn"}],
 ["MSG events on dgram contexts with pomp_conn_get_peer_addr"])

p("P24","Raw contexts deliver the byte stream unchanged",
 "In raw mode the concatenation of the buffers delivered on a connection is exactly the byte stream sent by the peer, in order, without loss or duplication; a delivered buffer the user keeps a reference on never changes afterwards. Raw mode, like the other callbacks, can only be configured while stopped, and raw sends made through a context that is not raw are refused.",
 ["inputs","schedules","histories"],"all byte sequences, splittings, read buffer lengths and keeping of received buffers",
 "Tests exchange a few short raw buffers.",
 ["src/pomp_conn.c","src/pomp_ctx.c"],
 [("read buffer replaced when shared","pomp_conn_process_read, src/pomp_conn.c"),("raw notification","pomp_ctx_notify_raw_buf")],None,
 ["raw callback buffers"])

p("P25","Suspending reads stops delivery and resuming loses nothing",
 "After read suspension of a connection nothing more is read from its socket, so apart from data already read nothing is delivered on it, while its sends and all other connections continue; after resumption everything sent meanwhile is delivered in order. Changing the read buffer length at any moment, including inside callbacks, is safe and loses nothing.",
 ["histories","schedules"],"all histories of suspend/resume/buffer length changes interleaved with traffic in both directions and disconnections",
 "No test suspends reads with traffic pending.",
 ["src/pomp_conn.c"],
 [("IN event masking","pomp_conn_suspend_read/pomp_conn_resume_read"),("read buffer length","pomp_conn_set_read_buffer_len")],
 [{"name":"read_suspended","meaning":"reads are suspended","where":"struct pomp_conn"}],
 ["MSG events of suspended and other connections"])

p("P26","Address strings and socket addresses convert faithfully",
 "Parsing a valid inet, inet6 or unix (path or abstract) address string gives the denoted socket address with its exact length, and formatting it gives back an equivalent string; any malformed, too long or unsupported string, or a too small destination, is refused with -EINVAL without writing outside the destination. Formatting never writes more than the given size and always terminates the string.",
 ["inputs"],"all strings and all destination sizes",
 "Tests try a dozen fixed strings.",
 ["src/pomp_addr.c"],
 [("parser","pomp_addr_parse/pomp_addr_parse_inet"),("formatter","pomp_addr_format")],None,
 ["pomp_addr_parse, pomp_addr_format, pomp_addr_is_unix, pomp_addr_get_real_addr"])

p("P27","Any failing allocation or system call is survived",
 "If any memory allocation or system call made by the library fails, at any point of any scenario, the call in progress reports an error or the library recovers by itself as documented (retry, closing the connection); nothing crashes, hangs or leaks, no other object is affected, and once the failure is over every object can still be used or destroyed normally.",
 ["fault_sequences","crash_points"],"each single failure of each allocation or system call during codec, buffer, loop, timer, event and connection scenarios",
 "Tests inject no failures.",
 ["src/pomp_buffer.c","src/pomp_msg.c","src/pomp_prot.c","src/pomp_ctx.c","src/pomp_conn.c","src/pomp_loop.c","src/pomp_timer_linux.c","src/pomp_evt_linux.c"],
 [("error paths with cleanup","goto error/out blocks of every constructor")],None,
 ["return codes, later behaviour, leak accounting at the end"])
p("P28","Sockets are set up as the user asked",
 "Every descriptor a context uses is non-blocking and closed on exec; listening and bound sockets can be re-bound at once after a stop, an inet address in use is refused until free, and a unix server takes over the path of a dead server and gets exactly the access mode asked for; TCP keepalive is enabled with exactly the requested idle, interval and count on every connection, accepted or initiated, as of the last setting before it was established, and never when disabled; the user's socket callback sees each new descriptor once before it is used, with the kind of socket it is; the local address reported by a context is the one its socket has, and none after a stop.",
 ["inputs","histories"],"all address kinds, roles, keepalive settings and their changes, bindings and local addresses, over every history of starts and stops",
 "Tests set the keepalive and the access mode once and never look at the sockets they get.",
 ["src/pomp_ctx.c","src/pomp_conn.c"],
 [("keepalive","fd_socket_setup_keepalive, server_accept_conn, client_complete_conn"),("socket set up","server_start, client_start, dgram_start, pomp_ctx_get_local_addr")],
 [{"name":"keepalive, local_addr","meaning":"settings applied to each new connection; address bound","where":"struct pomp_ctx"}],
 ["socket options and flags at the system interface; pomp_ctx_get_local_addr; pomp_ctx_set_socket_cb"])
p("P29","The C++ API is faithful to the library",
 "For every sequence of values, a message written with a typed MessageFormat, an Encoder or a format string has exactly the bytes of the wire format, and reading it with MessageFormat, Decoder or a format string gives back each value (replacing what the variables held) or fails without success being reported, also on other message ids, other types, malformed payloads or when memory is refused. A Context announces each of its connections once with one Connection object that stays valid, and present in getConnections in order of arrival, until its onDisconnected returned; every message or raw buffer is given once, whole and in order, with the Connection (none for datagrams) it came from; Loop, Event and Timer handlers are called for what they were registered for, as the C objects promise; addresses, access modes, wake-ups and sends reach the C API unchanged; and everything the objects allocate is freed with them.",
 ["inputs","histories"],"all argument types and values, formats up to 9 arguments, histories of connections, datagrams, events, timers and descriptors with calls made in handlers",
 "The existing tests never compile the C++ headers against adverse inputs: several connections ending in handlers, reused variables, failing allocations.",
 ["include/libpomp.hpp","include/libpomp-cxx11.hpp"],
 [("messages","Message, Encoder, Decoder, MessageFormat, traits"),("contexts","Context::eventCb, Context::rawCb, Connection"),("loops","Loop, Event, Timer and their handlers")],None,
 ["results and values of the C++ calls; arguments of the handlers; getConnections; balance of new and delete, of allocations and of descriptors"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
