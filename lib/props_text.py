RB = ['source/cyCore/core/cyc_ring_buf.h', 'source/cyCore/core/cyc_ring_buf.cpp']
prop('C01', 'Byte ring buffer is a lossless FIFO at every wrap position',
 'Whatever sequence of append, copy-out, peek, discard, move, resize, reset and flatten operations is applied to a byte ring buffer, the buffered content is exactly the bytes appended and not yet consumed, in order, and every size, free-space, capacity, empty and full query agrees with it. Appends and resizes of any size succeed by growing the buffer (a resize leaves room for at least the requested size and never shrinks it; an append that fits never grows it), reads return the minimum of what was asked and what is there for any requested offset and count, and only consuming operations change the content. No operation touches memory outside the buffer or the caller\'s span, and no memory is leaked.',
 ['inputs', 'histories'], 'all byte contents, all index/wrap positions, all operation arguments (64-bit counts and offsets), operation sequences',
 'The unit test runs a handful of sizes at a few wrap positions; wrap and growth bugs need a specific combination of capacity, read index, write index and argument.',
 RB, [('read/write index arithmetic with one spare slot', 'cyc_ring_buf.cpp memcpy_into/memcpy_out/peek/discard/moveto'), ('growth', 'cyc_ring_buf.cpp resize'), ('flatten', 'cyc_ring_buf.cpp normalize')], ['public ring buffer API'])
prop('C02', 'Ring buffer search and checksum see the logical content, not the storage',
 'Searching a byte ring buffer for a byte from any offset returns the logical position of the first occurrence at or after that offset, and -1 exactly when there is none. The checksum of any span equals the Adler-32 of those logical bytes however they wrap in storage, and is the initial value 1 when the span is empty or not entirely inside the content. Neither changes the buffer.',
 ['inputs', 'histories'], 'all contents, wrap positions, offsets, counts and searched bytes',
 'Tests search for a few bytes in a few layouts; the position arithmetic depends on where the content wraps.',
 RB + ['source/cyCrypt/crypt/cyr_adler32.cpp'], [('wrap-aware scan', 'cyc_ring_buf.cpp search'), ('chunked checksum', 'cyc_ring_buf.cpp checksum')])
prop('C03', 'Ring buffer socket transfers lose, duplicate or reorder nothing',
 'Filling a ring buffer from a descriptor appends exactly the bytes the descriptor delivered, in order, whatever short count it delivers, and returns that count; with growth forbidden it never takes more than the free space. Draining to a descriptor offers the oldest bytes first and removes exactly the bytes the descriptor accepted, whatever short count it accepts. End of stream and errors (would-block included) are reported to the caller and leave the content unchanged.',
 ['inputs', 'fault_sequences'], 'every wrap position, every short transfer count, every error outcome',
 'The tests transfer through a real pipe that never delivers short counts at chosen places and never fails.',
 RB, [('vectored read with spill-over buffer', 'cyc_ring_buf.cpp read_socket'), ('vectored write', 'cyc_ring_buf.cpp write_socket')])
prop('C09', 'Ring queue is FIFO; a fixed one drops only the oldest, a growable one never',
 'A ring queue returns elements in the order they were pushed, whatever the wrap position; indexed access, front, back, forward and reverse walks (with their indices and early stop), size, free size and emptiness all agree with that order. A fixed-capacity queue holds exactly its capacity and a push into a full one discards exactly the oldest element; a default queue grows and loses nothing. Popping n removes the n oldest elements, or all of them when n is larger.',
 ['inputs', 'histories'], 'all element values, read/write index positions, push/pop sequences and pop counts',
 'The unit test uses a few sizes; growth while wrapped and overwrite at the brim need a specific index combination.',
 ['source/cyUtility/utility/cyu_ring_queue.h'], [('index wrap and growth', 'cyu_ring_queue.h _next/_prev/_auto_size')])
prop('C10', 'Sliding-window statistics count exactly the samples inside the period',
 'For samples pushed with non-decreasing times, a query at any later time returns the number and the sum of exactly those samples whose age is at most the configured period. A window that becomes full keeps every sample that has not expired.',
 ['inputs', 'histories'], 'all sample values and times, periods, query times',
 'No test covers the period statistics; the boundary and full-window behaviour depend on exact times.',
 ['source/cyUtility/utility/cyu_statistics.h'], [('expiry', 'cyu_statistics.h PeriodValue::push/_update')])
prop('C11', 'Min/max tracker reports the true extremes',
 'After any sequence of updates of an integer tracker, the minimum and maximum it reports are the smallest and largest of all values seen (an initial value counts as seen). An untouched tracker reports the neutral values of its type, so that the first update sets both.',
 ['inputs', 'histories'], 'all values (signed and unsigned), all update sequences',
 'No test covers it; sign and boundary values matter.',
 ['source/cyUtility/utility/cyu_statistics.h', 'source/cyCore/core/cyc_atomic.h'], [('atomic compare-exchange loops', 'cyc_atomic.h atomic_greater_exchange/atomic_smaller_exchange')])
prop('C14', 'Adler-32 equals its definition for any data, chunking and running value',
 'The checksum routine computes the Adler-32 of the data continued from the running value it is given, for every length and content, including runs long enough to need deferred reductions. Feeding the data in pieces, of any sizes including empty, gives the same result as feeding it at once; a null buffer yields the initial value 1.',
 ['inputs'], 'all bytes, lengths, split points and valid running values',
 'Tests use random data of one-shot calls; overflow needs long runs of large bytes and a large running value.',
 ['source/cyCrypt/crypt/cyr_adler32.cpp'], [('deferred modulo', 'cyr_adler32.cpp adler32')])
prop('C15', 'XorShift128 stream cipher is its own inverse and independent of chunking',
 'Processing a buffer xors it with the xorshift128+ keystream of the generator state, touching no byte outside the buffer, for every length and alignment; a second pass from the same state restores the data. Splitting the buffer at a multiple of 8 bytes yields the same output and the same final generator state.',
 ['inputs'], 'all seeds, data, lengths, alignments and split points',
 'The unit test checks a single round trip.',
 ['source/cyCrypt/crypt/cyr_xorshift128.cpp'], [('word loop and tail', 'cyr_xorshift128.cpp xorshift128')])
EV = 'source/cyEvent/event/'
prop('C18', 'A packet built from memory reads back exactly what was put in',
 'For any head size of at least 4, id and one- or two-part content totalling at most 65535 bytes, a built packet starts with its content size and id as big-endian 16-bit values, reports the same size, id, total size and content position, and contains the parts byte for byte in order; the user part of the head is the caller\'s to fill. A copy is equal and independent of the original; cleaning or rebuilding leaves nothing of the earlier packet; at least 8 bytes after the end are accessible and no memory is leaked.',
 ['inputs'], 'all ids, contents, head sizes and sizes around the inline storage limit and the maximum',
 'Tests build a few sizes; the inline/heap storage boundary and the two-part size sum need specific sizes.',
 [EV + 'cye_packet.h', EV + 'cye_packet.cpp'], [('inline or heap storage', 'cye_packet.cpp _resize'), ('copy', 'cye_packet.cpp alloc_packet')])
prop('C19', 'Packets are cut from a byte stream exactly, whatever the bytes and arrival split',
 'From any byte stream in a ring buffer, a packet is produced exactly when its head and content have all arrived, consumes exactly its own bytes and equals the stream segment; otherwise nothing is consumed and the packet object is empty. The packets obtained and the remaining tail do not depend on how the stream is split into arrivals. The same holds for a packet received from a pipe, which is produced exactly when complete.',
 ['inputs', 'histories'], 'all byte streams, head sizes, split points and buffer wrap positions',
 'Tests parse well-formed packets that arrive whole; arbitrary sizes in the length field and partial arrival are not covered.',
 [EV + 'cye_packet.cpp', 'source/cyCore/core/cyc_ring_buf.cpp'], [('length check before consuming', 'cye_packet.cpp build_from_ringbuf/build_from_pipe')])
prop('C20', 'A pipe delivers bytes in order, never blocks and owns its two ends',
 'Bytes written to a pipe are read in order without loss or duplication; a write reports how much was taken and a full pipe or an empty one reports would-block instead of blocking. Both ends close on exec, and destruction closes exactly both. Building a socket-based pipe yields two connected non-blocking ends or, if any step fails, no handles and no leaked descriptor.',
 ['histories', 'fault_sequences'], 'all sequences of reads and writes and sizes, any failing construction step',
 'Tests use a kernel pipe that does not fail; error paths of the socket-based construction never run.',
 [EV + 'cye_pipe.h', EV + 'cye_pipe.cpp'], [('pipe creation and socket emulation', 'cye_pipe.cpp construct_socket_pipe')])
LP = [EV + 'cye_looper.h', EV + 'cye_looper.cpp', EV + 'cye_looper_epoll.cpp']
prop('C22', 'A poll calls exactly the callbacks of ready, watched registrations',
 'Each poll of an event loop invokes, exactly once each, the read and write callbacks of exactly those registrations whose descriptor is ready in a direction they currently watch, with the identifier, descriptor, direction and parameter they were registered with; a disabled direction or a deleted registration is never called. Queries of what is watched reflect the latest change, and live registrations have distinct identifiers. Any number of simultaneously ready registrations is served and an interrupted poll is simply retried.',
 ['histories', 'inputs'], 'all sequences of register/enable/disable/delete, readiness patterns, report orders, interruptions',
 'Tests register a few descriptors in fixed order on a real kernel, which picks one report order and never interrupts.',
 LP, [('channel table and free list', 'cye_looper.cpp register_event/delete_event'), ('interest bookkeeping', 'cye_looper_epoll.cpp _update_channel_add/_update_channel_remove'), ('dispatch', 'cye_looper.cpp step/loop')], ['event loop API: register, enable, disable, delete, query, step'])
prop('C23', 'Timers fire once per due time, never early, never after deletion',
 'A timer registered with a period of at least one millisecond invokes its callback with its own identifier and parameter, never before a due time (a multiple of the period after registration) and exactly once in the first poll at or after it; due times missed between two polls are coalesced into one call. A deleted timer never fires again and its descriptor is released. Timers and descriptor registrations do not affect one another.',
 ['inputs', 'histories'], 'all periods, all poll times, interleaved registration and deletion',
 'Tests wait for real seconds with a few periods; exact due times and missed periods are never sampled.',
 LP, [('timer descriptor set-up', 'cye_looper.cpp register_timer_event'), ('timer read callback', 'cye_looper.cpp _on_timer_event_callback')])
prop('C24', 'Callbacks may change any registration, including their own, during dispatch',
 'A callback may register, enable, disable or delete any registration, its own included. A registration deleted or disabled by it is not called any more, even when its readiness was already reported; one created by it is not called for readiness reported for another; all untouched ready registrations are still served. The callback object that is running stays alive until it returns.',
 ['histories'], 'every mutation from every callback, all readiness patterns and report orders',
 'Tests do not mutate registrations inside a callback while further readiness is pending.',
 LP, [('dispatch loop over reported channels', 'cye_looper.cpp step/loop'), ('slot reuse', 'cye_looper.cpp _get_event_channel')])
prop('C25', 'A stop request from anywhere ends the loop, once and safely',
 'A stop request made from any thread or from inside a callback, at any time after the loop object exists and however it interleaves with the loop, makes the loop return; after a request made inside a callback no further callback runs, and a request made before the loop starts prevents it from starting. The loop releases the descriptors it created for itself, and no request ever touches a descriptor that is already closed.',
 ['schedules', 'histories'], 'every interleaving within a preemption bound, every callback position',
 'Tests stop a loop at one convenient moment; the races with loop start and loop end need a specific interleaving.',
 LP, [('stop request', 'cye_looper.cpp push_stop_request'), ('loop start and end', 'cye_looper.cpp loop')])

prop('C04', 'The lock-free queue is a lossless FIFO for any number of threads',
 'Under any interleaving of producers and consumers, every element whose push succeeded is popped exactly once, and an element pushed entirely before another is never popped entirely after it. A push fails only while the queue holds its capacity less one elements (counting those in the course of being pushed or popped), a pop only while no element whose push has completed is left. Once all operations have finished the reported size is the number of elements left.',
 ['schedules'], 'all interleavings of a few producers and consumers, all fill levels and wrap positions',
 'The unit test runs threads on a large queue for a while; a lost or duplicated element needs one specific interleaving of index updates near full or empty.',
 ['source/cyCore/core/cyc_lf_queue.h', 'source/cyCore/core/cyc_atomic.h'], [('slot reservation and publication', 'cyc_lf_queue.h push'), ('slot claim', 'cyc_lf_queue.h pop')])
prop('C21', 'A worker thread handles every message sent to it, once and in order',
 'Each message sent to a running worker thread, by any thread (itself included) and through any of the sending forms, is handed to the message callback exactly once, on the worker\'s own thread, with its identifier and content, and in each sender\'s order; none waits for a later message while the worker is idle, however the sends interleave with the worker going to sleep (fewer than 65535 pending). The start callback runs once, on that thread, before any message; if it refuses, the thread ends without handling any. After a stop request the thread ends, joining it returns, and it leaves no descriptor behind.',
 ['schedules', 'histories'], 'all interleavings (within a preemption bound) of senders with the worker starting, draining, going to sleep and stopping',
 'Tests send with generous timing; a lost wake-up needs a send to fall between two instructions of the worker.',
 [EV + 'cye_work_thread.cpp', EV + 'cye_work_thread.h', 'source/cyCore/core/cyc_lf_queue.h', EV + 'cye_pipe.cpp'], [('wake-up flag and pipe', 'cye_work_thread.cpp _wakeup/_on_message'), ('thread start hand-shake', 'cye_work_thread.cpp start/_work_thread')])
NW = 'source/cyNetwork/network/'
CN = [NW + 'cyn_tcp_connection.cpp', NW + 'cyn_tcp_connection.h']
prop('C26', 'A connection delivers everything sent, in order, and reports completion truly',
 'The bytes sent on a connection from its own thread reach the socket exactly once and in order, whatever share of each write the socket accepts, however often it is full, and whether the send comes from outside or from a callback. Send-complete is reported only when everything sent so far has been accepted, and is reported once it has; the write statistics count exactly the accepted bytes. A shutdown with output pending first delivers all of it unless the peer goes away, and then closes.',
 ['histories', 'fault_sequences'], 'all sequences of sends, partial writes, full socket buffers, shutdowns and peer failures',
 'On a loopback connection the kernel takes every write whole; back-pressure at a chosen byte never happens in a test.',
 CN + RB, [('direct write, then write buffer', 'cyn_tcp_connection.cpp _send'), ('draining', 'cyn_tcp_connection.cpp _on_socket_write'), ('deferred close', 'cyn_tcp_connection.cpp shutdown')])
prop('C27', 'A connection closes exactly once, releases everything, and only with cause',
 'However a connection ends (end of stream, reset, shutdown, in any combination and whatever its callbacks do, including dropping the last reference), its close callback runs exactly once, in the disconnected state, no callback follows it, and its descriptor is closed exactly once. Nothing then keeps the connection object alive, and further sends have no effect. A readiness report with nothing behind it neither ends the connection nor runs a callback.',
 ['histories', 'fault_sequences'], 'all sequences of peer events, sends, steps and callback actions up to the bound',
 'Tests close connections in one order from one side; close paths that nest in callbacks or coincide with a reset are not sampled.',
 CN, [('close', 'cyn_tcp_connection.cpp _on_socket_close'), ('read end and error', 'cyn_tcp_connection.cpp _on_socket_read'), ('write error', 'cyn_tcp_connection.cpp _on_socket_write')])
prop('C28', 'A connection hands over every received byte, in order, before its close',
 'Every byte the peer sent appears in the input buffer exactly once, unchanged and in order, however arrivals, partial consumption and sends interleave. The message callback runs once for each arrival and never without one, and everything sent before the end of stream can be consumed before the close callback returns. The read statistics count exactly the bytes received.',
 ['histories', 'inputs'], 'all sequences of arrivals, partial reads, sends and end of stream, all byte values',
 'Tests read everything in one callback; leftover input at a close or a partial read at a wrap position is not sampled.',
 CN + RB, [('read into the input buffer', 'cyn_tcp_connection.cpp _on_socket_read'), ('close', 'cyn_tcp_connection.cpp _on_socket_close')])
prop('C29', 'Messages sent from several threads stay whole, ordered and safe against close',
 'Sends made on one connection by several threads at once, its own loop thread included, arrive as whole messages, each exactly once and in each sender\'s order, and a waiting loop takes them up without another event. A send that races with the close of the connection is either delivered in order or dropped, never corrupts another message and never touches a released resource.',
 ['schedules'], 'all interleavings at locks, atomics and system calls of the loop thread with one or two sending threads',
 'Tests send from one thread at a time; splitting a message or losing a wake-up needs a context switch between two particular calls.',
 CN + LP, [('cross-thread send', 'cyn_tcp_connection.cpp send'), ('partial write with the lock released', 'cyn_tcp_connection.cpp _send'), ('cross-thread interest change', 'cye_looper.cpp enable_write')])
prop('C30', 'A client reports every connect attempt once and obeys retry and disconnect',
 'Each connect attempt of a client is reported exactly once, as it ended; after a failure the next attempt is made after exactly the delay the callback asked for, and none if it asked for none or a disconnect was requested. Data sent while connecting is delivered first and in order once connected. The reported state is the real one, a client holds one socket while connecting or connected and none otherwise, and a client dropped while not connected (also from inside a callback) leaves nothing behind.',
 ['histories', 'fault_sequences', 'inputs'], 'all sequences of connect outcomes (immediate, delayed, failing), sends, disconnects, elapsed times and callback actions up to the bound',
 'Tests connect to a listening or closed local port; immediate failures, retries and disconnects at a chosen moment are not sampled.',
 [NW + 'cyn_tcp_client.cpp', NW + 'cyn_tcp_client.h'] + CN, [('attempt outcome', 'cyn_tcp_client.cpp _on_connect_status_changed'), ('retry', 'cyn_tcp_client.cpp _abort_connect/_on_retry_connect_timer'), ('disconnect', 'cyn_tcp_client.cpp disconnect')])
SRV = [NW + x for x in ('cyn_tcp_server.cpp', 'cyn_tcp_server.h', 'internal/cyn_tcp_server_work_thread.cpp', 'internal/cyn_tcp_server_master_thread.cpp')]
prop('C31', 'A server hands every accepted client to one worker and serves it there',
 'Every accepted connection is reported connected exactly once, with an id no other connection has, and connections are given to the work threads in turn. All callbacks of a connection (connected, then messages, then one close) run on its own worker\'s thread with that worker\'s index; every byte a client sends reaches its own connection and every reply its own client. When a connection ends, through the peer, the callback or the server, its close is reported once, its descriptor is closed and the server forgets it, while other connections go on.',
 ['schedules', 'histories', 'inputs'], 'all schedules of master, workers and callers, all client behaviours and callback actions up to the bound',
 'Tests run a server against a local client on one schedule; which thread handles which event in which order is never varied.',
 SRV, [('hand-over', 'cyn_tcp_server.cpp _on_accept_socket'), ('new and closed connections', 'cyn_tcp_server_work_thread.cpp _on_workthread_message'), ('close', 'cyn_tcp_server.cpp _on_socket_close/shutdown_connection')])
prop('C32', 'A server starts, stops and joins cleanly at any moment',
 'Binding a free address succeeds and a busy one fails without a trace; a server starts with 1 to 32 workers, each thread reports its start once, and commands reach their thread once and in order. Stopping to listen on one address affects that address only. After stop() and join(), called at any moment, every connection that was accepted has been reported closed, all threads have ended and no descriptor or connection is left; stop() called inside a work thread is refused without any effect, inside the master thread it works.',
 ['schedules', 'fault_sequences', 'histories'], 'all schedules of stop and join against arriving, ending and idle connections up to the preemption bound; any failing set-up call',
 'The window in which a connection arrives or ends while the server stops is a few instructions wide.',
 SRV, [('stop', 'cyn_tcp_server.cpp stop/_on_master_shutdown/join'), ('listen sockets', 'cyn_tcp_server_master_thread.cpp'), ('worker shutdown', 'cyn_tcp_server_work_thread.cpp ShutdownCmd')])
SYS = ['source/cyCore/core/cyc_system_api.cpp', 'source/cyCore/core/cyc_system_api.h']
prop('C05', 'Mutexes, signals, threads and clocks of the system layer keep their contract',
 'A mutex is held by one thread at a time; a try takes a free mutex at once, never takes a held one, and a timed try gives up exactly at its deadline, for every wait and clock reading. A notification of an unlit signal releases exactly one wait, a present or else the next one; none is lost, further ones before that change nothing, a spurious wakeup releases no wait, and a timed wait gives up exactly at its deadline. A thread runs its function once with its argument, name and an id of its own; joining returns only after its end (a timed join may give up before), nothing is left behind afterwards, and the clocks count the microseconds elapsed.',
 ['schedules', 'inputs'], 'all schedules of up to four threads, spurious wakeups and timeouts; all wait times and clock readings',
 'Tests use a few waits on one schedule; deadline arithmetic across a second boundary and a notify between two instructions of a waiter are not sampled.',
 SYS, [('deadline arithmetic', 'cyc_system_api.cpp mutex_try_lock/signal_timewait'), ('signal flag', 'cyc_system_api.cpp signal_wait/signal_notify'), ('thread start and exit hand-shake', 'cyc_system_api.cpp _thread_create/_thread_entry/thread_join'), ('clocks', 'cyc_system_api.cpp performance_time_now/utc_time_now')])
prop('C06', 'Atomic maximum, minimum and exchange act as one step under any contention',
 'When several threads offer values to an atomic maximum (minimum), it ends at the largest (smallest) of its start value and all offers, and an offer reports success only if it replaced a less extreme value: exactly when needed by at least one thread, and always by the sole bearer of the extreme value. A compare-exchange succeeds only if the expected value was there, then stores the new one, and fails without any effect otherwise.',
 ['schedules', 'inputs'], 'all interleavings of two or three threads, all values',
 'A lost update between the load and the exchange needs one particular interleaving with particular values.',
 ['source/cyCore/core/cyc_atomic.h'], [('retry loop', 'cyc_atomic.h atomic_greater_exchange/atomic_smaller_exchange'), ('compare exchange', 'cyc_atomic.h atomic_compare_exchange')])
ADR = [NW + 'cyn_address.cpp', NW + 'cyn_address.h', 'source/cyCore/core/cyc_socket_api.cpp']
prop('C07', 'An address keeps its ip and port through text, copies, order and hash',
 'An address made from any ip and port reports exactly that ip (as dotted decimal text) and port, and the address made from its text and port, and every copy, is equal to it. Addresses are equal exactly when ip and port are, exactly one of two different ones is smaller, the order is transitive, and equal addresses have equal hashes. An address taken from a socket is the socket\'s local or peer name, and the empty address (0.0.0.0, port 0) when the socket has none.',
 ['inputs', 'fault_sequences'], 'every ip and port, any three of them; every state of the socket',
 'Tests use a few addresses; byte order, boundary octets and failing name calls are not sampled.',
 ADR, [('construction and text', 'cyn_address.cpp Address constructors'), ('order, equality, hash', 'cyn_address.h operator==/operator<, cyn_address.cpp hash_value')])
prop('C33', 'Socket helpers answer truly and release what they take',
 'The connection test answers true exactly when the connection came about within the given time (without limit if negative), false otherwise, for any descriptor number, and leaves no descriptor open whatever fails. Resolving a name yields its first IPv4 address, or fails and changes nothing; port and family are never changed and the resolver\'s result is released once. Setting an option changes that option and no other and reports success truthfully; byte order conversion is exact.',
 ['inputs', 'fault_sequences'], 'every outcome of connecting, every wait, descriptor numbers beyond FD_SETSIZE, every failing call, every list of resolver results',
 'Tests connect to an open or closed local port; delayed outcomes, failing calls and high descriptor numbers are not sampled.',
 ['source/cyCore/core/cyc_socket_api.cpp'], [('connection test', 'cyc_socket_api.cpp check_connect'), ('resolution', 'cyc_socket_api.cpp resolve_hostname'), ('options', 'cyc_socket_api.cpp set_nonblock/set_close_onexec/set_nodelay/set_keep_alive/set_reuse_addr/set_linger')])
prop('C08', 'The logger writes every accepted message as one whole line, none twice or torn',
 'Every message at or above the current threshold, whatever its length and content, is appended as one whole line with time, level, thread name and the complete text to the current log file, which is made with its directory if missing, and to standard output, or standard error from error level on; messages below the threshold leave no trace. Lines of several threads are never torn or lost and those of a thread keep their order, also while the log is renamed; a message that cannot be formatted or written takes no other with it, and nothing stays open or allocated. A log name is accepted exactly if path and name are not empty, the default name is made of process, time, host and process number for every process and host name, and a failing socket call is logged with its error number.',
 ['schedules', 'inputs', 'fault_sequences'], 'texts of any length class around the internal buffer with arbitrary characters, every threshold and level, all schedules of up to three threads, failing calls, process and host names of any length',
 'Tests do not exercise the logger at all; the internal buffer limit, long process or host names and a failing open are not sampled.',
 ['source/cyCore/core/cyc_logger.cpp', 'source/cyCore/core/cyc_logger.h'] + SYS, [('line formatting', 'cyc_logger.cpp disk_log'), ('file name', 'cyc_logger.cpp DiskLogFile/set_log_filename'), ('process name', 'cyc_system_api.cpp process_get_module_name')])
prop('C16', 'The block cipher is AES-128 in CBC mode and decryption undoes encryption',
 'For every key, vector and data of whole blocks, encryption yields exactly the ciphertext of AES-128 (FIPS-197) in CBC mode and decryption yields the data again. A call leaves in the caller\'s vector the last ciphertext block, so that data processed in parts, each a whole number of blocks, yields the same bytes as in one call; without a vector the default one is used and never changed. Input and output may be the same memory; nothing outside the output and the vector is written.',
 ['inputs'], 'any single byte of key, vector or data over several backgrounds against the standard; any key, vector and data for splitting and in-place use',
 'Tests use one random key and text; a wrong table entry shows for one value of one byte at one position.',
 ['source/cyCrypt/crypt/cyr_rijndael.cpp', 'source/cyCrypt/crypt/cyr_rijndael.h'], [('key schedule', 'cyr_rijndael.cpp Rijndael::Rijndael'), ('chaining', 'cyr_rijndael.cpp encrypt/decrypt'), ('rounds', 'cyr_rijndael.cpp _encryptBlock/_decryptBlock')])
prop('C13', 'The command line parser reports every option as documented and loses nothing',
 'For every argument list, option table entry and combination of flags, parsing ends and reports, in order, exactly the options given, each by its id and text with its own combined, separate or multiple arguments, and exactly the documented error for everything that is wrong: unknown, ambiguous, superfluous, missing or option-like arguments. An option is recognised by its full name or, unless exact names are asked for, by an unambiguous beginning, and case matters exactly where the flags say so; clumps and short options with attached arguments are taken apart as documented. Everything that is no option is left as a file, unchanged and in its original order, and the argument array keeps all its entries; no text or array is accessed out of bounds.',
 ['inputs'], 'every argument of up to 4 (thorough 5) characters with every combination of flags, pairs of short arguments, lists of typical words, lists around the static buffer size',
 'Nothing tests the parser; its flags, argument types and clumps combine to far more cases than samples use.',
 ['source/cyUtility/utility/cyu_simple_opt.h'], [('matching', 'cyu_simple_opt.h LookupOption/CalcMatch/IsEqual'), ('parsing', 'cyu_simple_opt.h Next/NextClumped/MultiArg'), ('files', 'cyu_simple_opt.h ShuffleArg')])
prop('C17', 'Two parties of the key exchange derive the same secret',
 'For every pair of private keys, both parties that exchange the public keys of DH_generate_key_pair obtain by DH_generate_key_secret the same 128-bit secret, G^(ab) mod 2^128-159.',
 ['inputs'], 'not applicable: see the manifest', 'Tests use one random pair of keys.',
 ['source/cyCrypt/crypt/cyr_dhexchange.cpp'], [('modular power', 'cyr_dhexchange.cpp _powmodp/_mulmodp')])
NA['C17'] = 'Agreement is a nonlinear identity over 128-bit modular exponentiation: the double-and-add loops fork on every bit of a symbolic operand (2^128 paths) and, with the branches merged, leave products of hundreds of chained conditional 128-bit reductions that no SMT solver decides; what remains within reach, a handful of symbolic key bits, degenerates to enumerating concrete runs. By reading: a private key of 0 makes _powmodp_r recurse without end (probability 2^-128 for generated keys).'
