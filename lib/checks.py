"""Job table: which harness entries decide which property, and within what bounds."""
import os
from vp import Build
TABLE = {}
TL = 600 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 1500
def check(f): TABLE[f.__name__] = f; return f

def ringbuf(c, cap=0):
    cap = cap or (4 if c.tier == 'quick' else 6)
    return Build(c.work, 'ringbuf', 'ringbuf.cpp', libs=['cyCore', 'cyCrypt'], defines=['CAPMAX=%d' % cap]), cap

@check
def C01(c):
    b, cap = ringbuf(c)
    st = 'every capacity 1..%d, every reachable read/write index pair, all byte values' % cap
    ops = ['append 0..cap+3 bytes', 'copy out 0..12 bytes', 'discard any 64-bit count', 'resize 0..20', 'reset', 'normalize', 'peek with any 64-bit offset and count', 'move 0..10 bytes to a second buffer of any shape of capacity 2']
    c.symbolic(b, [('h_op%d' % i, '%s; then %s' % (st, o)) for i, o in enumerate(ops)] + [('h_seq', st.replace(str(cap), str(cap - 1), 1) + '; then any two of the operations'), ('h_leak', 'append/resize/discard/append/normalize up to 9 bytes, then destruction'), ('h_big', 'capacities 1023, 2051, 3000; wrapped parts of 1, 2, 1022..1026 bytes each; flatten, grow, copy out, move, discard around the wrap (fixed byte pattern)')], time_limit=TL)
    c.assumptions += ['malloc/new never fail']
@check
def C02(c):
    b, cap = ringbuf(c, 3 if c.tier == 'quick' else 5); st = 'every capacity 1..%d, every index pair, all byte values, ' % cap
    c.symbolic(b, [('h_search', st + 'any 64-bit offset, any byte'), ('h_checksum', st + 'any 64-bit offset and count')], time_limit=TL)
@check
def C03(c):
    b, cap = ringbuf(c)
    c.symbolic(b, [('h_read', 'capacity 1..3, every index pair, 1..9 bytes available, success/EAGAIN/reset/end of stream, growth allowed or not'), ('h_write', 'capacity 1..%d, every index pair, descriptor accepts any number of bytes, EAGAIN, EPIPE' % cap)], time_limit=TL)
    c.assumptions += ['the descriptor is a model of readv/writev/read/write honouring POSIX short-transfer rules']

PT = ['rt_pthread.cpp', 'rt_clock.cpp']
def util(c, q=False): return Build(c.work, 'util', 'util.cpp', libs=['cyCore', 'cyCrypt'], models=PT, defines=['QCAP=%d' % (3 if c.tier == 'quick' else 5)])
@check
def C09(c):
    c.symbolic(util(c), [('h_fixed', 'fixed capacity 1..3, every index pair, up to capacity+1 further pushes, pop of any 64-bit count, all values'), ('h_grow', 'growable queue of the default capacity, every read index, filled to the brim and grown by 1..3 elements')], time_limit=300)
@check
def C10(c):
    c.symbolic(util(c), [('h_period', 'any period 1..10^6, up to 3 samples with any values and any non-decreasing times, two queries at any later times'), ('h_period_full', '29..36 samples around the full window, period 5..40, query 0..3 ms after the last')], time_limit=300)
@check
def C11(c):
    c.symbolic(util(c), [('h_minmax_' + t, 'up to 3 updates of any values of type ' + t) for t in ('i32', 'u64', 'i64')], time_limit=300)

def crypt(c, n): return Build(c.work, 'crypt', 'crypt.cpp', libs=['cyCrypt'], defines=['AN=%d' % n])
@check
def C14(c):
    c.symbolic(crypt(c, 24 if c.tier == 'quick' else 40), [('h_adler', 'every valid running value, 0..24 (thorough 40) arbitrary bytes'), ('h_adler_split', 'every valid running value, 0..5 arbitrary bytes, every split point'), ('h_adler_big', 'lengths 5535..11121 around the deferred-modulo limit, every valid running value, arbitrary first, last and repeated byte'), ('h_adler_max', 'largest running value, 11111 bytes of 255 and an arbitrary last byte')], time_limit=300)
@check
def C15(c):
    c.symbolic(crypt(c, 8), [('h_xor', 'any 128-bit seed, any data of 0..26 bytes at 4 alignments'), ('h_xor_chunk', 'any seed and data of 0..31 bytes, every split at a multiple of 8')], time_limit=300, args=['--no-select-fork'])

KM = PT + ['rt_kernel.cpp']
def packet(c): return Build(c.work, 'packet', 'packet.cpp', libs=['cyCore', 'cyCrypt', 'cyEvent'], models=KM, exclude=('cye_looper_kqueue.cpp',), off=['CY_ENABLE_LOG'], defines=['ST=%d' % (18 if c.tier == 'quick' else 26), 'KCAP=48'])
@check
def C18(c):
    c.symbolic(packet(c), [('h_memory', 'head 4..8, two-part contents of 0,1,2,7 and around the inline storage limit 1024, all ids and bytes (first 8, last 4), fresh and reused objects, copies'), ('h_memory_max', 'contents of 65535 bytes in one or two parts')], time_limit=300)
@check
def C19(c):
    c.symbolic(packet(c), [('h_stream', 'head 4..6, every byte stream of 0..18 (thorough 26) bytes, every split into two arrivals, three wrap positions', ['end', 'two packets']), ('h_big_stream', 'packets around the inline storage limit, complete or one byte short'), ('h_pipe_packet', 'head 4..6, content 0..6, any prefix of the packet in the pipe')], time_limit=300)
@check
def C20(c):
    c.symbolic(packet(c), [('h_pipe', 'any three reads/writes of 1..10 bytes on a pipe of capacity 8'), ('h_socket_pipe', 'the socket-pair construction with any one of its first 16 system calls failing', ['end', 'failed'])], time_limit=300)
    c.assumptions += ['pipes, sockets and their non-blocking behaviour are a model of the kernel (rt/rt_kernel.cpp)']

SD = ['--dedup']
def event(c, nops): return Build(c.work, 'event%d' % nops, 'event.cpp', libs=['cyCore', 'cyCrypt', 'cyEvent'], models=KM, exclude=('cye_looper_kqueue.cpp',), off=['CY_ENABLE_LOG'], defines=['NOPS=%d' % nops, 'KCAP=16', 'KNFD=32'])
@check
def C22(c):
    n = 3 if c.tier == 'quick' else 4
    c.symbolic(event(c, n), [('h_ops', 'two sockets, any initial watch, %d arbitrary changes (register, enable, disable, delete), 6 readiness classes, both report orders, one pass of step() or of loop()' % n), ('h_between', 'poll, arbitrary changes, poll by step() or loop()'), ('h_many', '18 ready sockets, any one deleted, both report orders'), ('h_eintr', 'up to two interrupted polls'), ('h_hangup', 'a socket and two pipe ends, each reading or writing, empty or full, other end open or closed, both report orders')], time_limit=TL, args=SD)
    b = event(c, 2); b.sched = True; b.flags.append('-DBUDGET=1000')
    c.symbolic(b, [('h_ask', 'another thread enables the write interest while the loop waits, every schedule')], time_limit=TL, args=SD)
@check
def C23(c):
    c.symbolic(event(c, 2), [('h_timer', 'every period 1..64 ms one by one, two polls at arbitrary times up to 200 ms apart', ['end', 'all']), ('h_timer_big', 'ten periods between 999 and 4294967295 ms, three polls at arbitrary nanosecond times, each less than two periods after the previous due time', ['end', 'all']), ('h_timer_loop', 'inside loop(): four periods, three passes at arbitrary times, next to a ready socket', ['end', 'all']), ('h_timer_any', 'the same for any period 1..4294967295 ms', ['end', 'all']), ('h_two_timers', 'two timers with periods 300, 777, 1000 or 1300 ms started 0, 1, 299, 477 or 1000 ms apart and a socket, a poll at any time in the next 2 s, one deleted, one added')], time_limit=200 if c.tier == 'quick' else 1500, args=SD)
@check
def C24(c):
    c.symbolic(event(c, 2), [('h_mutate', 'a read or write callback enables, disables, deletes or replaces itself or the other registration, or registers up to 18 more; any readiness, both report orders, two passes of step() or of loop()'), ('h_mutate_timer', 'a timer callback deletes itself or another timer, registers a timer or socket')], time_limit=TL, args=SD)
@check
def C25(c):
    n = 1000
    b = event(c, 2); b.sched = True; b.flags.append('-DBUDGET=%d' % n)
    c.symbolic(b, [('h_stop', 'a loop and a thread requesting the stop, every schedule (no preemption bound) at locks, atomics and system calls'), ('h_stop2', 'two requesting threads'), ('h_stop3', 'three requesting threads'), ('h_stop_change', 'a thread that changes a registration twice and then requests the stop, every schedule'), ('h_stop_change2', 'one thread changes a registration, another requests the stop, every schedule'), ('h_stop_busy', 'a loop that is continuously busy'), ('h_stop_inside', 'up to 3 sockets, request from the k-th callback, loop or step'), ('h_stop_before', 'request before the loop starts')], time_limit=TL, args=SD)

def conc(c): return Build(c.work, 'conc', 'conc.cpp', libs=['cyCore', 'cyCrypt', 'cyEvent'], models=KM, exclude=('cye_looper_kqueue.cpp',), off=['CY_ENABLE_LOG'], defines=['KCAP=16', 'KNFD=24', 'BUDGET=1000', 'WB=1000', 'WB3=%d' % (2 if c.tier == 'quick' else 4)], sched=True)
@check
def C04(c):
    al = 'every interleaving (no preemption bound) at atomic and first shared plain accesses, sequentially consistent; capacity %s, every fill level at the start, wrapped indices'
    es = [('h_lfq_pp', '2 producers x 1, 1 consumer x 2; ' + al % 4), ('h_lfq_pop2', '1 producer, 2 consumers; ' + al % 4), ('h_lfq_full', '2 producers x 2 up to the brim; ' + al % 4), ('h_lfq_spsc', '1 producer x 3, 1 consumer x 3; ' + al % 4), ('h_lfq_two', '1 producer x 2, 1 consumer x 2; ' + al % 2), ('h_lfq_ring', '2 threads mixing 4 + 2 pushes and pops; ' + al % 4), ('h_lfq_pop', '3 threads mixing pushes and pops; ' + al % 2), ('h_lfq_mpmc', '2 producers, 2 consumers; ' + al % 4), ('h_lfq_mpmc2', '2 producers x 2, 1 consumer x 2; ' + al % 4)]
    if c.tier != 'quick': es += [('h_lfq_any2', '2 threads x 3 operations, every combination of pushes and pops; ' + al % 4), ('h_lfq_any3', '3 threads x 2, 2 and 1 operations, every combination; ' + al % 4)]
    c.symbolic(conc(c), es, time_limit=TL, args=SD, mem=9000)
    c.assumptions += ['atomic operations are sequentially consistent and compare_exchange_weak does not fail spuriously (x86)']
@check
def C21(c):
    b3 = 2 if c.tier == 'quick' else 4; w = 'every schedule at locks, atomics, system calls and first shared plain accesses: '
    c.symbolic(conc(c), [('h_wt_one', w + 'one sender x 2 messages, all three send forms'), ('h_wt_two', w + 'two senders'), ('h_wt_three', 'at most %d preemptions: three senders, 4 messages' % b3), ('h_wt_start', w + 'sending while the worker starts'), ('h_wt_start_false', w + 'start callback refuses'), ('h_wt_stop_inside', w + 'stop from the message callback'), ('h_wt_self', w + 'the worker sends to itself from its callbacks')], time_limit=TL, args=SD)
    c.assumptions += ['atomic operations are sequentially consistent']

def net(c, nstep): return Build(c.work, 'net%d' % nstep, 'net.cpp', libs=['cyCore', 'cyCrypt', 'cyEvent', 'cyNetwork'], models=KM + ['rt_stdio.cpp'], exclude=('cye_looper_kqueue.cpp',), off=['CY_ENABLE_LOG'], defines=['KCAP=48', 'KNFD=16', 'NSTEP=%d' % nstep])
@check
def C26(c):
    n = 5 if c.tier == 'quick' else 6
    c.symbolic(net(c, n), [('h_out', 'any %d of: send 1..3 bytes, socket accepts 0..3 more bytes, loop step, send from the send-complete callback; all byte values' % n), ('h_flush', '0..5 bytes in one or two sends, room 0..4, shutdown with or without output pending, then the peer stays, ends, resets or sends; room 1..3 per further step')], time_limit=TL, args=SD)
@check
def C27(c):
    n = 5 if c.tier == 'quick' else 6
    c.symbolic(net(c, n), [('h_life', 'any %d of: step, arrival, send, end of stream, reset, change of room; message, send-complete and close callbacks each do nothing, shut down, send, drop the last reference' % (n - 1)), ('h_spurious', 'readable or writable reported with nothing behind it, output pending')], time_limit=TL, args=SD)
@check
def C28(c):
    n = 5 if c.tier == 'quick' else 6
    c.symbolic(net(c, n), [('h_in', 'any %d of: arrival of 1..4 bytes, step consuming 0..4, consumption outside the callback, send; then end of stream; all byte values' % n), ('h_in_half', 'shutdown with output pending, then %d steps with or without an arrival of 1..3 bytes, consuming 0..4; then the peer ends or takes the output' % (n - 2))], time_limit=TL, args=SD)
@check
def C29(c):
    b = net(c, 4); b.sched = True; w = 'every interleaving (no preemption bound) at locks, atomics and system calls: '
    es = [('h_mt', w + 'loop thread sends 2, other thread 1 message of 3 bytes; room 0..7 bytes first'), ('h_mt_loop', w + 'waiting loop, another thread sends'), ('h_mt_close', w + 'another thread sends 2 messages while the loop thread shuts down or sees end of stream or reset, output blocked or not')]
    es += [('h_mt2', w + 'loop thread and two other threads, 1 message of 3 bytes each; room 0 or 4 bytes first')]
    c.symbolic(b, es, time_limit=TL, args=SD)
    c.assumptions += ['atomic operations are sequentially consistent']
@check
def C30(c):
    n = 4 if c.tier == 'quick' else 5
    c.symbolic(net(c, n), [('h_client', 'first connect pending, immediate or refused at once; retry delay 0, 1, 250 ms; any %d of: step, outcome, 0..400 ms elapse, send, disconnect, connects start to fail or work, arrival or new connect' % n), ('h_client_cb', 'callbacks send, disconnect or drop the client in any combination, connect outcome and data arrival in any combination'), ('h_client_drop', 'client dropped while connecting or waiting to retry')], time_limit=TL, args=SD)
def server(c, bud): return Build(c.work, 'server%d' % bud, 'server.cpp', libs=['cyCore', 'cyCrypt', 'cyEvent', 'cyNetwork'], models=KM + ['rt_stdio.cpp'], exclude=('cye_looper_kqueue.cpp',), off=['CY_ENABLE_LOG'], defines=['KCAP=16', 'KNFD=28', 'BUD=%d' % bud], sched=True)
SV = 'the first client on every schedule; then every schedule at blocking points with at most %d further preemption(s) at locks, atomics, system calls and polls'
@check
def C31(c):
    b = SV; q = c.tier == 'quick'
    c.symbolic(server(c, 2 if q else 3), [('h_serve', '1 worker, 1 client, the connected callback does nothing, replies, shuts down or asks the server to; 0..2 bytes, then the client stays, ends, resets or is shut down; ' + b % (2 if q else 3))], time_limit=TL, args=SD, mem=12000)
    drain = ('h_serve_drain', '1 worker; in the connected or message callback 6 bytes are sent to a socket that takes 1..6 and the connection is shut down; another client comes or not; then the client takes the rest, ends, resets, is shut down again or the server stops; ' + b % 1, ['end', 'kept'])
    two = ('h_serve2', '2 workers, 2 clients, a byte each; the message callback does nothing, replies, shuts down or asks the server to; ' + b % 1)
    msg = [('h_serve_msg', '1 worker, 1..2 clients, the message callback does nothing, replies, shuts down or asks the server to; 0..2 bytes each, then the client stays, ends, resets or is shut down; all byte values; ' + b % (0 if q else 1)), ('h_serve3', '2 workers, 3 clients, a byte each; each stays or ends; ' + b % (0 if q else 1))]
    c.symbolic(server(c, 1), [two, drain] + ([] if q else msg), time_limit=TL, args=SD, mem=8000)
    if q: c.symbolic(server(c, 0), msg, time_limit=300, args=SD, mem=8000)
    c.assumptions += ['atomic operations are sequentially consistent', 'sockets, epoll, eventfd and pthreads are models (rt/)']
@check
def C32(c):
    q = c.tier == 'quick'; one = server(c, 1); two = server(c, 2); s1 = '1 worker; stop() and join() while 0..2 clients are connected, end, are shut down or arrive; '; s2 = s1.replace('1 worker', '2 workers')
    c.symbolic(one, [('h_stop_two', s2.replace('0..2', '0..1') + SV % 1), ('h_stop_two_new', s2 + SV % 1), ('h_stop_inside', 'stop() from every kind of callback'), ('h_listen', 'two addresses, one possibly stopped (once or twice), up to 2 clients, accept failing or not, all command forms'), ('h_bind_fail', 'any one of the first six system calls of bind() fails; then started or not')], time_limit=300, args=SD)
    c.symbolic(two, [('h_stop', s1 + SV % 2)] + ([] if q else [('h_stop_two', s2.replace('0..2', '0..1') + SV % 2)]), time_limit=300 if q else 1500, args=SD, mem=12000)
    c.assumptions += ['atomic operations are sequentially consistent', 'sockets, epoll, eventfd and pthreads are models (rt/)']

def sysb(c): return Build(c.work, 'sys', 'sys.cpp', libs=['cyCore', 'cyCrypt'], models=PT, sched=True, off=['CY_ENABLE_LOG'])
@check
def C05(c):
    w = 'every schedule (no preemption bound) at locks, signals, clocks and system calls: '
    c.symbolic(sysb(c), [('h_mutex', w + '2..3 threads x 2 sections, lock, try or timed try, one timeout'), ('h_try_time', 'a held mutex, any wait (int32), any clock up to 4e9 s', ['end', 'timed']), ('h_signal', w + '2 waiters (any of wait, timed wait, poll), 0..2 notifications, lit or not, one spurious wakeup, one timeout'), ('h_signal3', w + '3 waiters (the third waits or waits timed), 2 notifications'), ('h_signal_time', 'lit never, once or twice, any wait 0..2^31-1, any clock', ['end', 'timed']), ('h_thread', w + '1..2 threads joined, joined with a time or detached'), ('h_time', 'any clock readings up to 2^60 ns apart, any sleep up to 100 s')], time_limit=TL, args=SD)
    c.assumptions += ['pthreads and clocks are models (rt/); waits are not negative, clocks do not jump while waiting']
@check
def C06(c):
    w = 'every interleaving (no preemption bound) at atomic operations: '
    c.symbolic(sysb(c), [('h_extreme', w + '2 threads, maximum or minimum, all 32-bit values'), ('h_extreme3', w + '3 threads'), ('h_cas', w + '2 threads, all 64-bit values')], time_limit=TL, args=SD)
    c.assumptions += ['atomic operations are sequentially consistent and compare_exchange_weak does not fail spuriously (x86)']
def addr(c): return Build(c.work, 'addr', 'addr.cpp', libs=['cyCore', 'cyCrypt', 'cyEvent', 'cyNetwork'], models=KM + ['rt_stdio.cpp'], exclude=('cye_looper_kqueue.cpp',), off=['CY_ENABLE_LOG'], defines=['KCAP=8', 'KNFD=1100'])
@check
def C07(c):
    c.symbolic(addr(c), [('h_text', 'every ip and port: to text and back, copies'), ('h_assign', 'every ip and port assigned over an empty address, a longest and a shorter text, an address by port; itself; copied into filled memory'), ('h_port', 'every port'), ('h_order', 'any three ips and ports'), ('h_fd', 'local and peer name of a connected, unconnected, reset or wrong descriptor, name call failing', ['end', 'none'])], time_limit=300)
    c.assumptions += ['inet_pton and inet_ntop are models of the C library']
@check
def C33(c):
    c.symbolic(addr(c), [('h_bytes', 'every value'), ('h_options', 'any three option changes'), ('h_resolve', '0..3 results of either family, any address'), ('h_check', 'connect succeeds, fails or is pending at once; then succeeds, fails or times out; any wait (int32); any of the first three calls fails; descriptor numbers from 3, 1023, 1024, 1084', ['end', 'waited'])], time_limit=300)
    c.assumptions += ['socket, select, poll and getaddrinfo are models']
def log(c): return Build(c.work, 'log', 'log.cpp', libs=['cyCore', 'cyCrypt'], models=PT + ['rt_stdio.cpp', 'rt_log.cpp'], sched=True)
@check
def C08(c):
    w = 'every schedule (no preemption bound) at locks, system calls and in the middle of every line written: '
    es = [('h_log', 'two messages: any threshold, level and text of 0..3 characters, directory there or not, mkdir fails, opening fails up to twice'), ('h_full', 'three messages, opening fails 1..3 times for the second'), ('h_long', 'texts of 0, 1, 2045..2050, 4096, 5001 characters with arbitrary ends, three formats, formatting fails once or not'), ('h_bad', 'formatting fails altogether'), ('h_name', 'two changes of name, seven paths, four names'), ('h_calls', 'any of 16 failing socket calls, three error numbers'), ('h_default', 'process names of 1..254, directories of 0..253, host names of 0..64 characters, readlink and gethostname fail or not'), ('h_two', w + '2 threads x 2 messages'), ('h_rename', w + '2 threads x 2 messages, the main thread renames the log'), ('h_rename_dirs', w + 'the same, neither directory there at first')]
    es += [('h_three', w + '3 threads x 2 messages')]
    c.symbolic(log(c), es, time_limit=TL, args=SD)
    c.assumptions += ['files, the clock and printf are models; the disk is never full']
@check
def C16(c):
    bg = 'one arbitrary byte at any place of key, vector or data over three backgrounds, '
    c.symbolic(crypt(c, 8), [('h_aes', bg + 'one block, against FIPS-197'), ('h_aes2', bg + 'two blocks'), ('h_aes_dec', 'one arbitrary ciphertext byte at any place, three backgrounds'), ('h_aes_place', 'one arbitrary data byte over three backgrounds, 1..3 blocks, encrypted or decrypted, in place or not, in one or two calls, with a given or the default vector')], time_limit=TL, args=['--no-select-fork'])
    c.symbolic(crypt(c, 8), [('h_aes_any', 'any key, vector and data of 0..3 blocks; two parts in place against one call')], time_limit=120, args=['--no-select-fork', '--query-timeout', '20'])
def opt(c, l): return Build(c.work, 'opt', 'opt.cpp', libs=['cyCore', 'cyCrypt'], models=PT, defines=['LEN1=%d' % l, 'WORDS=%d' % (l - 1)])
@check
def C13(c):
    l = 4 if c.tier == 'quick' else 5
    c.symbolic(opt(c, l), [('h_one', 'one argument of 0..%d arbitrary characters and up to two given ones, any flags' % l), ('h_two', 'two arguments of 0..2 arbitrary characters, any flags'), ('h_words', 'any %d of twelve typical words, any flags' % (l - 1)), ('h_many', '48..52 arguments in four mixtures')], time_limit=TL, args=SD)
