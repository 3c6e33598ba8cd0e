"""Property source data: see gen_meta.py."""
NOTES = ('One simulator (sim/) links all of /repo\'s library sources against a simulated kernel; every check is a seeded search over worlds (sim/worlds). '
         'No hooks in /repo. Genuine defects found were repaired as fix: commits or listed in known_findings.txt.')
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, tech=None, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, **kw)
    if tech: d['tech'] = tech
    PROPS.append(d)
S, C, I, H, G, F = 'schedules', 'crash_points', 'inputs', 'histories', 'configurations', 'fault_sequences'

P('T01', 'Mutexes exclude and condition variables never lose a wakeup',
  'At most one thread holds a mutex at a time (a recursive one may be held repeatedly by its owner and is released by the matching number of unlocks), and a try-lock fails only if the mutex is held. '
  'A signal wakes at least one thread waiting at that moment and a broadcast wakes all of them; every waiter owns the mutex again when its wait returns. '
  'A timed wait reports activation only if something was signalled, and otherwise ends no earlier than the requested time and promptly after it, for any delay.',
  [S, I, F], 'every interleaving of lockers, waiters and signallers, every delay, stalls and wall-clock jumps', 'Tests run a few threads once on the real scheduler: lost wakeups and exclusion failures need specific interleavings, and long delays cannot be waited for.',
  ['thread/m_thread.c', 'thread/m_thread_pthread.c', 'include/mstdlib/thread/m_thread.h'], [('mutex and cond wrappers', 'thread/m_thread_pthread.c'), ('model dispatch', 'thread/m_thread.c')],
  'seeded schedules, preemption at every access; ownership model, bounded buffer history, timed-wait oracle on the virtual clock')
P('T02', 'Read/write locks exclude writers, share readers, and prefer waiting writers',
  'While a thread holds the write lock no other thread holds the lock in either mode; any number of readers may hold it together and are not made to wait when no writer holds or wants it. '
  'Once a writer is waiting, readers that arrive later do not acquire the lock before it, so writers are not starved.',
  [S, F], 'every interleaving of readers and writers, stalls', 'A test samples one interleaving; starvation and priority only appear under sustained contention in particular orders.',
  ['thread/m_thread_pthread.c', 'thread/m_thread_rwlock_emu.c', 'include/mstdlib/thread/m_thread.h'], [('native rwlock', 'thread/m_thread_pthread.c'), ('emulated rwlock', 'thread/m_thread_rwlock_emu.c')],
  'seeded schedules against a reader/writer set model, sharing and writer-preference probes, progress deadline')
P('T03', 'Thread pools run every queued task exactly once and parents can wait for theirs',
  'Every task accepted by a pool runs exactly once, never on more threads than the configured maximum, and when a parent\'s wait returns all tasks queued before it have finished. '
  'Queueing from several threads, tasks that queue more tasks, idle-thread expiry and failure to create threads neither lose nor strand a task. '
  'Destroying the pool ends all its threads and frees everything.',
  [S, F, H], 'every schedule of dispatchers, workers and idle expiry; thread-creation failure', 'Tests dispatch a fixed batch once; stranded tasks need a dispatch exactly while an idle worker exits.',
  ['thread/m_threadpool.c', 'include/mstdlib/thread/m_threadpool.h'], [('queue, idle expiry, parent counters', 'thread/m_threadpool.c')],
  'seeded schedules and idle timers with virtual time, thread-creation faults; exactly-once ledger, concurrency bound, termination deadline')
P('T04', 'Thread pipelines run each task through every step once, in order',
  'Each task inserted in a pipeline passes through the steps in order, one task at a time per step and in insertion order, and its completion callback runs exactly once with a result that says whether it succeeded, failed or was aborted. '
  'A failing step, or destroying the pipeline at any moment, stops the remaining work without deadlock and without losing a completion callback.',
  [S, F, H], 'every schedule of the step threads, the inserter, failures and destroy', 'Tests run one pipeline without failures racing destruction.',
  ['thread/m_thread_pipeline.c', 'include/mstdlib/thread/m_thread_pipeline.h'], [('step hand-over and abort', 'thread/m_thread_pipeline.c')],
  'seeded schedules with step failures and destroy at random points; per-task step ledger, exactly-once completion, deadlock detection')
P('T05', 'Threads start, end, join and clean up thread-local data exactly once',
  'Every thread whose creation is reported as successful runs its function exactly once with its argument, its return value reaches the joiner, and creation failures are reported. '
  'Thread-local values are private to their thread and each is destroyed exactly once when the thread ends; registered end-of-thread callbacks run exactly once; one-time initialisers run once however many threads race to them. '
  'Spinlocks exclude, and the count of live threads is exact when threads are quiescent.',
  [S, F], 'every schedule of creators, joiners and ending threads; spurious wakeups, creation failures', 'The hand-shake and destructor races need specific interleavings and spurious wakeups no test can provoke.',
  ['thread/m_thread.c', 'thread/m_thread_tls.c', 'thread/m_thread_attr.c', 'thread/m_thread_int.h'], [('creation handshake and count', 'thread/m_thread.c'), ('TLS destructors', 'thread/m_thread_tls.c')],
  'seeded schedules with spurious wakeups and creation faults; exactly-once ledgers over the run history')
P('T06', 'Atomic operations are linearizable',
  'Concurrent atomic increments, decrements, additions, subtractions and compare-and-swap operations on 32 and 64 bit values behave as if executed one at a time in some order consistent with real time, and each returns the value that order implies.',
  [S], 'every interleaving of operations from several threads', 'A racy fall-back loses an update only if preempted between load and store.',
  ['thread/m_atomic.c', 'include/mstdlib/thread/m_atomic.h'], [('atomic primitives', 'thread/m_atomic.c')],
  'seeded schedules with preemption inside the operations; linearizability check of the complete history')

P('E01', 'Timers fire on the owning loop, never early, and as often as asked',
  'A started event timer calls its callback on its event loop\'s thread, not before its interval has elapsed since it was started or last fired (1 ms resolution), and promptly afterwards when the loop is free; it fires no more than its fire count and never after being stopped or removed. '
  'Start, stop, reset, adjust, remove and callback edits take effect from any thread and from inside callbacks, wall-clock jumps do not disturb running timers, and callbacks of one loop never overlap.',
  [S, I, F], 'every set of timers, operation sequence and interleaving of loop and controlling threads; wall-clock jumps and stalls', 'Tests run a few short timers once in real time; operations racing the firing timer, clock jumps and long intervals are out of their reach.',
  ['io/m_event_timer.c', 'io/m_event.c', 'base/time/m_time_elapsed.c', 'include/mstdlib/io/m_event.h'], [('timer queue', 'io/m_event_timer.c'), ('loop', 'io/m_event.c')],
  'seeded schedules on a virtual clock; each timer is tracked by a reference model of its due time, count and state')
P('E02', 'A signalled trigger or queued task is always delivered on the loop',
  'After a trigger is signalled from any thread its callback begins at least once afterwards and runs in the event loop thread; signals may be coalesced but never lost, and no callback happens without a signal. '
  'Each queued task runs exactly once in the loop\'s thread. After removal has taken effect callbacks stop, and a sleeping loop is woken.',
  [S, F], 'every interleaving of signallers, removers and the loop, with interrupted system calls', 'A lost wake-up needs a signal in the few instructions between the loop deciding to sleep and sleeping.',
  ['io/m_event_trigger.c', 'io/m_event.c', 'io/m_io_osevent_pipe.c', 'include/mstdlib/io/m_event.h'], [('soft events and wake', 'io/m_event.c'), ('self pipe', 'io/m_io_osevent_pipe.c')],
  'seeded schedules, virtual kernel (epoll/poll/pipes); per-trigger signal/callback history and exactly-once task ledger')
P('E03', 'Event loops end exactly when asked, with the right result',
  'M_event_loop returns TIMEOUT only after its timeout, DONE after M_event_done or M_event_done_with_disconnect or when an exit-on-empty loop becomes empty, and RETURN after M_event_return, whether called from a callback, another thread, a pool or one of its loops, or before the loop starts; the status afterwards agrees, and no exit request is lost. '
  'A graceful exit disconnects every I/O object no earlier than asked and waits for them no longer than allowed. A loop can be run again after returning, running it recursively is refused, and destroying it frees all it holds.',
  [S, I, F], 'every exit request, timeout and interleaving, single loops and pools', 'Tests use one exit path each at one moment; exit requests racing loop start, sleep and timeout need chosen schedules.',
  ['io/m_event.c', 'io/m_event_epoll.c', 'io/m_event_poll.c', 'include/mstdlib/io/m_event.h'], [('exit states', 'io/m_event.c')],
  'seeded schedules on a virtual clock; result, status and time of every loop run compared with the requests made')

P('I01', 'Byte streams arrive complete, in order, unmodified, and keep moving',
  'Over sockets, pipes and loopbacks, with any stack of buffering, tracing and bandwidth-shaping layers, the bytes a peer reads are exactly the bytes accepted from the writer, in order, with nothing invented, and all of them before the end of the stream is reported when the writer closed gracefully. '
  'A stream whose ends keep reacting to their read and write events always makes progress until all its data has been delivered, however the system splits, delays or interrupts the transfers. '
  'Each end gets its connected event first, then data events, then at most one terminal event, on its own loop, never overlapping, and none after it was destroyed.',
  [S, I, F, G], 'every layer stack, data size, read and write pattern, close order, interleaving, latency and segmentation; short and interrupted transfers, resets', 'Tests move a fixed amount over a fast loopback with one stack; edge-triggered stalls and loss at close need a short transfer or an event at one particular moment.',
  ['io/m_io.c', 'io/m_event.c', 'io/net/m_io_net.c', 'io/net/m_io_netdns.c', 'io/m_io_buffer.c', 'io/m_io_bwshaping.c', 'io/m_io_pipe_posix.c', 'io/m_io_loopback.c', 'io/m_io_posix_common.c', 'include/mstdlib/io/m_io.h'],
  [('edge-triggered event delivery through the layers', 'io/m_event.c'), ('socket layer', 'io/net/m_io_net.c'), ('buffering', 'io/m_io_buffer.c')],
  'seeded schedules and transfer faults over random transports and layer stacks; keyed byte-stream model per flow, event-order automaton, progress deadline')
P('I02', 'Connections always end with exactly one outcome, in time',
  'An attempt to connect ends with connected or with an error within its configured timeout, never both, and never claims a connection nobody accepted; a requested disconnect ends within the disconnect timeout even if the peer stays silent. '
  'An object taken from its event loop, connected or still connecting, is fully detached, can be bound to the same or another loop, and still reaches its outcome without inventing, reordering or corrupting data. '
  'While an object waits, the loop does not spin.',
  [S, I, F, G], 'refusing, silent, unreachable and unresponsive peers, moves between loops at any moment, resets, accept failures, interleavings', 'Tests connect to a live local peer; silence for a whole timeout and detaching at a bad moment cannot be arranged with real time and real sockets.',
  ['io/net/m_io_net.c', 'io/net/m_io_netdns.c', 'io/m_event.c', 'io/m_io.c', 'io/m_io_buffer.c', 'include/mstdlib/io/m_io_net.h'],
  [('connection state machine and timeouts', 'io/net/m_io_net.c'), ('address attempts', 'io/net/m_io_netdns.c')],
  'seeded schedules with connection faults on a virtual network; outcome ledger per connection, timeout windows on the virtual clock, step budget against spinning')
P('I03', 'Objects can be destroyed, removed or disconnected at any moment without harm',
  'An io object, connected, connecting, listening or already down, may be destroyed at any moment: from its own callback, from another object\'s callback, or from another thread; it may be removed from its loop, and a loop may end or be destroyed with objects still attached. '
  'No such order crashes, touches freed memory, deadlocks, or leaks a descriptor, thread or memory block, and a destroyed object soon gets no more events. '
  'After its callback was replaced, events go to the new callback.',
  [S, H, F], 'every moment of destruction, removal, disconnect and loop exit against every state of the connection and every interleaving', 'Tests destroy objects at the orderly end; a use-after-free needs the destroy to land in a few instructions of another thread.',
  ['io/m_io.c', 'io/m_event.c', 'io/m_event_timer.c', 'io/net/m_io_net.c', 'io/net/m_io_netdns.c', 'io/m_io_pipe_posix.c', 'io/m_io_loopback.c', 'include/mstdlib/io/m_io.h'],
  [('deferred destruction and locking', 'io/m_io.c'), ('registration, loop destruction', 'io/m_event.c')],
  'seeded schedules; chaos threads and callbacks destroy, remove, disconnect; address sanitizer, leak ledgers for memory, descriptors and threads, deadlock detection')

P('S01', 'The SQL pool serves every waiter, within its limits, with working connections',
  'A pool never has more connections than configured, every statement or transaction gets a connection to itself while it needs it, and a caller that has to wait for one is always served when one is returned. '
  'Connection failures, lost connections, idle expiry and fail-over to other hosts leave no connection lost or used twice, results belong to the statement that asked, and when the server works again so does the pool. '
  'Destroying an idle pool closes every connection.',
  [S, F, H], 'every interleaving of users, connection failures at any call, hosts going down and up, idle and reconnect timers', 'The tests run one pool against a working database; exhausted pools, waiters and failing reconnects need chosen timing.',
  ['sql/m_sql_connpool.c', 'sql/m_sql_stmt.c', 'sql/m_sql_stmt_result.c', 'sql/m_sql_trace.c', 'include/mstdlib/sql/m_sql.h'],
  [('pool, waiters, fail-over', 'sql/m_sql_connpool.c'), ('statement execution and connection release', 'sql/m_sql_stmt.c')],
  'seeded schedules over the real pool and statement code with a fault-injecting in-memory driver registered through the driver interface; model of the table, connection-use ledger, progress deadline')
P('S02', 'SQL transactions commit or roll back as a whole and report which',
  'Work in a transaction becomes visible exactly when its commit was reported successful and not at all when it was reported failed; a connection lost while committing may go either way but is reported as an error. '
  'M_sql_trans_process repeats the work after a roll-back or a lost connection, at the requested isolation, and ends with success or an error that is not retriable. '
  'After any error the connection is clean for its next user.',
  [S, F, H], 'every interleaving of transactions with deadlocks, errors and disconnects at every driver call', 'Tests commit against a healthy database; an error exactly at begin, commit or roll-back is not reachable there.',
  ['sql/m_sql_trans.c', 'sql/m_sql_connpool.c', 'sql/m_sql_stmt.c', 'include/mstdlib/sql/m_sql_trans.h'], [('transaction state and retries', 'sql/m_sql_trans.c'), ('release of connections', 'sql/m_sql_connpool.c')],
  'seeded schedules and driver faults; every transaction\'s reported outcome is compared with a reference model of the data after the run')
P('S03', 'Grouped inserts give every caller the result of the row it added',
  'Rows inserted by several threads through grouped inserts are each inserted exactly once if their caller is told success and not at all if told failure, whatever number of rows was sent together. '
  'Every caller gets a result, no caller waits forever, and closing a group, errors and reconnects lose no row and free everything.',
  [S, F], 'every interleaving of callers joining, executing and closing groups, with driver errors', 'Grouping only happens when threads overlap in a window of a few instructions; tests use it from one thread.',
  ['sql/m_sql_stmt.c', 'sql/m_sql_stmt_bind.c', 'sql/m_sql_connpool.c', 'include/mstdlib/sql/m_sql_stmt.h'], [('group state and wake-ups', 'sql/m_sql_stmt.c'), ('group registry', 'sql/m_sql_connpool.c')],
  'seeded schedules with driver faults; per-row exactly-once ledger, deadlock detection')
P('S04', 'With SQLite, committed work survives crashes and failed work leaves nothing',
  'Statements and transactions run through a pool of SQLite connections are atomic, isolated from each other, and durable: what was reported committed before the process or machine died is there after restart, what was reported failed is not, and nothing is half there. '
  'Busy, locked and I/O errors surface as errors or are retried, and never leave a connection unusable, stale or silently uncommitted.',
  [S, C, F, H], 'crashes at any disk write, lost and torn unsynced writes, disk errors, interleavings of several connections, journal modes', 'Tests never crash, never fail a disk write and do not run connections against each other.',
  ['sql/sqlite/mstdlib_sql_sqlite.c', 'sql/m_sql_trans.c', 'sql/m_sql_stmt.c', 'sql/m_sql_connpool.c'], [('driver: prepare, execute, fetch, journal mode', 'sql/sqlite/mstdlib_sql_sqlite.c'), ('transactions', 'sql/m_sql_trans.c')],
  'real driver and real SQLite on a simulated disk with a durability model; crash and restart at seeded points; ledger of reported outcomes compared with the database after each restart, account-sum audits for isolation')

P('T07', 'A started program gets its input, delivers its output and is waited for',
  'What is written to a program started with popen reaches it in order, what it writes to its two outputs comes back complete and in order followed by end of stream, and closing returns its exit code or the reason it ended, whatever it wrote and whether or not somebody read it. '
  'Closing waits for the program unless a timeout was given, and only a program that outlives the timeout is killed. '
  'No program inherits another one\'s streams, a program that ended does not harm the caller, every program is reaped, and failure to start one is reported without leaking.',
  [S, F, I], 'every interleaving of callers and programs, amounts of output relative to pipe sizes, interrupted and short system calls, fork and pipe failures', 'Tests run one short command at a time; deadlocks and lost streams need outputs beyond the pipe size or several programs at once.',
  ['thread/m_popen.c', 'include/mstdlib/thread/m_popen.h'], [('pipes, fork, wait', 'thread/m_popen.c')],
  'seeded schedules over simulated processes and pipes with EINTR, short transfers, fork/pipe failure; per-stream ledger, exit status oracle, descriptor inheritance check, deadlock detection')

P('L01', 'The asynchronous log writer writes every message once or counts it as dropped',
  'Every message accepted by an asynchronous writer reaches the write callback exactly once and in the order handed in, except those dropped because the queue was full, oldest first, whose exact number is announced in a notice. '
  'Commands reach the callback, blocking commands return only after theirs was processed, and callbacks never overlap nor happen while stopped or after destruction. '
  'Stopping, starting again, failing to start and destroying with or without flushing at any moment keep this true, and destruction ends within its timeout.',
  [S, F, H], 'every interleaving of producers, commands, stop/start/destroy and the writer thread; slow and refusing outputs; thread-creation failure', 'Tests write a handful of messages from one thread; loss and double counting need drops, refusals or stop at particular moments.',
  ['log/m_async_writer.c', 'include/mstdlib/log/m_async_writer.h'], [('queue, commands, thread', 'log/m_async_writer.c')],
  'seeded schedules with slow/refusing outputs; exactly-once ledger, order check, conservation of dropped counts, bounded-queue reference model')
P('L02', 'Log messages reach every module that wants them, once, in order and whole',
  'Each line logged appears exactly once in every module whose tag filter accepts it, complete with its configured prefix, in an order consistent with the order of the logging calls, and in no other module. '
  'Suspending keeps messages for later instead of losing them, resuming delivers them, and adding, removing, filtering or expiring modules while other threads log neither corrupts nor crashes; memory buffers hold what was logged within their size and time limits. '
  'Flushing and destroying leave nothing unwritten that was accepted.',
  [S, F, H], 'every interleaving of loggers and management calls, clock jumps, thread-creation failure', 'Tests log from one thread to fixed modules; filters, expiry and suspend racing writers are not sampled.',
  ['log/m_log.c', 'log/m_log_common.c', 'log/m_log_membuf.c', 'log/m_log_stream.c', 'log/m_log_syslog.c', 'include/mstdlib/log/m_log.h'], [('fan-out and filters', 'log/m_log.c'), ('memory buffer limits', 'log/m_log_membuf.c'), ('syslog output', 'log/m_log_syslog.c')],
  'seeded schedules against a reference model of modules and filters; captured stdio and syslog histories compared line by line')

P('L03', 'Log files keep every line once and in order over current and rotated files',
  'Reading the rotated files from the highest number down and then the current file gives every accepted line exactly once and in logging order; only the oldest lines may be missing, once the configured number of rotated files exists, and after a crash the last ones of the process that died. '
  'This holds whatever fails in between: writes, a full disk, renames, deletions, the archive command, or the process itself at any point of a rotation; files stay within the configured size and age, no more rotated files are kept than asked for, and no other file is touched. '
  'Rotating on request, reopening after an external rename, and suspending (which closes the file) and resuming lose nothing.',
  [S, F, C, H], 'interleavings of loggers, rotation and archive command, disk faults and crash points during rotation', 'Tests rotate a few times on a working disk from one thread; losses need a failing rename, a slow or failing archiver or a crash in the middle of a rotation.',
  ['log/m_log_file.c', 'log/m_async_writer.c', 'include/mstdlib/log/m_log.h'], [('rotation and archiving', 'log/m_log_file.c'), ('reopen after errors', 'log/m_log_file.c'), ('queue', 'log/m_async_writer.c')],
  'seeded schedules, disk faults, failing archive commands and crash-restart against the recorded history of logged lines, reconstructed from the files left')
P('F01', 'Files hold exactly what was written, wherever it was buffered',
  'Through any sequence of reads, writes, seeks and syncs on an open file, buffered or not, reads return what was written at that place, the position moves only as documented, and end of file is reported only at the end. '
  'A successful sync means the data was handed to the operating system, or the device if asked; such data survives the crash of the process, or of the machine, and later failures never corrupt or reorder what was accepted. '
  'When an operation fails the counts reported are exact and the file still holds the accepted data up to some point, nothing else.',
  [I, F, C], 'operation sequences relative to buffer sizes and modes, short and failing reads and writes, full disks, failing syncs, crash points', 'Tests write and read small files sequentially on a working disk; lost tails and misplaced writes need particular buffer offsets, failures or crashes.',
  ['base/fs/m_fs_file.c', 'base/fs/m_fs_file_unx.c', 'include/mstdlib/base/m_fs.h'], [('buffering, seek, sync', 'base/fs/m_fs_file.c'), ('system calls', 'base/fs/m_fs_file_unx.c')],
  'seeded operation sequences against a byte model on a simulated disk with short/failed I/O, durability model and crash-restart at seeded write points')
P('F02', 'Copying, moving and deleting files and trees is all reported or not done',
  'A copy or move reported successful leaves the destination identical to the source, with its permissions when asked, and a move or delete reported successful leaves nothing behind. '
  'When it fails or the process dies half way, every file is still intact at its old or new place, the source of a copy is unchanged, nothing existing is touched without permission to overwrite, and unrelated files never are. '
  'No file or directory stays open, and an operation ends when its progress callback asks it to.',
  [I, F, C], 'tree shapes and sizes, failing open/read/write/rename/unlink/mkdir/opendir/readdir at any point, moves across devices, cancelled operations, crash points', 'Tests copy small trees on a working disk; silent truncation and lost files need a failure in the middle.',
  ['base/fs/m_fs.c', 'base/fs/m_fs_dir_walk.c', 'base/fs/m_fs_dir.c', 'base/fs/m_fs_file.c'], [('copy/move/delete', 'base/fs/m_fs.c'), ('tree walk', 'base/fs/m_fs_dir_walk.c')],
  'seeded trees and operations on a simulated disk failing at seeded calls, crash-restart; before/after tree comparison')
P('N03', 'Every HTTP request ends once, with its complete response or an error',
  'Each request sent calls its completion callback exactly once, on the event loop, either with the response exactly as the server sent it, through redirects and a proxy if configured, or with an error that says what went wrong; a truncated, malformed, oversized or never completed response is never reported as success. '
  'What the server receives is exactly the request that was asked for. '
  'Connect, stall and overall timeouts and cancelling end the request in time, after cancellation no callback happens, and everything is released.',
  [S, F, I], 'segmentation and delay of requests and responses, resets at every point, server behaviours, redirects, timeouts, cancelling threads', 'The tests talk to no server; truncation, stalls and cancel races need a misbehaving peer and particular moments.',
  ['net/m_net_http_simple.c', 'formats/http/m_http_simple_reader.c', 'formats/http/m_http_reader.c', 'io/net/m_io_net.c', 'io/net/m_io_netdns.c', 'include/mstdlib/net/m_net_http_simple.h'], [('request state machine', 'net/m_net_http_simple.c'), ('response parsing', 'formats/http/m_http_reader.c'), ('connection end and errors', 'io/net/m_io_net.c')],
  'seeded schedules over a simulated network with scripted good and bad servers; exactly-once completion ledger, byte comparison with what the server sent and received, timeouts on the virtual clock')
P('N04', 'Every queued mail is sent once accepted, given up in the open, or kept',
  'Each message handed to the SMTP queue ends in exactly one way: reported sent, only after a server accepted that very message in that attempt and never sent again; reported failed for the last time, within the attempt limit; or handed back by a queue dump; once servers behave again every message is settled, whatever connections, answers and endpoints failed before. '
  'What a server receives is the message unchanged, dot-stuffed and without blind-copy headers, from and to the right addresses, in SMTP command order without speaking before the answer, with the right credentials; what a mail program receives is the whole message, counted as sent only if it exits with 0. '
  'While processing is paused nothing is sent, a retry does not come before its time, servers are used as the balancing mode says, and everything is released at the end.',
  [S, F, I], 'server answers, drops and silences at every step of the dialogue, programs that end, stall or talk at any point, resets, timing of queueing, pausing, retries and endpoint failures', 'The tests use a well-behaved emulator in real time; what becomes of a message depends on the step at which a peer fails and on hours of retry time.',
  ['net/smtp/m_net_smtp.c', 'net/smtp/m_net_smtp_queue.c', 'net/smtp/m_net_smtp_session.c', 'net/smtp/m_net_smtp_endpoint.c', 'net/smtp/m_flow_tcp.c', 'net/smtp/m_flow_tcp_sendmsg.c', 'net/smtp/m_flow_tcp_smtp_response.c', 'net/smtp/m_flow_tcp_ehlo.c', 'net/smtp/m_flow_tcp_auth.c', 'net/smtp/m_flow_process.c', 'include/mstdlib/net/m_net_smtp.h'], [('queue, retries, pause and resume', 'net/smtp/m_net_smtp_queue.c'), ('endpoints and processing state', 'net/smtp/m_net_smtp.c'), ('session outcome', 'net/smtp/m_net_smtp_session.c'), ('message transfer', 'net/smtp/m_flow_tcp_sendmsg.c')],
  'seeded schedules over a simulated network with scripted good and bad mail servers on the virtual clock; per-message outcome ledger against what servers accepted, protocol-order monitor, settle-after-heal liveness')
P('I05', 'Bandwidth shaping keeps its limits and neither loses nor stalls data',
  'With a throttle set, the bytes passed in one direction never exceed the rate times the period within a period (burst), or one sample\'s share per sample (trickle), to the resolution of one sample, and transfers are at least the configured latency apart. '
  'Every byte still arrives unmodified and in the time the limits allow, for any valid period, sample frequency and mode, also when limits are changed or lifted while data is held back, on accepted connections as on those they were accepted from. '
  'Reported totals equal what was transferred.',
  [S, I, F], 'every combination of rate, period, sample, mode and latency, data sizes, delays and scheduling', 'Tests use one setting for a second of real time; long periods, rounding boundaries and stalls of the wake-up timer need virtual time.',
  ['io/m_io_bwshaping.c', 'include/mstdlib/io/m_io_bwshaping.h', 'io/m_event_timer.c'], [('accounting, timer and event gating', 'io/m_io_bwshaping.c')],
  'seeded schedules and settings on a virtual clock; transfers recorded below the layer are checked against sliding-window limits, byte ledger, completion deadline computed from the limits')
P('I06', 'Programs run as I/O objects are reported, fed, read and ended correctly',
  'A program started with M_io_process_create gets exactly the given arguments, environment and three standard streams and nothing else; its start and its end are reported once each and in order, with the exit code it ended with and only then, or an error when it cannot be started, fails to execute, or outlives its timeout. '
  'What is written to its input arrives and what it writes comes out complete, unmodified and ended only when the program ended or closed it. '
  'A timeout ends it not before it passed, and destroying the object ends and reaps it in any state, without signalling any other process or stopping the event loop.',
  [S, I, F], 'every interleaving of start, exit, timeout, destroy and stream use of concurrent programs; failing fork, pipe and thread creation', 'Tests run one short program; the races of destroy and timeout with start and exit, failing system calls and concurrently started programs do not happen in them.',
  ['io/m_io_process.c', 'io/m_io_pipe_posix.c', 'io/m_io.c'], [('process thread, timeout and destroy', 'io/m_io_process.c'), ('inheritance of pipes', 'io/m_io_pipe_posix.c')],
  'seeded schedules with simulated fork, exec, signals and pipes and programs whose behaviour is drawn; every event, byte, descriptor and signal is checked against what the program did')
P('H01', 'HTTP and email messages parse the same however they are delivered',
  'The HTTP reader (bodies, chunks with extensions and trailers, multipart, messages following each other) and the email reader (folded headers, addresses, nested multipart) report exactly the parts a message consists of, in order, byte for byte, wherever the stream is cut into pieces; '
  'never report a message complete before its last byte, take exactly its bytes, and stop at once with the code a callback returned. '
  'A message that was damaged gives the same result in pieces as at once, and no input makes a reader read outside its data.',
  [I, S, F], 'every message, every way of cutting the stream, every point it may break off or be damaged at', 'Tests feed a few fixed messages mostly in one piece; each cut within a boundary, line end or length is a different path.',
  ['formats/http/m_http_reader.c', 'formats/http/m_http_simple_reader.c', 'formats/email/m_email_reader.c', 'formats/email/m_email_common.c', 'base/data/m_parser.c', 'base/data/m_str_num.c'], [('resumable parse steps', 'formats/http/m_http_reader.c'), ('resumable parse states', 'formats/email/m_email_reader.c')],
  'seeded generation of messages, delivery in seeded pieces by a simulated peer with truncation, damage and callback failures; recorded callbacks compared with what was generated, and piecewise with whole delivery of damaged input')

P('N02', 'TLS connections are established only with acceptable peers and carry data intact',
  'A TLS connection reports connected only if protocol versions overlap, the certificate chain, validity and host name satisfy the configured verification level, and any required client certificate is trusted and not revoked; otherwise it ends with an error within the negotiation timeout. '
  'When both sides agree it is established, with the right certificate for the requested name, the negotiated application and the true session state, resumed or not, and delivers the same bytes in order until a graceful end. '
  'Data altered on the way is never delivered.',
  [S, I, F, G], 'every combination of certificates, names, settings, record splits, tampered bytes, silent peers, interleavings and resets, on fresh and resumed sessions', 'Tests negotiate one good configuration over a fast loopback; refusals, resumption, altered records and stalls at any byte are not sampled.',
  ['tls/m_tls.c', 'tls/m_tls_clientctx.c', 'tls/m_tls_serverctx.c', 'tls/m_tls_ctx_common.c', 'tls/m_tls_hostvalidate.c', 'include/mstdlib/tls/m_tls.h'],
  [('negotiation, data, shutdown', 'tls/m_tls.c'), ('verification of names', 'tls/m_tls_hostvalidate.c'), ('trust and sessions', 'tls/m_tls_serverctx.c')],
  'seeded schedules, segmentation and byte tampering between two real TLS endpoints on a virtual network and clock; independent acceptance oracle from the configuration, keyed byte streams, timeout windows')
P('N01', 'Names resolve correctly and connecting by name finds a working address',
  'Every lookup calls its callback exactly once, in time and on the requested loop, with the addresses the servers gave, or an error matching what they said; cached answers are used only within their lifetime, or longer when the servers fail, and addresses are ordered by family and by earlier success. '
  'Connecting by name ends in exactly one connection to an address that accepts, trying the next address after the fail-over time or at once on failure, whenever one of them can be reached, and in an error within the timeouts otherwise; every other attempt is closed. '
  'This holds for clients moved or destroyed while resolving or connecting, from any thread, and for a resolver with its own loop or a shared one.',
  [S, F, I], 'lost, delayed, repeated and failing answers, slow and dead addresses, interleavings of several loops and the resolver', 'Tests resolve a name or two on a working network; lost packets, fail-over timing and lock order between loops need faults and schedules.',
  ['io/net/m_dns.c', 'io/net/m_io_netdns.c', 'io/net/m_io_net.c', 'include/mstdlib/io/m_dns.h'], [('lookups, cache, ranking', 'io/net/m_dns.c'), ('parallel connection attempts', 'io/net/m_io_netdns.c')],
  'seeded schedules of resolver and client loops over simulated name servers and addresses; exactly-once callback ledger, answers against zone history, outcome and time limits from the address table')
P('I04', 'Blocking I/O calls carry data exactly once and return in time with the truth',
  'Data written by the blocking calls arrives exactly once and in order, in whatever mix of calls, buffers and timeouts it is written and read, and nothing is lost or repeated when a call times out. '
  'A call returns with success as soon as it can do something, gives up only after its timeout and reports that as such; a connect, accept, disconnect or end of connection is reported as what it was, after all data sent before it has been read. '
  'Calls on objects that are not connected or have ended fail at once and never block.',
  [S, F, I], 'interleavings of peers, delayed, short and failing system calls, resets, arbitrary mixes of timeouts', 'Tests do one exchange with infinite timeouts; races between timeouts, data and disconnects need schedules.',
  ['io/m_io_block.c', 'io/m_io.c', 'io/m_event.c', 'include/mstdlib/io/m_io_block.h'], [('blocking wrappers', 'io/m_io_block.c')],
  'seeded schedules of threads using blocking calls over simulated sockets and pipes; keyed byte streams, timeout windows, reported outcome against the peer')
