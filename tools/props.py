TIM = ['src/lib.rs', 'src/reactor.rs']
ALLT = 'tests/timer.rs runs a handful of fixed durations on the real clock, without controlling the reactor thread.'

prop('T01', 'Timers never fire early and yield exactly their deadline',
     'A timer, whether awaited as a future, polled as a stream or slept on by a thread under block_on, never becomes ready before its deadline, '
     'and the instant it yields is exactly that deadline (creation time plus the duration, or the given instant).',
     ['schedules', 'inputs', 'histories'], 'every history of timer operations, every duration and instant, every clock position relative to the deadline (one nanosecond before, exactly at it, long after) and every interleaving with the reactor',
     ALLT + ' They only check a lower bound on elapsed time for one or two timers.', TIM,
     [('poll_next compares the clock with the deadline and returns the deadline', 'src/lib.rs Timer::poll_next'), ('only timers whose deadline has passed are split off', 'src/reactor.rs Reactor::process_timers')],
     ['Timer as Future/Stream', 'block_on return'], [('when', 'current deadline', 'src/lib.rs Timer')])

prop('T02', 'Every due timer wakes its task, however many there are',
     'Once the deadline of a pending timer has passed, the task that polled it last is woken promptly and its next poll is ready, no matter how many timers '
     'are armed or cancelled at once, which threads drive the reactor, or whether they are all blocked at the time the timer is armed.',
     ['schedules', 'histories', 'inputs'], 'every history of arming, cancelling and time passing (including thousands of timer operations between two reactor passes), and every interleaving of the threads involved',
     ALLT + ' No test arms more than a few timers or controls where the reactor is when a timer is armed.', TIM + ['src/driver.rs'],
     [('operation queue drained when full or when the reactor polls', 'src/reactor.rs Reactor::insert_timer, process_timer_ops'), ('notify after each insertion', 'src/reactor.rs Reactor::insert_timer'), ('the poll time-out is that of the next timer', 'src/reactor.rs ReactorLock::react')],
     ['wakes of the polling task'], [('timer_ops', 'pending insertions and removals', 'src/reactor.rs Reactor'), ('timers', 'armed timers by deadline and id', 'src/reactor.rs Reactor')])

prop('T03', 'Interval timers yield start + k*period without skips, repeats or drift',
     'An interval timer yields exactly the instants start, start+period, start+2*period, ... in order, one per ready poll, each only when it has passed; '
     'late polls catch up one tick at a time and do not shift later ones, and a schedule that leaves the representable range ends the timer.',
     ['histories', 'inputs', 'schedules'], 'every start, every period (including zero and huge ones), every pattern of late polls and of other operations in between',
     'tests/timer.rs checks two intervals polled on time with coarse tolerances.', ['src/lib.rs'],
     [('the next deadline is the previous one plus the period', 'src/lib.rs Timer::poll_next')], ['Timer as Stream'], [('period', 'interval or MAX for one-shot', 'src/lib.rs Timer')])

prop('T04', 'The last constructor or set_* call alone decides when a timer fires',
     'After any sequence of constructors and set_after/set_at/set_interval/set_interval_at, with any durations and instants, the timer behaves as if it had just been made by the '
     'corresponding constructor: one-shot or periodic, at that deadline, or never when the deadline is not representable; will_fire() tells whether it will still fire, and no call panics.',
     ['histories', 'inputs'], 'every sequence of reset calls in every timer state (unpolled, armed, fired, exhausted, never) with every duration up to Duration::MAX and every instant up to the largest',
     'tests/timer.rs resets one timer twice; conversions between one-shot and interval and overflow after arming are untested.', ['src/lib.rs'],
     [('set_* clear the registration, set deadline and period, and register again', 'src/lib.rs Timer::set_at, set_interval_at, set_after, set_interval'), ('checked arithmetic', 'src/lib.rs Timer::after, poll_next')],
     ['Timer::will_fire', 'Timer as Future/Stream'])

prop('T05', 'Resetting a timer keeps the waiting task',
     'When a timer is reset while a task waits on it, the task that polled it last is woken at the new deadline without having to poll again, even if the timer was one that would never fire, '
     'had already fired, had been polled by other tasks before, or is reset while it is firing.',
     ['histories', 'schedules'], 'every sequence of polls by several tasks, resets and clock movements, and every interleaving of a reset with the reactor firing the old deadline',
     'tests/timer.rs covers one reset of an armed timer by one task.', TIM,
     [('the waker is kept with the timer and registered again', 'src/lib.rs Timer::set_at, set_interval_at'), ('the waker is replaced when another task polls', 'src/lib.rs Timer::poll_next')],
     ['wakes of the polling task'], [('id_and_waker', 'registration id and task to wake', 'src/lib.rs Timer')])

prop('T06', 'Cancelled timers are silent and release their task',
     'After a timer has been dropped, reset or polled by another task, the old deadline does not wake the old task any more, and the reactor keeps no reference to a dropped '
     'timer\'s task beyond its next pass; other timers, including those with the same deadline, are unaffected.',
     ['histories', 'schedules'], 'every history of arming, dropping, resetting and handing over timers, with equal deadlines and queue overflow, and every interleaving with the reactor',
     'No test drops an armed timer and looks at what happens at its deadline, nor counts references to wakers.', TIM,
     [('removal is queued with the exact deadline and id', 'src/lib.rs Timer::clear, Drop; src/reactor.rs Reactor::remove_timer'), ('operations are applied in order', 'src/reactor.rs Reactor::process_timer_ops')],
     ['wakes and reference counts of wakers'])

RX = ['src/reactor.rs', 'src/lib.rs', 'src/reactor/unix.rs']
prop('R01', 'No readiness is lost',
     'Whenever a registered handle is or becomes readable (writable) and stays so, every task whose latest poll of a readability (writability) wait on it was pending is woken, '
     'and polling again when woken completes the wait after at most a few rounds; waits on an open handle do not fail.',
     ['schedules', 'histories'], 'every history of waits, peer I/O, re-polls, cancellations and handle openings over all kinds of pollable handles, and every interleaving of registering interest with the reactor thread delivering events',
     'tests/async.rs exchanges small messages; the reactor thread is never caught between fetching an event and delivering it.', RX,
     [('interest is registered under the state lock when the first waiter of a direction arrives', 'src/reactor.rs Source::poll_ready, Ready::poll'), ('interest left over after an event is registered again', 'src/reactor.rs ReactorLock::react'), ('events too old for a wait wake it but are not accepted', 'src/reactor.rs Ready::poll')],
     ['Async::readable/writable(_owned)', 'Async::poll_readable/poll_writable'], [('state', 'per direction: last event tick and waiting tasks', 'src/reactor.rs Source')])

prop('R02', 'Readiness is reported only if the OS reported it during the wait',
     'A readability (writability) wait or poll completes only if the handle actually was readable (writable) at some time between the first poll of the wait and its completion; '
     'events of the other direction, of other handles, or from before the wait began do not complete it.',
     ['schedules', 'histories'], 'every history of I/O that makes handles ready and not ready again, both directions, several handles, handles closed and replaced while events are in flight, and every interleaving with event delivery',
     'The tests never check that a wait stays pending, and stale events need the reactor to be suspended between epoll_wait and delivery.', RX,
     [('tick recorded when the wait starts, bumped before each OS poll', 'src/reactor.rs Ready::poll, Source::poll_ready, ReactorLock::react')],
     ['Async::readable/writable(_owned)', 'Async::poll_readable/poll_writable'], [('ticker', 'number of the current OS poll', 'src/reactor.rs Reactor'), ('ticks', 'ticks whose events are not accepted', 'src/reactor.rs Direction, Ready')])

prop('R03', 'Any number of waits share a handle; dropping one affects no other',
     'Any number of readable()/writable() waits (borrowed or owned, both directions) may be pending on one handle at the same time: readiness wakes and completes all of them, '
     'and creating, re-polling with another task or dropping some of them in any order neither completes, delays nor loses the others.',
     ['histories', 'schedules'], 'every set of up to 24 concurrent waits on a handle with arbitrary cancellation and re-polling, and every interleaving with event delivery',
     'The tests wait with at most two tasks on a handle and never cancel a wait.', RX,
     [('each wait owns one entry of the direction\'s waker table and removes it when dropped', 'src/reactor.rs Ready::poll, Ready::drop'), ('an event takes all wakers', 'src/reactor.rs Direction::drain_into')],
     ['Async::readable/writable(_owned)'], [('wakers', 'table of waiting tasks', 'src/reactor.rs Direction')])

prop('R04', 'poll_readable/poll_writable hand over between tasks without losing anyone',
     'When poll_readable (poll_writable) is called by a task while another one is registered, the displaced task is woken and the latest task is woken on readiness; '
     'repeated calls by the same task wake nobody, and on a handle that stays ready repeated polling of woken tasks soon returns ready.',
     ['histories', 'schedules'], 'every sequence of polls by up to 8 tasks in both directions mixed with other waits and I/O, and every interleaving with event delivery',
     'No test polls one handle from two tasks in the same direction.', RX,
     [('the stored waker is compared, woken and replaced', 'src/reactor.rs Source::poll_ready')], ['Async::poll_readable/poll_writable'], [('waker', 'the task to wake', 'src/reactor.rs Direction')])

prop('R06', 'Finished and cancelled waits release their task',
     'Once a wait future has completed or been dropped, the reactor keeps no reference to the task that polled it, and once a handle is gone it keeps none at all; nothing accumulates in memory however many waits come and go on one handle, and '
     'owned waits keep their handle alive exactly as long as they exist.',
     ['histories', 'schedules'], 'every history of waits by several tasks, completions, cancellations and handle closings',
     'No test counts references.', RX,
     [('a dropped wait removes its waker', 'src/reactor.rs Ready::drop'), ('a dropped handle removes its source', 'src/reactor.rs Reactor::remove_io; src/lib.rs Async::drop')], ['reference counts of wakers and handles'])

prop('L04', 'A new registration never inherits from an old one',
     'When a handle is closed, or taken back with into_inner, and the same slot or descriptor number is registered again, waits on the new registration see only its own readiness '
     'and lose none of it, even while an event for the old one is being delivered.',
     ['schedules', 'histories'], 'every history of closing, re-opening and re-registering handles with waits before and after, and every position of the reactor thread while that happens',
     'The tests re-use descriptors only by accident and never with an event in flight.', RX,
     [('the event key is looked up when the event is delivered; events too old for a wait are not accepted', 'src/reactor.rs ReactorLock::react, Ready::poll'), ('deregistration before close', 'src/lib.rs Async::drop, into_inner')],
     ['Async::readable/writable(_owned) after re-registration'], [('sources', 'table of registrations', 'src/reactor.rs Reactor')])

DRV = ['src/driver.rs', 'src/reactor.rs']
ALLB = 'tests/block_on.rs runs a few fixed scenarios on the real clock with coarse time limits and no control over the schedule.'
prop('B01', 'block_on returns the output and polls the future only until it is ready',
     'block_on polls the future on the calling thread until it is ready, returns exactly its output, never polls it again after that, and has dropped it before it returns or unwinds.',
     ['inputs', 'schedules', 'histories'], 'every future (ready at once, waking itself, pending many times, waking and completing in the same poll), any sequence of block_on calls on a thread, and every interleaving with other threads',
     ALLB, DRV, [('poll loop', 'src/driver.rs block_on')], ['result of block_on'])
prop('B02', 'No wake-up of a block_on future is lost or late',
     'When the waker handed to a future by block_on is woken, by any thread and at any time, the future is polled again promptly, even when the thread is just about to block, is polling the OS '
     'for itself or for others, or was woken while polling, and however far away the next timer is.',
     ['schedules', 'histories'], 'every interleaving of wakes with the polling, parking and reactor-driving phases of several threads in block_on, with timers, I/O and stale wakers',
     ALLB, DRV, [('io_blocked flag, IO_POLLING flag and the parker token', 'src/driver.rs BlockOnWaker::wake_by_ref, block_on'), ('time-out of the OS poll', 'src/reactor.rs ReactorLock::react')],
     ['polls of the future'], [('io_blocked', 'the thread is blocked in the OS poll', 'src/driver.rs block_on'), ('IO_POLLING', 'this thread is polling I/O', 'src/driver.rs block_on')])
prop('B03', 'Timers and I/O make progress under any mix of threads',
     'Timers fire and I/O readiness is delivered promptly whatever mix of threads exists: only executors that never drive the reactor, several threads in block_on, threads that enter and leave block_on or '
     'finish at any time, and threads that block inside poll while another task needs the reactor.',
     ['schedules', 'histories'], 'every mix of driving and non-driving threads, programs and interleavings, including the moments when a thread stops driving and the helper thread must take over',
     ALLB + ' The hand-over between driving threads and the helper thread is timing dependent.', DRV,
     [('helper thread with back-off while block_on calls are active', 'src/driver.rs main_loop'), ('a thread stops driving after 500 us', 'src/driver.rs block_on')],
     ['completion of sleeps and reads'], [('BLOCK_ON_COUNT', 'active block_on calls', 'src/driver.rs')])
prop('B04', 'Nested block_on calls are isolated from the outer ones',
     'block_on may be called, to any depth, inside a future that is itself run by block_on: the inner call returns its own result promptly, and wakes of the outer futures that arrive meanwhile are neither consumed by '
     'the inner calls nor lost, and are acted on as soon as the inner call is over.',
     ['histories', 'schedules'], 'every nesting of programs (async-io and plain executors, up to three levels) and every interleaving of wakes for outer and inner futures',
     'tests/block_on.rs nests one fixed call.', DRV, [('a fresh parker and waker for recursive calls', 'src/driver.rs block_on')], ['result and promptness of inner and outer futures'], [('CACHE', 'parker and waker of the thread', 'src/driver.rs block_on')])
prop('B05', 'Panicking futures and wakers do no harm to others',
     'A panic in a future under block_on reaches the caller, and that thread and all others can go on using block_on, timers and I/O as before; a waker that panics when it is woken by the reactor, or because it was displaced, '
     'or when the reactor drops its last reference, prevents no other task from being woken, in the same pass or later, and does not surface in unrelated calls; one whose clone() panics fails that poll and leaves the handle and its other waits usable.',
     ['histories', 'schedules'], 'every placement of panicking futures and wakers among other programs, timers and waits, and every interleaving',
     'No test has a panicking future or waker.', DRV, [('catch_unwind around each wake and drop', 'src/reactor.rs ReactorLock::react, Source::poll_ready, drop_wakers'), ('wakers are cloned before a lock is taken', 'src/reactor.rs Source::poll_ready, Ready::poll'), ('guard that restores the state', 'src/driver.rs CallOnDrop')], ['programs on all threads'])
prop('B06', 'Wakers may call back into the crate, in wake() and when dropped',
     'Waking a waker, or dropping its last reference, may run code that polls, creates, resets or drops waits, timers and handles, including the very handle or timer involved: nothing deadlocks or panics, and every waiting task is still woken.',
     ['histories', 'schedules'], 'every history of operations in which wakers and waker destructors run further operations on the same objects, and every interleaving with the reactor thread',
     'The tests use executors whose wakers only unpark a thread.', ['src/reactor.rs', 'src/lib.rs'],
     [('wakers are collected first and woken without locks on sources and timers', 'src/reactor.rs ReactorLock::react'), ('replaced and removed wakers leave the lock before they are woken or dropped', 'src/reactor.rs Source::poll_ready, Ready::poll, Ready::drop, process_timer_ops')],
     ['progress of all operations'])
prop('B07', 'Idle threads stay idle; futures are polled only when woken',
     'A future under block_on is polled again only after its waker was woken since the previous poll began, and a wake that was over before a block_on call finished causes no poll in a later one; while nothing is due, '
     'neither the helper thread nor threads in block_on keep waking up, whatever far timers, waits and block_on calls are pending.',
     ['histories', 'schedules'], 'every history of programs after which only signals, data or far timers are awaited, and every interleaving that leads there',
     'Spinning and spurious polls go unnoticed by tests that look at results only.', DRV,
     [('the parker token is reset when the future is ready', 'src/driver.rs block_on'), ('the helper thread backs off and then blocks on the reactor', 'src/driver.rs main_loop')], ['number of polls, thread wake-ups and OS polls'])
prop('B08', 'Racing first uses share one reactor and one helper thread',
     'However many threads race to use timers, I/O handles or block_on first, one OS poller and one helper thread get created, every racing operation works, and none hangs.',
     ['schedules'], 'every interleaving of first uses by up to six threads, including the helper thread itself starting up before initialization is over',
     'In the test suite the reactor is initialized by whichever operation happens to be first.', DRV,
     [('lazily initialized reactor', 'src/reactor.rs Reactor::get'), ('lazily started helper thread', 'src/driver.rs unparker')], ['operations of all threads', 'epoll instances and threads created'])
prop('B09', 'Transient failures of the OS poll lose nothing',
     'When waiting for I/O events fails (interrupted by a signal, out of memory or otherwise) in some passes, on whichever thread, no timer, readiness event or wake is lost: everything still completes promptly after the failures stop.',
     ['fault_sequences', 'schedules'], 'every pattern of up to 24 failing polls among the first 60, with different errors, under every program and interleaving',
     'No test makes the OS poll fail.', DRV, [('wakers collected before a failing poll are still woken', 'src/reactor.rs ReactorLock::react'), ('errors are ignored and the poll is repeated', 'src/driver.rs main_loop, block_on')], ['programs on all threads'])

prop('B10', 'A first use that the OS refuses leaves no trace; a later one works',
     'When the OS poller or the helper thread cannot be created at first use (too many descriptors or threads, no memory), that use panics or fails in the thread that made it, block_on of a future that needs neither still works, '
     'and nothing else is harmed: no poller or thread is left over or missing, and once the OS grants what it refused, timers, I/O and block_on work on every thread as if the failed attempts had never been made, whether or not a thread is inside block_on.',
     ['fault_sequences', 'schedules', 'histories'], 'every pattern of refused epoll instances, registrations and thread creations at first use, every mix of first uses on up to three threads, and every interleaving, racing first uses included',
     'No test makes the initialization fail; a process has only one first use.', DRV + ['src/reactor.rs'] if 'src/reactor.rs' not in DRV else DRV, [('the helper thread is started after the poller was created', 'src/reactor.rs Reactor::get'), ('block_on does not start it', 'src/driver.rs block_on')],
     ['completion of timers, waits and block_on after the failures', 'number of OS pollers and threads'])

LF = ['src/lib.rs', 'src/reactor.rs', 'src/reactor/unix.rs']
prop('L01', 'Registering a handle changes only its blocking mode; it comes back intact',
     'Every way of making an Async from a handle registers exactly that handle, puts it in non-blocking mode (new_nonblocking leaves it alone) and changes no other descriptor or status flag; into_inner() and the '
     'conversion to OwnedFd give back the same open descriptor, deregistered and with unchanged flags, which can be registered and used again any number of times.',
     ['histories', 'inputs'], 'every kind of handle, every constructor and conversion, every prior flag state, and every history of registering, using, converting back and registering again, with waits left behind',
     'tests/async.rs converts a single stream once and looks at no flags.', LF,
     [('FIONBIO, then registration', 'src/lib.rs Async::new, new_nonblocking'), ('deregistration before giving the handle back', 'src/lib.rs Async::into_inner'), ('conversions', 'src/lib.rs TryFrom impls')],
     ['fcntl flags', 'epoll registrations', 'readiness waits'])
prop('L02', 'Dropping a handle deregisters and closes it exactly once',
     'When an Async is dropped its handle is deregistered from the poller and then dropped, exactly once: an owned descriptor is closed, a borrowed or shared one stays open but is no longer registered, nothing accumulates in memory or '
     'descriptors however often handles come and go, and no other handle is affected, not even one that is created at the same moment and gets the same descriptor number. Owned waits keep the handle alive until they are dropped.',
     ['histories', 'schedules'], 'every history of creating, waiting on, converting and dropping handles of all kinds (owned, shared, borrowed), and every interleaving with a thread that registers a new handle',
     'The tests drop handles but look neither at registrations nor descriptors, and never race.', LF,
     [('deregister, then drop', 'src/lib.rs Drop for Async'), ('slot and registration are removed under one lock', 'src/reactor.rs Reactor::remove_io'), ('Arc held by the owned waits', 'src/lib.rs ReadableOwned, WritableOwned')],
     ['open descriptors', 'epoll registrations', 'live allocations'])
prop('L03', 'A failed registration reports the OS error and leaves no trace',
     'When a handle cannot be registered (unsupported kind, registered already, or the OS refuses it for lack of resources), whether in a constructor or inside accept, connect or pair, the call fails with the OS error, the handle is dropped, '
     'no descriptor, registration or memory is leaked, and other handles, including an earlier registration of the same descriptor and handles registered later, work as if the call had not been made.',
     ['fault_sequences', 'histories'], 'every placement of failing registrations in a history of other registrations and waits, with every cause and through every constructor that registers',
     'No test makes a registration fail.', LF,
     [('the slot is freed when adding to the poller fails', 'src/reactor.rs Reactor::insert_io'), ('registration precedes construction, so that Drop does not run', 'src/lib.rs Async::new_nonblocking')],
     ['result of the call', 'open descriptors', 'epoll registrations', 'live allocations'])
prop('U01', 'reactor_fd() is readable when registered I/O has something to deliver',
     'On Linux the descriptor from reactor_fd() exists from the first call on, stays the same and open for good, polls readable when a handle on which a task waits becomes ready and nobody has processed that yet, and does not poll '
     'readable when nothing has happened and everything has been processed.',
     ['histories', 'schedules'], 'every history of handles and waits and every moment at which the descriptor is polled, with and without threads driving the reactor',
     'No test uses reactor_fd().', ['src/os/unix.rs', 'src/reactor.rs'], [('the descriptor of the poller', 'src/os/unix.rs reactor_fd')], ['poll(2) on the descriptor'])
prop('R05', 'Reads and writes wait exactly when the handle would block, else pass it through',
     'Every read or write operation on a handle (the AsyncRead/AsyncWrite methods on the handle or a reference to it, and read_with/write_with and their _mut forms) performs the operation at once; it waits only if that reports would-block, '
     'for readability (reads) or writability (writes, flush, close) of the handle, and tries again when that comes, as often as needed. Any other result, be it a value, zero or an error, is returned unchanged, immediately, '
     'and the operation is not repeated after it.',
     ['histories', 'inputs', 'schedules'], 'every kind of operation, every sequence of results of the underlying handle (including errors that look like would-block and would-block although ready), every pattern of readiness of the two directions, polling, cancelling, and every interleaving with the reactor',
     'tests/async.rs drives real sockets through a few echo exchanges; the handle never fails, never blocks twice in a row, and is never ready for the other direction only.', ['src/lib.rs'],
     [('try first, wait for readiness on WouldBlock, try again', 'src/lib.rs AsyncRead/AsyncWrite impls, read_with, write_with'), ('one optimistic poll of the wait', 'src/lib.rs optimistic')],
     ['calls made on the handle', 'results', 'wakes'])
NETF = ['src/lib.rs', 'src/reactor.rs', 'src/reactor/unix.rs']
prop('D01', 'Bytes of a stream arrive complete, in order and unduplicated',
     'Whatever is accepted by writes on a connected TCP or Unix stream is delivered to the reads at the other end, byte for byte, in order and once, followed by the end of the stream when the writer closes; '
     'peeking consumes nothing, and a cancelled read or write transfers nothing. The two directions, several connections, and readers and writers on different threads sharing a handle do not disturb each other.',
     ['histories', 'inputs', 'schedules'], 'every mix of operations (plain, vectored, with, peek, wait-then-read) and buffer sizes including zero, with back-pressure, cancellation at any point, all kinds of stream, exclusive and shared handles, and every interleaving of the threads',
     'The tests send a few short messages over one connection with one access pattern.', NETF,
     [('data operations go straight to the handle', 'src/lib.rs AsyncRead/AsyncWrite impls'), ('TcpStream::peek', 'src/lib.rs Async<TcpStream>')], ['data read', 'end of stream'])
prop('D02', 'Datagrams arrive whole, in order, from the right sender, to the right socket',
     'A datagram sent with send or send_to on a UDP or Unix datagram socket arrives at the socket it was sent to, once, with its boundaries and contents (cut off only by a shorter buffer) and with the address of its sender; '
     'peek and peek_from show the next datagram and leave it in place, and a cancelled receive loses nothing. Sending fails with the OS error or waits when the OS has no room, and resumes when there is; receiving waits while, and only while, nothing has arrived.',
     ['histories', 'inputs', 'schedules'], 'every history of sends, receives, peeks, cancellations and connects among several sockets of all kinds, every datagram and buffer size including zero and too big, and the schedules of a reactor thread',
     'tests/async.rs exchanges single datagrams between two sockets, without waiting senders, truncation, empty datagrams, filtering by peer, or cancellation.', NETF,
     [('receive operations through read_with', 'src/lib.rs Async<UdpSocket>, Async<UnixDatagram>'), ('send operations through write_with', 'src/lib.rs Async<UdpSocket>, Async<UnixDatagram>')], ['results of the operations', 'buffers', 'addresses'])
prop('D03', 'Connect and accept give working streams of the right peer, or the right error',
     'connect() completes with a stream that is connected to the given listener, non-blocking and not inherited by children, only once the connection exists, or fails with the OS error; it leaves nothing behind when it fails or is cancelled. '
     'accept() and incoming() deliver every connection once, in order, with the address of the client, wait while, and only while, there is none, and lose no connection by being cancelled or by failing (for lack of descriptors, say), after which they go on working.',
     ['histories', 'fault_sequences', 'schedules'], 'every history of binding, connecting, accepting and cancelling over TCP and Unix listeners (paths and abstract), full backlogs, clients that go away or reset before they are accepted, unreachable targets, exhausted descriptors and an OS that refuses to watch the socket, with the schedules of a reactor thread',
     'The tests connect and accept once, successfully, and have one refused connection.', NETF,
     [('non-blocking connect, wait for writability, then fetch the error', 'src/lib.rs connect, Async<TcpStream>::connect, Async<UnixStream>::connect'), ('accept, incoming', 'src/lib.rs Async<TcpListener>, Async<UnixListener>')],
     ['results of connect/accept', 'data exchanged over the streams', 'descriptor flags', 'open descriptors'])
prop('D04', 'A Unix socket address reaches the same socket as it does in the OS',
     'Connecting to, sending to or binding a Unix socket path has the outcome that the operating system gives for exactly this address: the socket bound to it and no other, or the same error. '
     'On Linux connect() takes a path with a leading NUL as the abstract address made of all the remaining bytes; invalid paths (empty, interior NUL, too long) are refused.',
     ['inputs'], 'every address: paths and abstract names of every length up to and beyond the limit, with NUL and non-UTF-8 bytes anywhere, equal to or slightly different from the addresses of live sockets',
     'tests/async.rs connects to one path and one abstract address.', ['src/lib.rs'],
     [('conversion of a path to a socket address', 'src/lib.rs convert_path_to_socket_address')], ['which listener is reached', 'errors'], tech='property-based testing: generated addresses, differential against std and the OS, with shrinking')
prop('N01', 'kqueue filters deliver signals, exits and other events to their waiters',
     'On BSD-like systems a registered filter (signal, process exit, timer, user event) becomes ready when, and only when, its event occurs, wakes its waiters, and is deregistered when dropped.',
     ['histories', 'schedules'], 'every history of filters and events and every interleaving', 'The tests run on Linux, where this part is not compiled.', ['src/os/kqueue.rs', 'src/reactor/kqueue.rs'],
     [('registration of filters', 'src/reactor/kqueue.rs Registration')], ['readiness of filters'],
     na='Only compiled on BSD/macOS (kqueue); this sandbox is Linux without such a target or kernel, so no generated input can be executed against it.')
prop('N02', 'Windows sockets and waitable handles become ready as on other systems',
     'On Windows a registered socket or waitable handle becomes ready when the OS says so, wakes its waiters, and is deregistered when dropped.',
     ['histories', 'schedules'], 'every history of sockets, handles and events and every interleaving', 'The tests run on Linux, where this part is not compiled.', ['src/os/windows.rs', 'src/reactor/windows.rs'],
     [('registration of sockets and handles', 'src/reactor/windows.rs Registration')], ['readiness'],
     na='Only compiled on Windows (IOCP); this sandbox has neither the target nor the system, so no generated input can be executed against it.')
prop('R07', 'A handle the OS refuses to watch fails its own waits and nobody else',
     'When the OS refuses to (re-)arm a registered handle, for a while or for good (because its descriptor has been replaced by another file, say), every wait that needs it, also inside a read or write operation, fails with the OS error, each time it is polled and refused, and those who were already waiting are woken at the latest '
     'when the handle\'s next event arrives; no wait hangs, and tasks that wait on other handles or timers are woken as ever, in that pass and later. Dropping such a handle releases it and the tasks that waited for it as usual.',
     ['fault_sequences', 'histories', 'schedules'], 'every history of waits in both directions, readiness, timers and cancellations over several handles, with descriptors replaced or refused at any point, and every interleaving with the reactor',
     'No test makes the OS refuse to watch a registered handle.', ['src/reactor.rs'],
     [('re-arming after an event', 'src/reactor.rs ReactorLock::react'), ('arming when the first task starts to wait', 'src/reactor.rs Source::poll_ready, Ready::poll')], ['results of waits', 'wakes of all tasks'])
