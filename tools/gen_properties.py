#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
R="src/reactor.rs"; L="src/lib.rs"; D="src/driver.rs"; RU="src/reactor/unix.rs"; OU="src/os/unix.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":list(observe),"hook_needed":hook}})

p("C01","No I/O wakeup is ever lost",
 "Whenever an Async handle becomes (or already is) readable, writable or hung up, every task waiting for that direction of that handle - through readable/writable and their owned variants, read_with/write_with, poll_readable/poll_writable or AsyncRead/AsyncWrite, in any number where that is allowed - is woken and completes, as long as the condition persists. This holds independently for the two directions, for whatever waker was passed to the most recent poll, and regardless of which other waiters on the handle were registered, completed, cancelled or moved to another task in the meantime.",
 ["schedules","histories"],
 "All interleavings of waiter registration, re-polling with a different waker, cancellation, the other direction's traffic and event delivery, over any number of handles, waiters and threads.",
 "The tests wait with one task per direction on one schedule; lost wakeups need a registration, cancellation or re-registration to land in a particular window of the reactor round, or several waiters on one handle.",
 [R,L,RU],[("oneshot interest armed when the first waiter of a direction appears and re-armed after each delivery","%s Ready::poll, Source::poll_ready, ReactorLock::react"%R),("waker slab per direction; cancelled waiters remove only their own slot","%s Drop for Ready, Direction::drain_into"%R)],
 [("Direction.wakers / Direction.waker","tasks waiting for the next event of one direction",R),("armed interest","events the OS poller will report for the handle","OS poller")],
 ["wake callbacks","completion of the futures","poller add/modify/delete/wait calls","poll(2) on the descriptor"])
p("C02","Readiness is truthful: never stale, spurious or for another direction/handle",
 "A readiness wait (readable, writable, their owned variants, poll_readable, poll_writable) resolves only if the OS has delivered an event for that very handle and that direction since the wait began (for the poll functions: since the call that last returned Pending after the last Ready), and no later than with the first such event that is retrieved in a reactor round begun after that. Events delivered for the other direction, for an earlier owner of the same descriptor number or reactor slot, or before the wait began never resolve it.",
 ["schedules","histories"],
 "All interleavings of waits with event retrieval and processing, including handles created and dropped while events for them are in flight and descriptor numbers are reused.",
 "A stale resolution needs an event to be in flight while a handle is replaced or a new wait begins; the tests never create that window and check only that data eventually arrives.",
 [R,L],[("reactor ticks recorded at registration and compared on wake","%s Source::poll_ready / Ready::poll ticks"%R),("ticker bumped before each OS wait","%s ReactorLock::react"%R)],
 [("ticks / tick","rounds that were current at registration / at last delivery",R)],
 ["poller wait enter/exit log with (key, direction)","resolution of futures","poll(2) ground truth for handles without data"])
p("C03","Timers never fire early and report exactly their schedule",
 "A Timer completes only at or after its deadline and yields exactly that deadline; an interval timer yields exactly start, start+period, start+2*period, ... one item per poll that is due, and a timer set (or created) with after/at/set_after/set_at fires exactly once. will_fire, never, durations that overflow, and any sequence of set_* calls between polls behave as this schedule dictates.",
 ["inputs","histories"],
 "All sequences of constructor, set_*, poll, will_fire calls and all durations/instants/periods from zero through overflow.",
 "The tests use one after, one interval and one set_after with second-scale durations; the state machine (deadline, period, registration) has many more op orders and boundary values.",
 [L],[("deadline/period state machine","%s Timer::poll_next, set_at, set_interval_at, clear"%L)],
 [("when / period","next deadline and repetition",L)],["return values of poll/poll_next/will_fire bracketed by Instant::now()"])
p("C04","Timer wakeups are never lost and the reactor never sleeps past a deadline",
 "Once a task has polled a timer and got Pending, the waker from the most recent poll is woken as soon as the timer's current deadline has passed, whether that deadline came from the constructor or from a later set_* call made from any thread or while the timer had no deadline, and however many other timers are created, reset, moved between tasks or dropped at the same time. The thread waiting for I/O never waits beyond the earliest deadline registered before it went to sleep.",
 ["schedules","histories","inputs"],
 "All interleavings of arming, resetting, re-polling with other wakers, dropping and expiry of any number of timers (including far beyond the operation-queue capacity) from any number of threads.",
 "The tests have at most one live timer; queue overflow, equal deadlines, resets racing with expiry and timers armed while the reactor is deciding how long to sleep are not reached.",
 [R,L],[("timer operation queue drained under the timer lock at each round","%s insert_timer/remove_timer/process_timer_ops"%R),("notify after insert; timeout = min(next timer, caller's timeout)","%s insert_timer, react"%R)],
 [("timers / timer_ops","registered deadlines and queued changes",R)],
 ["wake callbacks","timeout passed to the OS wait","wait enter/exit times"])
p("C05","Cancellation leaves nothing behind and disturbs nobody",
 "Dropping or resetting a timer, or dropping a readiness future, I/O operation or handle at any point, releases every waker reference, descriptor and byte of memory held for it (for timers: by the time the reactor has next run), and its old registration wakes nobody afterwards. Other timers, futures and handles are unaffected.",
 ["schedules","histories"],
 "All points at which a pending operation can be cancelled or reset, from any thread, any number of times.",
 "No test cancels anything and looks at what remains; leaks and phantom wakeups are invisible to outcome checks.",
 [R,L],[("Drop for Ready/Timer/Async","%s, %s"%(R,L)),("Remove operations queued behind inserts","%s remove_timer"%R)],
 [("waker slots, timer entries, source slots","what the reactor holds on behalf of callers",R)],
 ["strong counts of instrumented wakers","wake callbacks after cancellation","live heap bytes (counting allocator)","/proc/self/fd"])
p("C06","block_on runs its future to completion: no lost, misdirected or phantom wakeups",
 "block_on returns exactly the future's output (or propagates its panic) as soon as the future completes, without going to sleep again, polls the future again after every wake-up issued since the last poll began, from whatever thread and at whatever moment, and never polls it without a wake-up or after completion. This holds for any number of concurrent, successive (including after a panic) and nested block_on calls: a wake-up meant for one call never wakes a concurrent or enclosing one, and one issued by a future while it was being polled is not carried over to the thread's next call.",
 ["schedules","histories"],
 "All interleavings of wake calls with the parking, reactor-locking and I/O-blocking steps of any number of block_on threads and the helper thread.",
 "The block_on tests use one thread and second-long sleeps; a lost wakeup needs a wake between the notification check and blocking on I/O, or while the reactor lock changes hands.",
 [D],[("io_blocked/IO_POLLING handshake with reactor notify","%s BlockOnWaker, block_on"%D),("token drained on completion, fresh parker when nested","%s block_on"%D)],
 [("parker token, io_blocked","pending wakeup; thread is blocked in the OS wait",D)],["polls and wakes of an instrumented future","thread states at a stall"])
p("C07","I/O and timers progress whoever drives the reactor",
 "Pending I/O and due timers are delivered whether no thread, idle threads, busy threads or many threads are inside block_on: a block_on caller that is stuck in a poll, finishes, panics or unwinds, or has been serving others' events never keeps other tasks from being woken. Exactly one fallback thread named async-io exists for the whole process as soon as timers or I/O are in use, even if earlier attempts to use them failed for want of descriptors.",
 ["schedules","configurations"],
 "All combinations and transitions of threads entering, idling in, computing in, leaving and panicking out of block_on while other tasks wait.",
 "Tests either use no block_on driver or only one; hand-over of the driver role between threads is never observed.",
 [D,R],[("fallback main loop with back-off","%s main_loop"%D),("yielding the reactor after 500us","%s block_on"%D)],
 [("BLOCK_ON_COUNT, reactor lock","who drives",D)],["delivery observed before the obstructing thread is released","/proc/self/task names"])
p("C08","Byte streams are delivered intact",
 "Bytes written through AsyncWrite (plain, vectored, owned or by reference) arrive in order, exactly once and unmodified at the peer's AsyncRead under any chunking, buffer pressure, concurrent use of both directions and cancellation of individual pending operations; counts returned equal the bytes moved. End of stream and connection errors are reported as the OS reports them, flush/close do not shut the stream down, and no operation returns WouldBlock or hangs while the OS would let it proceed.",
 ["inputs","schedules","histories"],
 "All chunk sizes, vector shapes, stream types (TCP, Unix, pipes, child stdio), operation orders, cancellations and driver threads.",
 "Tests move a constant text or zeros with one pattern; backpressure with content checks, vectored operations, cancellation and pipes are not covered.",
 [L],[("retry loops around the non-blocking operation","%s AsyncRead/AsyncWrite impls"%L)],[],["bytes read vs a keyed pseudo-random stream","return values"])
p("C09","Datagram operations match the socket's semantics",
 "send/send_to/recv/recv_from/peek/peek_from on Async UdpSocket and UnixDatagram have exactly the result of the corresponding non-blocking call once it can proceed: message boundaries, contents, truncated lengths, sender addresses and errors are those of the OS, receiving consumes exactly one datagram, peeking consumes none. A pending operation completes when the peer's action makes it possible.",
 ["inputs","schedules","histories"],
 "All datagram sizes (including empty and truncated), operation mixes, waiting orders and driver threads.",
 "Tests send one message each before receiving it; waiting receivers, blocked senders, truncation, empty datagrams and the address results under mixed senders are not covered.",
 [L],[("read_with/write_with wrappers","%s impl Async<UdpSocket>, impl Async<UnixDatagram>"%L)],[],["results vs a model of the queued datagrams"])
p("C10","connect and accept establish exactly the right connections",
 "connect resolves Ok only once the connection is established to the requested TCP or Unix (path or abstract) address and otherwise reports the OS error; accept and incoming yield every established connection exactly once with the right peer address, go on after errors and never end. Every socket the crate creates or accepts is non-blocking and close-on-exec, and a cancelled or failed connect or accept leaks no descriptor.",
 ["inputs","schedules","fault_sequences"],
 "All address families, listener states (absent, full backlog, slow), concurrency of connectors and acceptors, and cancellation points.",
 "On loopback a connect is established before connect(2) returns, so tests cannot tell an early Ok from a right one; flags, backlog pressure, cancellation and accept errors are not looked at.",
 [L],[("wait for writability, then check socket error/peer","%s Async::<TcpStream>::connect, Async::<UnixStream>::connect"%L),("accept wraps with Async::new","%s accept"%L)],[],["kernel socket state at resolution (TCP_INFO, getpeername)","matching of connector and acceptor addresses","fcntl flags","/proc/self/fd"])
p("C11","A handle is registered exactly while it lives, and its descriptor is safe",
 "A descriptor is registered with the OS poller exactly from successful creation of its Async handle until the handle is dropped or unwrapped, and the reactor never touches a descriptor that is not open or has been given to someone else. Dropping closes it; into_inner and OwnedFd conversion return it open, non-blocking and free to be registered again; Async::new makes it non-blocking and new_nonblocking leaves the mode alone, and neither touches any other flag; failed or duplicate registration returns an error without disturbing the existing registration or leaking; owned futures keep their handle alive.",
 ["histories","schedules","fault_sequences"],
 "All sequences of create, convert, unwrap, share, drop and failed create over any number of descriptors on any threads, with traffic in flight.",
 "One test covers a duplicate registration; registration state is in the kernel and descriptor reuse hazards need another thread to reuse the number at the wrong moment.",
 [L,R,RU,OU],[("deregister before closing","%s Drop for Async, into_inner"%L),("insert_io rollback","%s insert_io/remove_io"%R)],
 [("sources slab","live registrations",R)],["/proc/self/fdinfo of the poller","fstat identity at each poller call","fcntl"])
p("C12","Hostile wakers cannot break delivery or deadlock the library",
 "Waker callbacks supplied by callers may panic when woken, take long, or re-enter the library with non-blocking calls (create, poll, reset or drop timers, handles and futures, including the very handle concerned) both when woken and when dropped, without deadlock and without preventing any other task from being woken.",
 ["programs","schedules"],
 "All waker behaviours of these kinds at every place the library wakes, replaces or drops a waker.",
 "Tests only use executors' well-behaved wakers; the panic guard and lock discipline around wakers is never exercised.",
 [R,L],[("wakers collected under locks, invoked after release, panics caught","%s react, process_timers, poll_ready"%R)],[],["completion of victim tasks sharing rounds with hostile wakers","stall detector"])
p("C13","OS failures surface to the caller concerned and to nobody else",
 "If an OS call made on behalf of one handle fails (registering, arming interest, deregistering, accepting, creating), the operation that needed it reports that error, nothing stays half-registered, and the operation works again once the cause is gone. Failures of one handle or of the wait call never lose, delay indefinitely or corrupt wakeups and timers of others.",
 ["fault_sequences","schedules"],
 "All placements of failing poller calls and descriptor exhaustion among the operations of concurrent handles and timers.",
 "Tests run without faults, so no error path of the poller is executed except one duplicate registration.",
 [R,L],[("error propagation from registration.modify/add","%s insert_io, poll_ready, Ready::poll, react"%R)],[],["injected errors vs returned errors","completion of bystanders"])
p("C14","No undefined behaviour, data race or deadlock under any thread schedule",
 "Safe use of the crate from any number of threads never causes a data race, memory error, use of an uninitialised or freed object, or other undefined behaviour, and never deadlocks: with tasks only waiting for each other, timers and I/O, some thread can always proceed.",
 ["schedules","programs"],
 "All thread schedules and weak-memory outcomes of programs that share handles, timers, wakers and block_on across threads.",
 "Tests run natively on one schedule with no detector; races and deadlocks are timing dependent and usually silent.",
 [R,D,L,RU],[("mutexes, SeqCst atomics, borrowed-fd unsafe blocks","%s, %s, %s"%(R,D,RU))],[],["Miri, ThreadSanitizer and AddressSanitizer reports over randomized schedules"])
p("C15","Closure-based operations follow the try / wait / retry protocol",
 "read_with, write_with and their mutable variants call the closure once immediately, call it again only after a wake-up following WouldBlock, wait for the matching direction, and return the first result that is not WouldBlock verbatim, after which the closure is not called again; the same protocol is followed by AsyncRead and AsyncWrite for every I/O type. Pending operations do not consume CPU, and WouldBlock never escapes to the caller.",
 ["inputs","schedules","histories"],
 "All result sequences of the closure or I/O type, wake-up patterns and cancellations.",
 "Tests only see real sockets' common results; error kinds, WouldBlock sequences, call counts and direction choice are not observed.",
 [L],[("loop + optimistic(readable/writable)","%s read_with*, write_with*, optimistic, poll_read/poll_write/poll_flush"%L)],[],["calls to an instrumented closure and I/O type","interest armed in the poller"])
p("C16","An idle program is idle",
 "When no timer is due, no awaited handle becomes ready and no task is woken, the crate's threads go to sleep within a bounded number of steps and stay asleep, however many handles, waiters, expired or far-away timers, unread data, hung-up peers, cancelled waits and past or idle block_on calls (including ones that panicked) exist. Each single event causes only a bounded number of reactor rounds.",
 ["histories","configurations"],
 "All quiescent states reachable by any history of operations.",
 "Busy loops do not change results; no test looks at activity while idle.",
 [D,R],[("oneshot interest","%s"%R),("back-off and BLOCK_ON_COUNT bookkeeping","%s main_loop, block_on guard"%D)],
 [("BLOCK_ON_COUNT","number of active block_on calls",D)],["number of OS waits and timed parks in an idle window"])
p("C17","The reactor descriptor mirrors the reactor for foreign event loops",
 "reactor_fd always returns the same open descriptor of the poller that all handles are registered with, and polling it from outside reports readiness whenever an awaited handle is ready but its event has not been taken yet; after the event is taken and handled it no longer does. Using it in this way does not lose or duplicate wakeups.",
 ["histories","schedules"],
 "All states of handles and of the driving threads when the descriptor is polled from outside.",
 "Only a doc-test calls the function, ignoring what it returns.",
 [OU,R],[("Poller::as_fd","%s reactor_fd"%OU)],[],["poll(2) on the descriptor","/proc/self/fdinfo of it"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
