"""What each check runs. secs = (quick, thorough) per worker process; n processes with distinct seeds."""

W8 = lambda q, t, **k: [dict(n=8, secs=(q, t), **k)]

CHECKS = {
    "C01": dict(
        level="exploration",
        workers=W8(25, 400),
        technique="runtime monitoring: delay-injected waiter worlds with a completion oracle against poll(2)",
        rule="An episode: 1-4 handles (Unix, TCP, UDP, pipes), 1-5 waiters of all kinds, then random fires, pulses, "
             "hang-ups, cancellations, re-polls with other wakers and handle replacements; finally every awaited "
             "condition is made true and every task must complete. Non-trivial: more than one waiter or step. "
             "Distinct: different script or different observed order of (poller/parker/trace point, thread).",
        level_note="Held on the explored interleavings. Trusts poll(2), the shimmed polling/parking crates and the "
                   "stall criterion (8 s of healthy scheduling plus forced reactor rounds).",
    ),
    "C02": dict(
        level="exploration",
        workers=W8(25, 400),
        technique="runtime monitoring: online check of every readiness answer against the log of events delivered per registration",
        rule="As C01 with aggressive replacement of handles while events are in flight (descriptor numbers and reactor "
             "slots reused at once). Every Ready and Pending of every readiness wait is judged against the event log.",
        level_note="Held on the explored interleavings; every answer of every wait is judged. Trusts the event log of "
                   "the shimmed polling crate (registrations identified through epoll user data).",
    ),
    "C03": dict(
        level="exploration",
        workers=W8(15, 300),
        technique="runtime monitoring: reference model of every timer with bracketed clock readings",
        rule="A case is one timer with its whole history of constructor, set_*, poll (as future, as stream, awaited) and "
             "moves between threads; every call is compared with the reference model (deadline known exactly or within "
             "the bracket of the clock readings around the call). Non-trivial: at least three calls. Distinct: different "
             "sequence of calls, durations and outcomes.",
        level_note="Every poll of every timer is judged against an exact reference model; held on the explored histories.",
    ),
    "C04": dict(
        level="exploration",
        workers=W8(25, 400),
        technique="runtime monitoring: every reactor sleep checked against all registered deadlines, plus completion oracle on latest-waker tasks",
        rule="An episode: 1-60 timers (many with equal deadlines, some without any), tasks that are polled only through their "
             "latest waker, set_* from other threads, re-polls with other wakers on other threads, storms of up to 5000 timer "
             "operations, cancellations, then a near deadline for each; every reactor sleep is compared with all registered "
             "deadlines and every timer must fire. Non-trivial: more than one step. Distinct: different script or interleaving.",
        level_note="Held on the explored interleavings. Lateness is judged logically: sleep bound against registered deadlines and "
                   "completion before the stall window ends.",
    ),
    "C05": dict(
        level="exploration",
        workers=[dict(n=6, secs=(25, 400)), dict(n=2, secs=(25, 400), mode="heap")],
        technique="runtime monitoring: census of waker references, wake callbacks, descriptors, reactor slots and heap bytes around cancellations",
        rule="An episode sets up handles, futures and timers of every kind, drops or resets a random part of them at a random "
             "point (before/after/while an event is in flight, from another thread, inside another's wake), runs reactor "
             "rounds and then judges: no reference to a dropped operation's waker, no wake on its behalf, no descriptor and "
             "no slot left; survivors must still complete. The heap mode repeats episodes and requires that live bytes come back "
             "to the level of the warmed-up baseline. Non-trivial: something was cancelled while pending.",
        level_note="Held on the explored histories. The waker of poll_readable/poll_writable/AsyncRead/AsyncWrite stays with the "
                   "handle by design of that API and is judged only when the handle is dropped or the event comes.",
    ),
    "C06": dict(
        level="exploration",
        workers=W8(25, 400),
        technique="runtime monitoring: instrumented futures with a wake/poll ledger on concurrent, nested, successive and panicking block_on calls",
        rule="An episode: 1-6 threads run successive and nested block_on calls over scripted futures that wake themselves or are "
             "woken by others at random points (also while polled, dropped, after completion); every poll must be justified by a "
             "wake-up since the last poll began, every wake-up must be followed by a poll, the output must be the future's own. "
             "Non-trivial: more than one wake-up. Distinct: script or interleaving.",
        level_note="Held on the explored interleavings. A lost wake-up is reported when the thread stays parked during 8 s of healthy "
                   "scheduling.",
    ),
    "C07": dict(
        level="exploration",
        workers=[dict(n=7, secs=(25, 400)), dict(n=1, secs=(25, 400), mode="init")],
        technique="runtime monitoring: delivery observed while block_on callers are stuck, busy, panicking or being hogged; thread census",
        rule="An episode: a set of block_on threads in a random mix of obstructing states (stuck in a poll or a waker, ended, "
             "panicked, serving an endless stream of foreign events) and victim timers/handles that must be delivered before "
             "the obstruction is lifted; the names of the process's threads are counted. The init mode starts fresh processes whose "
             "first use of the crate is concurrent from many threads. Distinct: mix of states or interleaving.",
        level_note="Held on the explored mixes and interleavings.",
    ),
    "C08": dict(
        level="exploration",
        workers=W8(25, 400),
        technique="runtime monitoring: position-keyed streams checked byte by byte, results compared with those of the I/O object",
        rule="An episode: 1-3 streams (Unix, TCP, pipe; std types, a recording wrapper that blocks spuriously and fails, a buffering "
             "writer), each direction with random sizes, vectored, closure-based, owned/by-reference and cancelled operations, flush/"
             "close in between, early leaving readers, resets, and waiters as noise; the other end is asynchronous or a plain descriptor. "
             "Every byte read, every count, the place of the end of stream and every error is judged.",
        level_note="Held on the explored streams; a hang is reported when operations stay pending during 8 s of healthy scheduling.",
    ),
    "C09": dict(
        level="exploration",
        workers=W8(25, 400),
        technique="runtime monitoring: differential oracle, every operation mirrored on plain non-blocking sockets; exactly-once ledger for crowds",
        rule="An episode: a network of 2-3 UDP or Unix datagram sockets (bound, unbound, pairs, connected, dead peers) exists twice; 4-40 "
             "random operations are run on both copies and must agree in result, contents, address, error, and in whether they have to "
             "wait. Or: up to 5 receivers and 3 senders share one socket. Or: the kernel (interposed socket calls) refuses an operation 1-3 "
             "times although the socket is ready, or the queue of the receiver is full; the operation must then be performed, once. Non-trivial: at least 3 steps. Distinct: script or interleaving.",
        level_note="Held on the explored histories; the plain sockets of the same kernel are the specification.",
    ),
    "C10": dict(
        level="exploration",
        workers=[dict(n=6, secs=(25, 400)), dict(n=2, secs=(30, 400), mode="slow")],
        technique="runtime monitoring: kernel socket state at resolution, connector/acceptor address ledger, descriptor census, exhausted descriptors",
        rule="An episode: a TCP/Unix/abstract listener, 1-3 accept or incoming tasks and 1-12 connectors, some cancelled; or a failing "
             "connect compared with std; or accept/connect without free descriptors; slow mode: connects held in SYN-SENT by full queues, then "
             "accepted, refused or cancelled. Distinct: shape or interleaving.",
        level_note="Held on the explored histories. Delayed connection failure is produced with full accept queues only (no packet filter here).",
    ),
    "C11": dict(
        level="exploration",
        workers=[dict(n=4, secs=(25, 400), mode="single"), dict(n=4, secs=(25, 400))],
        technique="runtime monitoring: the kernel's list of epoll registrations compared with the model of live handles after every step; every reactor call on a descriptor checked",
        rule="An episode: 20-120 random registrations (9 kinds of objects, 4 ways), drops, unwraps, re-registrations, duplicates, failing "
             "registrations, descriptors shared by dup, borrowing handles, owned futures, pending waits; after every step /proc/self/fdinfo of "
             "the poller must list exactly the live handles, and every poller call must concern a descriptor that is open and still "
             "the registered one. The other half does the same from 4 threads at once with exact comparison at barriers. Distinct: script or interleaving.",
        level_note="Held on the explored histories. Trusts /proc fdinfo and fstat.",
    ),
    "C12": dict(
        level="exploration",
        workers=W8(25, 400),
        technique="runtime monitoring: tasks whose wakers panic, block and re-enter the crate on wake and on drop; completion oracle, panic escape and deadlock detection",
        rule="An episode: 1-3 shared handles and private ones, 2-20 tasks on I/O (4 kinds of waits) and timers, part of them behind wakers that on "
             "wake and on last drop take random actions (12 kinds: panic, sleep, create/poll/reset/drop timers, waits and handles - their own "
             "included - timer queue overflow, cancel or re-poll tasks; nested to depth 4). In the end every condition is made true and every task "
             "must complete; no call may panic; no thread may hang. Distinct: actions taken or interleaving.",
        level_note="Held on the explored behaviours. Excluded by the documentation of Waker/block_on: blocking calls in callbacks, panics in clone/drop.",
    ),
    "C13": dict(
        level="fault_enumeration",
        workers=W8(25, 400),
        technique="runtime monitoring with systematic fault injection: for every random script, the k-th poller call of a class fails, for every k",
        rule="A case: a random script (creations of all kinds, waits of 5 kinds, events, accept/connect, unwraps, timers) in which the k-th "
             "registration / arming by a caller / re-arming by the reactor / deregistration / wait fails (bursts up to 5, waits up to 12) with one of "
             "several errno values; k runs until the script has no such call left. The caller concerned must report exactly that error, nobody else "
             "any, all tasks must complete afterwards, the poller must list exactly the live handles, new waits must work, nothing may be left "
             "open. Plus operations without free descriptors. Non-trivial: the fault struck. Distinct: (script, k) or interleaving.",
        level_note="All single fault points of the generated scripts are enumerated (interleavings are sampled). Faults of notify() are not "
                   "injected: the crate documents no behaviour for them.",
    ),
    "C15": dict(
        level="exploration",
        workers=W8(20, 400),
        technique="runtime monitoring: scripted closures and I/O objects that record every call; armed interest read from the kernel; delivered events counted",
        rule="A case: one of 16 operations (closure based, AsyncRead/AsyncWrite by value and by reference, vectored, flush, close) over a script of "
             "0-6 WouldBlock results (3 forms) and a final result (values, raw errors, kinds, custom errors, panics), polled by hand with the condition true "
             "or false, re-polled, woken, dropped. Every call, its buffers and object, the result, the interest armed in epoll, the number of wake-ups "
             "and polls is judged. Others run many closure operations on one handle from several threads. Non-trivial: at least one WouldBlock. "
             "Distinct: operation, script length, driver actions, interleaving.",
        level_note="Every call and result of every operation is judged; held on the explored scripts and interleavings.",
    ),
    "C16": dict(
        level="exploration",
        workers=W8(25, 400),
        technique="runtime monitoring: counts of reactor waits, wake callbacks and CPU time over idle windows and per delivered event",
        rule="An episode: a random mix of handles (ready and not), pending waits, operations of 22 kinds that cannot finish, timers (far, "
             "cancelled, never, expired) and drivers (one of which may hold the reactor), then a window in which nothing happens: the reactor may wait only as often as the registered deadlines and the documented periodic work explain; then single "
             "events, each of which may cost a bounded number of rounds. Non-trivial: at least one wait or timer in place. Distinct: mix or interleaving.",
        level_note="Held on the explored windows. Bounds come from the number of events and deadlines, not from absolute times.",
    ),
    "C17": dict(
        level="exploration",
        workers=W8(20, 400),
        technique="runtime monitoring: poll(2), foreign epoll instances and fdinfo of the descriptor compared with a model while the reactor is held up in a slow waker",
        rule="An episode holds the reactor up inside a wake callback (of an I/O event or a timer, with 0-2 block_on drivers), then creates, awaits, fires, "
             "drains, hangs up and drops handles; after every step poll(2) and foreign epoll instances (level and edge) on the descriptor must say what the "
             "awaited handles say; after the release every event is taken once and the descriptor falls silent. Other episodes run foreign event loops "
             "that drive the reactor by the descriptor under ping-pong tasks. Distinct: script or interleaving.",
        level_note="Held on the explored histories. Not-ready is judged only while nothing else (notifications, left-over interest) can make it ready.",
    ),
    "C14": dict(
        level="exploration",
        workers=[],
        extra="c14",
        technique="Miri (weak memory, random preemption, virtual time) on random programs over a simulated poller; ThreadSanitizer and AddressSanitizer on all stress workloads",
        rule="A case is one random multi-threaded program interpreted by Miri under one schedule seed (handles, waits of all kinds, timers, nested block_on, "
             "misbehaving wakers, cross-thread moves and drops; every wait is satisfied exactly once, and the program must end within virtual time), or one "
             "episode of the workloads of the other checks in a process built with -Zsanitizer=thread or address (std included). Reports, crashes, Miri "
             "errors and programs that no longer make progress are violations. Distinct: Miri seed, or episode.",
        level_note="Held on the explored schedules. The simulated poller stands for the kernel under Miri; the OS calls of lib.rs run under the sanitizers only.",
    ),
}
