//! C06: block_on — wakeups are neither lost nor misdirected nor phantom.

use std::any::Any;
use std::cell::RefCell;
use std::future::Future;
use std::os::fd::{AsRawFd, OwnedFd};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

use async_io::{Async, Timer};

use crate::fdu;
use crate::rt::*;
use crate::world::Io;

/// Wakes of one waker lineage: a thread's cached waker, or the waker of one nested call.
#[derive(Default)]
struct Lineage {
    started: AtomicU64,
    completed: AtomicU64,
    /// Wakes that were complete when the future of the last call on it was last touched: they must not
    /// be visible to the next call.
    spent: AtomicU64,
}

struct Call {
    id: u64,
    depth: usize,
    lin: Arc<Lineage>,
    /// Wakes that were spent when this call began.
    base: u64,
    polls: AtomicU64,
    signals: AtomicU64,
    target: u64,
    done: AtomicBool,
    waker: Mutex<Option<Waker>>,
    log: Mutex<Vec<String>>,
}
impl Call {
    fn note(&self, s: impl Into<String>) {
        let mut l = lock(&self.log);
        if l.len() < 80 {
            l.push(s.into());
        }
    }
    /// One of the things the call waits for has happened.
    fn signal(&self) {
        self.signals.fetch_add(1, SeqCst);
        let w = lock(&self.waker).clone();
        if let Some(w) = w {
            w.wake();
        }
    }
}

/// Counts wakes and forwards them to the waker that block_on supplied.
struct CountingWaker {
    lin: Arc<Lineage>,
    inner: Waker,
}
impl Wake for CountingWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.lin.started.fetch_add(1, SeqCst);
        if rnd(2) == 0 {
            self.inner.wake_by_ref();
        } else {
            self.inner.clone().wake();
        }
        self.lin.completed.fetch_add(1, SeqCst);
        count("wakes", 1);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Src {
    /// Another thread signals after about this many µs.
    Thread(u64),
    /// A thread signals as its very last action.
    Exit,
    /// The future wakes itself during its k-th poll.
    SelfWake,
    /// The future runs a nested block_on in a poll.
    Nested,
    /// A nested call during which the outer one is signalled.
    NestedSignal,
    Timer(u64),
    Io(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Ready,
    /// Wakes itself and returns Ready in the same poll.
    WakeReady,
    Panic,
    WakePanic,
    /// Wakes itself when dropped.
    DropWake,
}

#[derive(Clone, Debug)]
struct Plan {
    srcs: Vec<Src>,
    end: End,
    inner: Vec<Plan>,
}
fn plan(rng: &mut Rng, depth: usize, quiet: bool) -> Plan {
    let n = *rng.pick(&[0, 1, 1, 1, 2, 2, 3, 5]);
    let mut srcs = Vec::new();
    let mut inner = Vec::new();
    for _ in 0..n {
        let us = *rng.pick(&[0, 0, 5, 30, 100, 400, 700, 1500]);
        let s = match rng.below(if quiet { 10 } else { 14 }) {
            0..=5 => Src::Thread(us),
            6 | 7 => Src::SelfWake,
            8 if depth < 3 => Src::Nested,
            9 if depth < 3 => Src::NestedSignal,
            _ if rng.chance(2) => Src::Exit,
            10 | 11 => Src::Timer(us),
            12 | 13 => Src::Io(us),
            _ => Src::Thread(us),
        };
        if matches!(s, Src::Nested | Src::NestedSignal) {
            inner.push(plan(rng, depth + 1, quiet));
        }
        srcs.push(s);
    }
    let end = *rng.pick(&[End::Ready, End::Ready, End::Ready, End::WakeReady, End::Panic, End::WakePanic, End::DropWake]);
    Plan { srcs, end, inner }
}

/// Jobs for the signalling threads.
struct Job {
    at: Instant,
    call: Arc<Call>,
    byte: Option<Arc<OwnedFd>>,
}
static JOBS: Mutex<Vec<Job>> = Mutex::new(Vec::new());
static JOBS_CV: Condvar = Condvar::new();
static JOBS_ACTIVE: AtomicU64 = AtomicU64::new(0);
fn signaller(rover: bool) {
    loop {
        let job = {
            let mut g = lock(&JOBS);
            loop {
                let now = Instant::now();
                if let Some(i) = g.iter().position(|j| j.at <= now) {
                    break g.swap_remove(i);
                }
                let d = g.iter().map(|j| j.at - now).min();
                g = match d {
                    Some(d) if d < Duration::from_micros(100) => {
                        drop(g);
                        std::thread::yield_now();
                        lock(&JOBS)
                    }
                    Some(d) => JOBS_CV.wait_timeout(g, d).unwrap_or_else(|e| e.into_inner()).0,
                    None => JOBS_CV.wait(g).unwrap_or_else(|e| e.into_inner()),
                };
            }
        };
        if rover && rnd(6) == 0 {
            // This thread has been inside block_on itself, waiting on the reactor; now it is outside
            // and wakes others.
            let n = rnd(3);
            async_io::block_on(async {
                for _ in 0..=n {
                    Timer::after(Duration::from_micros(rnd(150))).await;
                }
            });
            count("rover_calls", 1);
        }
        match job.byte {
            Some(fd) => {
                let _ = fdu::write(fd.as_raw_fd(), b"x");
            }
            None => job.call.signal(),
        }
        JOBS_ACTIVE.fetch_sub(1, SeqCst);
    }
}
fn submit(us: u64, call: &Arc<Call>, byte: Option<Arc<OwnedFd>>) {
    JOBS_ACTIVE.fetch_add(1, SeqCst);
    lock(&JOBS).push(Job { at: Instant::now() + Duration::from_micros(us), call: call.clone(), byte });
    JOBS_CV.notify_one();
}

thread_local! {
    /// The calls of this thread, innermost last: the call, the wakes that had begun when its latest poll
    /// began, and the wakes that were complete when this thread last looked for a notification.
    static INNER: RefCell<Vec<(Arc<Call>, u64, u64)>> = const { RefCell::new(Vec::new()) };
}
/// Once its future has completed, block_on has nothing left to sleep for.
fn awake(c: &Arc<Call>, what: &str, timeout: Option<Duration>) {
    check!(
        !c.done.load(SeqCst),
        "block_on {what} ({timeout:?}) after its future has completed, instead of returning (call {} depth {})",
        c.id,
        c.depth
    );
    count("sleeps_before_completion", 1);
}
struct Mon;
impl Monitor for Mon {
    fn park(&self, timeout: Option<Duration>) {
        let _ = INNER.try_with(|i| {
            if let Some((c, _, looked)) = i.borrow_mut().last_mut() {
                *looked = c.lin.completed.load(SeqCst);
                if timeout != Some(Duration::ZERO) {
                    awake(c, "parks", timeout);
                }
            }
        });
    }
    fn wait_enter(&self, timeout: Option<Duration>, _: u64) -> Option<i32> {
        if timeout != Some(Duration::ZERO) {
            let _ = INNER.try_with(|i| {
                if let Some((c, begun, looked)) = i.borrow().last() {
                    awake(c, "waits for events", timeout);
                    check!(
                        looked <= begun,
                        "block_on waits for events ({timeout:?}) before it polls its future, although it has been woken: \
                         {looked} wakes when it last looked, {begun} when the last poll began"
                    );
                    count("sleeps_judged", 1);
                }
            });
        }
        None
    }
}

static CALLS: AtomicU64 = AtomicU64::new(1);

struct PlanFut {
    call: Arc<Call>,
    plan: Plan,
    /// Remaining work inside polls.
    next: usize,
    nested: usize,
    waker: Option<(Waker, Waker)>,
    timers: Vec<(Timer, bool)>,
    ios: Vec<(Pin<Box<dyn Future<Output = std::io::Result<()>> + Send>>, Arc<OwnedFd>, bool)>,
}

impl PlanFut {
    fn spend(&self) {
        // Wakes that are complete by now belong to this call.
        let c = self.call.lin.completed.load(SeqCst);
        self.call.lin.spent.fetch_max(c, SeqCst);
    }
}
impl Drop for PlanFut {
    fn drop(&mut self) {
        if self.plan.end == End::DropWake {
            if let Some((_, w)) = &self.waker {
                w.wake_by_ref();
            }
        }
        self.spend();
    }
}

impl Future for PlanFut {
    type Output = u64;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        let this = &mut *self;
        let call = this.call.clone();
        progress();
        check!(!call.done.load(SeqCst), "block_on polled a future again after it had completed: {:?}", lock(&call.log));
        // Every poll but the first needs a wake of its own.
        INNER.with(|i| {
            if let Some((c, begun, looked)) = i.borrow_mut().last_mut() {
                *begun = c.lin.started.load(SeqCst);
                *looked = 0;
            }
        });
        let before = call.polls.fetch_add(1, SeqCst);
        let allowed = call.lin.started.load(SeqCst) - call.base;
        check!(
            before <= allowed,
            "block_on polled a future without a wake-up: poll number {} after {allowed} wakes (call {} depth {}, plan {:?}, {:?})",
            before + 1,
            call.id,
            call.depth,
            this.plan,
            lock(&call.log)
        );
        count("polls", 1);
        // Our waker, cached as long as block_on passes the same one.
        let w = match &this.waker {
            Some((i, w)) if i.will_wake(cx.waker()) => w.clone(),
            _ => {
                let w = Waker::from(Arc::new(CountingWaker { lin: call.lin.clone(), inner: cx.waker().clone() }));
                this.waker = Some((cx.waker().clone(), w.clone()));
                *lock(&call.waker) = Some(w.clone());
                w
            }
        };
        let mine = &mut Context::from_waker(&w);
        // Start the next source.
        if this.next < this.plan.srcs.len() {
            // Start several at once sometimes, so that wakes coincide.
            let k = if rnd(3) == 0 { this.plan.srcs.len() - this.next } else { 1 };
            for _ in 0..k {
                let s = this.plan.srcs[this.next];
                this.next += 1;
                call.note(format!("{s:?}"));
                match s {
                    Src::Thread(us) => submit(us, &call, None),
                    Src::Exit => {
                        let c = call.clone();
                        at_thread_exit("leaver", rnd(2) == 0, move || c.signal());
                    }
                    Src::SelfWake => {
                        call.signals.fetch_add(1, SeqCst);
                        w.wake_by_ref();
                    }
                    Src::Nested | Src::NestedSignal => {
                        let p = this.plan.inner[this.nested].clone();
                        this.nested += 1;
                        if s == Src::NestedSignal {
                            submit(rnd(200), &call, None);
                        }
                        run_call(p, call.depth + 1);
                        if s == Src::Nested {
                            call.signal();
                        }
                    }
                    Src::Timer(us) => this.timers.push((Timer::after(Duration::from_micros(us)), false)),
                    Src::Io(us) => {
                        let (a, b) = fdu::socketpair(libc::SOCK_STREAM).unwrap();
                        let h = Arc::new(Async::new(Io(a)).unwrap_or_else(|e| violation("Async::new failed", e.to_string())));
                        let b = Arc::new(b);
                        this.ios.push((Box::pin(h.readable_owned()), b.clone(), false));
                        submit(us, &call, Some(b));
                    }
                }
            }
            if this.next < this.plan.srcs.len() {
                // Make sure that the rest gets started.
                w.wake_by_ref();
            }
        }
        for (t, done) in &mut this.timers {
            if !*done && Pin::new(t).poll(mine).is_ready() {
                *done = true;
                call.signals.fetch_add(1, SeqCst);
            }
        }
        for (f, _, done) in &mut this.ios {
            if !*done {
                if let Poll::Ready(r) = f.as_mut().poll(mine) {
                    check!(r.is_ok(), "readable failed: {r:?}");
                    *done = true;
                    call.signals.fetch_add(1, SeqCst);
                }
            }
        }
        if this.next < this.plan.srcs.len() || call.signals.load(SeqCst) < call.target {
            return Poll::Pending;
        }
        if matches!(this.plan.end, End::WakeReady | End::WakePanic) {
            w.wake_by_ref();
            if rnd(2) == 0 {
                let w = w.clone();
                let _ = std::thread::spawn(move || w.wake()).join();
            }
        }
        call.done.store(true, SeqCst);
        this.spend();
        if matches!(this.plan.end, End::Panic | End::WakePanic) {
            panic_any(Deliberate);
        }
        Poll::Ready(call.id)
    }
}

thread_local! {
    static OUTER: Arc<Lineage> = Arc::default();
    static CURRENT: RefCell<Vec<Arc<Call>>> = const { RefCell::new(Vec::new()) };
}
static ACTIVE: Mutex<Vec<Arc<Call>>> = Mutex::new(Vec::new());

fn run_call(plan: Plan, depth: usize) {
    let id = CALLS.fetch_add(1, SeqCst);
    let lin = if depth == 0 { OUTER.with(|o| o.clone()) } else { Arc::default() };
    let base = lin.spent.load(SeqCst);
    let call = Arc::new(Call {
        id,
        depth,
        lin,
        base,
        polls: AtomicU64::new(0),
        signals: AtomicU64::new(0),
        target: plan.srcs.len() as u64,
        done: AtomicBool::new(false),
        waker: Mutex::new(None),
        log: Mutex::new(Vec::new()),
    });
    lock(&ACTIVE).push(call.clone());
    let end = plan.end;
    let fut = PlanFut {
        call: call.clone(),
        plan,
        next: 0,
        nested: 0,
        waker: None,
        timers: Vec::new(),
        ios: Vec::new(),
    };
    INNER.with(|i| i.borrow_mut().push((call.clone(), 0, 0)));
    let r: Result<u64, Box<dyn Any + Send>> = catch_unwind(AssertUnwindSafe(|| async_io::block_on(fut)));
    INNER.with(|i| i.borrow_mut().pop());
    match r {
        Ok(v) => {
            check!(v == id, "block_on returned {v} instead of the future's output {id}");
            check!(!matches!(end, End::Panic | End::WakePanic), "block_on swallowed a panic");
        }
        Err(e) => {
            check!(e.is::<Deliberate>() && matches!(end, End::Panic | End::WakePanic), "block_on panicked with a foreign payload");
        }
    }
    check!(call.done.load(SeqCst), "block_on returned before the future completed");
    *lock(&call.waker) = None;
    lock(&ACTIVE).retain(|c| !Arc::ptr_eq(c, &call));
    count(&format!("calls_depth{depth}"), 1);
    count(&format!("end_{end:?}"), 1);
}

struct Worker {
    todo: Mutex<Vec<Plan>>,
    cv: Condvar,
    busy: AtomicBool,
}

pub fn run() {
    start_watchdog();
    set_monitor(&Mon);
    let mut rng = Rng::new(opts().seed);
    for i in 0..3 {
        std::thread::spawn(move || signaller(i == 0));
    }
    let workers: Vec<Arc<Worker>> = (0..4)
        .map(|_| Arc::new(Worker { todo: Mutex::new(Vec::new()), cv: Condvar::new(), busy: AtomicBool::new(false) }))
        .collect();
    for w in &workers {
        let w = w.clone();
        std::thread::spawn(move || loop {
            let mut g = lock(&w.todo);
            while g.is_empty() {
                w.busy.store(false, SeqCst);
                g = w.cv.wait(g).unwrap_or_else(|e| e.into_inner());
            }
            let p = g.remove(0);
            drop(g);
            run_call(p, 0);
        });
    }
    let mut episode = 0u64;
    let mut far: Vec<Timer> = Vec::new();
    while time_left() {
        episode += 1;
        if episode % 10 == 1 {
            inj_shuffle(&mut rng);
        }
        if episode % 10 == 1 {
            // Somebody's deadline, an hour away or never.
            far.clear();
            if rng.chance(50) {
                let mut t = Timer::after(Duration::from_secs(*rng.pick(&[60, 3600, 1_000_000_000])));
                let _ = Pin::new(&mut t).poll(&mut Context::from_waker(Waker::noop()));
                far.push(t);
            }
        }
        let quiet = rng.chance(65);
        take_trace();
        let mut sig = 0;
        let n = *rng.pick(&[1, 1, 2, 2, 3, 4]);
        let mut desc = Vec::new();
        for w in &workers[..n] {
            let plans: Vec<Plan> = (0..rng.range(1, 6)).map(|_| plan(&mut rng, 0, quiet)).collect();
            for p in &plans {
                for s in format!("{p:?}").bytes() {
                    sig = mix(sig, s as u64);
                }
            }
            desc.push(format!("{plans:?}"));
            let mut g = lock(&w.todo);
            w.busy.store(true, SeqCst);
            *g = plans;
            w.cv.notify_all();
        }
        activity(format!("episode {episode}: {desc:?}"));
        await_cond(
            || workers.iter().all(|w| !w.busy.load(SeqCst)),
            "block_on does not poll its future again although it was woken",
            || {
                let mut s = String::new();
                for c in lock(&ACTIVE).iter() {
                    s.push_str(&format!(
                        "call {} depth {} polls {} signals {}/{} wakes started {} completed {} base {} {:?}\n",
                        c.id,
                        c.depth,
                        c.polls.load(SeqCst),
                        c.signals.load(SeqCst),
                        c.target,
                        c.lin.started.load(SeqCst),
                        c.lin.completed.load(SeqCst),
                        c.base,
                        lock(&c.log)
                    ));
                }
                Some(format!("jobs pending {}; {s}\n{desc:?}", JOBS_ACTIVE.load(SeqCst)))
            },
        );
        if episode % 23 == 5 {
            sample(|| format!("{desc:?}"));
        }
        evaluated(Some(mix(sig, take_trace())));
    }
    report_points();
    finish()
}
