//! C07: I/O and timers progress whoever drives the reactor.

use std::future::{poll_fn, Future};
use std::os::fd::AsRawFd;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

use async_io::{Async, Timer};

use crate::exec::*;
use crate::fdu;
use crate::rt::*;
use crate::world::Io;

/// Number of threads named async-io.
pub fn helper_threads() -> usize {
    let mut n = 0;
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            if std::fs::read_to_string(e.path().join("comm")).is_ok_and(|c| c.trim() == "async-io") {
                n += 1;
            }
        }
    }
    n
}

/// Released by the controller once all chains are done.
#[derive(Default)]
struct Gate {
    open: Mutex<bool>,
    cv: Condvar,
    wakers: Mutex<Vec<Waker>>,
}
impl Gate {
    fn is_open(&self) -> bool {
        *lock(&self.open)
    }
    fn release(&self) {
        *lock(&self.open) = true;
        self.cv.notify_all();
        let ws = std::mem::take(&mut *lock(&self.wakers));
        for w in ws {
            w.wake();
        }
    }
    fn block(&self) {
        let mut g = lock(&self.open);
        while !*g {
            g = self.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    async fn wait(&self) {
        poll_fn(|cx| {
            lock(&self.wakers).push(cx.waker().clone());
            if self.is_open() {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        })
        .await
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Actor {
    /// Waits for the gate inside block_on.
    Idle,
    /// Its very first poll blocks the thread.
    Stuck,
    /// Drives for a while, is woken, and then blocks the thread in a poll.
    DriveThenStuck,
    DriveThenExit,
    DriveThenPanic,
    /// Yields all the time.
    Busy,
    /// Short block_on calls over and over.
    Churn,
    /// Short block_on calls that panic.
    ChurnPanic,
    /// A nested call is stuck or idle.
    NestedIdle,
    NestedStuck,
    /// Drives because of its own timers all the time.
    OwnTimers,
    /// Yields for a while (driving without ever sleeping) and then blocks the thread in a poll.
    BusyThenStuck,
    /// Drives because of its own timers for a while and then blocks the thread in a poll.
    TimersThenStuck,
}
const ACTORS: [Actor; 13] = [
    Actor::Idle,
    Actor::Stuck,
    Actor::DriveThenStuck,
    Actor::DriveThenExit,
    Actor::DriveThenPanic,
    Actor::Busy,
    Actor::Churn,
    Actor::ChurnPanic,
    Actor::NestedIdle,
    Actor::NestedStuck,
    Actor::OwnTimers,
    Actor::BusyThenStuck,
    Actor::TimersThenStuck,
];

/// Pending until `kick` is set and the waker woken.
async fn until(flag: &AtomicBool, w: &Mutex<Option<Waker>>) {
    poll_fn(|cx| {
        *lock(w) = Some(cx.waker().clone());
        if flag.load(SeqCst) {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    })
    .await
}

/// Wakes something after a while, from a thread that has nothing to do with async-io.
struct Later {
    at: Instant,
    f: Box<dyn FnOnce() + Send>,
}
static LATER: Mutex<Vec<Later>> = Mutex::new(Vec::new());
static LATER_CV: Condvar = Condvar::new();
fn later(us: u64, f: impl FnOnce() + Send + 'static) {
    lock(&LATER).push(Later { at: Instant::now() + Duration::from_micros(us), f: Box::new(f) });
    LATER_CV.notify_one();
}
fn later_thread() {
    loop {
        let l = {
            let mut g = lock(&LATER);
            loop {
                let now = Instant::now();
                if let Some(i) = g.iter().position(|l| l.at <= now) {
                    break g.swap_remove(i);
                }
                g = match g.iter().map(|l| l.at - now).min() {
                    Some(d) => LATER_CV.wait_timeout(g, d).unwrap_or_else(|e| e.into_inner()).0,
                    None => LATER_CV.wait(g).unwrap_or_else(|e| e.into_inner()),
                }
            }
        };
        (l.f)();
    }
}

fn act(a: Actor, gate: &Arc<Gate>, us: u64) {
    let drive = |gate: &Arc<Gate>| {
        let flag = Arc::new((AtomicBool::new(false), Mutex::new(None::<Waker>)));
        let f2 = flag.clone();
        later(us, move || {
            f2.0.store(true, SeqCst);
            let w = lock(&f2.1).take();
            if let Some(w) = w {
                w.wake()
            }
        });
        let _ = gate;
        flag
    };
    match a {
        Actor::Idle => async_io::block_on(gate.wait()),
        Actor::Stuck => async_io::block_on(async { gate.block() }),
        Actor::DriveThenStuck => {
            let f = drive(gate);
            async_io::block_on(async {
                until(&f.0, &f.1).await;
                gate.block();
            })
        }
        Actor::DriveThenExit => {
            let f = drive(gate);
            async_io::block_on(until(&f.0, &f.1));
            gate.block();
        }
        Actor::DriveThenPanic => {
            let f = drive(gate);
            let _ = catch_unwind(AssertUnwindSafe(|| {
                async_io::block_on(async {
                    until(&f.0, &f.1).await;
                    panic_any(Deliberate);
                })
            }));
            gate.block();
        }
        Actor::Busy => async_io::block_on(poll_fn(|cx| {
            if gate.is_open() {
                return Poll::Ready(());
            }
            cx.waker().wake_by_ref();
            std::thread::yield_now();
            Poll::Pending
        })),
        Actor::Churn => {
            while !gate.is_open() {
                let f = drive(gate);
                async_io::block_on(until(&f.0, &f.1));
            }
        }
        Actor::ChurnPanic => {
            while !gate.is_open() {
                let f = drive(gate);
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    async_io::block_on(async {
                        until(&f.0, &f.1).await;
                        panic_any(Deliberate);
                    })
                }));
            }
        }
        Actor::NestedIdle => async_io::block_on(async { async_io::block_on(gate.wait()) }),
        Actor::NestedStuck => {
            let f = drive(gate);
            async_io::block_on(async {
                async_io::block_on(async {
                    until(&f.0, &f.1).await;
                    gate.block();
                })
            })
        }
        Actor::BusyThenStuck => {
            let end = Instant::now() + Duration::from_micros(us);
            async_io::block_on(async {
                while Instant::now() < end {
                    futures_lite::future::yield_now().await;
                }
                gate.block();
            })
        }
        Actor::TimersThenStuck => {
            let end = Instant::now() + Duration::from_micros(us);
            async_io::block_on(async {
                while Instant::now() < end {
                    Timer::after(Duration::from_micros(30)).await;
                }
                gate.block();
            })
        }
        Actor::OwnTimers => async_io::block_on(async {
            while !gate.is_open() {
                Timer::after(Duration::from_micros(us)).await;
            }
        }),
    }
}

struct Chain {
    state: Mutex<(String, Option<Instant>)>,
    fd: AtomicI32,
    fired: AtomicBool,
    steps: AtomicU64,
}

async fn chain(c: Arc<Chain>, steps: Vec<(bool, u64)>) {
    let (a, b) = fdu::socketpair(libc::SOCK_STREAM).unwrap();
    let h = Async::new(Io(a)).unwrap_or_else(|e| violation("Async::new failed", e.to_string()));
    let b = Arc::new(b);
    let fd = h.as_fd_raw();
    for (i, (io, us)) in steps.into_iter().enumerate() {
        if io {
            c.fired.store(false, SeqCst);
            c.fd.store(fd, SeqCst);
            *lock(&c.state) = (format!("step {i}: I/O fired after {us} us"), None);
            let (b2, c2) = (b.clone(), c.clone());
            let go = move || {
                let _ = fdu::write(b2.as_raw_fd(), b"x");
                c2.fired.store(true, SeqCst);
            };
            if us == 0 {
                go()
            } else {
                later(us, go)
            }
            let r = h.readable().await;
            check!(r.is_ok(), "readable failed: {r:?}");
            let mut buf = [0; 8];
            let _ = fdu::read(fd, &mut buf);
            c.fd.store(-1, SeqCst);
        } else {
            let d = Instant::now() + Duration::from_micros(us);
            *lock(&c.state) = (format!("step {i}: timer {us} us"), Some(d));
            Timer::at(d).await;
        }
        c.steps.fetch_add(1, SeqCst);
        progress();
    }
}
trait RawFdOf {
    fn as_fd_raw(&self) -> i32;
}
impl RawFdOf for Async<Io> {
    fn as_fd_raw(&self) -> i32 {
        self.get_ref().0.as_raw_fd()
    }
}

struct ActorThread {
    todo: Mutex<Option<(Actor, Arc<Gate>, u64)>>,
    cv: Condvar,
    busy: AtomicBool,
}

pub fn run() {
    start_watchdog();
    match opts().mode.as_str() {
        "init-child" => return init_child(),
        "init" => return init_parent(),
        _ => {}
    }
    let mut rng = Rng::new(opts().seed);
    std::thread::spawn(later_thread);
    let pool = Pool::new(&[Kind::Plain, Kind::Plain]);
    let actors: Vec<Arc<ActorThread>> = (0..5)
        .map(|i| {
            let a = Arc::new(ActorThread { todo: Mutex::new(None), cv: Condvar::new(), busy: AtomicBool::new(false) });
            let a2 = a.clone();
            std::thread::Builder::new()
                .name(format!("actor{i}"))
                .spawn(move || loop {
                    let mut g = lock(&a2.todo);
                    let (k, gate, us) = loop {
                        match g.take() {
                            Some(x) => break x,
                            None => g = a2.cv.wait(g).unwrap_or_else(|e| e.into_inner()),
                        }
                    };
                    drop(g);
                    act(k, &gate, us);
                    a2.busy.store(false, SeqCst);
                })
                .unwrap();
            a
        })
        .collect();
    let mut episode = 0u64;
    let mut far: Vec<Timer> = Vec::new();
    while time_left() {
        episode += 1;
        if episode % 6 == 1 {
            inj_shuffle(&mut rng);
            // Somebody's deadline, an hour away.
            far.clear();
            if rng.chance(50) {
                let mut t = Timer::after(Duration::from_secs(*rng.pick(&[60, 3600, 1_000_000_000])));
                let _ = Pin::new(&mut t).poll(&mut Context::from_waker(Waker::noop()));
                far.push(t);
            }
        }
        take_trace();
        let gate = Arc::new(Gate::default());
        // In the first episodes nobody has ever called block_on.
        let n = if episode < 5 { 0 } else { *rng.pick(&[0, 1, 1, 2, 2, 3, 5]) };
        let long = n > 0 && rng.chance(12);
        let mut sig = n as u64;
        let mut desc = Vec::new();
        for a in &actors[..n] {
            let k = *rng.pick(&ACTORS);
            // After a long time of driving by others the helper thread has given up trying.
            let us = if long { *rng.pick(&[25_000, 30_000, 40_000]) } else { *rng.pick(&[0, 50, 300, 600, 1500]) };
            desc.push(format!("{k:?}({us})"));
            sig = mix(sig, k as u64 * 10000 + us);
            a.busy.store(true, SeqCst);
            *lock(&a.todo) = Some((k, gate.clone(), us));
            a.cv.notify_one();
            count(&format!("actor_{k:?}"), 1);
        }
        if long {
            let us = *rng.pick(&[0, 20_000, 35_000, 50_000]);
            desc.push(format!("after {us} us"));
            std::thread::sleep(Duration::from_micros(us));
            count("episodes_after_long_driving", 1);
        } else if rng.chance(50) {
            delay(800);
        }
        let mut chains = Vec::new();
        for _ in 0..*rng.pick(&[1, 1, 2, 3]) {
            let steps: Vec<(bool, u64)> = (0..rng.range(1, 8))
                .map(|_| (rng.chance(60), *rng.pick(&[0, 0, 20, 100, 400, 700, 2000])))
                .collect();
            for s in &steps {
                sig = mix(sig, s.0 as u64 + s.1 * 2);
            }
            let c = Arc::new(Chain {
                state: Mutex::new((String::new(), None)),
                fd: AtomicI32::new(-1),
                fired: AtomicBool::new(false),
                steps: AtomicU64::new(0),
            });
            desc.push(format!("chain {steps:?}"));
            let t = pool.spawn(&mut rng, format!("chain {steps:?}"), 50, chain(c.clone(), steps));
            chains.push((c, t));
        }
        activity(format!("episode {episode} {desc:?}"));
        let t0 = Instant::now();
        await_cond(
            || chains.iter().all(|c| c.1.is_done()),
            "events of other tasks are not delivered",
            || {
                let mut due = chains.iter().all(|c| c.1.is_done());
                let mut s = String::new();
                for (c, t) in &chains {
                    let st = lock(&c.state);
                    let fd = c.fd.load(SeqCst);
                    let ready = fd >= 0 && fdu::truth(fd).0;
                    if !t.is_done() {
                        due |= ready || st.1.is_some_and(|d| d < Instant::now() - Duration::from_millis(500));
                    }
                    s.push_str(&format!("{}: {:?} ready={ready}\n", t.describe(), *st));
                }
                due.then(|| format!("{desc:?}\n{s}"))
            },
        );
        maximum("slowest_chains_us", t0.elapsed().as_micros() as i64);
        count("steps", chains.iter().map(|c| c.0.steps.load(SeqCst) as i64).sum());
        gate.release();
        await_cond(
            || {
                // Someone may have registered just before.
                let ws = std::mem::take(&mut *lock(&gate.wakers));
                for w in ws {
                    w.wake();
                }
                actors.iter().all(|a| !a.busy.load(SeqCst))
            },
            "block_on does not return although its future is ready and was woken",
            || Some(format!("{desc:?}")),
        );
        if episode % 8 == 0 {
            let k = helper_threads();
            check!(k == 1, "there are {k} threads named async-io");
        }
        if episode % 23 == 5 {
            sample(|| format!("{desc:?}"));
        }
        evaluated(Some(mix(sig, take_trace())));
    }
    count("helper_threads_seen", helper_threads() as i64);
    report_points();
    finish()
}

// ---------------------------------------------------------------------------------------------

/// Many processes in which several threads use the crate for the first time at once.
fn init_parent() {
    let o = opts();
    let mut i = 0u64;
    while time_left() {
        let slots: Vec<_> = (0..2)
            .map(|k| {
                i += 1;
                let seed = mix(o.seed, i * 2 + k);
                let out = o.out.with_extension(format!("child{k}"));
                let c = std::process::Command::new("/proc/self/exe")
                    .args(["C07", "--mode", "init-child", "--seed", &seed.to_string(), "--secs", "1", "--out"])
                    .arg(&out)
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::piped())
                    .spawn()
                    .unwrap();
                (seed, c)
            })
            .collect();
        for (seed, c) in slots {
            progress();
            let r = std::thread::spawn(move || c.wait_with_output().unwrap());
            while !r.is_finished() {
                std::thread::sleep(Duration::from_micros(200));
                // The child has its own watchdog.
                progress();
            }
            let r = r.join().unwrap();
            let err = String::from_utf8_lossy(&r.stderr).to_string();
            match r.status.code() {
                Some(0) => {}
                Some(1) | None => violation(
                    "concurrent first use of the crate in a fresh process failed",
                    format!("seed {seed}, status {:?}: {}", r.status, &err[..err.len().min(4000)]),
                ),
                Some(c) => harness_error(format!("child seed {seed} exit {c}: {err}")),
            }
            count("fresh_processes", 1);
            evaluated(Some(seed));
        }
    }
    finish()
}

/// The first uses of the crate come while no descriptor is free. They fail, with a panic or an error; what
/// matters is that everything works once the cause is gone.
fn starved_first_use(rng: &mut Rng) {
    let n = rng.range(1, 3);
    let uses: Vec<(u64, u64)> = (0..n).map(|_| (rng.below(6), rng.below(300))).collect();
    let pairs: Vec<_> = uses.iter().map(|_| fdu::socketpair(libc::SOCK_STREAM).unwrap().0).collect();
    let linger = rng.below(8000);
    PANICS_ALLOWED.store(true, SeqCst);
    crate::conn::with_no_fds(|| {
        let hs: Vec<_> = uses
            .iter()
            .zip(pairs)
            .map(|(&(k, us), a)| {
                std::thread::spawn(move || {
                    delay(us);
                    let _ = catch_unwind(AssertUnwindSafe(|| match k {
                        0 | 1 => async_io::block_on(async {}),
                        2 => async_io::block_on(async {
                            Timer::after(Duration::from_micros(us)).await;
                        }),
                        3 => {
                            let mut t = Timer::after(Duration::from_secs(10));
                            let _ = Pin::new(&mut t).poll(&mut Context::from_waker(Waker::noop()));
                        }
                        4 => {
                            let _ = async_io::os::unix::reactor_fd();
                        }
                        _ => {
                            let _ = Async::new(Io(a));
                        }
                    }));
                    progress();
                })
            })
            .collect();
        for h in hs {
            await_cond(|| h.is_finished(), "first use of the crate without descriptors does not return", || {
                Some(format!("{uses:?}"))
            });
            let _ = h.join();
        }
        // Threads that were started in the background may run into the same condition.
        std::thread::sleep(Duration::from_micros(linger));
    });
    PANICS_ALLOWED.store(false, SeqCst);
}

fn init_child() {
    let mut rng = Rng::new(opts().seed);
    inj_shuffle(&mut rng);
    let starved = rng.chance(30);
    if starved {
        starved_first_use(&mut rng);
    }
    let n = if starved && rng.chance(50) { 0 } else { rng.range(1, 6) as usize };
    let barrier = Arc::new(std::sync::Barrier::new(n));
    let mut hs = Vec::new();
    for _ in 0..n {
        let b = barrier.clone();
        let k = rng.below(7);
        let us = rng.range(0, 300);
        hs.push(std::thread::spawn(move || {
            b.wait();
            match k {
                0 => async_io::block_on(async move {
                    Timer::after(Duration::from_micros(us)).await;
                }),
                1 => {
                    let mut t = Timer::after(Duration::from_micros(us));
                    futures_lite::future::block_on(poll_fn(|cx| Pin::new(&mut t).poll(cx).map(|_| ())));
                }
                2 => {
                    let (a, c) = fdu::socketpair(libc::SOCK_STREAM).unwrap();
                    let h = Async::new(Io(a)).unwrap_or_else(|e| violation("Async::new failed", e.to_string()));
                    let _ = fdu::write(c.as_raw_fd(), b"x");
                    let r = futures_lite::future::block_on(h.readable());
                    check!(r.is_ok(), "readable failed: {r:?}");
                }
                3 => async_io::block_on(async {}),
                4 => {
                    check!(async_io::os::unix::reactor_fd().is_some(), "no reactor_fd");
                }
                5 => {
                    let _ = catch_unwind(|| async_io::block_on(async { panic_any(Deliberate) }));
                }
                _ => {
                    // A timer dropped at once.
                    let mut t = Timer::after(Duration::from_secs(10));
                    let _ = Pin::new(&mut t).poll(&mut Context::from_waker(Waker::noop()));
                }
            }
            progress();
        }));
    }
    for h in hs {
        await_cond(|| h.is_finished(), "first use of the crate does not return", || Some("initialisation".into()));
        let _ = h.join();
    }
    // Everything works afterwards.
    let done = Arc::new(AtomicBool::new(false));
    let d = done.clone();
    std::thread::spawn(move || {
        futures_lite::future::block_on(async {
            Timer::after(Duration::from_micros(100)).await;
            let (a, c) = fdu::socketpair(libc::SOCK_STREAM).unwrap();
            let h = Async::new(Io(a)).unwrap_or_else(|e| violation("Async::new failed", e.to_string()));
            let first = futures_lite::future::poll_once(h.readable()).await;
            check!(first.is_none(), "readable resolved at once: {first:?}");
            let w = std::thread::spawn(move || {
                let _ = fdu::write(c.as_raw_fd(), b"x");
                c
            });
            let r = h.readable().await;
            check!(r.is_ok(), "readable failed: {r:?}");
            drop(w.join());
            // Long enough to be registered on any machine.
            Timer::after(Duration::from_millis(3)).await;
        });
        d.store(true, SeqCst);
    });
    await_cond(
        || done.load(SeqCst),
        "timers and I/O do not work after the first uses of the crate",
        || Some(format!("starved: {starved}")),
    );
    let mut k = 0;
    for _ in 0..50 {
        k = helper_threads();
        if k == 1 {
            break;
        }
        // The thread names itself shortly after it has started.
        std::thread::sleep(Duration::from_millis(5));
    }
    check!(k == 1, "there are {k} threads named async-io after the first uses of the crate (starved: {starved})");
    finish()
}
