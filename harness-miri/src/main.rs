//! Small random multi-threaded programs over the whole crate, for Miri. The poller is simulated in memory
//! (shim/polling/src/sim.rs); everything else is the real code. Time is Miri's virtual clock.
//!
//! Every wait is satisfied exactly once by the `firer` thread, so nothing makes up for a lost wakeup.

use std::collections::hash_map::RandomState;
use std::future::{poll_fn, Future};
use std::hash::{BuildHasher, Hasher};
use std::os::fd::{AsFd, BorrowedFd, RawFd};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::thread;
use std::time::{Duration, Instant};

use async_io::{block_on, Async, Timer};
use polling::sim_control as sim;

struct Dummy(RawFd);
impl AsFd for Dummy {
    fn as_fd(&self) -> BorrowedFd<'_> {
        unsafe { BorrowedFd::borrow_raw(self.0) }
    }
}
impl Drop for Dummy {
    fn drop(&mut self) {
        sim::close(self.0)
    }
}
unsafe impl async_io::IoSafe for Dummy {}
type H = Arc<Async<Dummy>>;

struct Rng(u64);
impl Rng {
    fn new() -> Rng {
        Rng(RandomState::new().build_hasher().finish() | 1)
    }
    fn u64(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    fn below(&mut self, n: u64) -> u64 {
        self.u64() % n
    }
    fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    fn fork(&mut self) -> Rng {
        Rng(self.u64() | 1)
    }
}

/// What the firer does.
enum Demand {
    Fd(RawFd, bool),
    Cell(Arc<Cell>),
    Stop,
}
#[derive(Default)]
struct Queue(Mutex<Vec<Demand>>, Condvar);
impl Queue {
    fn push(&self, d: Demand) {
        self.0.lock().unwrap().push(d);
        self.1.notify_one();
    }
}

/// Something to wait for that is neither I/O nor a timer.
#[derive(Default)]
struct Cell(Mutex<(bool, Option<Waker>)>);
impl Cell {
    fn poll(&self, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.0.lock().unwrap();
        if g.0 {
            Poll::Ready(())
        } else {
            g.1 = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    fn fire(&self) {
        let w = {
            let mut g = self.0.lock().unwrap();
            g.0 = true;
            g.1.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}

/// A waker of a thread that sleeps without driving the reactor.
struct Sleeper(Mutex<bool>, Condvar);
impl Wake for Sleeper {
    fn wake(self: Arc<Self>) {
        *self.0.lock().unwrap() = true;
        self.1.notify_one();
    }
}
fn plain_block_on<T>(f: impl Future<Output = T>, rng: &mut Rng) -> T {
    let mut f = pin!(f);
    let mut s = Arc::new(Sleeper(Mutex::new(false), Condvar::new()));
    loop {
        if rng.chance(40) {
            s = Arc::new(Sleeper(Mutex::new(false), Condvar::new()));
        }
        let w: Waker = s.clone().into();
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return x;
        }
        if rng.chance(10) {
            // Once more for nothing.
            continue;
        }
        let mut g = s.0.lock().unwrap();
        while !*g {
            g = s.1.wait(g).unwrap();
        }
        *g = false;
    }
}

/// A waker that misbehaves.
struct Bad(u64);
impl Wake for Bad {
    fn wake(self: Arc<Self>) {
        match self.0 {
            0 => std::panic::panic_any(7u8),
            1 => drop(Timer::after(Duration::from_micros(1))),
            _ => {
                let mut t = Timer::after(Duration::from_secs(1));
                let _ = Pin::new(&mut t).poll(&mut Context::from_waker(Waker::noop()));
            }
        }
    }
}

struct Shared {
    handles: Mutex<Vec<H>>,
    timers: Mutex<Vec<Arc<Mutex<Timer>>>>,
    q: Queue,
    now: AtomicUsize,
    ops: AtomicUsize,
}

fn fresh() -> H {
    Arc::new(Async::new_nonblocking(Dummy(sim::open())).unwrap())
}

async fn wait(sh: &Shared, h: &H, write: bool, kind: u64) {
    let fd = h.get_ref().0;
    sh.q.push(Demand::Fd(fd, write));
    match (kind, write) {
        (0, false) => h.readable().await.unwrap(),
        (0, true) => h.writable().await.unwrap(),
        (1, false) => h.clone().readable_owned().await.unwrap(),
        (1, true) => h.clone().writable_owned().await.unwrap(),
        (_, false) => h
            .read_with(|d| {
                if sim::get(d.0).0 {
                    Ok(())
                } else {
                    Err(std::io::ErrorKind::WouldBlock.into())
                }
            })
            .await
            .unwrap(),
        (_, true) => h
            .write_with(|d| {
                if sim::get(d.0).1 {
                    Ok(())
                } else {
                    Err(std::io::ErrorKind::WouldBlock.into())
                }
            })
            .await
            .unwrap(),
    }
    let s = sim::get(fd);
    assert!(if write { s.1 } else { s.0 }, "woken for a descriptor that was never ready");
}

async fn timer(us: u64) {
    let t0 = Instant::now();
    Timer::after(Duration::from_micros(us)).await;
    assert!(t0.elapsed() >= Duration::from_micros(us), "early");
}

async fn cell(sh: &Shared) {
    let c = Arc::new(Cell::default());
    sh.q.push(Demand::Cell(c.clone()));
    poll_fn(|cx| c.poll(cx)).await
}

/// One thing to wait for.
async fn something(sh: &Shared, own: &H, mut rng: Rng) {
    let pick = |rng: &mut Rng| {
        let g = sh.handles.lock().unwrap();
        if g.is_empty() {
            own.clone()
        } else {
            g[rng.below(g.len() as u64) as usize].clone()
        }
    };
    match rng.below(8) {
        0 | 1 => {
            let h = pick(&mut rng);
            let (w, k) = (rng.chance(50), rng.below(3));
            wait(sh, &h, w, k).await
        }
        2 => timer(rng.below(300)).await,
        3 => cell(sh).await,
        4 => {
            // Own handle with poll_readable.
            let write = rng.chance(50);
            sh.q.push(Demand::Fd(own.get_ref().0, write));
            poll_fn(|cx| if write { own.poll_writable(cx) } else { own.poll_readable(cx) }).await.unwrap();
        }
        5 => {
            let h = pick(&mut rng);
            let (w, us) = (rng.chance(50), rng.below(200));
            futures_lite::future::or(wait(sh, &h, w, 0), timer(us)).await
        }
        6 => {
            let h = pick(&mut rng);
            let w = rng.chance(50);
            futures_lite::future::or(wait(sh, &h, w, 1), cell(sh)).await
        }
        _ => {
            let h = pick(&mut rng);
            futures_lite::future::zip(wait(sh, &h, false, 0), wait(sh, &h, true, 1)).await;
        }
    }
}

fn act(sh: &Arc<Shared>, own: &H, rng: &mut Rng) {
    sh.ops.fetch_add(1, Relaxed);
    match rng.below(16) {
        0 | 1 | 2 => block_on(something(sh, own, rng.fork())),
        3 | 4 => {
            let r = rng.fork();
            plain_block_on(something(sh, own, r), rng)
        }
        5 => {
            // Nested.
            let (a, b) = (rng.fork(), rng.fork());
            block_on(async {
                something(sh, own, a).await;
                block_on(something(sh, own, b))
            })
        }
        6 => {
            let h = fresh();
            sh.handles.lock().unwrap().push(h)
        }
        7 => {
            let h = {
                let mut g = sh.handles.lock().unwrap();
                if g.is_empty() {
                    return;
                }
                let i = rng.below(g.len() as u64) as usize;
                g.swap_remove(i)
            };
            if let Ok(a) = Arc::try_unwrap(h) {
                if rng.chance(50) {
                    let d = a.into_inner().unwrap();
                    assert!(!sim::get(d.0).0 || true);
                }
            }
        }
        8 => {
            // A wait that is dropped or moved to another thread while pending.
            let h = own.clone();
            let mut f = h.clone().readable_owned();
            let _ = Pin::new(&mut f).poll(&mut Context::from_waker(Waker::noop()));
            if rng.chance(50) {
                sim::set(h.get_ref().0, Some(true), None);
            }
            if rng.chance(50) {
                sh.q.push(Demand::Fd(h.get_ref().0, false));
                let t = thread::spawn(move || block_on(f).unwrap());
                t.join().unwrap();
            }
        }
        9 => {
            // Misbehaving wakers.
            let w: Waker = Arc::new(Bad(rng.below(3))).into();
            let mut cx = Context::from_waker(&w);
            let mut f = own.writable();
            let mut t = Timer::after(Duration::from_micros(rng.below(50)));
            let _ = Pin::new(&mut f).poll(&mut cx);
            let _ = own.poll_readable(&mut cx);
            let _ = Pin::new(&mut t).poll(&mut cx);
            sim::set(own.get_ref().0, Some(true), Some(true));
            block_on(timer(60));
        }
        10 => {
            // A timer that several threads use.
            let t = Arc::new(Mutex::new(Timer::after(Duration::from_secs(3600))));
            sh.timers.lock().unwrap().push(t.clone());
            let f = poll_fn(|cx| Pin::new(&mut *t.lock().unwrap()).poll(cx).map(|_| ()));
            // Its deadline is brought forward by somebody else.
            let t2 = t.clone();
            let us = rng.below(200);
            let s = thread::spawn(move || t2.lock().unwrap().set_after(Duration::from_micros(us)));
            if rng.chance(50) {
                block_on(f)
            } else {
                plain_block_on(f, rng)
            }
            s.join().unwrap();
        }
        11 => {
            let us = rng.below(100);
            let g = sh.timers.lock().unwrap().pop();
            if let Some(t) = g {
                if let Ok(mut t) = t.try_lock() {
                    t.set_after(Duration::from_micros(us));
                };
            }
        }
        12 => {
            let r = rng.fork();
            let _ = catch_unwind(AssertUnwindSafe(|| {
                block_on(async {
                    something(sh, own, r).await;
                    std::panic::panic_any(7u8)
                })
            }));
        }
        13 => {
            let mut t = Timer::interval(Duration::from_micros(1 + rng.below(50)));
            block_on(async {
                use futures_lite::StreamExt;
                for _ in 0..3 {
                    t.next().await;
                }
            })
        }
        14 => thread::yield_now(),
        _ => {
            // A creation that wins the race against a drop of the same number.
            drop(fresh());
            drop(fresh());
        }
    }
}

static FOCUS: AtomicUsize = AtomicUsize::new(0);

/// One critical pattern.
fn narrow(sh: &Arc<Shared>, own: &H, rng: &mut Rng, focus: u64) {
    sh.ops.fetch_add(1, Relaxed);
    match focus {
        // Wake-ups of block_on that come from other threads while it goes to sleep.
        // (The event before makes it likely that this thread gets hold of the reactor.)
        1 | 2 => {
            let us = rng.below(3);
            let again = rng.chance(50);
            block_on(async {
                timer(us).await;
                cell(sh).await;
                if again {
                    cell(sh).await
                }
            })
        }
        // A timer that is inserted while somebody else drives the reactor.
        3 => plain_block_on(timer(rng.below(100)), rng),
        // An event that comes while interest is being registered.
        4 => {
            let h = fresh();
            let (w, k) = (rng.chance(50), rng.below(3));
            if rng.chance(50) {
                block_on(wait(sh, &h, w, k))
            } else {
                plain_block_on(wait(sh, &h, w, k), rng)
            }
        }
        // Two tasks wait for the two directions.
        5 => {
            let h = fresh();
            let (h2, sh2) = (h.clone(), sh.clone());
            let t = thread::spawn(move || block_on(wait(&sh2, &h2, true, 0)));
            plain_block_on(wait(sh, &h, false, 1), rng);
            t.join().unwrap();
        }
        // Creation and destruction while events are in flight.
        _ => {
            let h = fresh();
            let mut f = h.readable();
            let _ = Pin::new(&mut f).poll(&mut Context::from_waker(Waker::noop()));
            sim::set(h.get_ref().0, Some(true), Some(true));
            if rng.chance(50) {
                drop(f);
                drop(h);
            } else {
                block_on(f).unwrap();
            }
            let _ = own;
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<u8>() != Some(&7) {
            println!("VM-PANIC {i}");
        }
    }));
    let mut rng = Rng::new();
    let id = rng.u64();
    let sh = Arc::new(Shared {
        handles: Mutex::new(vec![]),
        timers: Mutex::new(vec![]),
        q: Queue::default(),
        now: AtomicUsize::new(0),
        ops: AtomicUsize::new(0),
    });
    let fired = Arc::new(AtomicUsize::new(0));
    let firer = {
        let (sh, fired, mut rng) = (sh.clone(), fired.clone(), rng.fork());
        thread::spawn(move || loop {
            let d = {
                let mut g = sh.q.0.lock().unwrap();
                while g.is_empty() {
                    g = sh.q.1.wait(g).unwrap();
                }
                let i = rng.below(g.len() as u64) as usize;
                g.swap_remove(i)
            };
            if FOCUS.load(Relaxed) > 0 {
                for _ in 0..rng.below(40) {
                    std::hint::spin_loop();
                }
            } else if rng.chance(40) {
                thread::sleep(Duration::from_micros(rng.below(400)));
            }
            fired.fetch_add(1, Relaxed);
            match d {
                // (The other direction is taken back now and then; nobody can still depend on it... only if
                // nothing was fired for it before, so leave it.)
                Demand::Fd(fd, false) => sim::set(fd, Some(true), None),
                Demand::Fd(fd, true) => sim::set(fd, None, Some(true)),
                Demand::Cell(c) => c.fire(),
                Demand::Stop => break,
            }
        })
    };
    for _ in 0..rng.below(3) {
        sh.handles.lock().unwrap().push(fresh());
    }
    // Half of the programs repeat one critical pattern.
    let focus = if rng.chance(50) { 0 } else { 1 + rng.below(6) };
    FOCUS.store(focus as usize, Relaxed);
    let n = 1 + rng.below(if focus == 0 { 3 } else { 2 });
    let done = Arc::new(AtomicUsize::new(0));
    let failed = Arc::new(AtomicBool::new(false));
    let threads: Vec<_> = (0..n)
        .map(|_| {
            let (sh, mut rng, done, failed) = (sh.clone(), rng.fork(), done.clone(), failed.clone());
            thread::spawn(move || {
                let _ = id;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let own = fresh();
                    if focus == 0 {
                        for _ in 0..2 + rng.below(4) {
                            act(&sh, &own, &mut rng);
                        }
                    } else {
                        for _ in 0..10 {
                            narrow(&sh, &own, &mut rng, focus);
                        }
                    }
                }));
                if r.is_err() {
                    failed.store(true, SeqCst);
                }
                done.fetch_add(1, SeqCst);
            })
        })
        .collect();
    // All deadlines are far below this (virtual) time.
    let mut ms = 0;
    while done.load(SeqCst) < n as usize {
        thread::sleep(Duration::from_millis(if ms < 100 { 5 } else { 500 }));
        ms += if ms < 100 { 5 } else { 500 };
        if ms > 300_000 || failed.load(SeqCst) {
            break;
        }
    }
    if failed.load(SeqCst) {
        println!("VM-VIOLATION a thread panicked");
        std::process::exit(1);
    }
    if done.load(SeqCst) < n as usize {
        println!("VM-VIOLATION stalled: {} of {n} threads are done after 300 s of virtual time", done.load(SeqCst));
        std::process::exit(1);
    }
    for t in threads {
        t.join().unwrap();
    }
    sh.q.push(Demand::Stop);
    // (Demands may be left over; their numbers are no longer in use then.)
    firer.join().ok();
    sh.handles.lock().unwrap().clear();
    sh.timers.lock().unwrap().clear();
    if sim::registered() != 0 {
        println!("VM-VIOLATION {} registrations are left", sim::registered());
        std::process::exit(1);
    }
    println!("VM-OK {id:x} threads={n} focus={focus} ops={} fired={}", sh.ops.load(Relaxed), fired.load(Relaxed));
}
