//! C17: the reactor descriptor mirrors the reactor for foreign event loops.

use std::collections::BTreeSet;
use std::future::{poll_fn, Future};
use std::os::fd::{AsFd, AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::os::unix::net::UnixStream;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use async_io::os::unix::reactor_fd;
use async_io::{Async, ReadableOwned, Timer, WritableOwned};
use futures_lite::{AsyncReadExt, AsyncWriteExt};

use crate::exec::*;
use crate::fdu;
use crate::rt::*;

/// The descriptor, as determined once; it may never change.
static FD: AtomicU64 = AtomicU64::new(u64::MAX);

fn fd() -> RawFd {
    let f = match reactor_fd() {
        Some(f) => f,
        None => violation("reactor_fd returned None", "epoll is in use"),
    };
    let n = f.as_raw_fd();
    if let Err(old) = FD.compare_exchange(u64::MAX, n as u64, SeqCst, SeqCst) {
        check!(old == n as u64, "reactor_fd returned {n}, but {old} before");
    }
    check!(fdu::is_open(n), "reactor_fd returned {n}, which is not open");
    n
}
fn is_epoll(n: RawFd) -> bool {
    std::fs::read_link(format!("/proc/self/fd/{n}")).map(|p| p.to_string_lossy().contains("eventpoll")).unwrap_or(false)
}
/// What poll(2) says about the reactor.
fn polled(timeout: i32) -> bool {
    let mut p = libc::pollfd {
        fd: fd(),
        events: libc::POLLIN,
        revents: 0,
    };
    let r = unsafe { libc::poll(&mut p, 1, timeout) };
    if r > 0 {
        check!(
            p.revents & (libc::POLLNVAL | libc::POLLERR) == 0,
            "poll(2) on the reactor's descriptor: {:#x}",
            p.revents
        );
    }
    r > 0 && p.revents & libc::POLLIN != 0
}

/// A waker that blocks the thread that wakes it.
#[derive(Default)]
struct Gate {
    entered: AtomicU64,
    open: Mutex<bool>,
    cv: Condvar,
}
impl Wake for Gate {
    fn wake(self: Arc<Self>) {
        self.entered.fetch_add(1, SeqCst);
        let mut g = lock(&self.open);
        while !*g {
            g = self.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
}
impl Gate {
    fn release(&self) {
        *lock(&self.open) = true;
        self.cv.notify_all();
    }
}

#[derive(Default)]
struct Flag(AtomicU64);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

type Handle = Arc<Async<UnixStream>>;
enum Fut {
    R(ReadableOwned<UnixStream>),
    W(WritableOwned<UnixStream>),
    Poll,
}
struct Wait {
    h: usize,
    write: bool,
    flag: Arc<Flag>,
    _fut: Fut,
}

/// A foreign epoll instance that watches the reactor.
struct Outer {
    ep: OwnedFd,
    edge: bool,
}
impl Outer {
    fn new(edge: bool) -> Outer {
        let ep = unsafe { OwnedFd::from_raw_fd(libc::epoll_create1(libc::EPOLL_CLOEXEC)) };
        let mut ev = libc::epoll_event {
            events: (libc::EPOLLIN | if edge { libc::EPOLLET } else { 0 }) as u32,
            u64: 7,
        };
        let r = unsafe { libc::epoll_ctl(ep.as_raw_fd(), libc::EPOLL_CTL_ADD, fd(), &mut ev) };
        check!(
            r == 0,
            "the reactor's descriptor cannot be registered with another epoll instance: {}",
            std::io::Error::last_os_error()
        );
        Outer { ep, edge }
    }
    fn wait(&self, timeout: i32) -> bool {
        let mut ev: [libc::epoll_event; 4] = unsafe { std::mem::zeroed() };
        unsafe { libc::epoll_wait(self.ep.as_raw_fd(), ev.as_mut_ptr(), 4, timeout) > 0 }
    }
}

/// A block_on caller that drives the reactor meanwhile.
struct Driver {
    leave: AtomicBool,
    waker: Mutex<Option<Waker>>,
    thread: Mutex<Option<std::thread::JoinHandle<()>>>,
}
impl Driver {
    fn start() -> Arc<Driver> {
        let d = Arc::new(Driver {
            leave: AtomicBool::new(false),
            waker: Mutex::new(None),
            thread: Mutex::new(None),
        });
        let d2 = d.clone();
        *lock(&d.thread) = Some(
            std::thread::Builder::new()
                .name("driver".into())
                .spawn(move || {
                    async_io::block_on(poll_fn(|cx| {
                        *lock(&d2.waker) = Some(cx.waker().clone());
                        if d2.leave.load(SeqCst) {
                            Poll::Ready(())
                        } else {
                            Poll::Pending
                        }
                    }))
                })
                .unwrap(),
        );
        d
    }
    fn stop(&self) {
        self.leave.store(true, SeqCst);
        let w = lock(&self.waker).clone();
        if let Some(w) = w {
            w.wake()
        }
        let t = lock(&self.thread).take();
        if let Some(t) = t {
            await_cond(|| t.is_finished(), "a block_on call that was woken", || Some(String::new()));
        }
    }
}

#[derive(Default)]
struct World {
    handles: Vec<Option<(Handle, Option<UnixStream>)>>,
    waits: Vec<Wait>,
    /// Something besides the waits may make the descriptor ready.
    murky: bool,
    script: String,
}
impl World {
    fn add(&mut self, rng: &mut Rng, full: bool) -> usize {
        let (a, b) = UnixStream::pair().unwrap();
        a.set_nonblocking(true).unwrap();
        b.set_nonblocking(true).unwrap();
        if full {
            fdu::fill(a.as_raw_fd());
        }
        let a = if rng.chance(50) { Async::new(a) } else { Async::new_nonblocking(a) };
        self.handles.push(Some((Arc::new(a.unwrap()), Some(b))));
        self.handles.len() - 1
    }
    fn live(&self) -> Vec<usize> {
        (0..self.handles.len()).filter(|i| self.handles[*i].is_some()).collect()
    }
    /// Adds a wait; returns whether it is pending.
    fn wait(&mut self, rng: &mut Rng, h: usize, write: bool) -> bool {
        let a = self.handles[h].as_ref().unwrap().0.clone();
        let flag = Arc::new(Flag::default());
        let waker: Waker = flag.clone().into();
        let mut cx = Context::from_waker(&waker);
        // (Only one wait of the poll_* kind per direction, so that nothing is replaced.)
        let taken = self.waits.iter().any(|w| w.h == h && w.write == write && matches!(w._fut, Fut::Poll));
        let (pending, fut) = if !taken && rng.chance(30) {
            let p = if write { a.poll_writable(&mut cx) } else { a.poll_readable(&mut cx) };
            (p.is_pending(), Fut::Poll)
        } else if write {
            let mut f = a.writable_owned();
            (Pin::new(&mut f).poll(&mut cx).is_pending(), Fut::W(f))
        } else {
            let mut f = a.readable_owned();
            (Pin::new(&mut f).poll(&mut cx).is_pending(), Fut::R(f))
        };
        if pending {
            self.waits.push(Wait { h, write, flag, _fut: fut });
        }
        pending
    }
    fn ready(&self, w: &Wait) -> bool {
        let t = fdu::truth(self.handles[w.h].as_ref().unwrap().0.as_raw_fd());
        if w.write {
            t.1
        } else {
            t.0
        }
    }
    /// Whether an awaited handle is ready.
    fn due(&self) -> bool {
        self.waits.iter().any(|w| self.ready(w))
    }
    /// The registrations are those of the live handles (and the poller's own two).
    fn same_poller(&self) {
        let f = fd();
        check!(is_epoll(f), "reactor_fd returned {f}, which is no epoll instance");
        let regs: BTreeSet<RawFd> = fdu::epoll_registrations(f).iter().map(|r| r.0).collect();
        for i in self.live() {
            let h = self.handles[i].as_ref().unwrap().0.as_raw_fd();
            check!(regs.contains(&h), "the poller that reactor_fd returned does not know handle {h}: {regs:?}");
        }
        count("registrations_compared", self.live().len() as i64);
    }
}

/// The reactor is held up in a slow waker while handles become ready.
fn gated(rng: &mut Rng, sig: &mut u64) {
    let mut w = World::default();
    let drivers: Vec<_> = (0..*rng.pick(&[0, 0, 1, 2])).map(|_| Driver::start()).collect();
    w.script.push_str(&format!("{} drivers; ", drivers.len()));
    for _ in 0..rng.below(6) {
        let full = rng.chance(40);
        w.add(rng, full);
    }
    // Waits that are there before and are not ready.
    for h in 0..w.handles.len() {
        let a = w.handles[h].as_ref().unwrap().0.clone();
        for write in [false, true] {
            if rng.chance(40) {
                let t = fdu::truth(a.as_raw_fd());
                if !(if write { t.1 } else { t.0 }) {
                    w.wait(rng, h, write);
                    w.script.push_str(&format!("w{h}{} ", if write { "w" } else { "r" }));
                }
            }
        }
    }
    let gate = Arc::new(Gate::default());
    let gw: Waker = gate.clone().into();
    let mut cx = Context::from_waker(&gw);
    let mut gate_timer = None;
    let mut gate_io = None;
    if rng.chance(40) {
        let mut t = Timer::after(Duration::from_micros(rng.below(1500)));
        if Pin::new(&mut t).poll(&mut cx).is_ready() {
            // It was late already.
            gate.entered.fetch_add(1, SeqCst);
            gate.release();
        }
        gate_timer = Some(t);
    } else {
        let (a, b) = UnixStream::pair().unwrap();
        let a = Arc::new(Async::new(a).unwrap());
        let mut f = a.clone().readable_owned();
        let p = Pin::new(&mut f).poll(&mut cx).is_pending();
        check!(p, "a first poll is ready");
        let _ = fdu::write(b.as_raw_fd(), b"g");
        gate_io = Some((a, b, f));
    }
    await_cond(|| gate.entered.load(SeqCst) > 0, "the slow waker", || Some(w.script.clone()));
    let blocked = !*lock(&gate.open);
    if blocked {
        // (An event that was taken before an earlier owner of a slot went wakes those who wait on its new owner. Such a wait is over:
        // its task would poll again.)
        let n = w.waits.len();
        w.waits.retain(|x| x.flag.0.load(SeqCst) == 0);
        if w.waits.len() < n {
            w.murky = true;
            count("stale_wakes", (n - w.waits.len()) as i64);
        }
        // (A notification that came before the round and was not seen by it leaves the descriptor ready.)
        if polled(0) {
            w.murky = true;
        }
        let n0 = NOTIFIES.load(SeqCst);
        let mut outers: Vec<Outer> = vec![];
        let mut was = false;
        for _ in 0..rng.range(3, 25) {
            let live = w.live();
            let h = if live.is_empty() { None } else { Some(live[rng.us(live.len())]) };
            let op = rng.below(14);
            w.script.push_str(&format!("{op}:{} ", h.map(|h| h as i64).unwrap_or(-1)));
            let mut newly = false;
            match (op, h) {
                (0 | 1, _) if w.handles.len() < 30 => {
                    let full = rng.chance(50);
                    w.add(rng, full);
                }
                (2 | 3 | 4, Some(h)) => {
                    let write = rng.chance(50);
                    w.wait(rng, h, write);
                    newly = true;
                }
                (5 | 6, Some(h)) => {
                    if let Some(p) = &w.handles[h].as_ref().unwrap().1 {
                        let _ = fdu::write(p.as_raw_fd(), b"x");
                    }
                    newly = true;
                }
                (7, Some(h)) => {
                    if let Some(p) = &w.handles[h].as_ref().unwrap().1 {
                        fdu::drain(p.as_raw_fd());
                    }
                    newly = true;
                }
                (8, Some(h)) => {
                    // No longer readable.
                    fdu::drain(w.handles[h].as_ref().unwrap().0.as_raw_fd());
                }
                (9, Some(h)) if rng.chance(40) => {
                    w.handles[h].as_mut().unwrap().1 = None;
                    w.murky = true;
                    newly = true;
                }
                (10, Some(h)) if rng.chance(50) => {
                    // The handle goes (its waits first).
                    w.waits.retain(|x| x.h != h);
                    let (a, _b) = w.handles[h].take().unwrap();
                    check!(Arc::strong_count(&a) == 1, "someone holds a handle");
                    drop(a);
                }
                (11, _) if !w.waits.is_empty() && rng.chance(50) => {
                    // Interest may stay behind.
                    let i = rng.us(w.waits.len());
                    w.waits.swap_remove(i);
                    w.murky = true;
                }
                (12, _) if outers.len() < 4 => {
                    let edge = rng.chance(50);
                    outers.push(Outer::new(edge));
                }
                (13, _) if rng.chance(20) => {
                    let mut t = Timer::after(Duration::from_secs(1000));
                    let f: Waker = Arc::new(Flag::default()).into();
                    let _ = Pin::new(&mut t).poll(&mut Context::from_waker(&f));
                }
                _ => {}
            }
            let due = w.due();
            let clear = !w.murky && NOTIFIES.load(SeqCst) == n0;
            let got = polled(if due { 0 } else { *rng.pick(&[0, 0, 0, 2]) });
            if due {
                check!(got, "an awaited handle is ready, its event has not been taken, but the descriptor is not ready: {}", w.script);
                count("ready_seen", 1);
            } else if clear && NOTIFIES.load(SeqCst) == n0 {
                check!(!got, "no awaited handle is ready, but the descriptor is: {}", w.script);
                count("not_ready_seen", 1);
            }
            for o in &outers {
                // (An edge is only owed if the descriptor was not ready before.)
                let got = o.wait(0);
                if due && (!o.edge || (newly && !was && clear)) {
                    check!(got, "a foreign epoll instance (edge: {}) sees nothing: {}", o.edge, w.script);
                    count(if o.edge { "foreign_edges" } else { "foreign_levels" }, 1);
                } else if !due && !o.edge && clear && NOTIFIES.load(SeqCst) == n0 {
                    check!(!got, "a foreign epoll instance sees readiness: {}", w.script);
                }
            }
            was = got;
            *sig = mix(*sig, op * 64 + due as u64 * 2 + clear as u64);
        }
        w.same_poller();
        for x in &w.waits {
            check!(x.flag.0.load(SeqCst) == 0, "a waker was called although the reactor is held up: {}", w.script);
        }
        count("episodes_held_up", 1);
        gate.release();
    }
    // Now every event is taken, and every waker called, once.
    for i in 0..w.waits.len() {
        if w.ready(&w.waits[i]) {
            let x = &w.waits[i];
            await_cond(
                || x.flag.0.load(SeqCst) > 0,
                "a wait on a ready handle, after the descriptor was used",
                || Some(format!("{} (wait on {}, write: {})", w.script, x.h, x.write)),
            );
            count("wakes_after_use", 1);
        }
    }
    await_cond(|| !polled(0), "the descriptor stays ready after all events were taken", || Some(w.script.clone()));
    for _ in 0..rng.range(1, 4) {
        let (n0, r0) = (NOTIFIES.load(SeqCst), ROUNDS.load(SeqCst));
        std::thread::sleep(Duration::from_micros(rng.below(1500)));
        let got = polled(0);
        if NOTIFIES.load(SeqCst) == n0 && ROUNDS.load(SeqCst) == r0 {
            check!(!got, "the descriptor is ready although all events were taken: {}", w.script);
            count("quiet_seen", 1);
        }
    }
    for x in &w.waits {
        let n = x.flag.0.load(SeqCst);
        check!(n <= 1, "the waker of one wait was called {n} times: {}", w.script);
    }
    for d in drivers {
        d.stop();
    }
    drop((gate_timer, gate_io));
    // Handles are not kept by anything.
    w.waits.clear();
    drop(w.handles);
    let s = w.script;
    sample(|| s);
}

/// A foreign event loop drives the reactor whenever its descriptor is ready.
fn looped(rng: &mut Rng, pool: &Pool, sig: &mut u64) {
    pool.shuffle(rng);
    let stop = Arc::new(AtomicBool::new(false));
    let loops: Vec<_> = (0..rng.range(1, 3))
        .map(|i| {
            let stop = stop.clone();
            let kind = rng.below(3);
            let t = std::thread::Builder::new()
                .name(format!("foreign{i}"))
                .spawn(move || {
                    let outer = Outer::new(kind == 2);
                    let mut n = 0i64;
                    while !stop.load(SeqCst) {
                        let got = if kind == 0 { polled(2) } else { outer.wait(2) };
                        if got {
                            n += 1;
                            async_io::block_on(futures_lite::future::yield_now());
                        }
                    }
                    count("foreign_loop_rounds", n);
                })
                .unwrap();
            t
        })
        .collect();
    let mut tasks = vec![];
    let total = Arc::new(AtomicU64::new(0));
    let n = rng.range(1, 6);
    for i in 0..n {
        let (a, b) = UnixStream::pair().unwrap();
        let k = rng.range(1, 60);
        let nap = rng.below(4) == 0;
        let sum = total.clone();
        tasks.push(pool.spawn(rng, format!("ping{i}"), 50, async move {
            let mut a = Async::new(a).unwrap();
            for x in 0..k {
                a.write_all(&[x as u8]).await.unwrap();
                let mut v = [0u8];
                a.read_exact(&mut v).await.unwrap();
                check!(v[0] == !(x as u8), "answer {} instead of {}", v[0], !(x as u8));
                sum.fetch_add(1, SeqCst);
                if nap {
                    Timer::after(Duration::from_micros(30)).await;
                }
            }
        }));
        tasks.push(pool.spawn(rng, format!("pong{i}"), 50, async move {
            let b = Async::new(b).unwrap();
            let mut b = &b;
            let mut v = [0u8];
            while b.read(&mut v).await.unwrap() == 1 {
                b.write_all(&[!v[0]]).await.unwrap();
            }
        }));
        *sig = mix(*sig, k);
    }
    for t in &tasks {
        let t2 = t.clone();
        await_cond(|| t2.is_done(), "a task while a foreign loop uses the descriptor", || Some(t.describe()));
    }
    count("round_trips_under_foreign_loop", total.load(SeqCst) as i64);
    stop.store(true, SeqCst);
    for t in loops {
        await_cond(|| t.is_finished(), "a foreign loop", || Some(String::new()));
        t.join().unwrap();
    }
}

pub fn run() {
    start_watchdog();
    let mut rng = Rng::new(opts().seed);
    // It works as the first use of the crate, and for all threads at once.
    let first: Vec<_> = (0..if opts().worker % 2 == 0 { 4 } else { 1 }).map(|_| std::thread::spawn(fd)).collect();
    for t in first {
        if t.join().is_err() {
            violation("reactor_fd panicked", "")
        }
    }
    let who = fdu::identity(fd());
    let pool = Pool::new(&[Kind::Plain, Kind::BlockOn, Kind::Plain]);
    while time_left() {
        inj_shuffle(&mut rng);
        take_trace();
        let mut sig = 0;
        match rng.below(10) {
            0..=6 => gated(&mut rng, &mut sig),
            _ => looped(&mut rng, &pool, &mut sig),
        }
        check!(is_epoll(fd()) && fdu::identity(fd()) == who, "the descriptor refers to something else now");
        let _ = reactor_fd().unwrap().as_fd();
        evaluated(Some(mix(take_trace(), sig)));
    }
    report_points();
    finish()
}
