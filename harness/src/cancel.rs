//! C05: cancelled timers, futures, operations and handles leave nothing behind and disturb nobody.

use std::future::{poll_fn, Future};
use std::net::{TcpListener, UdpSocket};
use std::os::fd::{AsRawFd, OwnedFd, RawFd};
use std::os::unix::net::{UnixListener, UnixStream};
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex, Weak};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

use async_io::{Async, Timer};

use crate::fdu;
use crate::rt::*;
use crate::world::Io;

/// A waker whose references and wakes are counted.
struct TrackedWaker {
    wakes: AtomicU64,
}
impl Wake for TrackedWaker {
    fn wake(self: Arc<Self>) {
        self.wakes.fetch_add(1, SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.wakes.fetch_add(1, SeqCst);
    }
}
fn tracked() -> (Waker, Arc<TrackedWaker>) {
    let t = Arc::new(TrackedWaker { wakes: AtomicU64::new(0) });
    (Waker::from(t.clone()), t)
}

type F = Pin<Box<dyn Future<Output = ()> + Send>>;

/// What can be cancelled.
enum Body {
    Timer(Box<Timer>),
    Fut(F),
}

struct Item {
    what: &'static str,
    body: Option<Body>,
    /// Makes it complete.
    fire: Fire,
    /// The waker of the most recent poll and earlier ones.
    cur: Option<(Waker, Weak<TrackedWaker>)>,
    old: Vec<Weak<TrackedWaker>>,
    polled: bool,
    /// The slot of poll_readable keeps its waker until the next event (there is nothing to drop).
    slot: bool,
    done: bool,
}

#[derive(Clone)]
enum Fire {
    /// Write a byte to the descriptor / drain it.
    Byte(Arc<OwnedFd>),
    Drain(Arc<OwnedFd>),
    /// Set the deadline to now.
    Deadline,
    ConnectTcp(std::net::SocketAddr),
    Datagram(Arc<UdpSocket>),
    AcceptOn(Arc<UnixListener>),
}

fn fire(f: &Fire) {
    match f {
        Fire::Byte(fd) => {
            let _ = fdu::write(fd.as_raw_fd(), b"x");
        }
        Fire::Drain(fd) => {
            fdu::drain(fd.as_raw_fd());
        }
        Fire::Deadline => {}
        Fire::ConnectTcp(a) => {
            let _ = std::net::TcpStream::connect(a);
        }
        Fire::Datagram(s) => {
            let _ = s.send(b"x");
        }
        Fire::AcceptOn(l) => {
            // A queued connect proceeds once there is room in the backlog.
            let _ = l.accept();
        }
    }
}

struct Handle {
    h: Arc<Async<Io>>,
    peer: Arc<OwnedFd>,
    fd: RawFd,
}
fn handle() -> Handle {
    let (a, b) = fdu::socketpair(libc::SOCK_STREAM).unwrap();
    fdu::set_buf(a.as_raw_fd(), 4096, 0);
    fdu::set_nonblocking(b.as_raw_fd(), true);
    let fd = a.as_raw_fd();
    let h = Arc::new(Async::new(Io(a)).unwrap_or_else(|e| violation("Async::new failed", e.to_string())));
    Handle { h, peer: Arc::new(b), fd }
}

impl Item {
    fn new(what: &'static str, body: Body, fire: Fire) -> Item {
        Item { what, body: Some(body), fire, cur: None, old: Vec::new(), polled: false, slot: false, done: false }
    }
    fn poll(&mut self, fresh: bool) {
        if self.done || self.body.is_none() {
            return;
        }
        if fresh || self.cur.is_none() {
            let (w, t) = tracked();
            if let Some((_, old)) = self.cur.replace((w, Arc::downgrade(&t))) {
                self.old.push(old);
            }
        }
        let w = self.cur.as_ref().unwrap().0.clone();
        let cx = &mut Context::from_waker(&w);
        let r = match self.body.as_mut().unwrap() {
            Body::Timer(t) => Pin::new(&mut **t).poll(cx).map(|_| ()),
            Body::Fut(f) => f.as_mut().poll(cx),
        };
        self.polled = true;
        if r.is_ready() {
            self.done = true;
        }
    }
    /// The wakers that nothing may refer to any more, given that this item is cancelled or complete.
    fn retire(&mut self) -> Vec<(&'static str, Weak<TrackedWaker>)> {
        let mut v: Vec<_> = self.old.drain(..).map(|w| (self.what, w)).collect();
        if let Some((_, w)) = self.cur.take() {
            v.push((self.what, w));
        }
        v
    }
}

fn new_item(rng: &mut Rng, hs: &[Handle], ctx: &Ctx, instants: &[Instant]) -> Item {
    let h = rng.pick(hs);
    let a = h.h.clone();
    match rng.below(16) {
        0..=2 => Item::new("timer", Body::Timer(Box::new(Timer::at(*rng.pick(instants)))), Fire::Deadline),
        3 => Item::new("interval", Body::Timer(Box::new(Timer::interval_at(*rng.pick(instants), Duration::from_millis(1)))), Fire::Deadline),
        4 => Item::new("far timer", Body::Timer(Box::new(Timer::after(Duration::from_secs(1000)))), Fire::Deadline),
        5 | 6 => Item::new("readable", Body::Fut(Box::pin(async move { let _ = a.readable().await; })), Fire::Byte(h.peer.clone())),
        7 => {
            fdu::fill(h.fd);
            Item::new("writable", Body::Fut(Box::pin(async move { let _ = a.writable().await; })), Fire::Drain(h.peer.clone()))
        }
        8 => Item::new("readable_owned", Body::Fut(Box::pin(async move { let _ = a.readable_owned().await; })), Fire::Byte(h.peer.clone())),
        9 => {
            fdu::fill(h.fd);
            Item::new("writable_owned", Body::Fut(Box::pin(async move { let _ = a.writable_owned().await; })), Fire::Drain(h.peer.clone()))
        }
        10 => Item::new(
            "read_with",
            Body::Fut(Box::pin(async move {
                let _ = a.read_with(|io| fdu::recv(io.0.as_raw_fd(), &mut [0; 1], libc::MSG_PEEK)).await;
            })),
            Fire::Byte(h.peer.clone()),
        ),
        11 => {
            let mut i = Item::new(
                "poll_readable",
                Body::Fut(Box::pin(async move { let _ = poll_fn(|cx| a.poll_readable(cx)).await; })),
                Fire::Byte(h.peer.clone()),
            );
            i.slot = true;
            i
        }
        12 => {
            let l = ctx.listener.clone();
            Item::new("accept", Body::Fut(Box::pin(async move { let _ = l.accept().await; })), Fire::ConnectTcp(ctx.addr))
        }
        13 => {
            let u = ctx.udp.clone();
            Item::new("recv", Body::Fut(Box::pin(async move { let _ = u.recv(&mut [0; 8]).await; })), Fire::Datagram(ctx.udp_peer.clone()))
        }
        14 => Item::new("never", Body::Timer(Box::new(Timer::never())), Fire::Deadline),
        _ => {
            // A connection that cannot be established yet.
            let p = ctx.full_path.clone();
            Item::new("connect", Body::Fut(Box::pin(async move { let _ = Async::<UnixStream>::connect(p).await; })), Fire::AcceptOn(ctx.full.clone()))
        }
    }
}

struct Ctx {
    listener: Arc<Async<TcpListener>>,
    addr: std::net::SocketAddr,
    udp: Arc<Async<UdpSocket>>,
    udp_peer: Arc<UdpSocket>,
    full: Arc<UnixListener>,
    full_path: String,
    _fillers: Vec<UnixStream>,
}

fn ctx() -> Ctx {
    let l = Async::<TcpListener>::bind((crate::fdu::lo(), 0)).unwrap();
    let addr = l.get_ref().local_addr().unwrap();
    let u = Async::<UdpSocket>::bind((crate::fdu::lo(), 0)).unwrap();
    let peer = UdpSocket::bind((crate::fdu::lo(), 0)).unwrap();
    peer.connect(u.get_ref().local_addr().unwrap()).unwrap();
    u.get_ref().connect(peer.local_addr().unwrap()).unwrap();
    // A listener whose backlog is full.
    let full_path = format!("\0vh-{}-{}", std::process::id(), rnd(1 << 40));
    let full = unsafe {
        use std::os::fd::FromRawFd;
        use std::os::linux::net::SocketAddrExt;
        let a = std::os::unix::net::SocketAddr::from_abstract_name(&full_path.as_bytes()[1..]).unwrap();
        let l = UnixListener::bind_addr(&a).unwrap();
        libc::listen(l.as_raw_fd(), 0);
        let _ = OwnedFd::from_raw_fd;
        l
    };
    full.set_nonblocking(true).unwrap();
    Ctx {
        listener: Arc::new(l),
        addr,
        udp: Arc::new(u),
        udp_peer: Arc::new(peer),
        full: Arc::new(full),
        full_path,
        _fillers: Vec::new(),
    }
}
fn fill_backlog(c: &mut Ctx) {
    use std::os::linux::net::SocketAddrExt;
    let a = std::os::unix::net::SocketAddr::from_abstract_name(&c.full_path.as_bytes()[1..]).unwrap();
    loop {
        // Non-blocking connects until the queue is full.
        let fd = unsafe { libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0) };
        use std::os::fd::FromRawFd;
        let s = unsafe { UnixStream::from_raw_fd(fd) };
        let mut sa: libc::sockaddr_un = unsafe { std::mem::zeroed() };
        sa.sun_family = libc::AF_UNIX as _;
        let name = a.as_abstract_name().unwrap();
        for (i, b) in name.iter().enumerate() {
            sa.sun_path[i + 1] = *b as _;
        }
        let len = std::mem::size_of::<libc::sa_family_t>() + 1 + name.len();
        let r = unsafe { libc::connect(fd, &sa as *const _ as *const _, len as u32) };
        if r != 0 {
            return;
        }
        c._fillers.push(s);
    }
}

/// State to which everything has to return.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Base {
    fds: usize,
    regs: usize,
}
fn base() -> Base {
    use async_io::os::unix::reactor_fd;
    let ep = reactor_fd().map_or(-1, |f| f.as_raw_fd());
    Base { fds: fdu::open_fds(), regs: fdu::epoll_registrations(ep).len() }
}

/// A thread that drops things concurrently.
type Job = Vec<Body>;
static JOBS: Mutex<Vec<Job>> = Mutex::new(Vec::new());
static PENDING_JOBS: AtomicI64 = AtomicI64::new(0);
fn dropper() {
    loop {
        let j = lock(&JOBS).pop();
        match j {
            Some(j) => {
                for b in j {
                    drop(b);
                    if rnd(4) == 0 {
                        delay(50);
                    }
                }
                PENDING_JOBS.fetch_sub(1, SeqCst);
            }
            None => std::thread::sleep(Duration::from_micros(30)),
        }
    }
}

fn quiesce() {
    await_cond(|| PENDING_JOBS.load(SeqCst) == 0, "dropping a future or timer does not return", || Some("dropper stuck".into()));
    // Two complete rounds: operations queued so far are processed, wakers taken out by a round that was
    // under way have been woken and dropped.
    reactor_rounds(2);
}

fn expect_released(list: &mut Vec<(&'static str, Weak<TrackedWaker>)>, script: &[String]) {
    quiesce();
    for (what, w) in list.drain(..) {
        let n = w.strong_count();
        if n != 0 {
            // The clone in a wake that is just finishing?
            quiesce();
            let n = w.strong_count();
            if n != 0 {
                violation(
                    format!("{n} reference(s) to the waker of a cancelled, completed or re-polled {what} are still held after the reactor has run"),
                    format!("{script:?}"),
                );
            }
        }
        count("wakers_released", 1);
    }
}

pub fn run() {
    start_watchdog();
    let mut rng = Rng::new(opts().seed);
    std::thread::spawn(dropper);
    std::thread::spawn(dropper);
    if opts().mode == "heap" {
        return heap_run(&mut rng);
    }
    let mut c = ctx();
    fill_backlog(&mut c);
    // Another thread that is inside block_on from time to time, so that either side drives.
    std::thread::spawn(|| loop {
        async_io::block_on(async {
            Timer::after(Duration::from_micros(rnd(3000))).await;
        });
        std::thread::sleep(Duration::from_micros(rnd(3000)));
    });
    std::thread::sleep(Duration::from_millis(20));
    let mut episode = 0u64;
    let regs0 = 2; // notify and timer descriptors of the poller
    while time_left() {
        episode += 1;
        if episode % 6 == 1 {
            inj_shuffle(&mut rng);
        }
        fill_backlog(&mut c);
        let b0 = {
            reactor_rounds(1);
            base()
        };
        episode_run(episode, &mut rng, &c);
        // Everything the episode created is gone.
        while let Ok(Some(())) = drain_listener(&c) {}
        let mut b1 = base();
        for _ in 0..20 {
            if b1 == b0 {
                break;
            }
            quiesce();
            std::thread::sleep(Duration::from_millis(1));
            while let Ok(Some(())) = drain_listener(&c) {}
            b1 = base();
        }
        // Accepted fillers shrink the descriptor table legitimately only through the backlog helper.
        check!(
            b1.fds <= b0.fds && b1.regs == b0.regs,
            "descriptors or registrations are left behind: before {:?}, after {:?} (episode {episode})",
            b0,
            b1
        );
        let _ = regs0;
    }
    report_points();
    finish()
}

fn drain_listener(c: &Ctx) -> std::io::Result<Option<()>> {
    match c.listener.get_ref().accept() {
        Ok(_) => Ok(Some(())),
        Err(_) => {
            let mut b = [0; 8];
            while c.udp.get_ref().recv(&mut b).is_ok() {}
            Ok(None)
        }
    }
}

/// Wakes only after `open`, so that the reactor round that wakes it takes long.
struct GateWaker {
    entered: AtomicI64,
    open: AtomicI64,
}
impl Wake for GateWaker {
    fn wake(self: Arc<Self>) {
        self.entered.store(1, SeqCst);
        while self.open.load(SeqCst) == 0 {
            std::thread::sleep(Duration::from_micros(20));
        }
    }
}

/// More timer operations than the reactor's queue can hold while no round can take them: every timer
/// that was dropped or reset must be gone all the same, and the ones that remain must fire.
fn overflow(rng: &mut Rng) {
    let gate = Arc::new(GateWaker { entered: AtomicI64::new(0), open: AtomicI64::new(0) });
    let gw = Waker::from(gate.clone());
    let mut g = Timer::after(Duration::from_micros(50));
    if Pin::new(&mut g).poll(&mut Context::from_waker(&gw)).is_pending() {
        await_cond(|| gate.entered.load(SeqCst) == 1, "a due timer is not woken", || Some("gate".into()));
    }
    let mut dead = Vec::new();
    let mut live: Vec<Item> = Vec::new();
    let n = rng.range(1100, 4000);
    let drop_share = *rng.pick(&[20, 50, 80]);
    let now = Instant::now();
    for _ in 0..n {
        if !live.is_empty() && rng.chance(drop_share) {
            let k = rng.us(live.len());
            if rng.chance(70) {
                let mut i = live.swap_remove(k);
                dead.extend(i.retire());
            } else {
                let i = &mut live[k];
                if let Some(Body::Timer(t)) = i.body.as_mut() {
                    match rng.below(3) {
                        0 => t.set_after(Duration::from_secs(600)),
                        1 => t.set_after(Duration::MAX),
                        _ => t.set_at(now + Duration::from_micros(rng.range(0, 3000))),
                    }
                }
                i.poll(true);
                dead.extend(i.old.drain(..).map(|w| ("timer", w)));
            }
        } else {
            let d = if rng.chance(50) { Duration::from_secs(700) } else { Duration::from_micros(rng.range(2000, 9000)) };
            let mut i = Item::new("timer", Body::Timer(Box::new(Timer::at(now + d))), Fire::Deadline);
            i.poll(true);
            live.push(i);
        }
    }
    count("queue_overflow_ops", n as i64);
    gate.open.store(1, SeqCst);
    let script = [format!("{n} timer operations during a long round")];
    expect_released(&mut dead, &script);
    // The others are intact.
    for i in live.iter_mut() {
        if let Some(Body::Timer(t)) = i.body.as_mut() {
            if !i.done && rng.chance(30) {
                t.set_after(Duration::from_micros(rng.range(0, 800)));
            }
        }
    }
    dead.extend(live.iter_mut().flat_map(|i| i.old.drain(..).map(|w| ("timer", w)).collect::<Vec<_>>()));
    live.iter_mut().for_each(|i| dead.extend(i.retire()));
    drop(live);
    drop(g);
    expect_released(&mut dead, &script);
}

/// Timers that are dropped, completed and dropped, reset or polled with another waker while no round
/// has seen them: their old registrations must not wake anybody, ever.
fn held_up(rng: &mut Rng) {
    let gate = Arc::new(GateWaker { entered: AtomicI64::new(0), open: AtomicI64::new(0) });
    let gw = Waker::from(gate.clone());
    let mut g = Timer::after(Duration::from_micros(50));
    if Pin::new(&mut g).poll(&mut Context::from_waker(&gw)).is_pending() {
        await_cond(|| gate.entered.load(SeqCst) == 1, "a due timer is not woken", || Some("gate".into()));
    } else {
        return; // No round is held up.
    }
    // The round that is under way collected its timers before.
    let mut silent: Vec<(String, Arc<TrackedWaker>)> = Vec::new();
    let mut keep: Vec<Timer> = Vec::new();
    let n = rng.range(1, 12);
    let mut last = Instant::now();
    for _ in 0..n {
        if rng.chance(25) {
            // A longer life of one timer: every waker it had is gone in the end.
            let (mut what, mut ts) = (String::from("timer:"), vec![]);
            let short = |rng: &mut Rng| match rng.below(4) {
                0 => Duration::from_nanos(rng.range(0, 3000)),
                1 => Duration::from_secs(300),
                _ => Duration::from_micros(rng.range(0, 600)),
            };
            let mut x = Timer::interval_at(Instant::now() + short(rng), short(rng));
            for _ in 0..rng.range(2, 10) {
                match rng.below(8) {
                    0 => {
                        let d = short(rng);
                        what.push_str(&format!(" set_after({d:?})"));
                        x.set_after(d);
                    }
                    1 => {
                        let d = short(rng);
                        what.push_str(&format!(" set_interval({d:?})"));
                        x.set_interval(d);
                    }
                    2 => {
                        let (d, p) = (short(rng), short(rng));
                        what.push_str(&format!(" set_interval_at({d:?}, {p:?})"));
                        x.set_interval_at(Instant::now() + d, p);
                    }
                    3 => std::thread::sleep(short(rng).min(Duration::from_micros(300))),
                    k => {
                        let (w, t) = if k == 4 || ts.is_empty() { tracked() } else { ts.pop().unwrap() };
                        let cx = &mut Context::from_waker(&w);
                        let r = match rng.below(2) {
                            0 => Pin::new(&mut x).poll(cx).is_ready(),
                            _ => futures_lite::Stream::poll_next(Pin::new(&mut x), cx).is_ready(),
                        };
                        what.push_str(&format!(" poll {} => {r}", ts.len()));
                        ts.push((w, t));
                    }
                }
            }
            if rng.chance(70) {
                what.push_str(" dropped");
                drop(x);
            } else {
                what.push_str(" reset far");
                x.set_after(Duration::from_secs(500));
                keep.push(x);
            }
            silent.extend(ts.into_iter().enumerate().map(|(k, (_, t))| (format!("{what}; waker {k}"), t)));
            count("timer_lives", 1);
            continue;
        }
        let (w, t) = tracked();
        let cx = &mut Context::from_waker(&w);
        let d = Duration::from_micros(rng.range(50, 900));
        let at = Instant::now() + d;
        last = last.max(at);
        let interval = rng.chance(30);
        let mut x = if interval { Timer::interval_at(at, Duration::from_secs(500)) } else { Timer::at(at) };
        let mut what = format!("{}{d:?}", if interval { "interval " } else { "timer " });
        if Pin::new(&mut x).poll(cx).is_ready() {
            continue;
        }
        let how = rng.below(7);
        what.push_str([" dropped", " reset", " reset to never", " reset to an interval", " re-polled", " completed", " completed and kept"][how as usize]);
        match how {
            0 => {}
            1 => x.set_after(Duration::from_secs(500)),
            2 => match rng.below(3) {
                0 => x.set_after(Duration::MAX),
                1 => x.set_interval(Duration::MAX),
                _ => x.set_after(Duration::from_secs(u64::MAX)),
            },
            3 => match rng.below(2) {
                0 => x.set_interval(Duration::from_secs(500)),
                _ => x.set_interval_at(Instant::now() + Duration::from_secs(500), Duration::from_millis(1)),
            },
            4 => {
                let (w2, _t2) = tracked();
                if Pin::new(&mut x).poll(&mut Context::from_waker(&w2)).is_ready() {
                    continue;
                }
            }
            _ => {
                while Instant::now() < at {
                    std::thread::sleep(Duration::from_micros(20));
                }
                let (w2, t2) = tracked();
                let cx = &mut if rng.chance(50) { Context::from_waker(&w2) } else { Context::from_waker(&w) };
                check!(Pin::new(&mut x).poll(cx).is_ready(), "a timer is pending after its deadline");
                if interval {
                    silent.push((what.clone(), t2));
                }
            }
        }
        if how != 0 && how != 5 {
            keep.push(x);
        }
        // A timer that completed and was then dropped, reset or is a new registration now.
        if how != 6 || interval {
            silent.push((what, t));
        }
    }
    if rng.chance(80) {
        while Instant::now() < last {
            std::thread::sleep(Duration::from_micros(20));
        }
    }
    gate.open.store(1, SeqCst);
    reactor_rounds(2);
    if Instant::now() < last {
        std::thread::sleep(last - Instant::now());
        reactor_rounds(2);
    }
    for (what, t) in silent {
        let n = t.wakes.load(SeqCst);
        check!(n == 0, "{n} wake-ups on behalf of a registration that is gone: {what}");
        count("silent_registrations", 1);
    }
    drop(keep);
    drop(g);
    evaluated(Some(mix(n, rng.u64())));
}

fn episode_run(episode: u64, rng: &mut Rng, c: &Ctx) {
    if rng.chance(4) {
        overflow(rng);
    }
    if rng.chance(25) {
        held_up(rng);
    }
    let mut script: Vec<String> = Vec::new();
    let mut sig = 0u64;
    take_trace();
    let mut hs: Vec<Handle> = (0..rng.range(1, 3)).map(|_| handle()).collect();
    let now = Instant::now();
    let instants: Vec<Instant> = (0..3).map(|_| now + Duration::from_micros(rng.range(0, 4000))).collect();
    let mut items: Vec<Item> = Vec::new();
    let mut dead: Vec<(&'static str, Weak<TrackedWaker>)> = Vec::new();
    let n = rng.range(2, 14);
    for _ in 0..n {
        items.push(new_item(rng, &hs, c, &instants));
    }
    // Only one task may use the poll slot of a handle.
    let mut seen = Vec::new();
    items.retain(|i| match (&i.fire, i.slot) {
        (Fire::Byte(p), true) => {
            let k = p.as_raw_fd();
            let ok = !seen.contains(&k);
            seen.push(k);
            ok
        }
        _ => true,
    });
    for i in &items {
        sig = mix(sig, i.what.as_ptr() as u64);
    }
    script.push(format!("{:?}", items.iter().map(|i| i.what).collect::<Vec<_>>()));
    let steps = rng.range(3, 25);
    for _ in 0..steps {
        if items.is_empty() {
            break;
        }
        let k = rng.us(items.len());
        let op = rng.below(12);
        sig = mix(sig, op * 100 + k as u64);
        match op {
            0..=4 => {
                let fresh = rng.chance(50);
                script.push(format!("poll {} fresh={fresh}", items[k].what));
                items[k].poll(fresh);
            }
            5 | 6 => {
                let mut i = items.swap_remove(k);
                if i.slot {
                    items.push(i);
                    continue;
                }
                script.push(format!("cancel {} polled={}", i.what, i.polled));
                dead.extend(i.retire());
                let b = i.body.take().unwrap();
                if rng.chance(50) {
                    PENDING_JOBS.fetch_add(1, SeqCst);
                    lock(&JOBS).push(vec![b]);
                } else if rng.chance(4) {
                    let _ = at_thread_exit("leaver", rng.chance(50), move || drop(b)).join();
                } else {
                    drop(b);
                }
                count("cancelled", 1);
            }
            7 => {
                script.push(format!("fire {}", items[k].what));
                fire(&items[k].fire.clone());
            }
            8 => {
                let Item { body, what, done, .. } = &mut items[k];
                if let Some(Body::Timer(t)) = body.as_mut() {
                    let far = rng.chance(50);
                    script.push(format!("reset {what} far={far}"));
                    *done = false;
                    match (far, rng.chance(50)) {
                        _ if rng.chance(15) => t.set_interval(Duration::MAX),
                        (true, true) => t.set_after(Duration::from_secs(500)),
                        (true, false) => t.set_after(Duration::MAX),
                        (false, true) => t.set_at(*rng.pick(&instants)),
                        (false, false) => t.set_interval_at(*rng.pick(&instants), Duration::from_secs(300)),
                    }
                }
            }
            9 => delay(*rng.pick(&[20, 200, 1000])),
            10 => {
                items.push(new_item(rng, &hs, c, &instants));
                if items.last().unwrap().slot {
                    items.pop();
                }
            }
            _ => {
                // A completed item frees its wakers as well.
                if items[k].done && !items[k].slot {
                    let mut i = items.swap_remove(k);
                    dead.extend(i.retire());
                }
            }
        }
    }
    activity(format!("episode {episode} {script:?}"));
    // Old wakers of the remaining items are not needed any more either.
    for i in items.iter_mut() {
        let what = i.what;
        dead.extend(i.old.drain(..).map(|w| (what, w)));
    }
    expect_released(&mut dead, &script);

    // Reset timers do not wake at their old deadlines.
    let mut watch = Vec::new();
    for i in items.iter_mut() {
        if let Some(Body::Timer(t)) = i.body.as_mut() {
            if !i.done && rng.chance(50) {
                t.set_at(Instant::now() + Duration::from_micros(rng.range(200, 1500)));
                i.poll(true);
                if let Some(Body::Timer(t)) = i.body.as_mut() {
                    t.set_after(Duration::from_secs(400));
                    i.done = false;
                }
                let what = i.what;
                dead.extend(i.old.drain(..).map(|w| (what, w)));
                watch.push(i.cur.as_ref().unwrap().1.clone());
            }
        }
    }
    if !watch.is_empty() {
        quiesce();
        let w0: Vec<u64> = watch.iter().map(|w| w.upgrade().map_or(0, |t| t.wakes.load(SeqCst))).collect();
        std::thread::sleep(Duration::from_micros(1600));
        quiesce();
        for (w, n) in watch.iter().zip(w0) {
            let n1 = w.upgrade().map_or(0, |t| t.wakes.load(SeqCst));
            check!(n1 == n, "a timer that was reset wakes its task at the old deadline: {n1} wakes, {n} before ({script:?})");
        }
        count("resets_watched", watch.len() as i64);
    }

    // The survivors are intact: each is woken through its latest waker once its event comes.
    let mut waiting: Vec<usize> = Vec::new();
    for (k, i) in items.iter_mut().enumerate() {
        if i.done || i.what == "connect" {
            continue;
        }
        i.poll(rng.chance(50));
        if i.done {
            continue;
        }
        waiting.push(k);
    }
    for &k in &waiting {
        let f = items[k].fire.clone();
        if let (Fire::Deadline, Some(Body::Timer(t))) = (&f, items[k].body.as_mut()) {
            t.set_after(Duration::from_micros(rng.range(0, 800)));
        } else {
            fire(&f);
        }
    }
    {
        let items = Mutex::new(&mut items);
        await_cond(
            || {
                // Re-poll only after a wake of the latest waker.
                let mut it = lock(&items);
                let mut all = true;
                for &k in &waiting {
                    let i = &mut it[k];
                    if i.done {
                        continue;
                    }
                    let woken = i.cur.as_ref().and_then(|c| c.1.upgrade()).map_or(0, |t| t.wakes.swap(0, SeqCst));
                    if woken > 0 {
                        i.poll(false);
                    }
                    if !i.done {
                        all = false;
                        if matches!(i.what, "accept" | "recv") {
                            // Others may have taken it: feed it again.
                            let fd = if i.what == "accept" { c.listener.as_raw_fd() } else { c.udp.as_raw_fd() };
                            if !fdu::truth(fd).0 {
                                fire(&i.fire.clone());
                            }
                        }
                    }
                }
                all
            },
            "a survivor of cancellations is not woken",
            || {
                let it = lock(&items);
                let l: Vec<_> = waiting.iter().filter(|k| !it[**k].done).map(|k| it[*k].what).collect();
                Some(format!("not done: {l:?}; {script:?}"))
            },
        );
    }
    count("survivors_completed", waiting.len() as i64);
    // Finally drop everything: handles first or last.
    if rng.chance(50) {
        hs.clear();
    }
    for i in items.iter_mut() {
        dead.extend(i.retire());
        i.body = None;
    }
    hs.clear();
    items.clear();
    expect_released(&mut dead, &script);
    if episode % 23 == 5 {
        sample(|| format!("{script:?}"));
    }
    evaluated((script.len() > 2).then(|| mix(sig, take_trace())));
}

// ---------------------------------------------------------------------------------------------

fn heap_cycle(rng: &mut Rng, h: &Handle, keep: &mut Vec<Item>, kind: u64) -> u64 {
    let w = Waker::noop();
    let cx = &mut Context::from_waker(w);
    let n = rng.range(1, 40);
    match kind {
        0 => {
            // Timers dropped before, at and after their deadline, in any order.
            let mut v: Vec<Box<Timer>> = (0..n)
                .map(|_| {
                    let mut t = Box::new(match rng.below(3) {
                        0 => Timer::after(Duration::from_secs(1000)),
                        1 => Timer::after(Duration::from_micros(rng.range(0, 100))),
                        _ => Timer::interval(Duration::from_micros(rng.range(1, 100))),
                    });
                    let _ = Pin::new(&mut *t).poll(cx);
                    t
                })
                .collect();
            for t in v.iter_mut() {
                match rng.below(5) {
                    0 => t.set_after(Duration::from_secs(50)),
                    1 => t.set_after(Duration::MAX),
                    2 => {
                        let _ = Pin::new(&mut **t).poll(cx);
                    }
                    _ => {}
                }
            }
            rng.shuffle(&mut v);
        }
        1 => {
            // Timers polled with ever changing wakers.
            let mut t = Timer::after(Duration::from_secs(1000));
            for _ in 0..n {
                let (w, _t) = tracked();
                let _ = Pin::new(&mut t).poll(&mut Context::from_waker(&w));
            }
        }
        2 => {
            // Readiness futures cancelled without an event.
            let mut v: Vec<F> = (0..n)
                .map(|_| {
                    let a = h.h.clone();
                    let mut f: F = match rng.below(3) {
                        0 => Box::pin(async move {
                            let _ = a.readable().await;
                        }),
                        1 => Box::pin(async move {
                            let _ = a.readable_owned().await;
                        }),
                        _ => Box::pin(async move {
                            let _ = a.read_with(|io| fdu::recv(io.0.as_raw_fd(), &mut [0; 1], libc::MSG_PEEK)).await;
                        }),
                    };
                    let _ = f.as_mut().poll(cx);
                    f
                })
                .collect();
            rng.shuffle(&mut v);
        }
        3 => {
            // Futures that complete, dropped before or after polling the result.
            let (a, b) = fdu::socketpair(libc::SOCK_STREAM).unwrap();
            let a = Arc::new(Async::new(Io(a)).unwrap());
            let mut v: Vec<F> = (0..n)
                .map(|_| {
                    let a = a.clone();
                    let mut f: F = Box::pin(async move {
                        let _ = a.readable().await;
                    });
                    let _ = f.as_mut().poll(cx);
                    f
                })
                .collect();
            let _ = fdu::write(b.as_raw_fd(), b"x");
            reactor_rounds(1);
            for f in v.iter_mut() {
                if rng.chance(50) {
                    let _ = f.as_mut().poll(cx);
                }
            }
        }
        4 => {
            // Handles created and dropped, some with waiters, some unwrapped, some that fail.
            for _ in 0..n.min(8) {
                let (a, _b) = fdu::socketpair(libc::SOCK_STREAM).unwrap();
                let raw = a.as_raw_fd();
                let a = Async::new(Io(a)).unwrap();
                match rng.below(4) {
                    0 => drop(a.into_inner()),
                    1 => {
                        let _ = poll_fn_once(cx, |cx| a.poll_readable(cx));
                        let _ = poll_fn_once(cx, |cx| a.poll_writable(cx));
                    }
                    2 => {
                        let dup = Async::new(fdu::bfd(&raw));
                        check!(dup.is_err(), "a descriptor could be registered twice");
                    }
                    _ => {
                        if let Ok(f) = std::fs::File::open("/dev/null") {
                            // epoll refuses regular files and /dev/null.
                            let _ = Async::new(f);
                        }
                    }
                }
            }
        }
        5 => {
            async_io::block_on(async {
                Timer::after(Duration::from_micros(50)).await;
            });
        }
        _ => {
            for _ in 0..n.min(5) {
                let p = format!("\0vh-nobody-{}", std::process::id());
                let mut f: F = Box::pin(async move {
                    let _ = Async::<UnixStream>::connect(p).await;
                });
                let _ = f.as_mut().poll(cx);
                let addr = std::net::SocketAddr::from(([127, 0, 0, 1], 1));
                let mut f: F = Box::pin(async move {
                    let _ = Async::<std::net::TcpStream>::connect(addr).await;
                });
                let _ = f.as_mut().poll(cx);
            }
        }
    }
    keep.clear();
    n
}
fn poll_fn_once<T>(cx: &mut Context<'_>, f: impl Fn(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
    f(cx)
}

/// Live memory does not grow with the number of cancelled things.
fn heap_run(rng: &mut Rng) {
    recent_off();
    let h = handle();
    std::thread::sleep(Duration::from_millis(20));
    let mut measures = Vec::new();
    let mut kind = rng.below(7);
    while time_left() {
        kind = (kind + 1) % 7;
        let cycles = 60;
        let mut phases: Vec<i64> = Vec::with_capacity(16);
        let mut ops = 0;
        let mut keep = Vec::with_capacity(64);
        // Warm up twice, then measure. Growth must stop; what grows by doubling shows over several phases.
        let mut grown = 0;
        for phase in 0..9 {
            let mut n = 0;
            for _ in 0..cycles {
                n += heap_cycle(rng, &h, &mut keep, kind);
                progress();
            }
            quiesce();
            let live = crate::heap::LIVE.load(SeqCst);
            phases.push(live);
            if phase > 2 {
                ops += n;
                grown += (live - phases[phase - 1] > 1024) as u64;
            }
        }
        let growth = phases[8] - phases[2];
        if grown >= 6 || growth > 16_000 + 2 * ops as i64 {
            violation(
                "live memory grows with every cancelled operation",
                format!("kind {kind}: live bytes after each phase of {cycles} cycles, {ops} operations since the third: {phases:?}"),
            );
        }
        // Bytes in the evidence are allocated after measuring.
        count(&format!("heap_phases_kind{kind}"), phases.len() as i64);
        evaluated(Some(mix(kind, rng.u64())));
        measures.push(phases);
        if measures.len() > 4 {
            measures.remove(0);
        }
    }
    sample(|| format!("live bytes after successive phases: {measures:?}"));
    report_points();
    finish()
}
