//! C01 (no lost I/O wakeup) and C02 (truthful readiness): a small set of handles, many waiters of all
//! kinds, and a controller that fires, pulses, clears, cancels, re-polls and replaces them.

use std::cell::RefCell;
use std::collections::HashMap;
use std::future::{poll_fn, Future};
use std::io::{self, Read, Write};
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, OwnedFd, RawFd};
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

use async_io::{Async, IoSafe, Timer};
use futures_io::{AsyncRead, AsyncWrite};
use vpoint::{Delivered, Point};

use crate::exec::*;
use crate::fdu;
use crate::rt::*;

/// An I/O object whose reads and writes succeed exactly while poll(2) says so and consume nothing, so
/// that a fired condition persists whatever the waiters do.
pub struct Io(pub OwnedFd);
impl AsFd for Io {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.0.as_fd()
    }
}
impl Io {
    fn attempt(&self, dir: usize) -> io::Result<usize> {
        let t = fdu::truth(self.0.as_raw_fd());
        if [t.0, t.1][dir] {
            Ok(1)
        } else {
            Err(io::ErrorKind::WouldBlock.into())
        }
    }
}
impl Read for Io {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        self.attempt(0)
    }
}
impl Read for &Io {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        self.attempt(0)
    }
}
impl Write for Io {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        self.attempt(1)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Write for &Io {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        self.attempt(1)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
unsafe impl IoSafe for Io {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum ChanKind {
    Unix,
    Tcp,
    PipeR,
    PipeW,
    Udp,
}

pub struct Chan {
    kind: ChanKind,
    h: Arc<Async<Io>>,
    fd: RawFd,
    gen: u32,
    created: u64,
    peer: Mutex<Option<OwnedFd>>,
    /// A task currently uses the poll-style slot of a direction.
    slot: [AtomicBool; 2],
    /// More than one task does so in this episode (they keep waking each other).
    shared: [AtomicBool; 2],
    /// Start of the current poll-style wait: (start of the call that began it, end of that call).
    pend: [Mutex<Option<(u64, u64)>>; 2],
}

fn tcp_pair() -> io::Result<(OwnedFd, OwnedFd)> {
    let l = TcpListener::bind((crate::fdu::lo(), 0))?;
    let a = TcpStream::connect(l.local_addr()?)?;
    let (b, _) = l.accept()?;
    a.set_nodelay(true)?;
    b.set_nodelay(true)?;
    Ok((a.into(), b.into()))
}
fn udp_pair() -> io::Result<(OwnedFd, OwnedFd)> {
    let a = UdpSocket::bind((crate::fdu::lo(), 0))?;
    let b = UdpSocket::bind((crate::fdu::lo(), 0))?;
    a.connect(b.local_addr()?)?;
    b.connect(a.local_addr()?)?;
    Ok((a.into(), b.into()))
}

impl Chan {
    fn new(rng: &mut Rng) -> Chan {
        let kind = *rng.pick(&[
            ChanKind::Unix,
            ChanKind::Unix,
            ChanKind::Unix,
            ChanKind::Tcp,
            ChanKind::PipeR,
            ChanKind::PipeW,
            ChanKind::Udp,
        ]);
        let (a, b) = match kind {
            ChanKind::Unix => fdu::socketpair(libc::SOCK_STREAM).unwrap(),
            ChanKind::Tcp => tcp_pair().unwrap(),
            ChanKind::PipeR => fdu::pipe().unwrap(),
            ChanKind::PipeW => {
                let (r, w) = fdu::pipe().unwrap();
                (w, r)
            }
            ChanKind::Udp => udp_pair().unwrap(),
        };
        if matches!(kind, ChanKind::Unix | ChanKind::Tcp) {
            fdu::set_buf(a.as_raw_fd(), 4096, 0);
            fdu::set_buf(b.as_raw_fd(), 0, 4096);
        }
        if matches!(kind, ChanKind::PipeW) {
            unsafe { libc::fcntl(a.as_raw_fd(), libc::F_SETPIPE_SZ, 4096) };
        }
        fdu::set_nonblocking(b.as_raw_fd(), true);
        let fd = a.as_raw_fd();
        let created = seq();
        let h = match Async::new(Io(a)) {
            Ok(h) => h,
            Err(e) => violation("Async::new failed without a cause", format!("{kind:?}: {e}")),
        };
        let gen = LAST_ADD.with(|l| l.get()).2;
        Chan {
            kind,
            h: Arc::new(h),
            fd,
            gen,
            created,
            peer: Mutex::new(Some(b)),
            slot: Default::default(),
            shared: Default::default(),
            pend: Default::default(),
        }
    }
    fn dirs(&self) -> &'static [usize] {
        match self.kind {
            ChanKind::Unix | ChanKind::Tcp => &[0, 1],
            ChanKind::PipeR => &[0],
            ChanKind::PipeW => &[1],
            ChanKind::Udp => &[0, 1],
        }
    }
    fn fire(&self, dir: usize) {
        if let Some(p) = &*lock(&self.peer) {
            let p = p.as_raw_fd();
            match dir {
                0 => {
                    let _ = fdu::write(p, b"x");
                }
                _ => {
                    fdu::drain(p);
                }
            }
        }
    }
    fn clear(&self, dir: usize) {
        match dir {
            0 => {
                if self.kind != ChanKind::PipeW {
                    fdu::drain(self.fd);
                }
            }
            _ => {
                if matches!(self.kind, ChanKind::Unix | ChanKind::PipeW) {
                    fdu::fill(self.fd);
                }
            }
        }
    }
    fn hangup(&self) {
        if self.kind == ChanKind::Udp {
            // Datagram peers leave no trace.
            return;
        }
        *lock(&self.peer) = None;
    }
    fn hung(&self) -> bool {
        lock(&self.peer).is_none()
    }
    fn truth(&self, dir: usize) -> bool {
        let t = fdu::truth(self.fd);
        [t.0, t.1][dir]
    }
}

/// Events delivered per registration.
#[derive(Clone, Copy, Debug)]
struct Ev {
    /// End of the previous wait: the round of this wait began after it.
    round: u64,
    enter: u64,
    exit: u64,
    /// [readable, writable]
    dirs: [bool; 2],
}
#[derive(Default)]
struct EventLog {
    map: HashMap<u32, Vec<Ev>>,
    last_enter: u64,
    last_exit: u64,
    events: u64,
}
static LOG: Mutex<Option<EventLog>> = Mutex::new(None);
fn with_log<R>(f: impl FnOnce(&mut EventLog) -> R) -> R {
    f(lock(&LOG).get_or_insert_with(Default::default))
}
/// A waiter that returned Pending and has not been polled or dropped since.
struct Reg {
    /// Identifies this poll.
    n: u64,
    gen: u32,
    dir: usize,
    end: u64,
    task: Arc<Task>,
    /// Wakes of the task before that poll.
    before: u64,
    /// It waits in a poll slot, which others may use too.
    slot: bool,
}
static WAITS: Mutex<Vec<Reg>> = Mutex::new(Vec::new());
static WAIT_IDS: AtomicU64 = AtomicU64::new(1);
thread_local! {
    /// Waiters that the round being processed by this thread has to wake.
    static DUE: RefCell<Vec<(u64, Ev)>> = const { RefCell::new(Vec::new()) };
}
fn unregister(n: u64) {
    if n != 0 {
        let mut w = lock(&WAITS);
        if let Some(i) = w.iter().position(|r| r.n == n) {
            let r = w.swap_remove(i);
            drop(w);
            drop(r);
        }
    }
}
struct Registered(u64);
impl Drop for Registered {
    fn drop(&mut self) {
        unregister(self.0)
    }
}
/// Runs a wait whose task must be woken in the round that retrieves an event for it.
async fn tracked<F: Future>(ch: Arc<Chan>, dir: usize, slot: bool, fut: F) -> F::Output {
    let mut fut = pin!(fut);
    let mut reg = Registered(0);
    poll_fn(|cx| {
        unregister(std::mem::take(&mut reg.0));
        let task = current();
        let before = task.as_ref().map_or(0, |t| t.all_wakes());
        let r = fut.as_mut().poll(cx);
        if let (true, Some(task)) = (r.is_pending(), task) {
            reg.0 = WAIT_IDS.fetch_add(1, SeqCst);
            lock(&WAITS).push(Reg { n: reg.0, gen: ch.gen, dir, end: seq(), task, before, slot });
        }
        r
    })
    .await
}
/// The round retrieved by this thread has been processed.
fn check_due() {
    let _ = DUE.try_with(|d| {
        let Ok(mut d) = d.try_borrow_mut() else { return };
        if d.is_empty() {
            return;
        }
        for (n, e) in d.drain(..) {
            let asleep = || {
                let w = lock(&WAITS);
                let r = w.iter().find(|r| r.n == n).filter(|r| r.task.all_wakes() == r.before)?;
                let s = format!(
                    "{} waits for direction {} since before seq {}; event delivered in the round begun at {}: {e:?}",
                    r.task.describe(),
                    r.dir,
                    r.end,
                    e.round
                );
                Some((r.slot, s))
            };
            // A task that took over the poll slot of another one wakes that one itself, and may not
            // have come to it yet. Nothing here keeps it from doing so.
            let mut h = Healthy::new();
            while let Some((slot, s)) = asleep() {
                if !slot || h.ticks >= 200 {
                    violation("a waiter was not woken by the event delivered for it", s);
                }
                if h.ticks > 0 {
                    count("waiters_given_time", 1);
                }
                h.tick();
                progress();
            }
            count("waiters_due_in_a_round", 1);
        }
    });
}

struct Mon;
impl Monitor for Mon {
    fn park(&self, _t: Option<Duration>) {
        check_due()
    }
    fn wait_enter(&self, _t: Option<Duration>, s: u64) -> Option<i32> {
        check_due();
        with_log(|l| l.last_enter = s);
        None
    }
    fn wait_exit(&self, events: &[Delivered], enter: u64, _ok: bool) {
        let exit = seq();
        let mut got = Vec::new();
        with_log(|l| {
            for e in events {
                l.events += 1;
                let ev = Ev { round: l.last_exit, enter, exit, dirs: [e.readable, e.writable] };
                l.map.entry(e.gen).or_default().push(ev);
                got.push((e.gen, ev));
            }
            l.last_exit = exit;
        });
        if !got.is_empty() {
            let w = lock(&WAITS);
            let _ = DUE.try_with(|d| {
                let Ok(mut d) = d.try_borrow_mut() else { return };
                for (gen, e) in got {
                    d.extend(w.iter().filter(|r| r.gen == gen && e.dirs[r.dir] && r.end < e.round).map(|r| (r.n, e)));
                }
            });
        }
    }
}

/// Judges that a readiness wait on `gen` that began in the call [b0, b1] was answered Ready by a call
/// that returned at `end`.
fn judge_ready(what: &str, ch: &Chan, dir: usize, b0: u64, end: u64) {
    let (ok, hist) = with_log(|l| {
        let v = l.map.get(&ch.gen).cloned().unwrap_or_default();
        (v.iter().any(|e| e.enter > b0 && e.exit < end && e.dirs[dir]), v)
    });
    if !ok {
        let tail: Vec<_> = hist.iter().rev().take(8).collect();
        violation(
            format!("{what}: a {} wait resolved without an event delivered since it began", ["readable", "writable"][dir]),
            format!(
                "handle {:?} fd {} registration {} created at seq {}; wait began at seq {b0}, resolved at seq {end}\n\
                 last events delivered for this registration (newest first): {tail:?}\n\
                 poll(2) says (readable, writable) = {:?}",
                ch.kind, ch.fd, ch.gen, ch.created, fdu::truth(ch.fd)
            ),
        );
    }
}
/// Judges that a call that started at `start` returned Pending for a wait that began in [b0, b1].
fn judge_pending(what: &str, ch: &Chan, dir: usize, b1: u64, start: u64) {
    let bad = with_log(|l| {
        // Events of a wait that ended before a later wait was entered have been processed. The log
        // only knows the last entered wait, which is enough: anything fetched earlier is processed.
        let le = l.last_enter;
        if le >= start {
            // A wait was entered after the call started; the one before it may still have been in
            // processing when the call looked, so only trust older waits.
            return None;
        }
        l.map
            .get(&ch.gen)
            .and_then(|v| v.iter().rev().find(|e| e.round > b1 && e.exit < le && e.dirs[dir]).copied())
    });
    if let Some(e) = bad {
        violation(
            format!("{what}: a {} wait stays pending although its event was delivered", ["readable", "writable"][dir]),
            format!(
                "handle {:?} fd {} registration {}; wait began before seq {b1}; event delivered in wait {:?} was processed before the poll at seq {start}",
                ch.kind, ch.fd, ch.gen, e
            ),
        );
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WKind {
    Future,
    Owned,
    With,
    WithMut,
    PollFn,
    AsyncIo,
}

/// Polls a readiness future once per task poll and judges every answer.
async fn judged<F: Future<Output = io::Result<()>>>(what: &'static str, ch: Arc<Chan>, dir: usize, fut: F) {
    let mut fut = pin!(fut);
    let mut began: Option<(u64, u64)> = None;
    poll_fn(|cx| {
        let start = seq();
        let r = fut.as_mut().poll(cx);
        let end = seq();
        match r {
            Poll::Ready(Ok(())) => {
                match began {
                    None => violation(
                        format!("{what}: resolved on its very first poll"),
                        format!("{:?} fd {}", ch.kind, ch.fd),
                    ),
                    Some((b0, _)) => judge_ready(what, &ch, dir, b0, end),
                }
                Poll::Ready(())
            }
            Poll::Ready(Err(e)) => violation(format!("{what}: error without a cause"), e.to_string()),
            Poll::Pending => {
                if let Some((_, b1)) = began {
                    judge_pending(what, &ch, dir, b1, start);
                } else {
                    began = Some((start, end));
                }
                Poll::Pending
            }
        }
    })
    .await
}

struct SlotGuard(Arc<Chan>, usize);
impl Drop for SlotGuard {
    fn drop(&mut self) {
        self.0.slot[self.1].store(false, SeqCst);
    }
}

async fn waiter(ch: Arc<Chan>, dir: usize, kind: WKind, loops: usize, slot: Option<SlotGuard>) {
    let c2 = ch.clone();
    for _ in 0..loops {
        tracked(c2.clone(), dir, matches!(kind, WKind::PollFn | WKind::AsyncIo), wait_once(ch.clone(), dir, kind)).await;
    }
    drop(slot);
}

async fn wait_once(ch: Arc<Chan>, dir: usize, kind: WKind) {
    let fail = |what: &str, e: io::Error| -> ! {
        violation(format!("{what}: error without a cause"), e.to_string())
    };
    {
        match kind {
            WKind::Future => {
                if dir == 0 {
                    judged("readable", ch.clone(), dir, ch.h.readable()).await
                } else {
                    judged("writable", ch.clone(), dir, ch.h.writable()).await
                }
            }
            WKind::Owned => {
                if dir == 0 {
                    judged("readable_owned", ch.clone(), dir, ch.h.clone().readable_owned()).await
                } else {
                    judged("writable_owned", ch.clone(), dir, ch.h.clone().writable_owned()).await
                }
            }
            WKind::With | WKind::WithMut => {
                let r = if dir == 0 {
                    ch.h.read_with(|io| io.attempt(0)).await
                } else {
                    ch.h.write_with(|io| io.attempt(1)).await
                };
                if let Err(e) = r {
                    fail("read_with/write_with", e)
                }
            }
            WKind::PollFn => {
                poll_fn(|cx| {
                    let mut p = lock(&ch.pend[dir]);
                    let start = seq();
                    let r = if dir == 0 { ch.h.poll_readable(cx) } else { ch.h.poll_writable(cx) };
                    let end = seq();
                    match r {
                        Poll::Ready(Ok(())) => {
                            match *p {
                                None => violation(
                                    "poll_readable/poll_writable: Ready on the first call of a wait",
                                    format!("{:?} fd {}", ch.kind, ch.fd),
                                ),
                                Some((b0, _)) => judge_ready("poll_readable/poll_writable", &ch, dir, b0, end),
                            }
                            *p = None;
                            Poll::Ready(())
                        }
                        Poll::Ready(Err(e)) => fail("poll_readable/poll_writable", e),
                        Poll::Pending => {
                            if let Some((_, b1)) = *p {
                                judge_pending("poll_readable/poll_writable", &ch, dir, b1, start);
                            }
                            // A call with another waker takes the wait over from here on.
                            *p = Some((p.map_or(start, |(b0, _)| b0), end));
                            Poll::Pending
                        }
                    }
                })
                .await
            }
            WKind::AsyncIo => {
                poll_fn(|cx| {
                    let mut p = lock(&ch.pend[dir]);
                    let start = seq();
                    let mut h = &*ch.h;
                    let r = if dir == 0 {
                        Pin::new(&mut h).poll_read(cx, &mut [0; 4])
                    } else {
                        Pin::new(&mut h).poll_write(cx, &[0; 4])
                    };
                    let end = seq();
                    match r {
                        Poll::Ready(Ok(_)) => {
                            // The inner wait may or may not have been consumed: do not judge the
                            // next Pending.
                            if let Some(p) = &mut *p {
                                p.1 = u64::MAX;
                            }
                            Poll::Ready(())
                        }
                        Poll::Ready(Err(e)) => fail("poll_read/poll_write", e),
                        Poll::Pending => {
                            // The inner wait may have been restarted within this call, so a later
                            // Pending of this wait cannot be judged: move the end of its start.
                            let b0 = p.map_or(start, |(b0, _)| b0);
                            *p = Some((b0, end));
                            Poll::Pending
                        }
                    }
                })
                .await
            }
        }
    }
}

struct Waiter {
    ch: Arc<Chan>,
    dir: usize,
    task: Arc<Task>,
    /// Number of waits, if each is a plain readiness wait.
    bound: Option<u64>,
}

static CLOSER: Mutex<Vec<(Vec<Arc<Chan>>, Arc<AtomicBool>)>> = Mutex::new(Vec::new());
static CLOSING: AtomicU64 = AtomicU64::new(0);
fn closer() {
    loop {
        let j = lock(&CLOSER).pop();
        match j {
            Some((refs, go)) => {
                go.store(true, SeqCst);
                drop(refs);
                CLOSING.fetch_sub(1, SeqCst);
            }
            None => std::thread::sleep(Duration::from_micros(50)),
        }
    }
}

pub struct Cfg {
    /// Replace handles aggressively (C02).
    pub churn: bool,
}

pub fn run(cfg: Cfg) {
    set_monitor(&Mon);
    start_watchdog();
    if cfg.churn {
        std::thread::spawn(closer);
    }
    let o = opts();
    let mut rng = Rng::new(o.seed);
    // Warm up: create the reactor.
    drop(Async::new(Io(fdu::eventfd().unwrap())).unwrap());
    let pool = Pool::new(&[Kind::Plain, Kind::BlockOn, Kind::Plain, Kind::BlockOn]);
    let mut chans: Vec<Arc<Chan>> = (0..5).map(|_| Arc::new(Chan::new(&mut rng))).collect();
    let mut noise: Vec<Arc<Task>> = Vec::new();
    let mut episode = 0u64;
    while time_left() {
        episode += 1;
        if episode % 24 == 1 {
            pool.shuffle(&mut rng);
        }
        if episode % 8 == 1 {
            inj_shuffle(&mut rng);
            if cfg.churn && rng.chance(60) {
                inj_set(Point::WaitExit, 900, *rng.pick(&[200, 600, 1500]));
            }
        }
        if episode % 1500 == 20 {
            crate::crowd::crowd(&mut rng);
        }
        run_episode(&cfg, episode, &mut rng, &pool, &mut chans, &mut noise);
    }
    inj_off();
    count("events_delivered", with_log(|l| l.events) as i64);
    report_points();
    finish()
}

fn spawn_waiter(rng: &mut Rng, pool: &Pool, ch: &Arc<Chan>, dir: usize, waiters: &mut Vec<Waiter>) -> u64 {
    let kind = match rng.below(10) {
        0..=3 => WKind::Future,
        4 => WKind::Owned,
        5 => WKind::With,
        6 => WKind::WithMut,
        7..=8 => WKind::PollFn,
        _ => WKind::AsyncIo,
    };
    let mut slot = None;
    let mut kind = kind;
    if matches!(kind, WKind::PollFn | WKind::AsyncIo) {
        if ch.slot[dir].swap(true, SeqCst) {
            if rng.chance(15) {
                ch.shared[dir].store(true, SeqCst);
                count("shared_poll_slots", 1);
            } else {
                kind = WKind::Future;
            }
        } else {
            slot = Some(SlotGuard(ch.clone(), dir));
        }
    }
    let loops = *rng.pick(&[1, 1, 1, 2, 3]);
    let name = format!("{kind:?} dir={dir} {:?} fd={} gen={} loops={loops}", ch.kind, ch.fd, ch.gen);
    let reuse = *rng.pick(&[0, 50, 100]);
    let task = pool.spawn(rng, name, reuse, waiter(ch.clone(), dir, kind, loops, slot));
    count(&format!("waiters_{kind:?}"), 1);
    let bound = matches!(kind, WKind::Future | WKind::Owned | WKind::PollFn).then_some(loops as u64);
    waiters.push(Waiter { ch: ch.clone(), dir, task, bound });
    (kind as u64) << 8 | (dir as u64) << 4 | loops as u64
}

fn run_episode(
    cfg: &Cfg,
    episode: u64,
    rng: &mut Rng,
    pool: &Pool,
    chans: &mut Vec<Arc<Chan>>,
    noise: &mut Vec<Arc<Task>>,
) {
    let mut script: Vec<String> = Vec::new();
    let mut sig = 0u64;
    take_trace();
    // Replace hung-up chans, and sometimes others.
    for c in chans.iter_mut() {
        if c.hung() || rng.chance(if cfg.churn { 30 } else { 4 }) {
            *c = Arc::new(Chan::new(rng));
        }
    }
    let kmax = if rng.chance(70) { 2 } else { 4 };
    let k = rng.range(1, kmax) as usize;
    let mut used: Vec<Arc<Chan>> = Vec::new();
    for _ in 0..k {
        let c = rng.pick(chans).clone();
        if !used.iter().any(|u| Arc::ptr_eq(u, &c)) {
            used.push(c);
        }
    }
    for c in &used {
        for s in &c.shared {
            s.store(false, SeqCst);
        }
        for &d in c.dirs() {
            c.fire(1 - d);
        }
        for &d in c.dirs() {
            if rng.chance(85) {
                c.clear(d);
            }
        }
    }
    let mut waiters: Vec<Waiter> = Vec::new();
    let n = rng.range(1, 5);
    for _ in 0..n {
        let c = rng.pick(&used).clone();
        let d = *rng.pick(c.dirs());
        sig = mix(sig, spawn_waiter(rng, pool, &c, d, &mut waiters));
        script.push(format!("spawn {}", waiters.last().unwrap().task.name));
        if rng.chance(30) {
            delay(200);
        }
    }
    if rng.chance(60) {
        delay(*rng.pick(&[50, 300, 1500]));
    }
    let steps = rng.range(0, 10);
    for _ in 0..steps {
        let mut op = rng.below(if cfg.churn { 15 } else { 12 });
        if waiters.is_empty() && matches!(op, 3..=6) {
            op = 7;
        }
        sig = mix(sig, op);
        match op {
            0 | 1 => {
                let c = rng.pick(&used);
                let d = *rng.pick(c.dirs());
                script.push(format!("fire fd={} dir={d}", c.fd));
                c.fire(d);
            }
            2 => {
                let c = rng.pick(&used);
                let d = *rng.pick(c.dirs());
                script.push(format!("pulse fd={} dir={d}", c.fd));
                c.fire(d);
                delay(*rng.pick(&[1, 50, 200]));
                c.clear(d);
            }
            3 | 4 => {
                let i = rng.us(waiters.len());
                let w = &waiters[i];
                let fresh = rng.chance(60);
                script.push(format!("repoll {} fresh={fresh}", w.task.name));
                let r = pool.any(rng).clone();
                w.task.repoll(&r, fresh);
            }
            5 | 6 => {
                let w = rng.pick(&waiters);
                script.push(format!("cancel {}", w.task.name));
                w.task.cancel();
            }
            7 | 8 => {
                let c = rng.pick(&used).clone();
                let d = *rng.pick(c.dirs());
                sig = mix(sig, spawn_waiter(rng, pool, &c, d, &mut waiters));
                script.push(format!("spawn {}", waiters.last().unwrap().task.name));
            }
            9 => delay(*rng.pick(&[20, 100, 500])),
            10 => {
                if rng.chance(30) {
                    let c = rng.pick(&used);
                    script.push(format!("hangup fd={}", c.fd));
                    c.hangup();
                }
            }
            11 => {
                // Noise: timers of other tasks.
                let us = rng.range(0, 3000);
                noise.push(pool.spawn(rng, "timer".into(), 50, async move {
                    Timer::after(Duration::from_micros(us)).await;
                }));
            }
            _ => {
                // Replace a handle: its descriptor number and reactor slot get reused at once, while
                // an event for the old one may be in flight.
                let i = rng.us(used.len());
                let old = used[i].clone();
                for &d in old.dirs() {
                    if rng.chance(70) {
                        old.fire(d);
                    }
                }
                let (mine, rest): (Vec<_>, Vec<_>) =
                    waiters.drain(..).partition(|w| Arc::ptr_eq(&w.ch, &old));
                waiters = rest;
                let mut closing = None;
                if rng.chance(50) {
                    delay(200);
                }
                for w in &mine {
                    w.task.cancel();
                }
                drop(mine);
                if rng.chance(40) {
                    // The old one is closed by another thread at the same time, and becomes ready only now.
                    closing = lock(&old.peer).take();
                    for &d in old.dirs() {
                        if rng.chance(70) {
                            old.clear(d);
                            let mut f: Pin<Box<dyn Future<Output = io::Result<()>>>> = match d {
                                0 => Box::pin(old.h.readable()),
                                _ => Box::pin(old.h.writable()),
                            };
                            let _ = f.as_mut().poll(&mut Context::from_waker(Waker::noop()));
                        }
                    }
                    inj_set(Point::PreDelete, 700, 1000);
                    let go = Arc::new(AtomicBool::new(false));
                    let mut refs = vec![old];
                    for c in chans.iter_mut() {
                        if Arc::ptr_eq(c, &refs[0]) {
                            refs.push(std::mem::replace(c, Arc::new(Chan::new(rng))));
                        }
                    }
                    refs.push(std::mem::replace(&mut used[i], chans[0].clone()));
                    CLOSING.fetch_add(1, SeqCst);
                    lock(&CLOSER).push((refs, go.clone()));
                    while !go.load(SeqCst) {
                        std::hint::spin_loop();
                    }
                    delay(30);
                } else {
                    for c in chans.iter_mut() {
                        if Arc::ptr_eq(c, &old) {
                            *c = Arc::new(Chan::new(rng));
                        }
                    }
                    drop(old);
                }
                used[i] = Arc::new(Chan::new(rng));
                for &d in used[i].dirs() {
                    used[i].clear(d);
                    if rng.chance(70) {
                        let c = used[i].clone();
                        spawn_waiter(rng, pool, &c, d, &mut waiters);
                    }
                }
                script.push(format!("replace handle by fd={} gen={}", used[i].fd, used[i].gen));
                if let Some(p) = closing {
                    delay(60);
                    let p: OwnedFd = p;
                    let _ = fdu::write(p.as_raw_fd(), b"x");
                    fdu::drain(p.as_raw_fd());
                    await_cond(|| CLOSING.load(SeqCst) == 0, "dropping a handle does not return", || Some("closer stuck".into()));
                    inj_set(Point::PreDelete, 0, 0);
                    count("handles_replaced_while_closing", 1);
                }
                if rng.chance(60) {
                    delay(*rng.pick(&[100, 1000]));
                }
            }
        }
    }
    // Make every awaited condition true and keep it true.
    for w in &waiters {
        if !w.task.is_done() {
            w.ch.fire(w.dir);
        }
        if rng.chance(20) {
            delay(100);
        }
    }
    activity(format!("episode {episode}: {script:?}"));
    let began = Instant::now();
    await_cond(
        || {
            let mut all = true;
            for w in &waiters {
                if !w.task.is_done() {
                    all = false;
                    // A TCP peer has to be drained until its window has opened again.
                    if w.ch.kind == ChanKind::Tcp && !w.ch.truth(w.dir) {
                        w.ch.fire(w.dir);
                    }
                }
            }
            all
        },
        "a task waits although its descriptor is ready",
        || {
            let mut s = String::new();
            let mut due = false;
            for w in &waiters {
                let t = w.ch.truth(w.dir);
                if std::env::var_os("VH_DEBUG").is_some() {
                    eprintln!("{} ready={t} hung={} queued={:?}", w.task.describe(), w.ch.hung(), fdu::truth(w.ch.fd));
                }
                if !w.task.is_done() && t {
                    due = true;
                }
                s.push_str(&format!("{} | poll(2) ready={t}\n", w.task.describe()));
            }
            // Everything may have completed under the forced rounds: then they were all late.
            due |= waiters.iter().all(|w| w.task.is_done());
            due.then(|| format!("episode {episode} script {script:#?}\n{s}"))
        },
    );
    if began.elapsed().as_millis() > 300 && std::env::var_os("VH_DEBUG").is_some() {
        eprintln!("slow {:?} {script:?}", began.elapsed());
    }
    for w in &waiters {
        // An event of the round that was current when the wait began is not accepted, any later one
        // is: a wait needs at most two wakeups, whatever else happens.
        let n = w.task.wakes.load(SeqCst);
        if let (Some(loops), false) = (w.bound, w.ch.shared[w.dir].load(SeqCst)) {
            check!(
                n <= 2 * loops,
                "a readiness wait was woken {n} times although {} events suffice: {} (script {script:?})",
                2 * loops,
                w.task.describe()
            );
        }
    }
    maximum("slowest_episode_us", began.elapsed().as_micros() as i64);
    count("cancelled", waiters.iter().filter(|w| w.task.cancelled.load(SeqCst)).count() as i64);
    count("stale_wakes", waiters.iter().map(|w| w.task.stale_wakes.load(SeqCst) as i64).sum());
    count("waiters", waiters.len() as i64);
    let contended = waiters.len() > 1 || !script.is_empty();
    evaluated(contended.then(|| mix(sig, take_trace())));
    if episode % 37 == 5 {
        sample(|| format!("{script:?}"));
    }
    noise.retain(|t| !t.is_done());
    if noise.len() > 50 {
        for t in noise.drain(..) {
            t.cancel();
        }
    }
    // Forget events of dead registrations.
    if episode % 50 == 0 {
        let live: Vec<u32> = chans.iter().chain(used.iter()).map(|c| c.gen).collect();
        with_log(|l| l.map.retain(|g, _| live.contains(g)));
    }
    if episode % 50 == 25 {
        with_log(|l| {
            for v in l.map.values_mut() {
                if v.len() > 512 {
                    v.drain(..v.len() - 256);
                }
            }
        });
    }
}
