//! C16: an idle program is idle.

use std::collections::HashMap;
use std::future::{poll_fn, Future};
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

use async_io::{Async, ReadableOwned, Timer, WritableOwned};

use crate::exec::*;
use crate::fdu;
use crate::rt::*;

fn activity_now() -> u64 {
    WAITS_ENTERED.load(SeqCst) + PARKS_TIMED.load(SeqCst)
}

/// CPU time of the threads (ns), without the calling one and the watchdog.
fn cpu() -> HashMap<String, (u64, String)> {
    let mut m = HashMap::new();
    let me = unsafe { libc::gettid() }.to_string();
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            let id = e.file_name().to_string_lossy().to_string();
            let name = std::fs::read_to_string(e.path().join("comm")).unwrap_or_default().trim().to_string();
            if id == me || name == "watchdog" || name == "disturber" {
                continue;
            }
            let s = std::fs::read_to_string(e.path().join("schedstat")).unwrap_or_default();
            let ns = s.split_whitespace().next().and_then(|x| x.parse().ok()).unwrap_or(0);
            m.insert(id, (ns, name));
        }
    }
    m
}

/// Waits until nothing happens any more, and returns how much happened until then.
fn settle(limit: u64, what: &str, script: &str) -> u64 {
    settle_for(5, limit, what, script)
}

fn settle_for(ticks: u64, limit: u64, what: &str, script: &str) -> u64 {
    let a0 = activity_now();
    let (w0, p0) = (WAITS_ENTERED.load(SeqCst), PARKS_TIMED.load(SeqCst));
    let mut last = a0;
    let mut quiet = 0;
    let mut h = Healthy::new();
    while quiet < ticks {
        let t0 = h.ticks;
        h.tick();
        progress();
        let a = activity_now();
        if a != last {
            last = a;
            quiet = 0;
        } else if h.ticks > t0 {
            quiet += 1;
        }
        if a - a0 > limit {
            violation(
                format!("{what}: no rest"),
                format!(
                    "{} waits and {} timed sleeps in {} ms\n{script}\n{}",
                    WAITS_ENTERED.load(SeqCst) - w0,
                    PARKS_TIMED.load(SeqCst) - p0,
                    h.ticks * 10,
                    threads_dump()
                ),
            );
        }
    }
    last - a0
}

/// Nothing happens for a while.
fn window(mut ticks: u64, nearest: Option<Instant>, script: &str) {
    let mut attempt = 0;
    let (c0, t0) = loop {
        let a0 = activity_now();
        let c0 = cpu();
        let t0 = Instant::now();
        let mut h = Healthy::new();
        while h.ticks < ticks {
            h.tick();
            progress();
        }
        let a = activity_now();
        if a == a0 {
            break (c0, t0);
        }
        // A thread that got no CPU for long may still have had a step to make when everything seemed to be at rest. Only what goes
        // on, in ever longer windows, counts.
        attempt += 1;
        check!(
            attempt < 3,
            "{} waits or timed sleeps while nothing was due for {:?}, and again and again before: {script}",
            a - a0,
            t0.elapsed()
        );
        count("idle_windows_repeated", 1);
        settle_for(20 * attempt, 200, "nothing was due, but there was activity, and after that", script);
        ticks = ticks.max(10) * 3;
    };
    let c1 = cpu();
    let wall = t0.elapsed().as_nanos() as u64;
    for (id, (ns, name)) in &c1 {
        if let Some((ns0, _)) = c0.get(id) {
            let d = ns - ns0;
            maximum("max_idle_cpu_permille", (d * 1000 / wall) as i64);
            check!(
                d < wall / 5,
                "thread {name:?} used {} of {} us of CPU while nothing was due: {script}",
                d / 1000,
                wall / 1000
            );
        }
    }
    // The sleep has no earlier end than the next deadline.
    if IN_WAIT.load(SeqCst) {
        let t = LAST_TIMEOUT_NS.load(SeqCst);
        match nearest {
            None => check!(t < 0, "the reactor sleeps for {t} ns only, although no timer is set: {script}"),
            Some(d) => {
                let left = d.saturating_duration_since(Instant::now()).as_nanos() as i64;
                check!(t < 0 || t >= left, "the reactor sleeps for {t} ns only, the next timer is due in {left}: {script}")
            }
        }
        count("sleep_bounds_checked", 1);
        count(if WAITER_IS_HELPER.load(SeqCst) { "helper_in_wait" } else { "caller_in_wait" }, 1);
    }
    count("idle_windows", 1);
    count("idle_ms", (ticks * 10) as i64);
}

// ---------------------------------------------------------------------------------------------

/// A block_on caller that stays until it is told to leave.
struct Caller {
    leave: AtomicBool,
    cv: (Mutex<bool>, Condvar),
    waker: Mutex<Option<Waker>>,
    kind: u64,
    thread: Mutex<Option<std::thread::JoinHandle<()>>>,
    polls: AtomicU64,
}
impl Caller {
    fn start(kind: u64) -> Arc<Caller> {
        let c = Arc::new(Caller {
            leave: AtomicBool::new(false),
            cv: Default::default(),
            waker: Mutex::new(None),
            kind,
            thread: Mutex::new(None),
            polls: AtomicU64::new(0),
        });
        let c2 = c.clone();
        let t = std::thread::Builder::new()
            .name(format!("caller{kind}"))
            .spawn(move || c2.body())
            .unwrap();
        *lock(&c.thread) = Some(t);
        c
    }
    fn pending(&self) -> impl Future<Output = ()> + '_ {
        poll_fn(|cx| {
            *lock(&self.waker) = Some(cx.waker().clone());
            self.polls.fetch_add(1, SeqCst);
            if self.leave.load(SeqCst) {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        })
    }
    fn stuck(&self) {
        let mut g = lock(&self.cv.0);
        while !*g {
            g = self.cv.1.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    fn body(&self) {
        match self.kind {
            0 => async_io::block_on(self.pending()),
            1 => async_io::block_on(async { self.stuck() }),
            2 => async_io::block_on(async { async_io::block_on(self.pending()) }),
            // Has driven the reactor before.
            3 => async_io::block_on(async {
                Timer::after(Duration::from_millis(2)).await;
                self.pending().await
            }),
            4 => {
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    async_io::block_on(async {
                        Timer::after(Duration::from_millis(1)).await;
                        panic_any(Deliberate)
                    })
                }));
                async_io::block_on(self.pending())
            }
            // Gets hold of the reactor, by and by: it processes events itself whenever it is woken, and the async-io thread is
            // held up in between.
            6 => {
                let mut n = 3 + rnd(12);
                async_io::block_on(poll_fn(|cx| {
                    *lock(&self.waker) = Some(cx.waker().clone());
                    hold_helper();
                    if n > 0 {
                        n -= 1;
                        cx.waker().wake_by_ref();
                        std::thread::sleep(Duration::from_micros(rnd(120)));
                        return Poll::Pending;
                    }
                    self.polls.fetch_add(1, SeqCst);
                    if self.leave.load(SeqCst) {
                        Poll::Ready(())
                    } else {
                        Poll::Pending
                    }
                }))
            }
            // Nested panic.
            _ => async_io::block_on(async {
                let _ = catch_unwind(AssertUnwindSafe(|| async_io::block_on(async { panic_any(Deliberate) })));
                self.pending().await
            }),
        }
    }
    fn poke(&self) {
        let w = lock(&self.waker).clone();
        if let Some(w) = w {
            w.wake()
        }
    }
    fn stop(&self) {
        self.leave.store(true, SeqCst);
        *lock(&self.cv.0) = true;
        self.cv.1.notify_all();
        self.poke();
        let t = lock(&self.thread).take();
        if let Some(t) = t {
            await_cond(|| t.is_finished(), "a block_on call that was woken", || Some(format!("kind {}", self.kind)));
        }
    }
}

#[derive(Default)]
struct Flag(AtomicU64);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

type Handle = Arc<Async<UnixStream>>;
struct World {
    handles: Vec<(Handle, Option<UnixStream>)>,
    r: Vec<ReadableOwned<UnixStream>>,
    w: Vec<WritableOwned<UnixStream>>,
    timers: Vec<Timer>,
    far: Vec<(Timer, Instant)>,
    ever: Option<Instant>,
    callers: Vec<Arc<Caller>>,
    tasks: Vec<Arc<Task>>,
    pending: Vec<(Arc<Task>, u64)>,
    flag: Arc<Flag>,
    script: String,
}
impl World {
    fn step(&mut self, rng: &mut Rng, pool: &Pool) {
        let waker: Waker = self.flag.clone().into();
        let mut cx = Context::from_waker(&waker);
        let op = rng.below(20);
        self.script.push_str(&format!("{op} "));
        let k = rng.us(self.handles.len().max(1));
        match op {
            0 | 1 if self.handles.len() < 30 => {
                let (a, b) = UnixStream::pair().unwrap();
                a.set_nonblocking(true).unwrap();
                b.set_nonblocking(true).unwrap();
                if rng.chance(40) {
                    fdu::fill(a.as_raw_fd());
                }
                self.handles.push((Arc::new(Async::new(a).unwrap()), Some(b)));
            }
            2 | 3 if !self.handles.is_empty() => {
                let mut f = self.handles[k].0.clone().readable_owned();
                if Pin::new(&mut f).poll(&mut cx).is_pending() && rng.chance(80) {
                    self.r.push(f)
                }
            }
            4 if !self.handles.is_empty() => {
                let mut f = self.handles[k].0.clone().writable_owned();
                if Pin::new(&mut f).poll(&mut cx).is_pending() && rng.chance(80) {
                    self.w.push(f)
                }
            }
            5 if !self.handles.is_empty() => {
                let h = &self.handles[k].0;
                let _ = if rng.chance(50) { h.poll_readable(&mut cx) } else { h.poll_writable(&mut cx) };
            }
            6 | 7 if !self.handles.is_empty() => {
                if let Some(p) = &self.handles[k].1 {
                    let _ = fdu::write(p.as_raw_fd(), b"x");
                }
            }
            8 if !self.handles.is_empty() => {
                // The peer hangs up.
                self.handles[k].1 = None;
            }
            9 => {
                // A timer that expires and is then left alone.
                let mut t = if rng.chance(50) {
                    Timer::after(Duration::from_micros(rng.below(2000)))
                } else {
                    Timer::interval(Duration::from_micros(1 + rng.below(2000)))
                };
                let _ = Pin::new(&mut t).poll(&mut cx);
                self.timers.push(t);
            }
            10 => {
                let d = if rng.chance(30) { huge(rng) } else { Duration::from_secs(rng.range(1000, 100_000)) };
                let at = Instant::now() + d;
                let mut t = if rng.chance(50) { Timer::at(at) } else { Timer::interval_at(at, Duration::from_micros(1)) };
                let _ = Pin::new(&mut t).poll(&mut cx);
                self.far.push((t, at));
                self.nearest();
            }
            11 => {
                let mut t = Timer::never();
                let _ = Pin::new(&mut t).poll(&mut cx);
                self.timers.push(t);
            }
            12 if !self.timers.is_empty() => {
                let i = rng.us(self.timers.len());
                drop(self.timers.swap_remove(i));
            }
            13 if !self.far.is_empty() => {
                let i = rng.us(self.far.len());
                let (mut t, _) = self.far.swap_remove(i);
                match rng.below(3) {
                    0 => {}
                    1 => {
                        // Becomes due at once.
                        t.set_after(Duration::ZERO);
                        self.timers.push(t);
                    }
                    _ => {
                        let at = Instant::now() + Duration::from_secs(5000);
                        t.set_at(at);
                        self.far.push((t, at));
                        self.nearest();
                    }
                }
            }
            14 if self.callers.len() < 4 => {
                let k = rng.below(7);
                self.script.push_str(&format!("caller{k} "));
                self.callers.push(Caller::start(k));
            }
            15 if !self.callers.is_empty() => {
                let i = rng.us(self.callers.len());
                self.callers.swap_remove(i).stop();
            }
            16 => {
                // A block_on call that is over.
                let k = rng.below(3);
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    async_io::block_on(async {
                        if k > 0 {
                            Timer::after(Duration::from_micros(200)).await;
                        }
                        if k > 1 {
                            panic_any(Deliberate);
                        }
                    })
                }));
            }
            17 if !self.handles.is_empty() => {
                // Tasks that wait and are perhaps cancelled.
                let h = self.handles[k].0.clone();
                let t = pool.spawn(rng, "task".into(), 50, async move {
                    let _ = futures_lite::future::or(async { h.readable().await.ok() }, async { h.writable().await.ok() }).await;
                });
                if rng.chance(50) {
                    t.cancel();
                }
                self.tasks.push(t);
            }
            19 if self.pending.len() < 20 => {
                let k = rng.below(PENDING_KINDS);
                self.script.push_str(&format!("op{k} "));
                let t = pool.spawn(rng, format!("pending operation {k}"), 50, pending_op(k));
                self.pending.push((t, k));
            }
            18 if !self.handles.is_empty() && rng.chance(50) => {
                let (h, p) = self.handles.swap_remove(k);
                drop((h, p));
            }
            _ => std::thread::sleep(Duration::from_micros(rng.below(500))),
        }
    }
    /// The nearest deadline there ever was: removing a timer does not interrupt the sleep.
    fn nearest(&mut self) -> Option<Instant> {
        self.ever = self.far.iter().map(|f| f.1).chain(self.ever).min();
        self.ever
    }
    /// A single event.
    fn event(&mut self, rng: &mut Rng) -> &'static str {
        let waker: Waker = self.flag.clone().into();
        let mut cx = Context::from_waker(&waker);
        match rng.below(7) {
            0 => {
                let mut t = Timer::after(Duration::from_secs(100_000));
                let _ = Pin::new(&mut t).poll(&mut cx);
                self.far.push((t, Instant::now() + Duration::from_secs(100_000)));
                "a timer is created"
            }
            1 => {
                let mut t = Timer::after(Duration::from_millis(1));
                // A flag of its own; a timer that is due when it is first polled wakes nobody.
                let fl = Arc::new(Flag::default());
                let w: Waker = fl.clone().into();
                if Pin::new(&mut t).poll(&mut Context::from_waker(&w)).is_pending() {
                    await_cond(|| fl.0.load(SeqCst) > 0, "a timer", || Some(String::new()));
                }
                self.timers.push(t);
                "a timer fires"
            }
            2 | 3 => {
                let (a, b) = UnixStream::pair().unwrap();
                let h = Arc::new(Async::new(a).unwrap());
                let mut f = h.clone().readable_owned();
                let fl = Arc::new(Flag::default());
                let w: Waker = fl.clone().into();
                let _ = Pin::new(&mut f).poll(&mut Context::from_waker(&w));
                if rng.chance(50) {
                    let _ = (&b).write_all_(b"x");
                    self.handles.push((h, Some(b)));
                } else {
                    drop(b);
                    self.handles.push((h, None));
                }
                await_cond(|| fl.0.load(SeqCst) > 0, "an event", || Some(String::new()));
                self.r.push(f);
                "a handle becomes readable"
            }
            4 if self.callers.iter().any(|c| c.kind != 1) => {
                let c = self.callers.iter().find(|c| c.kind != 1).unwrap();
                let p0 = c.polls.load(SeqCst);
                if p0 == 0 {
                    return "nothing";
                }
                c.poke();
                await_cond(|| c.polls.load(SeqCst) > p0, "a block_on call that was woken", || Some(String::new()));
                "a block_on call is woken"
            }
            5 if !self.callers.is_empty() => {
                let c = self.callers.pop().unwrap();
                c.stop();
                "a block_on call ends"
            }
            _ => {
                self.callers.push(Caller::start(*rng.pick(&[0, 1, 6])));
                "a block_on call begins"
            }
        }
    }
}
const PENDING_KINDS: u64 = 22;
/// An operation that cannot finish, of any kind: it has to wait for its own direction, while the other one may be ready.
async fn pending_op(k: u64) {
    use futures_lite::{AsyncReadExt, AsyncWriteExt, StreamExt};
    use std::net::{TcpListener, TcpStream, UdpSocket};
    use std::os::unix::net::{UnixDatagram, UnixListener};
    let mut buf = [0u8; 16];
    let lo = (fdu::lo(), 0);
    let what = match k {
        0..=3 => {
            let s = Async::<UdpSocket>::bind(lo).unwrap();
            let p = UdpSocket::bind(lo).unwrap();
            s.get_ref().connect(p.local_addr().unwrap()).unwrap();
            match k {
                0 => s.recv_from(&mut buf).await.map(|_| ()),
                1 => s.peek_from(&mut buf).await.map(|_| ()),
                2 => s.recv(&mut buf).await.map(|_| ()),
                _ => s.peek(&mut buf).await.map(|_| ()),
            }
        }
        4 | 5 => {
            let (s, _p) = Async::<UnixDatagram>::pair().unwrap();
            if k == 4 {
                s.recv_from(&mut buf).await.map(|_| ())
            } else {
                s.recv(&mut buf).await.map(|_| ())
            }
        }
        6 => {
            // The queue of the peer is full.
            let (s, _p) = Async::<UnixDatagram>::pair().unwrap();
            while s.get_ref().send(b"x").is_ok() {}
            s.send(b"y").await.map(|_| ())
        }
        7 | 8 | 9 => {
            let l = TcpListener::bind(lo).unwrap();
            let mut s = Async::<TcpStream>::connect(l.local_addr().unwrap()).await.unwrap();
            let _p = l.accept().unwrap();
            match k {
                7 => s.peek(&mut buf).await.map(|_| ()),
                8 => s.read(&mut buf).await.map(|_| ()),
                _ => {
                    // Other data than the kernel takes.
                    loop {
                        if s.write(&[0; 65536]).await.is_err() {
                            break Ok(());
                        }
                    }
                }
            }
        }
        10 | 11 => {
            let l = Async::<TcpListener>::bind(lo).unwrap();
            if k == 10 {
                l.accept().await.map(|_| ())
            } else {
                let mut i = Box::pin(l.incoming());
                i.next().await.unwrap().map(|_| ())
            }
        }
        12 | 13 => {
            let path = scratch_name();
            let l = Async::<UnixListener>::bind(&path).unwrap();
            let _ = std::fs::remove_file(&path);
            if k == 12 {
                l.accept().await.map(|_| ())
            } else {
                let mut i = Box::pin(l.incoming());
                i.next().await.unwrap().map(|_| ())
            }
        }
        _ => {
            let (mut s, _p) = Async::<UnixStream>::pair().unwrap();
            if k % 2 == 1 {
                fdu::fill(s.as_raw_fd());
            }
            match k {
                14 => s.read(&mut buf).await.map(|_| ()),
                15 => s.write(&buf).await.map(|_| ()),
                16 => s.read_vectored(&mut [std::io::IoSliceMut::new(&mut buf)]).await.map(|_| ()),
                17 => s.write_vectored(&[std::io::IoSlice::new(&buf)]).await.map(|_| ()),
                18 => (&s).read(&mut buf).await.map(|_| ()),
                19 => (&s).write(&buf).await.map(|_| ()),
                20 => s.read_with(|mut io| std::io::Read::read(&mut io, &mut buf)).await.map(|_| ()),
                _ => s.write_with(|mut io| std::io::Write::write(&mut io, &buf)).await.map(|_| ()),
            }
        }
    };
    violation(format!("a pending operation (kind {k}) finished: {what:?}"), "");
}
fn scratch_name() -> std::path::PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    std::env::temp_dir().join(format!("vh-idle-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)))
}
trait W {
    fn write_all_(&self, b: &[u8]) -> bool;
}
impl W for &UnixStream {
    fn write_all_(&self, b: &[u8]) -> bool {
        fdu::write(self.as_raw_fd(), b).is_ok()
    }
}

pub fn run() {
    start_watchdog();
    let mut rng = Rng::new(opts().seed);
    let pool = Pool::new(&[Kind::Plain]);
    let flag = Arc::new(Flag::default());
    let fresh = |flag: &Arc<Flag>| World {
        handles: vec![],
        r: vec![],
        w: vec![],
        timers: vec![],
        far: vec![],
        ever: None,
        callers: vec![],
        tasks: vec![],
        pending: vec![],
        flag: flag.clone(),
        script: String::new(),
    };
    let mut w = fresh(&flag);
    // The very first use of the reactor is a block_on call: it gets hold of the reactor before the async-io thread is there, and
    // keeps it.
    let k = *rng.pick(&[0, 0, 0, 2, 3]);
    w.script.push_str(&format!("first caller{k} "));
    w.callers.push(Caller::start(k));
    std::thread::sleep(Duration::from_millis(5));
    let n = settle(300, "after a first block_on call", &w.script);
    maximum("max_steps_until_idle", n as i64);
    window(12, None, &w.script);
    if IN_WAIT.load(SeqCst) && !WAITER_IS_HELPER.load(SeqCst) {
        count("first_caller_in_wait", 1);
    }
    // One operation of every kind is pending.
    let all: Vec<_> = (0..PENDING_KINDS).map(|k| pool.spawn(&mut rng, format!("pending operation {k}"), 50, pending_op(k))).collect();
    let n = settle(500, "with one pending operation of every kind", &w.script);
    maximum("max_steps_until_idle", n as i64);
    window(12, None, &w.script);
    for t in all {
        t.cancel();
    }
    count("all_pending_ops", 1);
    while time_left() {
        inj_shuffle(&mut rng);
        take_trace();
        w.script.push_str("| ");
        if w.script.len() > 600 {
            w.script.drain(..300);
        }
        for _ in 0..rng.range(1, 40) {
            w.step(&mut rng, &pool);
        }
        inj_off();
        let limit = 300 + 100 * w.callers.len() as u64;
        let s = w.script.clone();
        let n = settle(limit, "after a random history", &s);
        maximum("max_steps_until_idle", n as i64);
        let ticks = if rng.chance(5) { 130 } else { *rng.pick(&[3, 6, 12, 25]) };
        window(ticks, w.nearest(), &s);
        // Single events.
        for _ in 0..rng.below(4) {
            let w0 = WAITS_ENTERED.load(SeqCst);
            let a0 = activity_now();
            let what = w.event(&mut rng);
            let s = format!("{}; {what}", w.script);
            settle(limit, what, &s);
            let rounds = WAITS_ENTERED.load(SeqCst) - w0;
            let all = activity_now() - a0;
            maximum("max_rounds_per_event", rounds as i64);
            maximum("max_steps_per_event", all as i64);
            // (The number of idle callers bounds how often the reactor changes hands.)
            let bound = 10 + 3 * w.callers.len() as u64;
            check!(rounds <= bound, "{rounds} reactor rounds after a single event ({what}): {s}");
            count("single_events", 1);
            window(2, w.nearest(), &s);
        }
        sample(|| w.script.clone());
        let mut sig = take_trace();
        for b in w.script.bytes() {
            sig = mix(sig, b as u64);
        }
        evaluated(Some(sig));
        count("handles_in_idle_states", w.handles.len() as i64);
        count("callers_in_idle_states", w.callers.len() as i64);
        if rng.chance(20) {
            for c in std::mem::take(&mut w.callers) {
                c.stop();
            }
            for (t, k) in std::mem::take(&mut w.pending) {
                count(&format!("pending_op_{k}"), 1);
                t.cancel();
            }
            let ever = w.nearest();
            w = fresh(&flag);
            w.ever = ever;
        }
    }
    report_points();
    finish()
}
