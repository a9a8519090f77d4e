//! C12: wakers that panic, take long and re-enter the crate, both when woken and when dropped.

use std::future::Future;
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex, Weak};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Wake, Waker};
use std::time::{Duration, Instant};

use async_io::{Async, ReadableOwned, Timer, WritableOwned};

use crate::exec::*;
use crate::fdu;
use crate::rt::*;

type Handle = Arc<Async<UnixStream>>;
enum Fut {
    R(ReadableOwned<UnixStream>),
    W(WritableOwned<UnixStream>),
}
impl Fut {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        match self {
            Fut::R(f) => Pin::new(f).poll(cx),
            Fut::W(f) => Pin::new(f).poll(cx),
        }
    }
}

/// What the callbacks play with.
struct World {
    /// Shared with the tasks.
    handles: Vec<Handle>,
    /// Handles that only the callbacks use. They may vanish at any time.
    own: Mutex<Vec<Handle>>,
    peers: Mutex<Vec<UnixStream>>,
    futs: Mutex<Vec<Fut>>,
    timers: Mutex<Vec<Timer>>,
    tasks: Mutex<Vec<Arc<Task>>>,
    pool: Arc<Pool>,
    /// How many more actions callbacks may take.
    budget: AtomicI64,
    acts: [AtomicU64; NACT],
    panics: AtomicU64,
    sig: AtomicU64,
}
const NACT: usize = 12;

/// A waker that does things. The notification itself is passed on first.
struct HWaker {
    inner: Option<Waker>,
    world: Weak<World>,
    on_wake: u8,
    on_drop: u8,
    panics: bool,
    /// An object that dies with this waker, or when it is woken.
    bomb: Mutex<Option<Bomb>>,
}
enum Bomb {
    Fut(Fut),
    Handle(Handle),
    Timer(Timer),
}
impl Drop for Bomb {
    fn drop(&mut self) {
        count(
            match self {
                Bomb::Fut(_) => "bombs_future",
                Bomb::Handle(_) => "bombs_handle",
                Bomb::Timer(_) => "bombs_timer",
            },
            1,
        )
    }
}
thread_local!(static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });

impl Wake for HWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if let Some(w) = &self.inner {
            w.wake_by_ref();
        }
        if let Some(w) = self.world.upgrade() {
            let b = lock(&self.bomb).take();
            drop(b);
            for _ in 0..self.on_wake {
                w.act("wake");
            }
            if self.panics && w.budget.load(SeqCst) > 0 {
                w.panics.fetch_add(1, Relaxed);
                drop(w);
                panic_any(Deliberate);
            }
        }
    }
}
impl Drop for HWaker {
    fn drop(&mut self) {
        if let Some(w) = self.world.upgrade() {
            for _ in 0..self.on_drop {
                w.act("drop");
            }
        }
        let b = lock(&self.bomb).take();
        drop(b);
    }
}

static VTABLE: RawWakerVTable = RawWakerVTable::new(
    |p| unsafe {
        Arc::increment_strong_count(p as *const HWaker);
        RawWaker::new(p, &VTABLE)
    },
    |p| unsafe {
        let w = Arc::from_raw(p as *const HWaker);
        w.wake_by_ref();
    },
    |p| unsafe {
        let w = std::mem::ManuallyDrop::new(Arc::from_raw(p as *const HWaker));
        (*w).wake_by_ref();
    },
    |p| unsafe {
        let w = Arc::from_raw(p as *const HWaker);
        if rnd(4) == 0 {
            if let Some(world) = w.world.upgrade() {
                count("reference_drops_acted", 1);
                world.act("drop of a reference");
            }
        }
        drop(w);
    },
);

/// A call into the crate. No panic of a callback may come out of it.
fn call<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => violation(format!("{what} panicked because of somebody else's waker"), ""),
    }
}

fn take<T>(m: &Mutex<Vec<T>>) -> Option<T> {
    let mut g = lock(m);
    let n = g.len();
    if n == 0 {
        None
    } else {
        let i = rnd(n as u64) as usize;
        Some(g.swap_remove(i))
    }
}
fn put<T>(m: &Mutex<Vec<T>>, x: T, max: usize) {
    let old = {
        let mut g = lock(m);
        g.push(x);
        if g.len() > max {
            Some(g.swap_remove(0))
        } else {
            None
        }
    };
    drop(old);
}

impl World {
    fn waker(self: &Arc<World>, inner: Option<Waker>) -> Waker {
        let bomb = match rnd(10) {
            0 => take(&self.futs).map(Bomb::Fut),
            1 => take(&self.own).map(Bomb::Handle),
            2 => take(&self.timers).map(Bomb::Timer),
            _ => None,
        };
        let w = Arc::new(HWaker {
            inner,
            world: Arc::downgrade(self),
            on_wake: rnd(3) as u8,
            on_drop: rnd(3) as u8,
            panics: rnd(3) == 0,
            bomb: Mutex::new(bomb),
        });
        if rnd(3) == 0 {
            // Acts whenever any reference is dropped, not only with the last.
            unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(w) as *const (), &VTABLE)) }
        } else {
            Waker::from(w)
        }
    }
    fn some_waker(self: &Arc<World>) -> Waker {
        match rnd(4) {
            0 => Waker::noop().clone(),
            _ => self.waker(None),
        }
    }
    fn any_handle(&self) -> Handle {
        let h = lock(&self.own);
        let n = self.handles.len() + h.len();
        let i = rnd(n as u64) as usize;
        if i < self.handles.len() {
            self.handles[i].clone()
        } else {
            h[i - self.handles.len()].clone()
        }
    }
    fn new_handle(self: &Arc<World>) -> Option<Handle> {
        let (a, b) = UnixStream::pair().unwrap();
        b.set_nonblocking(true).unwrap();
        if rnd(3) == 0 {
            a.set_nonblocking(true).unwrap();
            fdu::fill(a.as_raw_fd());
        }
        let h = call("Async::new", || Async::new(a)).unwrap_or_else(|e| violation(format!("Async::new failed: {e:?}"), ""));
        put(&self.peers, b, 12);
        Some(Arc::new(h))
    }
    /// Does something that a callback is allowed to do.
    fn act(self: &Arc<World>, place: &str) {
        if self.budget.fetch_sub(1, SeqCst) <= 0 {
            return;
        }
        let depth = DEPTH.with(|d| d.get());
        if depth >= 4 {
            return;
        }
        DEPTH.with(|d| d.set(depth + 1));
        struct G(u32);
        impl Drop for G {
            fn drop(&mut self) {
                let _ = DEPTH.try_with(|d| d.set(self.0));
            }
        }
        let _g = G(depth);
        progress();
        // Overflowing the queue takes a lock of its own: not too rarely where nobody expects a callback.
        let storm = place.len() > 8 && rnd(30) == 0;
        let a = if storm { NACT - 1 } else { rnd(NACT as u64) as usize };
        self.acts[a].fetch_add(1, Relaxed);
        let _ = self.sig.fetch_update(Relaxed, Relaxed, |s| Some(mix(s, (a as u64) << 8 | place.len() as u64)));
        note(|| format!("callback ({place}) does {a}"));
        match a {
            0 => std::thread::sleep(Duration::from_micros(rnd(if rnd(20) == 0 { 20_000 } else { 500 }))),
            1 => {
                // A new timer.
                let mut t = Timer::after(Duration::from_micros(rnd(3000)));
                let w = self.some_waker();
                let _ = call("polling a timer", || Pin::new(&mut t).poll(&mut Context::from_waker(&w)));
                put(&self.timers, t, 20);
            }
            2 | 3 => {
                // An existing one.
                if let Some(mut t) = take(&self.timers) {
                    match rnd(5) {
                        0 => return call("dropping a timer", || drop(t)),
                        1 => call("set_after", || t.set_after(Duration::from_micros(rnd(2000)))),
                        2 => call("set_interval", || t.set_interval(Duration::from_micros(100 + rnd(2000)))),
                        3 => call("set_at", || t.set_at(Instant::now())),
                        _ => {}
                    }
                    let w = self.some_waker();
                    let _ = call("polling a timer", || Pin::new(&mut t).poll(&mut Context::from_waker(&w)));
                    put(&self.timers, t, 20);
                }
            }
            4 | 5 => {
                // Somebody's handle.
                let h = self.any_handle();
                let w = self.some_waker();
                let mut cx = Context::from_waker(&w);
                let _ = call("poll_readable/poll_writable", || {
                    if rnd(2) == 0 {
                        h.poll_readable(&mut cx)
                    } else {
                        h.poll_writable(&mut cx)
                    }
                });
            }
            6 | 7 => {
                // A wait on somebody's handle.
                let h = self.any_handle();
                let mut f = if rnd(2) == 0 { Fut::R(h.readable_owned()) } else { Fut::W(h.writable_owned()) };
                let w = self.some_waker();
                let r = call("polling readable/writable", || f.poll(&mut Context::from_waker(&w)));
                if r.is_pending() {
                    if rnd(3) == 0 {
                        call("dropping a wait", || drop(f));
                    } else {
                        put(&self.futs, f, 16);
                    }
                }
            }
            8 => {
                // An existing wait.
                if let Some(mut f) = take(&self.futs) {
                    if rnd(2) == 0 {
                        return call("dropping a wait", || drop(f));
                    }
                    let w = self.some_waker();
                    if call("polling readable/writable", || f.poll(&mut Context::from_waker(&w))).is_pending() {
                        put(&self.futs, f, 16);
                    }
                }
            }
            9 => {
                // Handles come and go.
                if rnd(2) == 0 {
                    if let Some(h) = self.new_handle() {
                        let w = self.some_waker();
                        let mut cx = Context::from_waker(&w);
                        let _ = call("poll_readable", || h.poll_readable(&mut cx));
                        put(&self.own, h, 4);
                    }
                } else {
                    let h = take(&self.own);
                    call("dropping a handle", || drop(h));
                }
            }
            10 => {
                // Something happens to a handle.
                if let Some(p) = take(&self.peers) {
                    if rnd(3) == 0 {
                        drop(p);
                    } else {
                        let _ = fdu::write(p.as_raw_fd(), b"z");
                        let mut b = [0; 4096];
                        let _ = unsafe { libc::recv(p.as_raw_fd(), b.as_mut_ptr() as *mut _, 4096, libc::MSG_DONTWAIT) };
                        put(&self.peers, p, 12);
                    }
                }
            }
            _ => {
                if storm || rnd(40) == 0 {
                    // Overflows the queue of timer operations.
                    let mut ts = vec![];
                    for _ in 0..1100 {
                        let mut t = Timer::after(Duration::from_secs(100 + rnd(100)));
                        let w = if rnd(30) == 0 { self.some_waker() } else { Waker::noop().clone() };
                        let _ = call("polling a timer", || Pin::new(&mut t).poll(&mut Context::from_waker(&w)));
                        ts.push(t);
                    }
                    count("timer_storms", 1);
                    call("dropping timers", || drop(ts));
                } else {
                    // Polls or cancels some task.
                    let t = {
                        let g = lock(&self.tasks);
                        let n = g.len() as u64;
                        (n > 0).then(|| g[rnd(n) as usize].clone())
                    };
                    if let Some(t) = t {
                        if rnd(4) == 0 {
                            t.try_cancel();
                        } else {
                            t.repoll(&self.pool.runners[rnd(self.pool.runners.len() as u64) as usize], true);
                        }
                    }
                }
            }
        }
    }
}

/// Polls a future with a misbehaving waker.
struct Hostile<F> {
    f: Pin<Box<F>>,
    world: Weak<World>,
    cached: Option<(Waker, Waker)>,
    keep_pct: u64,
}
impl<F: Future> Future for Hostile<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        let w = match &me.cached {
            Some((i, w)) if i.will_wake(cx.waker()) && rnd(100) < me.keep_pct => w.clone(),
            _ => match me.world.upgrade() {
                Some(world) => world.waker(Some(cx.waker().clone())),
                None => cx.waker().clone(),
            },
        };
        me.cached = if rnd(2) == 0 { Some((cx.waker().clone(), w.clone())) } else { None };
        let f = me.f.as_mut();
        call("polling a future of the crate", || f.poll(&mut Context::from_waker(&w)))
    }
}

fn wait_kind(h: Handle, dir: u64, kind: u64) -> Pin<Box<dyn Future<Output = ()> + Send>> {
    fn ok(r: std::io::Result<()>) {
        if let Err(e) = r {
            violation(format!("a wait failed: {e:?}"), "")
        }
    }
    match (kind, dir) {
        (0, 0) => Box::pin(async move { ok(h.readable().await) }),
        (0, _) => Box::pin(async move { ok(h.writable().await) }),
        (1, 0) => Box::pin(async move { ok(h.readable_owned().await) }),
        (1, _) => Box::pin(async move { ok(h.writable_owned().await) }),
        (2, 0) => Box::pin(async move { ok(std::future::poll_fn(|cx| h.poll_readable(cx)).await) }),
        (2, _) => Box::pin(async move { ok(std::future::poll_fn(|cx| h.poll_writable(cx)).await) }),
        (_, 0) => Box::pin(async move {
            let r = h.read_with(|s| fdu::peek(s.as_raw_fd())).await;
            ok(r.map(|_| ()))
        }),
        (_, _) => Box::pin(async move {
            let r = h
                .write_with(|s| {
                    if fdu::truth(s.as_raw_fd()).1 {
                        Ok(())
                    } else {
                        Err(std::io::ErrorKind::WouldBlock.into())
                    }
                })
                .await;
            ok(r)
        }),
    }
}

fn episode(rng: &mut Rng, pool: &Arc<Pool>) {
    pool.shuffle(rng);
    let n = rng.range(1, 3);
    let (mut handles, mut peers) = (vec![], vec![]);
    for _ in 0..n {
        let (a, b) = UnixStream::pair().unwrap();
        b.set_nonblocking(true).unwrap();
        a.set_nonblocking(true).unwrap();
        fdu::fill(a.as_raw_fd());
        handles.push(Arc::new(Async::new(a).unwrap()));
        peers.push(b);
    }
    let world = Arc::new(World {
        handles: handles.clone(),
        own: Mutex::new(vec![]),
        peers: Mutex::new(vec![]),
        futs: Mutex::new(vec![]),
        timers: Mutex::new(vec![]),
        tasks: Mutex::new(vec![]),
        pool: pool.clone(),
        budget: AtomicI64::new(rng.range(20, 400) as i64),
        acts: [const { AtomicU64::new(0) }; NACT],
        panics: AtomicU64::new(0),
        sig: AtomicU64::new(0),
    });
    for _ in 0..rng.below(3) {
        let h = world.new_handle().unwrap();
        put(&world.own, h, 4);
    }
    let mut script = format!("handles={n} budget={}", world.budget.load(SeqCst));
    let mut tasks = vec![];
    let mut used = std::collections::HashSet::new();
    let hostile_pct = *rng.pick(&[20, 50, 80, 100]);
    let same = Instant::now() + Duration::from_micros(rng.below(3000));
    let spawn = |rng: &mut Rng, tasks: &mut Vec<Arc<Task>>, script: &mut String, used: &mut std::collections::HashSet<_>| {
        let hostile = rng.chance(hostile_pct);
        let (name, f): (String, Pin<Box<dyn Future<Output = ()> + Send>>) = if rng.chance(60) {
            let k = rng.us(handles.len());
            let dir = rng.below(2);
            let mut kind = rng.below(4);
            if kind == 2 && !used.insert((k, dir)) {
                kind = 0;
            }
            (format!("io h{k} dir{dir} kind{kind} hostile={hostile}"), wait_kind(handles[k].clone(), dir, kind))
        } else {
            let at = match rng.below(3) {
                0 => same,
                1 => Instant::now() + Duration::from_micros(rng.below(4000)),
                _ => Instant::now() + Duration::from_micros(rng.below(400)),
            };
            (
                format!("timer hostile={hostile}"),
                if rng.chance(30) {
                    // Several deadlines in one task, under one waker.
                    let mut ts: Vec<Option<Timer>> = (0..rng.range(2, 5)).map(|_| Some(Timer::at(at))).collect();
                    Box::pin(std::future::poll_fn(move |cx| {
                        for t in ts.iter_mut() {
                            if t.as_mut().is_some_and(|t| Pin::new(t).poll(cx).is_ready()) {
                                *t = None;
                            }
                        }
                        if ts.iter().all(|t| t.is_none()) {
                            Poll::Ready(())
                        } else {
                            Poll::Pending
                        }
                    }))
                } else {
                    Box::pin(async move {
                        Timer::at(at).await;
                    })
                },
            )
        };
        script.push_str(&format!("; {name}"));
        let w = Arc::downgrade(&world);
        let keep_pct = rng.below(101);
        let t = if hostile {
            pool.spawn(rng, name, 50, Hostile { f: Box::pin(f), world: w, cached: None, keep_pct })
        } else {
            pool.spawn(rng, name, 50, f)
        };
        lock(&world.tasks).push(t.clone());
        tasks.push(t);
    };
    for _ in 0..rng.range(2, 10) {
        spawn(rng, &mut tasks, &mut script, &mut used);
    }
    let steps = rng.below(14);
    for _ in 0..steps {
        match rng.below(8) {
            0 => spawn(rng, &mut tasks, &mut script, &mut used),
            1 => {
                let t = rng.pick(&tasks).clone();
                t.repoll(pool.any(rng), true);
                script.push_str("; repoll");
            }
            2 => {
                let t = rng.pick(&tasks).clone();
                t.try_cancel();
                script.push_str("; cancel");
            }
            3 => {
                let p = rng.pick(&peers);
                let _ = fdu::write(p.as_raw_fd(), b"x");
                script.push_str("; fire");
            }
            4 => {
                fdu::drain(rng.pick(&peers).as_raw_fd());
                script.push_str("; drain");
            }
            5 | 6 => {
                world.act("main");
                script.push_str("; act");
            }
            _ => std::thread::sleep(Duration::from_micros(rng.below(300))),
        }
    }
    // Now everybody gets what they wait for.
    for p in &peers {
        let _ = fdu::write(p.as_raw_fd(), b"x");
        fdu::drain(p.as_raw_fd());
    }
    for t in &tasks {
        await_cond(
            || t.is_done(),
            "a task that shares the reactor with misbehaving wakers",
            || {
                Some(format!(
                    "{}\n{script}\nhandles: {:?}",
                    t.describe(),
                    handles.iter().map(|h| fdu::truth(h.as_raw_fd())).collect::<Vec<_>>()
                ))
            },
        );
    }
    // What is left goes away, with the callbacks still active.
    loop {
        match rng.below(5) {
            0 => drop(take(&world.futs)),
            1 => drop(take(&world.timers)),
            2 => drop(take(&world.own)),
            3 => drop(take(&world.peers)),
            _ => {}
        }
        if world.budget.load(SeqCst) <= 0 || rng.chance(5) {
            break;
        }
    }
    world.budget.store(0, SeqCst);
    let total: u64 = world.acts.iter().map(|a| a.load(Relaxed)).sum();
    count("callback_actions", total as i64);
    for (i, a) in world.acts.iter().enumerate() {
        count(&format!("action_{i:02}"), a.load(Relaxed) as i64);
    }
    count("panics_in_wakers", world.panics.load(Relaxed) as i64);
    count("tasks", tasks.len() as i64);
    count("cancelled", tasks.iter().filter(|t| t.cancelled.load(SeqCst)).count() as i64);
    sample(|| script.clone());
    let sig = mix(world.sig.load(Relaxed), script.len() as u64);
    lock(&world.tasks).clear();
    drop((tasks, handles, peers));
    let left = || {
        let a = std::mem::take(&mut *lock(&world.futs));
        drop(a);
        let a = std::mem::take(&mut *lock(&world.timers));
        drop(a);
        let a = std::mem::take(&mut *lock(&world.own));
        drop(a);
    };
    left();
    left();
    evaluated((total > 0).then_some(mix(sig, take_trace())));
}

pub fn run() {
    start_watchdog();
    let mut rng = Rng::new(opts().seed);
    let n = 1 + opts().worker % 3;
    let pool = Arc::new(Pool::new(&vec![Kind::Plain; n as usize]));
    while time_left() {
        inj_shuffle(&mut rng);
        take_trace();
        activity("hostile episode");
        episode(&mut rng, &pool);
    }
    inj_off();
    // The helper thread survived.
    check!(
        crate::progress::helper_threads() == 1,
        "there are {} threads named async-io after panicking wakers",
        crate::progress::helper_threads()
    );
    report_points();
    finish()
}
