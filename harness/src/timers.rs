//! C03: the schedule of timers, judged against a reference model on every call.

use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

use async_io::Timer;
use futures_lite::Stream;

use crate::rt::*;
use crate::tmodel::*;

struct CountWake(AtomicU64);
impl Wake for CountWake {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Relaxed);
    }
}

struct T {
    t: Timer,
    m: Model,
    hist: Vec<String>,
    sig: u64,
    items: u64,
}

fn short(rng: &mut Rng) -> Duration {
    match rng.below(12) {
        0 => Duration::ZERO,
        1 => Duration::from_nanos(1),
        2 | 3 => Duration::from_nanos(rng.range(1, 5000)),
        4..=7 => Duration::from_micros(rng.range(1, 300)),
        8 | 9 => Duration::from_micros(rng.range(1, 3000)),
        10 => Duration::from_millis(rng.range(1, 8)),
        _ => Duration::from_nanos(rng.range(999_000, 1_001_000)),
    }
}
fn any_dur(rng: &mut Rng) -> Duration {
    match rng.below(24) {
        20 => Duration::from_millis(rng.range(5, 3000)),
        21 => Duration::from_secs(rng.range(1, 100)),
        22 => Duration::from_secs(rng.range(1, 1 << 34)),
        23 => Duration::from_nanos(rng.range(1_000_000_000, 1_000_000_000_000)),
        0 => Duration::MAX,
        1 => Duration::from_secs(u64::MAX),
        2 => Duration::from_secs(i64::MAX as u64),
        // Far away but representable.
        3 => Duration::from_secs(1 << 40),
        4 => Duration::from_secs(86400 * 365),
        _ => short(rng),
    }
}
fn any_instant(rng: &mut Rng) -> Instant {
    let now = Instant::now();
    match rng.below(12) {
        // Long ago: an interval has many ticks to catch up with.
        10 => now.checked_sub(Duration::from_secs(rng.range(1, 1000))).unwrap_or(now),
        11 => now.checked_sub(any_dur(rng)).unwrap_or(now),
        0..=2 => now.checked_sub(short(rng)).unwrap_or(now),
        3 => now,
        4 => now + Duration::from_secs(1 << 40),
        // Share instants between timers.
        5 | 6 => {
            static SHARED: Mutex<Option<Instant>> = Mutex::new(None);
            let mut s = lock(&SHARED);
            match *s {
                Some(i) if i + Duration::from_millis(5) > now => i,
                _ => {
                    let i = now + short(rng);
                    *s = Some(i);
                    i
                }
            }
        }
        _ => now + short(rng),
    }
}
fn call(rng: &mut Rng, create: bool) -> Call {
    match rng.below(if create { 9 } else { 8 }) {
        0 | 1 => Call::After(any_dur(rng)),
        2 | 3 => Call::At(any_instant(rng)),
        4 | 5 => Call::Interval(any_dur(rng)),
        6 | 7 => Call::IntervalAt(any_instant(rng), any_dur(rng)),
        _ => Call::Never,
    }
}
fn code(c: Call) -> u64 {
    match c {
        Call::Never => 1,
        Call::After(d) => 2 + (d.as_nanos() as u64).wrapping_mul(8),
        Call::At(_) => 3,
        Call::Interval(d) => 4 + (d.as_nanos() as u64).wrapping_mul(8),
        Call::IntervalAt(_, d) => 5 + (d.as_nanos() as u64).wrapping_mul(8),
    }
}

static STASH: Mutex<Vec<T>> = Mutex::new(Vec::new());

fn fresh(rng: &mut Rng) -> T {
    let c = call(rng, true);
    let (t, m) = Model::create(c);
    T { t, m, hist: vec![format!("new {c:?}")], sig: code(c), items: 0 }
}

impl T {
    fn poll(&mut self, waker: &Waker, as_future: bool) -> bool {
        let cx = &mut Context::from_waker(waker);
        let t0 = Instant::now();
        let r = if as_future {
            Pin::new(&mut self.t).poll(cx).map(Some)
        } else {
            Pin::new(&mut self.t).poll_next(cx)
        };
        let t1 = Instant::now();
        let hist = &self.hist;
        self.m.polled(t0, t1, r, || format!("{hist:?}"));
        self.m.check_will_fire(&self.t, "poll");
        let what = match (as_future, r) {
            (true, Poll::Ready(_)) => "F!",
            (false, Poll::Ready(_)) => "S!",
            (true, _) => "F.",
            (false, _) => "S.",
        };
        if self.hist.len() < 60 {
            self.hist.push(what.into());
        }
        self.sig = mix(self.sig, what.as_bytes()[0] as u64 * 256 + what.as_bytes()[1] as u64);
        count(if r.is_ready() { "polls_ready" } else { "polls_pending" }, 1);
        if r.is_ready() {
            self.items += 1;
        }
        r.is_ready()
    }
}

fn worker(seed: u64) {
    let mut rng = Rng::new(seed);
    let mut own: Vec<T> = Vec::new();
    let wakers: Vec<(Arc<CountWake>, Waker)> = (0..4)
        .map(|_| {
            let c = Arc::new(CountWake(AtomicU64::new(0)));
            (c.clone(), Waker::from(c))
        })
        .collect();
    while time_left() {
        progress();
        if own.len() < 12 || rng.chance(2) {
            own.push(fresh(&mut rng));
        }
        let i = rng.us(own.len());
        match rng.below(20) {
            0..=8 => {
                let w = &rng.pick(&wakers).1;
                let f = rng.chance(40);
                own[i].poll(w, f);
            }
            9 => {
                // Poll until it is pending or a few items have come.
                for _ in 0..6 {
                    let w = &rng.pick(&wakers).1;
                    let f = rng.chance(40);
                    if !own[i].poll(w, f) {
                        break;
                    }
                }
            }
            10..=13 => {
                let c = call(&mut rng, false);
                let T { t, m, hist, sig, .. } = &mut own[i];
                m.set(t, c);
                count("set_calls", 1);
                if hist.len() < 60 {
                    hist.push(format!("set {c:?}"));
                }
                *sig = mix(*sig, code(c));
            }
            14 => {
                // Wait for it, spinning around the deadline, so that polls fall on both sides.
                if let Some((_, hi)) = own[i].m.dl {
                    let now = Instant::now();
                    if hi > now && hi - now < Duration::from_millis(3) {
                        let w = &rng.pick(&wakers).1;
                        let mut n = 0;
                        while !own[i].poll(w, false) {
                            n += 1;
                            if n > 50 {
                                std::thread::sleep(Duration::from_micros(50));
                            }
                        }
                    }
                }
            }
            15 => {
                // Hand it to another thread.
                let t = own.swap_remove(i);
                let mut s = lock(&STASH);
                s.push(t);
                if s.len() > 8 {
                    let j = rng.us(s.len());
                    own.push(s.swap_remove(j));
                }
            }
            16 => {
                let t = own.swap_remove(i);
                retire(t);
            }
            17 => {
                // Await it for real.
                if let Some((_, hi)) = own[i].m.dl {
                    if hi < Instant::now() + Duration::from_millis(4) {
                        let T { t, m, hist, .. } = &mut own[i];
                        let mut t0 = Instant::now();
                        let waker_polls = std::future::poll_fn(|cx| {
                            t0 = Instant::now();
                            Pin::new(&mut *t).poll(cx)
                        });
                        let v = async_io::block_on(waker_polls);
                        let t1 = Instant::now();
                        m.polled(t0, t1, Poll::Ready(Some(v)), || format!("{hist:?}"));
                        m.check_will_fire(t, "await");
                        if hist.len() < 60 {
                            hist.push("await".into());
                        }
                        count("awaited", 1);
                    }
                }
            }
            18 => delay(300),
            _ => std::thread::yield_now(),
        }
    }
}
fn retire(t: T) {
    evaluated((t.hist.len() > 2).then_some(t.sig));
    if t.hist.len() > 5 {
        maximum("items_of_one_timer", t.items as i64);
        sample(|| format!("{:?}", t.hist));
    }
}

pub fn run() {
    start_watchdog();
    let seed = opts().seed;
    let hs: Vec<_> = (0..3).map(|i| std::thread::spawn(move || worker(seed * 31 + i))).collect();
    let mut rng = Rng::new(seed);
    while time_left() {
        inj_shuffle(&mut rng);
        std::thread::sleep(Duration::from_millis(200));
    }
    for h in hs {
        await_cond(|| h.is_finished(), "a timer call does not return", || Some("worker thread stuck".into()));
        let _ = h.join();
    }
    report_points();
    finish()
}
