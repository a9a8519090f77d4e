//! C04: timer wakeups are not lost and the reactor never sleeps past a deadline.

use std::future::poll_fn;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

use async_io::Timer;
use futures_lite::Stream;
use vpoint::Delivered;

use crate::crowd::Counted;
use crate::exec::*;
use crate::rt::*;
use crate::tmodel::*;

/// One monitored timer. Calls on the timer are made under `st`.
struct Entry {
    id: u64,
    st: Mutex<St>,
    /// What the reactor monitor needs to know, readable without `st`.
    mon: Mutex<MonSt>,
    /// The waker id of the most recent poll.
    cur: AtomicU64,
    task: Mutex<Option<Arc<Task>>>,
    finished: AtomicBool,
}
struct St {
    t: Timer,
    m: Model,
    left: u64,
    hist: Vec<String>,
    sig: u64,
}
#[derive(Clone, Copy, Debug)]
struct MonSt {
    /// A call on the timer is in progress.
    busy: bool,
    /// The last poll returned Pending (with the current waker).
    waiting: bool,
    /// The current waker has been woken since.
    woken: bool,
    hi: Option<Instant>,
    /// seq() after the last call returned.
    since: u64,
}

struct TW {
    e: Arc<Entry>,
    id: u64,
    inner: Waker,
}
impl Wake for TW {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.e.cur.load(SeqCst) == self.id {
            lock(&self.e.mon).woken = true;
        }
        self.inner.wake_by_ref();
    }
}

static TABLE: Mutex<Vec<Arc<Entry>>> = Mutex::new(Vec::new());
static IDS: AtomicU64 = AtomicU64::new(1);

#[derive(Default)]
struct Rounds {
    /// (seq, time) of the last two wait exits.
    exits: [Option<(u64, Instant)>; 2],
    judged: u64,
    bounded: u64,
}
static RS: Mutex<Option<Rounds>> = Mutex::new(None);

struct Mon;
impl Monitor for Mon {
    fn wait_enter(&self, timeout: Option<Duration>, _s: u64) -> Option<i32> {
        let mut g = lock(&RS);
        let rs = g.get_or_insert_with(Default::default);
        let Some((s1, t1)) = rs.exits[1] else { return None };
        let e0 = rs.exits[0];
        let Ok(table) = TABLE.try_lock() else { return None };
        for e in table.iter() {
            let Ok(m) = e.mon.try_lock() else { continue };
            let m = *m;
            let (Some(hi), false, true, false) = (m.hi, m.busy, m.waiting, m.woken) else { continue };
            if m.since >= s1 {
                continue;
            }
            // It was registered before the previous wait returned, hence before this round began.
            rs.judged += 1;
            let max = hi.saturating_duration_since(t1);
            let ok = timeout.is_some_and(|t| t <= max);
            if !ok {
                violation(
                    "the reactor goes to sleep beyond the deadline of a registered timer",
                    format!(
                        "timer {} deadline {hi:?} registered at seq {} (before the previous wait returned at seq {s1}, {t1:?}); \
                         waiting with timeout {timeout:?}, at most {max:?} is right; {:?}",
                        e.id, m.since, m
                    ),
                );
            }
            rs.bounded += 1;
            if let Some((s0, t0)) = e0 {
                // It was due when the last round began, so that round had to wake it.
                if m.since < s0 && hi <= t0 {
                    violation(
                        "a reactor round that began after a deadline did not wake its timer",
                        format!("timer {} deadline {hi:?} registered at seq {}; the round began after seq {s0}, {t0:?}; {m:?}", e.id, m.since),
                    );
                }
            }
        }
        None
    }
    fn wait_exit(&self, _: &[Delivered], _: u64, _ok: bool) {
        let s = seq();
        let mut g = lock(&RS);
        let rs = g.get_or_insert_with(Default::default);
        rs.exits[0] = rs.exits[1];
        rs.exits[1] = Some((s, Instant::now()));
    }
}

impl Entry {
    fn begin(&self) {
        lock(&self.mon).busy = true;
    }
    fn end(&self, st: &St, waiting: Option<bool>) {
        let mut m = lock(&self.mon);
        m.busy = false;
        m.hi = st.m.dl.map(|d| d.1);
        if let Some(w) = waiting {
            m.waiting = w;
        }
        m.since = seq();
    }
    fn set(&self, c: Call) {
        let mut g = lock(&self.st);
        let st = &mut *g;
        self.begin();
        // A wake for the old deadline that is already under way may still arrive, which only makes the
        // monitor blind to this timer until its next poll.
        lock(&self.mon).woken = false;
        st.m.set(&mut st.t, c);
        self.end(st, None);
        if st.hist.len() < 60 {
            st.hist.push(format!("set {c:?}"));
        }
        st.sig = mix(st.sig, 77);
        count("set_calls", 1);
    }
    /// Polls with a waker derived from that of the task.
    fn poll(self: &Arc<Self>, cx: &mut Context<'_>, cache: &mut Option<(Waker, Waker)>) -> Poll<()> {
        loop {
            let mut g = lock(&self.st);
            let st = &mut *g;
            self.begin();
            // The same waker as last time if the task's is the same.
            let w = match &*cache {
                Some((i, w)) if i.will_wake(cx.waker()) => w.clone(),
                _ => {
                    let id = IDS.fetch_add(1, SeqCst);
                    let w = Waker::from(Arc::new(TW { e: self.clone(), id, inner: cx.waker().clone() }));
                    self.cur.store(id, SeqCst);
                    *cache = Some((cx.waker().clone(), w.clone()));
                    w
                }
            };
            lock(&self.mon).woken = false;
            let t0 = Instant::now();
            let r = Pin::new(&mut st.t).poll_next(&mut Context::from_waker(&w));
            let t1 = Instant::now();
            let hist = &st.hist;
            st.m.polled(t0, t1, r, || format!("{hist:?}"));
            self.end(st, Some(r.is_pending()));
            if st.hist.len() < 60 {
                st.hist.push(if r.is_pending() { "." } else { "!" }.into());
            }
            match r {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(_) => {
                    count("fired", 1);
                    st.left -= 1;
                    if st.left == 0 || st.m.dl.is_none() {
                        self.finished.store(true, SeqCst);
                        return Poll::Ready(());
                    }
                }
            }
        }
    }
}

fn dur(rng: &mut Rng) -> Duration {
    match rng.below(10) {
        0 => Duration::ZERO,
        1..=4 => Duration::from_micros(rng.range(1, 400)),
        5..=8 => Duration::from_micros(rng.range(200, 6000)),
        _ => Duration::from_millis(rng.range(5, 15)),
    }
}
fn far(rng: &mut Rng) -> Duration {
    let huge = huge(rng);
    *rng.pick(&[
        huge,
        Duration::from_secs(3600),
        Duration::from_secs(60),
        Duration::from_secs(1 << 40),
        Duration::from_millis(700),
        Duration::MAX,
    ])
}

fn near_call(rng: &mut Rng, shared: &[Instant]) -> Call {
    match rng.below(6) {
        0 | 1 => Call::After(dur(rng)),
        2 | 3 => Call::At(*rng.pick(shared)),
        4 => Call::Interval(Duration::from_micros(rng.range(30, 2000))),
        _ => Call::IntervalAt(*rng.pick(shared), Duration::from_micros(rng.range(30, 2000))),
    }
}
fn far_call(rng: &mut Rng) -> Call {
    match rng.below(4) {
        0 => Call::Never,
        1 => Call::Interval(far(rng)),
        _ => Call::After(far(rng)),
    }
}

pub fn run() {
    set_monitor(&Mon);
    start_watchdog();
    let mut rng = Rng::new(opts().seed);
    let pool = Pool::new(&[Kind::Plain, Kind::BlockOn, Kind::Plain]);
    // Keep the table small outside of episodes.
    let mut episode = 0u64;
    while time_left() {
        episode += 1;
        if episode % 300 == 1 {
            crowd(&mut rng);
        }
        if episode % 30 == 2 {
            razor(&mut rng);
        }
        if episode % 16 == 1 {
            pool.shuffle(&mut rng);
        }
        if episode % 6 == 1 {
            inj_shuffle(&mut rng);
        }
        let mut script = Vec::new();
        take_trace();
        let mut sig = 0;
        let now = Instant::now();
        let shared: Vec<Instant> = (0..3).map(|_| now + dur(&mut rng)).collect();
        let mut entries: Vec<Arc<Entry>> = Vec::new();
        let n = if rng.chance(10) { rng.range(20, 60) } else { rng.range(1, 8) };
        for _ in 0..n {
            let c = if rng.chance(35) { far_call(&mut rng) } else { near_call(&mut rng, &shared) };
            let (t, m) = Model::create(c);
            let left = rng.range(1, 4);
            let id = IDS.fetch_add(1, SeqCst);
            let e = Arc::new(Entry {
                id,
                st: Mutex::new(St { t, m, left, hist: vec![format!("new {c:?}")], sig: 0 }),
                mon: Mutex::new(MonSt { busy: false, waiting: false, woken: false, hi: None, since: 0 }),
                cur: AtomicU64::new(0),
                task: Mutex::new(None),
                finished: AtomicBool::new(false),
            });
            lock(&TABLE).push(e.clone());
            let e2 = e.clone();
            let mut cache = None;
            let reuse = *rng.pick(&[0, 50, 100]);
            let task = pool.spawn(&mut rng, format!("timer {id} {c:?}"), reuse, async move {
                poll_fn(|cx| e2.poll(cx, &mut cache)).await
            });
            *lock(&e.task) = Some(task);
            entries.push(e);
            script.push(format!("new {id} {c:?}"));
            sig = mix(sig, left);
        }
        // Helpers run concurrently with the controller.
        let mut helpers = Vec::new();
        for _ in 0..rng.below(3) {
            let es = entries.clone();
            let mut r = Rng::new(rng.u64());
            let sh = shared.clone();
            helpers.push(std::thread::spawn(move || {
                for _ in 0..r.range(1, 12) {
                    let e = r.pick(&es);
                    let c = if r.chance(30) { Call::After(far(&mut r)) } else { near_call(&mut r, &sh) };
                    e.set(c);
                    if r.chance(50) {
                        delay(300);
                    }
                }
            }));
        }
        for _ in 0..rng.range(0, 12) {
            let op = rng.below(10);
            sig = mix(sig, op);
            match op {
                0..=3 => {
                    let e = rng.pick(&entries);
                    let c = if rng.chance(25) { Call::After(far(&mut rng)) } else { near_call(&mut rng, &shared) };
                    script.push(format!("set {} {c:?}", e.id));
                    e.set(c);
                }
                4 | 5 => {
                    let e = rng.pick(&entries).clone();
                    let r = pool.any(&mut rng).clone();
                    let t = lock(&e.task).clone();
                    if let Some(t) = t {
                        script.push(format!("repoll {}", e.id));
                        t.repoll(&r, rng.chance(70));
                    }
                }
                6 => {
                    // Cancel one for good.
                    let i = rng.us(entries.len());
                    if entries.len() > 1 && rng.chance(40) {
                        let e = entries.swap_remove(i);
                        script.push(format!("cancel {}", e.id));
                        cancel(&e);
                    }
                }
                7 => delay(*rng.pick(&[50, 300, 2000])),
                8 => {
                    // More timer operations than the queue holds, without giving the reactor a chance.
                    let k = *rng.pick(&[30, 400, 1500, 2500]);
                    script.push(format!("storm {k}"));
                    count("storm_ops", k * 2);
                    storm(k, &mut rng, &shared);
                }
                _ => delay(20),
            }
        }
        for h in helpers {
            await_cond(|| h.is_finished(), "a timer call does not return", || Some(format!("{script:?}")));
            let _ = h.join();
        }
        // Give every timer a deadline that comes soon.
        for e in &entries {
            let (soon, fin) = {
                let st = lock(&e.st);
                let soon = st.m.dl.is_some_and(|d| d.1 < Instant::now() + Duration::from_millis(30))
                    && (st.left == 1 || st.m.period < Duration::from_millis(10) || st.m.dl.unwrap().1.checked_add(st.m.period).is_none());
                (soon, e.finished.load(SeqCst))
            };
            if !soon && !fin {
                let c = match rng.below(3) {
                    0 => Call::At(*rng.pick(&shared)),
                    1 => Call::After(dur(&mut rng)),
                    _ => Call::Interval(Duration::from_micros(rng.range(30, 2000))),
                };
                script.push(format!("final set {} {c:?}", e.id));
                e.set(c);
            }
        }
        activity(format!("episode {episode} {script:?}"));
        let began = Instant::now();
        await_cond(
            || entries.iter().all(|e| e.finished.load(SeqCst)),
            "a timer's task is not woken although its deadline has passed",
            || {
                let mut s = String::new();
                let mut due = entries.iter().all(|e| e.finished.load(SeqCst));
                for e in &entries {
                    let st = lock(&e.st);
                    if !e.finished.load(SeqCst) {
                        due |= st.m.dl.is_some_and(|d| d.1 + Duration::from_millis(500) < Instant::now());
                    }
                    s.push_str(&format!(
                        "timer {} {:?} {:?} {} {:?}\n",
                        e.id,
                        st.m,
                        *lock(&e.mon),
                        lock(&e.task).as_ref().map(|t| t.describe()).unwrap_or_default(),
                        st.hist
                    ));
                }
                due.then(|| format!("episode {episode} {script:?}\n{s}"))
            },
        );
        maximum("slowest_episode_us", began.elapsed().as_micros() as i64);
        for e in &entries {
            sig = mix(sig, lock(&e.st).sig);
            cancel(e);
        }
        if episode % 37 == 5 {
            sample(|| format!("{script:?}"));
        }
        evaluated((script.len() > 1).then(|| mix(sig, take_trace())));
    }
    let (j, b) = {
        let g = lock(&RS);
        g.as_ref().map_or((0, 0), |r| (r.judged, r.bounded))
    };
    count("sleeps_judged_against_timers", j as i64);
    count("sleeps_bounded_by_timers", b as i64);
    report_points();
    finish()
}

fn cancel(e: &Arc<Entry>) {
    e.begin();
    lock(&TABLE).retain(|x| !Arc::ptr_eq(x, e));
    let t = lock(&e.task).take();
    if let Some(t) = t {
        t.cancel();
    }
    // The timer is inside the entry; wakers refer to the entry.
    let t = std::mem::replace(&mut lock(&e.st).t, Timer::never());
    drop(t);
}

fn storm(k: i64, rng: &mut Rng, shared: &[Instant]) {
    let w = Waker::noop();
    let mut v = Vec::new();
    for i in 0..k {
        let at = if rng.chance(50) { *rng.pick(shared) } else { Instant::now() + Duration::from_secs(100 + i as u64) };
        let mut t = Timer::at(at);
        let _ = Pin::new(&mut t).poll_next(&mut Context::from_waker(w));
        v.push(t);
    }
    rng.shuffle(&mut v);
    drop(v);
}

/// A great many timers, all registered at the same time, that share a few deadlines.
fn crowd(rng: &mut Rng) {
    let n = match rng.below(4) {
        0 => rng.range(1000, 5000),
        1 => rng.range(5000, 20_000),
        _ => rng.range(20_000, 90_000),
    };
    // Far enough that most are registered by then.
    let soon = Instant::now() + Duration::from_micros(n as u64 / 2);
    let same: Vec<Instant> = (0..rng.range(1, 3)).map(|_| soon + dur(rng)).collect();
    let mut ts: Vec<(Timer, Instant, Arc<Counted>)> = Vec::new();
    for _ in 0..n {
        let at = *rng.pick(&same);
        let w = Arc::new(Counted::default());
        let mut t = Timer::at(at);
        if Pin::new(&mut t).poll_next(&mut Context::from_waker(&Waker::from(w.clone()))).is_pending() {
            ts.push((t, at, w));
        }
    }
    // Some are gone again.
    for _ in 0..rng.below(ts.len() as u64 / 2 + 1) {
        if !ts.is_empty() {
            let i = rng.us(ts.len());
            ts.swap_remove(i);
        }
    }
    count("crowd_timers", ts.len() as i64);
    await_cond(
        || ts.iter().all(|t| t.2 .0.load(SeqCst) > 0),
        "one of very many timers is not woken although its deadline has passed",
        || {
            let late = ts.iter().filter(|t| t.2 .0.load(SeqCst) == 0 && t.1 < Instant::now()).count();
            (late > 0).then(|| format!("{late} of {} timers with {} deadlines", ts.len(), same.len()))
        },
    );
    for (mut t, at, w) in ts {
        match Pin::new(&mut t).poll_next(&mut Context::from_waker(&Waker::from(w))) {
            Poll::Ready(Some(x)) if x == at => {}
            r => violation("one of very many timers is not ready after its deadline", format!("{r:?}, expected {at:?}")),
        }
    }
    evaluated(Some(mix(n as u64, rng.u64())));
}

/// Deadlines that pass in the very moment in which the timer is polled or set.
fn razor(rng: &mut Rng) {
    let n = rng.range(100, 600);
    let span = *rng.pick(&[100u64, 500, 2000, 10_000]);
    let mut ts: Vec<(Timer, Arc<Counted>)> = Vec::new();
    for _ in 0..n {
        let d = Duration::from_nanos(rng.below(span));
        let w = Arc::new(Counted::default());
        let waker = Waker::from(w.clone());
        let mut cx = Context::from_waker(&waker);
        let way = rng.below(5);
        let (mut t, poll) = match way {
            0 => (Timer::after(d), true),
            1 => (Timer::at(Instant::now() + d), true),
            2 => (Timer::interval_at(Instant::now() + d, Duration::from_secs(1000)), true),
            _ => {
                // Registered for later, and then set to something that is just about to pass.
                let mut t = Timer::after(Duration::from_secs(1000));
                if Pin::new(&mut t).poll_next(&mut cx).is_ready() {
                    violation("a timer fires 1000 s early", "");
                }
                if way == 3 {
                    t.set_after(d);
                } else {
                    t.set_at(Instant::now() + d);
                }
                (t, rng.chance(50))
            }
        };
        // A Pending after a Pending, or the first poll.
        if !poll || Pin::new(&mut t).poll_next(&mut cx).is_pending() {
            ts.push((t, w));
        }
    }
    count("razor_timers", ts.len() as i64);
    await_cond(
        || ts.iter().all(|t| t.1 .0.load(SeqCst) > 0),
        "a timer is not woken whose deadline passed while it was polled or set",
        || {
            let late = ts.iter().filter(|t| t.1 .0.load(SeqCst) == 0).count();
            (late > 0).then(|| format!("{late} of {} timers, deadlines within {span} ns", ts.len()))
        },
    );
    for (mut t, w) in ts {
        if Pin::new(&mut t).poll_next(&mut Context::from_waker(&Waker::from(w))).is_pending() {
            violation("a timer is not ready after its wake-up", "its deadline passed while it was polled or set");
        }
    }
    evaluated(Some(mix(n as u64 ^ span, rng.u64())));
}
