//! Shared runtime of all checks: options, randomness, verdicts, evidence, delay injection and the
//! observation hook.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Mutex, MutexGuard, OnceLock};
use std::time::{Duration, Instant};

use vpoint::{Delivered, Point, PollOp, NPOINTS};

// ---------------------------------------------------------------------------------------------
// Options

pub struct Opts {
    pub prop: String,
    pub mode: String,
    pub seed: u64,
    pub worker: u64,
    pub secs: f64,
    pub thorough: bool,
    pub out: PathBuf,
    pub start: Instant,
}
static OPTS: OnceLock<Opts> = OnceLock::new();
pub fn opts() -> &'static Opts {
    OPTS.get().unwrap()
}
pub fn set_opts(o: Opts) {
    let _ = OPTS.set(o);
}
pub fn time_left() -> bool {
    opts().start.elapsed().as_secs_f64() < opts().secs
}

pub fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

// ---------------------------------------------------------------------------------------------
// Randomness

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.us(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.us(i + 1));
        }
    }
}

static THREADS: AtomicU64 = AtomicU64::new(1);
thread_local! {
    static TRNG: RefCell<Rng> = RefCell::new(Rng::new(
        OPTS.get().map_or(0, |o| o.seed).wrapping_mul(0x1234_5678_9ABC_DEF1)
            ^ THREADS.fetch_add(1, Relaxed).wrapping_mul(0xA24B_AED4_963E_E407)));
    static TID: u64 = THREADS.fetch_add(1, Relaxed);
    static NO_INJECT: Cell<u32> = const { Cell::new(0) };
}
pub fn rnd(n: u64) -> u64 {
    TRNG.try_with(|r| r.try_borrow_mut().map(|mut r| r.below(n)).unwrap_or(0))
        .unwrap_or(0)
}

/// Mixes a value into a hash.
pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = (h ^ v).wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^= z >> 29;
    z.wrapping_mul(0x94D0_49BB_1331_11EB) ^ (z >> 32)
}

// ---------------------------------------------------------------------------------------------
// Evidence and verdicts

#[derive(Default)]
struct Evidence {
    counters: BTreeMap<String, i64>,
    maxima: BTreeMap<String, i64>,
    samples: Vec<String>,
    distinct: HashSet<u64>,
    evaluations: i64,
    inconclusive: Vec<String>,
}
static EV: Mutex<Option<Evidence>> = Mutex::new(None);
fn with_ev<R>(f: impl FnOnce(&mut Evidence) -> R) -> R {
    let mut g = lock(&EV);
    f(g.get_or_insert_with(Default::default))
}
pub fn count(name: &str, n: i64) {
    with_ev(|e| *e.counters.entry(name.into()).or_insert(0) += n)
}
pub fn maximum(name: &str, n: i64) {
    with_ev(|e| {
        let m = e.maxima.entry(name.into()).or_insert(n);
        *m = (*m).max(n)
    })
}
pub fn sample(f: impl FnOnce() -> String) {
    with_ev(|e| {
        if e.samples.len() < 3 {
            e.samples.push(f())
        }
    })
}
/// One evaluated case; `sig` identifies it (script and interleaving) if it is non-trivial.
pub fn evaluated(sig: Option<u64>) {
    progress();
    with_ev(|e| {
        e.evaluations += 1;
        if let Some(s) = sig {
            if e.distinct.len() < 400_000 {
                e.distinct.insert(s);
            }
        }
    })
}
pub fn inconclusive(msg: String) {
    eprintln!("inconclusive: {msg}");
    with_ev(|e| e.inconclusive.push(msg));
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn dump(verdict: &str, message: &str, detail: &str) {
    let o = opts();
    let mut s = String::from("{");
    s.push_str(&format!("\"verdict\":{},", json_str(verdict)));
    s.push_str(&format!("\"message\":{},", json_str(message)));
    s.push_str(&format!("\"detail\":{},", json_str(detail)));
    s.push_str(&format!(
        "\"property\":{},\"mode\":{},\"seed\":{},\"worker\":{},",
        json_str(&o.prop),
        json_str(&o.mode),
        o.seed,
        o.worker
    ));
    let mut hashes = Vec::new();
    with_ev(|e| {
        let f = |m: &BTreeMap<String, i64>| {
            m.iter()
                .map(|(k, v)| format!("{}:{}", json_str(k), v))
                .collect::<Vec<_>>()
                .join(",")
        };
        s.push_str(&format!("\"evaluations\":{},", e.evaluations));
        s.push_str(&format!("\"counters\":{{{}}},", f(&e.counters)));
        s.push_str(&format!("\"maxima\":{{{}}},", f(&e.maxima)));
        s.push_str(&format!(
            "\"samples\":[{}],",
            e.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",")
        ));
        s.push_str(&format!(
            "\"inconclusive\":[{}],",
            e.inconclusive.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",")
        ));
        for h in &e.distinct {
            hashes.extend_from_slice(&h.to_le_bytes());
        }
    });
    s.push_str(&format!("\"wall_s\":{:.3}}}", o.start.elapsed().as_secs_f64()));
    let _ = std::fs::write(o.out.with_extension("hashes"), &hashes);
    let _ = std::fs::write(&o.out, s);
}

static DYING: AtomicBool = AtomicBool::new(false);

fn die(code: i32) -> ! {
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(code) }
}

/// Reports a violation of the running property and ends the process.
pub fn violation(msg: impl Into<String>, detail: impl Into<String>) -> ! {
    if DYING.swap(true, SeqCst) {
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    inj_off();
    let (msg, mut detail) = (msg.into(), detail.into());
    detail.push_str("\n--- recent poller activity ---\n");
    detail.push_str(&recent_log());
    eprintln!("violation: {msg}\n{detail}");
    dump("violation", &msg, &detail);
    die(1)
}
pub fn finish() -> ! {
    if DYING.swap(true, SeqCst) {
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    dump("held", "", "");
    die(0)
}
/// The harness itself failed.
pub fn harness_error(msg: impl Into<String>) -> ! {
    if DYING.swap(true, SeqCst) {
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    let msg = msg.into();
    eprintln!("harness error: {msg}");
    dump("error", &msg, "");
    die(3)
}
/// Ends the run without a verdict.
pub fn give_up(msg: impl Into<String>) -> ! {
    let msg = msg.into();
    inconclusive(msg.clone());
    if DYING.swap(true, SeqCst) {
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    dump("inconclusive", &msg, "");
    die(0)
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => {
        if !$c { $crate::rt::violation(format!($($t)*), concat!("failed check: ", stringify!($c)).to_string()); }
    };
}

/// Payload of panics that the workload raises on purpose.
pub struct Deliberate;

/// A duration that is only just representable as an `Instant` from now on.
pub fn huge(rng: &mut Rng) -> Duration {
    let now = Instant::now();
    let (mut a, mut b) = (0u64, u64::MAX);
    while b - a > 1 {
        let m = a + (b - a) / 2;
        if now.checked_add(Duration::from_secs(m)).is_some() {
            a = m
        } else {
            b = m
        }
    }
    Duration::from_secs(a - rng.range(5000, 10_000)) + Duration::from_nanos(rng.below(2_000_000_000))
}

/// Set while a panic of the crate is a legitimate way to report a failure.
pub static PANICS_ALLOWED: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Deliberate>() || PANICS_ALLOWED.load(SeqCst) {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        let file = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let in_sut = file.contains("/repo/src/")
            || file.contains("shim/parking")
            || file.contains("shim/polling");
        // A panic located in a dependency or in std counts if async-io called it directly.
        let via = bt.lines().any(|l| l.contains("/repo/src/")) && !file.contains("harness/src");
        if in_sut || via {
            violation(format!("the crate panicked at {loc}: {msg}"), bt);
        }
        harness_error(format!("panic at {loc}: {msg}\n{bt}"));
    }));
}

// ---------------------------------------------------------------------------------------------
// Sequence numbers, progress, stall detection

static SEQ: AtomicU64 = AtomicU64::new(1);
/// Next number of a global total order that is consistent with happens-before.
pub fn seq() -> u64 {
    SEQ.fetch_add(1, SeqCst)
}
static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub fn progress() {
    PROGRESS.fetch_add(1, Relaxed);
}

/// Description of all threads of this process.
pub fn threads_dump() -> String {
    let mut s = String::new();
    if let Ok(dir) = std::fs::read_dir("/proc/self/task") {
        for e in dir.flatten() {
            let p = e.path();
            let comm = std::fs::read_to_string(p.join("comm")).unwrap_or_default();
            let stat = std::fs::read_to_string(p.join("stat")).unwrap_or_default();
            let state = stat.rsplit(')').next().unwrap_or("").trim().chars().next().unwrap_or('?');
            let wchan = std::fs::read_to_string(p.join("wchan")).unwrap_or_default();
            s.push_str(&format!(
                "thread {} {:?} state {} wchan {}\n",
                e.file_name().to_string_lossy(),
                comm.trim(),
                state,
                wchan
            ));
        }
    }
    s
}

/// Counts 10 ms ticks that took about 10 ms, i.e. time during which this process got CPU.
pub struct Healthy {
    pub ticks: u64,
}
impl Healthy {
    pub fn new() -> Healthy {
        Healthy { ticks: 0 }
    }
    pub fn tick(&mut self) {
        let t = Instant::now();
        std::thread::sleep(Duration::from_millis(10));
        if t.elapsed() < Duration::from_millis(60) {
            self.ticks += 1;
        }
    }
}

pub fn stall_ticks() -> u64 {
    static S: AtomicU64 = AtomicU64::new(0);
    match S.load(Relaxed) {
        0 => {
            let v = std::env::var("VH_STALL").ok().and_then(|s| s.parse().ok()).unwrap_or(800);
            S.store(v, Relaxed);
            v
        }
        v => v,
    }
}

/// Waits until `cond` holds. If it does not for a long time, `explain` must establish whether that
/// is a violation: it returns the details, or None if the condition is not due.
pub fn await_cond(mut cond: impl FnMut() -> bool, what: &str, mut explain: impl FnMut() -> Option<String>) {
    for _ in 0..50 {
        if cond() {
            progress();
            return;
        }
        std::thread::yield_now();
    }
    let t = Instant::now();
    let mut us = 20;
    while t.elapsed() < Duration::from_millis(40) {
        if cond() {
            progress();
            return;
        }
        std::thread::sleep(Duration::from_micros(us));
        us = (us * 3 / 2).min(1000);
    }
    let mut h = Healthy::new();
    let hard = Instant::now();
    while h.ticks < stall_ticks() {
        if cond() {
            progress();
            return;
        }
        h.tick();
        progress();
        if hard.elapsed() > Duration::from_secs(120) {
            give_up(format!("machine overloaded while waiting for: {what}"));
        }
    }
    // Stalled. Take delays out and force the reactor to run a number of rounds.
    inj_off();
    let r0 = ROUNDS.load(SeqCst);
    let mut why = None;
    for _ in 0..60 {
        polling::verif::kick();
        h.tick();
        progress();
        if cond() {
            // It took a stall of many seconds and forced rounds: a wakeup was lost and later
            // made up for.
            why = Some("completed only after extra reactor rounds were forced".to_string());
            break;
        }
    }
    let rounds = ROUNDS.load(SeqCst) - r0;
    match explain() {
        Some(d) => {
            let d = format!(
                "{}\nafter {} healthy 10 ms ticks, {} forced reactor rounds; {}\n{}",
                d,
                h.ticks,
                rounds,
                why.unwrap_or_else(|| "still not done".into()),
                threads_dump()
            );
            violation(format!("stalled: {what}"), d)
        }
        None => give_up(format!("stalled without being due: {what}")),
    }
}

/// Declares a violation if the process as a whole makes no progress (deadlock in a library call).
pub fn start_watchdog() {
    // (Opened early, so that the number of open descriptors does not change later.)
    if !cfg!(vh_san) {
        TASKS.get_or_init(|| Tasks(unsafe { libc::opendir(c"/proc/self/task".as_ptr()) }));
    }
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(|| {
            WATCHDOG_TID.store(gettid(), SeqCst);
            let mut h = Healthy::new();
            let mut last = PROGRESS.load(Relaxed);
            loop {
                h.tick();
                let p = PROGRESS.load(Relaxed);
                if p != last {
                    last = p;
                    h.ticks = 0;
                }
                if h.ticks > stall_ticks() * 3 / 2 {
                    let r0 = ROUNDS.load(SeqCst);
                    inj_off();
                    for _ in 0..50 {
                        polling::verif::kick();
                        h.tick();
                    }
                    if PROGRESS.load(Relaxed) != p {
                        h.ticks = 0;
                    }
                    violation(
                        "deadlock: a call into the crate that must not block never returned",
                        format!(
                            "last activity: {}\nno progress for {} healthy 10 ms ticks; {} reactor rounds after 50 kicks\n{}",
                            lock(&ACTIVITY),
                            h.ticks,
                            ROUNDS.load(SeqCst) - r0,
                            threads_dump()
                        ),
                    );
                }
            }
        })
        .unwrap();
}
static ACTIVITY: Mutex<String> = Mutex::new(String::new());
/// Remembers what the workload is doing, for the watchdog's report.
pub fn activity(s: impl Into<String>) {
    *lock(&ACTIVITY) = s.into();
}

// ---------------------------------------------------------------------------------------------
// Delay injection

const NTRACE: usize = 16;
const NINJ: usize = NPOINTS + NTRACE;
static INJ_PROB: [AtomicU32; NINJ] = [const { AtomicU32::new(0) }; NINJ];
static INJ_MAX: [AtomicU32; NINJ] = [const { AtomicU32::new(0) }; NINJ];
pub static INJ_HITS: AtomicU64 = AtomicU64::new(0);
static POINTS_SEEN: [AtomicU64; NINJ] = [const { AtomicU64::new(0) }; NINJ];
static TRACE_HASH: AtomicU64 = AtomicU64::new(0);

pub fn inj_off() {
    DISTURB.store(0, Relaxed);
    for i in 0..NINJ {
        INJ_PROB[i].store(0, Relaxed);
    }
}
pub fn inj_set(p: Point, permille: u32, max_us: u32) {
    INJ_PROB[p as usize].store(permille, Relaxed);
    INJ_MAX[p as usize].store(max_us, Relaxed);
}
/// Chooses a new delay profile.
pub fn inj_shuffle(rng: &mut Rng) {
    inj_off();
    if rng.chance(20) {
        disturb(*rng.pick(&[30, 100, 400]));
    }
    match rng.below(10) {
        0..=2 => {}
        3..=4 => {
            for i in 0..NINJ {
                INJ_PROB[i].store(50, Relaxed);
                INJ_MAX[i].store(60, Relaxed);
            }
        }
        _ => {
            for _ in 0..rng.range(1, 3) {
                let i = rng.us(NINJ);
                INJ_MAX[i].store(*rng.pick(&[30, 100, 300, 1000]), Relaxed);
                INJ_PROB[i].store(*rng.pick(&[100, 300, 700, 1000]), Relaxed);
            }
            if rng.chance(40) {
                // The window between fetching events and processing them.
                inj_set(Point::WaitExit, 700, *rng.pick(&[50, 200, 800]));
            }
        }
    }
}
// Threads are also held up by signals, at any instruction whatever, not only at the points where there is a hook.
static DISTURB: AtomicU64 = AtomicU64::new(0);
static SIGNALS: AtomicU64 = AtomicU64::new(0);
static SIGNALS_HELPER: AtomicU64 = AtomicU64::new(0);
static SIG_RNG: AtomicU64 = AtomicU64::new(1);

extern "C" fn on_signal(_: libc::c_int) {
    unsafe {
        let e = libc::__errno_location();
        let old = *e;
        let r = mix(SIG_RNG.fetch_add(1, Relaxed), 0x5157);
        let us = match r % 10 {
            0..=5 => (r >> 8) % 60,
            6..=8 => (r >> 8) % 400,
            _ => (r >> 8) % 2500,
        };
        let t = libc::timespec { tv_sec: 0, tv_nsec: (us * 1000) as _ };
        libc::nanosleep(&t, std::ptr::null_mut());
        *e = old;
    }
}

/// Starts to disturb the threads of the process, once per so many microseconds.
fn disturb(every_us: u64) {
    if cfg!(vh_san) {
        return;
    }
    handle_signals();
    static START: std::sync::Once = std::sync::Once::new();
    START.call_once(|| {
        let _ = std::thread::Builder::new().name("disturber".into()).spawn(disturber);
    });
    DISTURB.store(every_us, Relaxed);
}

fn handle_signals() {
    static START: std::sync::Once = std::sync::Once::new();
    START.call_once(|| {
        SIG_RNG.store(mix(opts().seed, 77) >> 8, Relaxed);
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_RESTART;
            libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
        }
    });
}

/// Holds up the async-io thread for a moment, wherever it is.
pub fn hold_helper() {
    let t = HELPER_TID.load(Relaxed);
    if cfg!(vh_san) || t == 0 {
        return;
    }
    handle_signals();
    unsafe {
        libc::syscall(libc::SYS_tgkill, libc::getpid(), t, libc::SIGUSR1);
    }
    count("helper_held_up", 1);
}

struct Tasks(*mut libc::DIR);
unsafe impl Send for Tasks {}
unsafe impl Sync for Tasks {}
static TASKS: std::sync::OnceLock<Tasks> = std::sync::OnceLock::new();

fn disturber() {
    let mut rng = Rng::new(mix(opts().seed, 78));
    let me = unsafe { libc::getpid() };
    let mut tids: Vec<u64> = vec![];
    let mut age = u64::MAX;
    let own = gettid();
    loop {
        let every = DISTURB.load(Relaxed);
        if every == 0 {
            age = u64::MAX;
            std::thread::sleep(Duration::from_millis(3));
            continue;
        }
        if age > 100 {
            age = 0;
            tids.clear();
            if let Some(d) = TASKS.get().filter(|d| !d.0.is_null()) {
                unsafe {
                    libc::rewinddir(d.0);
                    loop {
                        let e = libc::readdir(d.0);
                        if e.is_null() {
                            break;
                        }
                        let name = std::ffi::CStr::from_ptr((*e).d_name.as_ptr()).to_string_lossy();
                        match name.parse() {
                            Ok(t) if t != own && t != WATCHDOG_TID.load(SeqCst) => tids.push(t),
                            _ => {}
                        }
                    }
                }
            }
        }
        age += 1;
        if tids.is_empty() {
            age = u64::MAX;
            std::thread::sleep(Duration::from_millis(1));
            continue;
        }
        let helper = HELPER_TID.load(Relaxed);
        let tid = if helper != 0 && rng.chance(25) { helper } else { *rng.pick(&tids) };
        if DISTURB.load(Relaxed) != 0 && unsafe { libc::syscall(libc::SYS_tgkill, me, tid, libc::SIGUSR1) } == 0 {
            SIGNALS.fetch_add(1, Relaxed);
            if tid == helper {
                SIGNALS_HELPER.fetch_add(1, Relaxed);
            }
        }
        std::thread::sleep(Duration::from_micros(rng.below(2 * every)));
    }
}

struct AtExit(RefCell<Vec<Box<dyn FnOnce()>>>);
impl Drop for AtExit {
    fn drop(&mut self) {
        for f in self.0.take() {
            f()
        }
    }
}
thread_local!(static AT_EXIT: AtExit = const { AtExit(RefCell::new(Vec::new())) });

/// Runs `f` on a thread that is about to be gone: its thread-local variables, those of the crate included, have been destroyed
/// (or are being destroyed).
pub fn at_thread_exit(name: &str, crate_used: bool, f: impl FnOnce() + Send + 'static) -> std::thread::JoinHandle<()> {
    count("done_at_thread_exit", 1);
    std::thread::Builder::new()
        .name(name.into())
        .spawn(move || {
            let f: Box<dyn FnOnce()> = Box::new(f);
            // What is registered first is destroyed last.
            AT_EXIT.with(|a| a.0.borrow_mut().push(f));
            if crate_used {
                async_io::block_on(async {});
            }
        })
        .unwrap()
}

/// Runs `f` without delays on this thread.
pub fn no_inject<R>(f: impl FnOnce() -> R) -> R {
    NO_INJECT.with(|n| n.set(n.get() + 1));
    let r = f();
    NO_INJECT.with(|n| n.set(n.get() - 1));
    r
}

static HELPER_TID: AtomicU64 = AtomicU64::new(0);
static WATCHDOG_TID: AtomicU64 = AtomicU64::new(0);
fn gettid() -> u64 {
    unsafe { libc::syscall(libc::SYS_gettid) as u64 }
}

fn thread_class() -> u64 {
    thread_local!(static CLASS: u64 = {
        match std::thread::current().name() {
            Some("async-io") => {
                HELPER_TID.store(gettid(), Relaxed);
                7
            }
            _ => TID.with(|t| *t),
        }
    });
    CLASS.try_with(|c| *c).unwrap_or(0)
}

fn inj_point(i: usize) {
    POINTS_SEEN[i].fetch_add(1, Relaxed);
    // Zero-timeout parks by idle threads and the helper thread's timed parks would make every
    // trace unique, so they are not part of the interleaving signature.
    if i < NPOINTS && i != Point::ParkTimedPre as usize && i != Point::ParkTimedPost as usize {
        let v = (i as u64) << 32 | thread_class();
        let _ = TRACE_HASH.fetch_update(Relaxed, Relaxed, |h| Some(mix(h, v)));
    }
    let p = INJ_PROB[i].load(Relaxed);
    if p == 0 || NO_INJECT.try_with(|n| n.get()).unwrap_or(1) > 0 {
        return;
    }
    if rnd(1000) as u32 >= p {
        return;
    }
    INJ_HITS.fetch_add(1, Relaxed);
    delay(INJ_MAX[i].load(Relaxed) as u64);
}
pub fn delay(max_us: u64) {
    match rnd(5) {
        0 => std::thread::yield_now(),
        1 => {
            let t = Instant::now();
            let d = Duration::from_micros(rnd(max_us.max(1)));
            while t.elapsed() < d {
                std::hint::spin_loop();
            }
        }
        _ => std::thread::sleep(Duration::from_micros(rnd(max_us.max(1)))),
    }
}
/// Returns and resets the hash of the sequence of (point, thread) observed.
pub fn take_trace() -> u64 {
    TRACE_HASH.swap(0, Relaxed)
}
pub fn report_points() {
    let names = [
        "pre_add", "post_add", "pre_modify", "post_modify", "pre_delete", "post_delete", "wait_enter",
        "wait_exit", "pre_notify", "post_notify", "park0_pre", "park0_post", "park_pre", "park_post",
        "park_timed_pre", "park_timed_post", "unpark_pre", "unpark_post",
    ];
    for (i, n) in names.iter().enumerate() {
        count(&format!("point_{n}"), POINTS_SEEN[i].load(Relaxed) as i64);
    }
    let t: u64 = (NPOINTS..NINJ).map(|i| POINTS_SEEN[i].load(Relaxed)).sum();
    count("point_trace", t as i64);
    count("delays_injected", INJ_HITS.load(Relaxed) as i64);
    count("signals_sent", SIGNALS.load(Relaxed) as i64);
    count("signals_to_helper", SIGNALS_HELPER.load(Relaxed) as i64);
    count("reactor_rounds", ROUNDS.load(Relaxed) as i64);
}

struct Sub;
impl tracing_core::Subscriber for Sub {
    fn enabled(&self, m: &tracing_core::Metadata<'_>) -> bool {
        m.target().starts_with("async_io")
    }
    fn register_callsite(&self, m: &'static tracing_core::Metadata<'static>) -> tracing_core::subscriber::Interest {
        if m.target().starts_with("async_io") && m.is_event() {
            tracing_core::subscriber::Interest::always()
        } else {
            tracing_core::subscriber::Interest::never()
        }
    }
    fn new_span(&self, _: &tracing_core::span::Attributes<'_>) -> tracing_core::span::Id {
        tracing_core::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing_core::span::Id, _: &tracing_core::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing_core::span::Id, _: &tracing_core::span::Id) {}
    fn event(&self, e: &tracing_core::Event<'_>) {
        let p = e.metadata() as *const _ as usize;
        inj_point(NPOINTS + (p >> 4) % NTRACE);
    }
    fn enter(&self, _: &tracing_core::span::Id) {}
    fn exit(&self, _: &tracing_core::span::Id) {}
}

// ---------------------------------------------------------------------------------------------
// Observation

/// Reactor rounds: completed waits.
pub static ROUNDS: AtomicU64 = AtomicU64::new(0);
pub static WAITS_ENTERED: AtomicU64 = AtomicU64::new(0);
pub static NOTIFIES: AtomicU64 = AtomicU64::new(0);
pub static PARKS_TIMED: AtomicU64 = AtomicU64::new(0);
pub static IN_WAIT: AtomicBool = AtomicBool::new(false);
pub static WAITER_IS_HELPER: AtomicBool = AtomicBool::new(false);
pub static LAST_TIMEOUT_NS: AtomicI64 = AtomicI64::new(0);

#[derive(Clone, Debug)]
pub enum Log {
    Op { op: PollOp, begin: u64, end: u64, errno: Option<i32>, injected: bool },
    Wait { enter: u64, exit: u64, events: Vec<Delivered>, ok: bool },
}

/// A monitor that a check installs in addition to the common one.
pub trait Monitor: Sync + Send {
    fn pre_op(&self, _op: &PollOp) -> Option<i32> {
        None
    }
    fn post_op(&self, _op: &PollOp, _begin: u64, _res: &std::io::Result<()>) {}
    fn wait_enter(&self, _timeout: Option<Duration>, _seq: u64) -> Option<i32> {
        None
    }
    fn wait_exit(&self, _events: &[Delivered], _enter: u64, _ok: bool) {}
    fn park(&self, _timeout: Option<Duration>) {}
}
static MONITOR: OnceLock<&'static dyn Monitor> = OnceLock::new();
pub fn set_monitor(m: &'static dyn Monitor) {
    let _ = MONITOR.set(m);
}

static RECENT: Mutex<Vec<(u64, String)>> = Mutex::new(Vec::new());
static RECENT_POS: AtomicUsize = AtomicUsize::new(0);
static RECENT_ON: AtomicBool = AtomicBool::new(true);
const RECENT_CAP: usize = 120;
fn recent(f: impl FnOnce(&mut String)) {
    if !RECENT_ON.load(Relaxed) {
        return;
    }
    let Ok(mut r) = RECENT.try_lock() else { return };
    if r.len() < RECENT_CAP {
        let mut s = String::with_capacity(160);
        f(&mut s);
        r.push((SEQ.load(Relaxed), s));
    } else {
        let i = RECENT_POS.fetch_add(1, Relaxed) % RECENT_CAP;
        let e = &mut r[i];
        e.0 = SEQ.load(Relaxed);
        e.1.clear();
        f(&mut e.1);
    }
}
/// Turns off the textual ring buffer (it allocates).
pub fn recent_off() {
    RECENT_ON.store(false, Relaxed);
}
fn recent_log() -> String {
    let Ok(r) = RECENT.try_lock() else { return String::new() };
    let mut v: Vec<_> = r.iter().collect();
    v.sort();
    v.iter().rev().take(60).rev().map(|(a, b)| format!("{a}: {b}\n")).collect()
}
pub fn note(s: impl FnOnce() -> String) {
    recent(|b| b.push_str(&s()));
}

thread_local! {
    /// The last successful registration made by this thread: (fd, key, gen).
    pub static LAST_ADD: Cell<(i32, usize, u32)> = const { Cell::new((-1, 0, 0)) };
    static OP_BEGIN: Cell<u64> = const { Cell::new(0) };
    static OP_INJECTED: Cell<bool> = const { Cell::new(false) };
    static WAIT_BEGIN: Cell<u64> = const { Cell::new(0) };
}

struct Main;
impl vpoint::Hook for Main {
    fn point(&self, p: Point) {
        inj_point(p as usize);
    }
    fn pre_op(&self, op: &PollOp) -> Option<i32> {
        let _ = OP_BEGIN.try_with(|b| b.set(seq()));
        let r = MONITOR.get().and_then(|m| m.pre_op(op));
        let _ = OP_INJECTED.try_with(|b| b.set(r.is_some()));
        r
    }
    fn post_op(&self, op: &PollOp, res: &std::io::Result<()>) {
        use std::fmt::Write as _;
        recent(|s| {
            let _ = write!(
                s,
                "{:?} fd={} key={} gen={} r={} w={} -> {:?}",
                op.kind, op.fd, op.key, op.gen, op.readable, op.writable, res
            );
        });
        if op.kind == vpoint::OpKind::Add && res.is_ok() {
            let _ = LAST_ADD.try_with(|l| l.set((op.fd, op.key, op.gen)));
        }
        if let Some(m) = MONITOR.get() {
            m.post_op(op, OP_BEGIN.try_with(|b| b.get()).unwrap_or(0), res)
        }
    }
    fn wait_enter(&self, timeout: Option<Duration>) -> Option<i32> {
        use std::fmt::Write as _;
        let s = seq();
        let _ = WAIT_BEGIN.try_with(|b| b.set(s));
        recent(|s| {
            let _ = write!(s, "wait enter timeout={:?} thread={:?}", timeout, std::thread::current().name());
        });
        WAITS_ENTERED.fetch_add(1, SeqCst);
        LAST_TIMEOUT_NS.store(timeout.map_or(-1, |t| t.as_nanos().min(i64::MAX as u128) as i64), SeqCst);
        WAITER_IS_HELPER.store(thread_class() == 7, SeqCst);
        IN_WAIT.store(true, SeqCst);
        MONITOR.get().and_then(|m| m.wait_enter(timeout, s))
    }
    fn wait_exit(&self, events: &[Delivered], ok: bool) {
        use std::fmt::Write as _;
        IN_WAIT.store(false, SeqCst);
        let s = WAIT_BEGIN.try_with(|b| b.get()).unwrap_or(0);
        recent(|s| {
            let _ = write!(s, "wait exit ok={ok}");
            for e in events {
                let _ = write!(s, " [key={} gen={} r={} w={}]", e.key, e.gen, e.readable, e.writable);
            }
        });
        if let Some(m) = MONITOR.get() {
            m.wait_exit(events, s, ok)
        }
        ROUNDS.fetch_add(1, SeqCst);
        progress_reactor();
    }
    fn notify(&self) {
        NOTIFIES.fetch_add(1, SeqCst);
    }
    fn park(&self, timeout: Option<Duration>) {
        if matches!(timeout, Some(d) if !d.is_zero()) {
            PARKS_TIMED.fetch_add(1, SeqCst);
        }
        if let Some(m) = MONITOR.get() {
            m.park(timeout)
        }
    }
}
fn progress_reactor() {}

pub fn install_hooks(tracing: bool) {
    vpoint::install(&Main);
    if tracing {
        let _ = tracing_core::dispatcher::set_global_default(tracing_core::Dispatch::new(Sub));
    }
}

/// Waits until the reactor has completed `n` further rounds that began after this call.
pub fn reactor_rounds(n: u64) {
    let target = ROUNDS.load(SeqCst) + n + 1;
    await_cond(
        || {
            let done = ROUNDS.load(SeqCst) >= target;
            if !done {
                polling::verif::kick();
            }
            done
        },
        "the reactor is not being driven by anyone",
        || Some("kicks have no effect".into()),
    );
}
