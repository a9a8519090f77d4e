//! C13: failing OS calls. For every random script, the k-th poller call of a class fails, for all k.

use std::cell::Cell;
use std::future::{poll_fn, Future};
use std::io;
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::os::fd::{AsRawFd, RawFd};
use std::os::unix::net::{UnixDatagram, UnixListener, UnixStream};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

use async_io::{Async, Timer};
use futures_io::{AsyncRead, AsyncWrite};
use futures_lite::{Stream, StreamExt};
use vpoint::{OpKind, PollOp};

use crate::exec::*;
use crate::fdu;
use crate::life::regs;
use crate::rt::*;

// ---------------------------------------------------------------------------------------------
// Injection

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Class {
    Add,
    /// Arming interest on behalf of a caller.
    ModifyCaller,
    /// Re-arming after an event.
    ModifyReactor,
    Delete,
    Wait,
}
const CLASSES: [Class; 5] = [Class::Add, Class::ModifyCaller, Class::ModifyReactor, Class::Delete, Class::Wait];

static ACTIVE: AtomicBool = AtomicBool::new(false);
static CLASS: AtomicUsize = AtomicUsize::new(0);
static ERRNO: AtomicI32 = AtomicI32::new(0);
/// Calls of the class that still succeed, and how many fail after that.
static BEFORE: AtomicI64 = AtomicI64::new(0);
static BURST: AtomicI64 = AtomicI64::new(0);
static INJECTED: AtomicU64 = AtomicU64::new(0);
static SURFACED: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static IN_CALL: Cell<bool> = const { Cell::new(false) };
    static MINE: Cell<Option<(Class, i32)>> = const { Cell::new(None) };
}
fn fail(c: Class) -> Option<i32> {
    if !ACTIVE.load(SeqCst) || CLASSES[CLASS.load(SeqCst)] != c {
        return None;
    }
    let i = BEFORE.fetch_sub(1, SeqCst);
    if i > 0 || -i >= BURST.load(SeqCst) {
        return None;
    }
    INJECTED.fetch_add(1, SeqCst);
    count(&format!("injected_{c:?}"), 1);
    Some(ERRNO.load(SeqCst))
}
struct Mon;
impl Monitor for Mon {
    fn pre_op(&self, op: &PollOp) -> Option<i32> {
        let caller = IN_CALL.with(|c| c.get());
        let c = match op.kind {
            OpKind::Add => Class::Add,
            OpKind::Delete => Class::Delete,
            OpKind::Modify if caller => Class::ModifyCaller,
            OpKind::Modify => Class::ModifyReactor,
        };
        let e = fail(c)?;
        if caller && MINE.with(|m| m.get()).is_none() {
            MINE.with(|m| m.set(Some((c, e))));
        }
        Some(e)
    }
    fn wait_enter(&self, _: Option<Duration>, _: u64) -> Option<i32> {
        fail(Class::Wait)
    }
}

fn judge<T>(what: &str, p: Poll<io::Result<T>>, natural: &[io::ErrorKind]) -> Poll<io::Result<T>> {
    let mine = MINE.with(|m| m.take());
    match (mine, &p) {
        (None, Poll::Ready(Err(e))) if !natural.contains(&e.kind()) => {
            violation(format!("{what} failed with {e:?} although no call of its own did"), "")
        }
        (Some((c, e)), Poll::Ready(Err(x))) => {
            if x.raw_os_error() != Some(e) {
                violation(format!("{what} reported {x:?} when {c:?} failed with errno {e}"), "")
            }
            SURFACED.fetch_add(1, SeqCst);
        }
        (Some((c, e)), _) if c != Class::Delete || what == "into_inner" => violation(
            format!("{what} did not report that {c:?} failed with errno {e}"),
            match p {
                Poll::Pending => "pending",
                _ => "success",
            },
        ),
        _ => {}
    }
    p
}
fn scope<R>(f: impl FnOnce() -> R) -> R {
    MINE.with(|m| m.set(None));
    let old = IN_CALL.with(|c| c.replace(true));
    let r = f();
    IN_CALL.with(|c| c.set(old));
    r
}
/// A synchronous call.
fn call<T>(what: &str, f: impl FnOnce() -> io::Result<T>) -> io::Result<T> {
    let r = scope(f);
    match judge(what, Poll::Ready(r), &[]) {
        Poll::Ready(r) => r,
        Poll::Pending => unreachable!(),
    }
}
struct Judged<F> {
    f: Pin<Box<F>>,
    what: &'static str,
    natural: &'static [io::ErrorKind],
}
impl<T, F: Future<Output = io::Result<T>>> Future for Judged<F> {
    type Output = io::Result<T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<T>> {
        let r = scope(|| self.f.as_mut().poll(cx));
        judge(self.what, r, self.natural)
    }
}
fn judged<T, F: Future<Output = io::Result<T>>>(what: &'static str, f: F) -> Judged<F> {
    Judged { f: Box::pin(f), what, natural: &[] }
}
const RESET: &[io::ErrorKind] = &[io::ErrorKind::ConnectionReset, io::ErrorKind::BrokenPipe, io::ErrorKind::NotConnected];
fn judged_reset<T, F: Future<Output = io::Result<T>>>(what: &'static str, f: F) -> Judged<F> {
    Judged { f: Box::pin(f), what, natural: RESET }
}
/// Repeats an operation until it works. Faults are finite.
macro_rules! retry {
    ($what:expr, $e:expr) => {
        loop {
            match judged($what, $e).await {
                Ok(x) => break x,
                Err(_) => count("retries", 1),
            }
        }
    };
}

macro_rules! keeping {
    ($what:expr, $e:expr) => {{
        let mut kept = Vec::new();
        loop {
            let mut f = Box::pin($e);
            match judged($what, &mut f).await {
                Ok(x) => break x,
                Err(_) => {
                    count("retries", 1);
                    kept.push(f);
                }
            }
        }
    }};
}

// ---------------------------------------------------------------------------------------------
// Scripts

type Handle = Arc<Async<UnixStream>>;
struct Entry {
    h: Handle,
    peer: UnixStream,
    asyncio: [bool; 2],
}

async fn wait(h: Handle, dir: usize, kind: u64) {
    match (kind, dir) {
        // The futures that failed are still there while the next ones wait.
        (0, 0) => keeping!("readable", h.readable()),
        (0, _) => keeping!("writable", h.writable()),
        (1, 0) => retry!("readable_owned", h.clone().readable_owned()),
        (1, _) => retry!("writable_owned", h.clone().writable_owned()),
        (2, 0) => retry!("read_with", h.read_with(|s| fdu::peek(s.as_raw_fd()).map(|_| ()))),
        (2, _) => retry!(
            "write_with",
            h.write_with(|s| match fdu::truth(s.as_raw_fd()).1 {
                true => Ok(()),
                false => Err(io::ErrorKind::WouldBlock.into()),
            })
        ),
        (3, 0) => retry!("poll_readable", poll_fn(|cx| h.poll_readable(cx))),
        (3, _) => retry!("poll_writable", poll_fn(|cx| h.poll_writable(cx))),
        (_, 0) => {
            let mut r = &*h;
            let mut b = [0];
            let n = retry!("AsyncRead::read", poll_fn(|cx| Pin::new(&mut r).poll_read(cx, &mut b)));
            check!(n == 1, "AsyncRead read {n} bytes");
        }
        (_, _) => {
            let mut r = &*h;
            let n = retry!("AsyncWrite::write", poll_fn(|cx| Pin::new(&mut r).poll_write(cx, b"w")));
            check!(n == 1, "AsyncWrite wrote {n} bytes");
        }
    }
}

/// Everything that creates a registered object.
fn create(rng: &mut Rng, addr: &dyn Fn() -> UdpSocket) -> io::Result<()> {
    match rng.below(7) {
        0 => call("UdpSocket::bind", || Async::<UdpSocket>::bind((fdu::lo(), 0))).map(drop),
        1 => {
            // The port is free again afterwards.
            let r = call("TcpListener::bind", || Async::<TcpListener>::bind((fdu::lo(), 0)));
            r.map(drop)
        }
        2 => call("UnixStream::pair", Async::<UnixStream>::pair).map(drop),
        3 => call("UnixDatagram::pair", Async::<UnixDatagram>::pair).map(drop),
        4 => call("UnixDatagram::unbound", Async::<UnixDatagram>::unbound).map(drop),
        5 => {
            let s = addr();
            call("try_from", || Async::<UdpSocket>::try_from(s)).map(drop)
        }
        _ => {
            let s = addr();
            // A borrowing handle: the same descriptor has to be registrable after a failure.
            let fd = s.as_raw_fd();
            let r = call("new", || Async::new(&s)).map(drop);
            check!(fdu::is_open(fd), "a borrowed descriptor was closed");
            r
        }
    }
}

fn connection(rng: &mut Rng, pool: &Pool, tasks: &mut Vec<Arc<Task>>) {
    // Listeners are created by std, so that they are there in any case.
    let tcp = rng.chance(50);
    let incoming = rng.chance(50);
    if tcp {
        let l = TcpListener::bind((fdu::lo(), 0)).unwrap();
        let a = l.local_addr().unwrap();
        let l = match call("new", || Async::new(l)) {
            Ok(l) => l,
            Err(_) => return,
        };
        conn_tasks(rng, pool, tasks, l, incoming, move || Async::<TcpStream>::connect(a));
    } else {
        use std::os::linux::net::SocketAddrExt;
        let p = format!("f{}-{}", std::process::id(), rnd(u64::MAX));
        let a = std::os::unix::net::SocketAddr::from_abstract_name(p.as_bytes()).unwrap();
        let l = UnixListener::bind_addr(&a).unwrap();
        let p = format!("\0{p}");
        let l = match call("new", || Async::new(l)) {
            Ok(l) => l,
            Err(_) => return,
        };
        conn_tasks(rng, pool, tasks, l, incoming, move || {
            let p = p.clone();
            async move { Async::<UnixStream>::connect(&p).await }
        });
    }
}
trait Listen: Send + Sync + 'static {
    type S: Send + Sync + 'static;
    fn next(&self, incoming: bool) -> Pin<Box<dyn Future<Output = io::Result<Self::S>> + Send + '_>>;
}
impl Listen for Async<TcpListener> {
    type S = Async<TcpStream>;
    fn next(&self, incoming: bool) -> Pin<Box<dyn Future<Output = io::Result<Self::S>> + Send + '_>> {
        if incoming {
            Box::pin(async { Box::pin(self.incoming()).next().await.unwrap() })
        } else {
            Box::pin(async { self.accept().await.map(|x| x.0) })
        }
    }
}
impl Listen for Async<UnixListener> {
    type S = Async<UnixStream>;
    fn next(&self, incoming: bool) -> Pin<Box<dyn Future<Output = io::Result<Self::S>> + Send + '_>> {
        if incoming {
            Box::pin(async { Box::pin(self.incoming()).next().await.unwrap() })
        } else {
            Box::pin(async { self.accept().await.map(|x| x.0) })
        }
    }
}
fn conn_tasks<L: Listen, F>(
    rng: &mut Rng,
    pool: &Pool,
    tasks: &mut Vec<Arc<Task>>,
    l: L,
    incoming: bool,
    connect: impl Fn() -> F + Send + 'static,
) where
    L::S: AsyncRead + AsyncWrite + Unpin,
    F: Future<Output = io::Result<L::S>> + Send + 'static,
{
    let failed = Arc::new(AtomicU64::new(0));
    let f2 = failed.clone();
    // Failed connects.
    let refused = Arc::new(AtomicU64::new(0));
    let r2 = refused.clone();
    tasks.push(pool.spawn(rng, "acceptor".into(), 50, async move {
        loop {
            let mut s = loop {
                match judged("accept", l.next(incoming)).await {
                    Ok(s) => break s,
                    Err(_) => {
                        f2.fetch_add(1, SeqCst);
                        count("accepts_failed", 1);
                    }
                }
            };
            // (The client's connect may have failed after the connection was there.)
            loop {
                match judged_reset("write", poll_fn(|cx| Pin::new(&mut s).poll_write(cx, b"!"))).await {
                    Err(e) if !RESET.contains(&e.kind()) => {}
                    _ => break,
                }
            }
            let mut b = [0];
            let r = loop {
                match judged_reset("read", poll_fn(|cx| Pin::new(&mut s).poll_read(cx, &mut b))).await {
                    Err(e) if !RESET.contains(&e.kind()) => {}
                    r => break r,
                }
            };
            match r {
                Ok(1) => break,
                r if refused.load(SeqCst) == 0 => violation(format!("an accepted connection was lost: {r:?}"), ""),
                _ => {
                    count("half_open_connections", 1);
                }
            }
        }
    }));
    tasks.push(pool.spawn(rng, "connector".into(), 50, async move {
        loop {
            let f0 = failed.load(SeqCst);
            let mut s = loop {
                // Counted in advance, as the acceptor may see the dead connection at once.
                r2.fetch_add(1, SeqCst);
                if let Ok(s) = judged("connect", connect()).await {
                    r2.fetch_sub(1, SeqCst);
                    break s;
                }
            };
            let mut b = [0];
            let r = loop {
                match judged_reset("read", poll_fn(|cx| Pin::new(&mut s).poll_read(cx, &mut b))).await {
                    Err(e) if !RESET.contains(&e.kind()) => {}
                    r => break r,
                }
            };
            match r {
                Ok(1) => {
                    retry!("write", poll_fn(|cx| Pin::new(&mut s).poll_write(cx, b"?")));
                    break;
                }
                // Accepted, but its registration failed. The failure may be counted later than seen.
                Ok(0) | Err(_) => {
                    let t = Instant::now();
                    while failed.load(SeqCst) == f0 {
                        if t.elapsed() > Duration::from_secs(5) {
                            violation("a connection was dropped although accept reported no error", format!("{r:?}"));
                        }
                        std::thread::sleep(Duration::from_micros(100));
                    }
                }
                Ok(n) => violation(format!("read {n} bytes"), ""),
            }
        }
    }));
}

struct Nobody;
impl Wake for Nobody {
    fn wake(self: Arc<Self>) {}
}

/// Runs the script once. Returns whether the fault struck.
fn case(script: u64, pool: &Pool, base: &[RawFd], fds: &mut Option<usize>) -> (bool, u64) {
    let mut rng = Rng::new(script);
    let mut text = String::new();
    pool.shuffle(&mut rng);
    let class = CLASSES[CLASS.load(SeqCst)];
    INJECTED.store(0, SeqCst);
    let mut es: Vec<Entry> = vec![];
    let mut tasks: Vec<Arc<Task>> = vec![];
    let udp = || UdpSocket::bind((fdu::lo(), 0)).unwrap();
    let held = Arc::new(Nobody);
    ACTIVE.store(true, SeqCst);
    let newpair = |es: &mut Vec<Entry>| {
        let (a, b) = UnixStream::pair().unwrap();
        a.set_nonblocking(true).unwrap();
        b.set_nonblocking(true).unwrap();
        fdu::fill(a.as_raw_fd());
        let fd = a.as_raw_fd();
        let id = fdu::identity(fd);
        match call("new", || Async::new(a)) {
            Ok(h) => es.push(Entry { h: Arc::new(h), peer: b, asyncio: [false; 2] }),
            Err(_) => check!(fdu::identity(fd) != id, "a failed registration leaves its descriptor open"),
        }
    };
    for _ in 0..rng.range(1, 3) {
        newpair(&mut es);
    }
    let steps = rng.range(3, 14);
    for _ in 0..steps {
        let op = rng.below(16);
        let op = if class == Class::ModifyReactor && op >= 9 { op % 9 } else { op };
        // Choices are drawn in any case, so that the script does not depend on failures.
        let (a, b, c, d) = (rng.u64(), rng.u64(), rng.u64(), rng.u64());
        let mut r = Rng::new(d);
        text.push_str(&format!("{op} "));
        match op {
            0..=5 if !es.is_empty() => {
                let k = a as usize % es.len();
                let dir = b as usize % 2;
                let mut kind = c % 5;
                if kind >= 3 && std::mem::replace(&mut es[k].asyncio[dir], true) {
                    kind = 0;
                }
                let h = es[k].h.clone();
                tasks.push(pool.spawn(&mut r, format!("wait h{k} dir{dir} kind{kind}"), 50, wait(h, dir, kind)));
            }
            6 | 7 if !es.is_empty() => {
                let k = a as usize % es.len();
                let _ = fdu::write(es[k].peer.as_raw_fd(), b"x");
            }
            8 if !es.is_empty() => {
                fdu::drain(es[a as usize % es.len()].peer.as_raw_fd());
            }
            9 => {
                let us = a % 2000;
                tasks.push(pool.spawn(&mut r, "timer".into(), 50, async move {
                    Timer::after(Duration::from_micros(us)).await;
                }));
            }
            10 if !tasks.is_empty() => {
                let t = &tasks[a as usize % tasks.len()];
                if t.name.starts_with("wait") {
                    t.cancel()
                }
            }
            11 => newpair(&mut es),
            12 => {
                // A borrowing handle cannot be deregistered by closing it.
                if class != Class::Delete || r.chance(0) {
                    for _ in 0..4 {
                        let mut again = Rng::new(d);
                        if create(&mut again, &udp).is_ok() {
                            break;
                        }
                    }
                }
            }
            13 => connection(&mut r, pool, &mut tasks),
            14 => {
                // Unwrap or drop one that nobody else uses.
                let (x, _y) = UnixStream::pair().unwrap();
                if let Ok(h) = call("new", || Async::new(x)) {
                    // Someone waits through the poll functions, whose wakers stay with the handle.
                    if b % 3 != 0 {
                        let w = Waker::from(held.clone());
                        let cx = &mut Context::from_waker(&w);
                        let _ = scope(|| h.poll_readable(cx));
                    }
                    if a % 2 == 0 {
                        let _ = call("into_inner", || h.into_inner());
                    } else {
                        drop(h);
                    }
                }
            }
            _ => std::thread::sleep(Duration::from_micros(a % 300)),
        }
    }
    // Some events happen while calls still fail.
    if rng.chance(50) {
        for e in &es {
            let _ = fdu::write(e.peer.as_raw_fd(), b"x");
        }
    }
    std::thread::sleep(Duration::from_micros(rng.below(600)));
    if class != Class::Wait || rng.chance(50) {
        ACTIVE.store(false, SeqCst);
    }
    for e in &es {
        for _ in 0..40 {
            let _ = fdu::write(e.peer.as_raw_fd(), b"x");
        }
        fdu::drain(e.peer.as_raw_fd());
    }
    for t in &tasks {
        await_cond(
            || t.is_done(),
            "a task after an OS call failed",
            || {
                Some(format!(
                    "{}\nclass {class:?} errno {} script {script:x}: {text}\n{} failures injected; handles {:?}, registrations {:?}",
                    t.describe(),
                    ERRNO.load(SeqCst),
                    INJECTED.load(SeqCst),
                    es.iter().map(|h| fdu::truth(h.h.as_raw_fd())).collect::<Vec<_>>(),
                    fdu::epoll_registrations(async_io::os::unix::reactor_fd().unwrap().as_raw_fd())
                ))
            },
        );
    }
    ACTIVE.store(false, SeqCst);
    let n = tasks.len() as u64;
    drop(tasks);
    // Nothing is half-registered, and everything works.
    let mut expect: Vec<RawFd> = base.iter().copied().chain(es.iter().map(|e| e.h.as_raw_fd())).collect();
    expect.sort();
    let r = regs();
    check!(r == expect, "registered descriptors {r:?} differ from live handles {expect:?} after a failed {class:?} ({text})");
    let mut probes = vec![];
    for e in &es {
        let h = e.h.clone();
        probes.push(pool.spawn(&mut rng, "probe".into(), 50, async move {
            if let Err(e) = futures_lite::future::try_zip(h.readable(), h.writable()).await {
                violation(format!("a wait fails after the cause is gone: {e:?}"), "")
            }
        }));
    }
    for t in &probes {
        await_cond(|| t.is_done(), "a new wait after an OS call failed", || Some(format!("{class:?}: {text}")));
    }
    drop(probes);
    drop(es);
    // Nothing refers to the handles that are gone, even if the OS refused to deregister them.
    if Arc::strong_count(&held) > 1 {
        reactor_rounds(2);
        let n = Arc::strong_count(&held) - 1;
        check!(n == 0, "{n} waker reference(s) of handles that were dropped or unwrapped are still held; failed: {class:?} ({text})");
    }
    let r = regs();
    check!(r == base, "registered descriptors {r:?} instead of {base:?} after everything was dropped; failed: {class:?} ({text})");
    let open = fdu::open_fds();
    let b = *fds.get_or_insert(open);
    check!(open <= b, "{open} descriptors are open, {b} before; failed: {class:?} ({text})");
    sample(|| format!("{class:?} {text}"));
    (INJECTED.load(SeqCst) > 0, n)
}

/// Operations without free descriptors.
fn exhausted(rng: &mut Rng, pool: &Pool) {
    let (a, b) = UnixStream::pair().unwrap();
    b.set_nonblocking(true).unwrap();
    let h = Arc::new(Async::new(a).unwrap());
    let h2 = h.clone();
    let by = pool.spawn(rng, "bystander".into(), 50, async move { h2.readable().await.unwrap() });
    let us = rng.below(500);
    let by2 = pool.spawn(rng, "timer".into(), 50, async move {
        Timer::after(Duration::from_micros(us)).await;
    });
    let l = Async::new(TcpListener::bind((fdu::lo(), 0)).unwrap()).unwrap();
    let addr = l.get_ref().local_addr().unwrap();
    let before = fdu::open_fds();
    let r0 = regs();
    let which = rng.below(9);
    fn u<T>(r: io::Result<T>) -> io::Result<()> {
        r.map(drop)
    }
    let p = format!("x{}-{}", std::process::id(), rng.u64());
    let op = || -> io::Result<()> {
        match which {
            0 => u(Async::<UdpSocket>::bind((fdu::lo(), 0))),
            1 => u(Async::<TcpListener>::bind((fdu::lo(), 0))),
            2 => u(Async::<UnixStream>::pair()),
            3 => u(Async::<UnixDatagram>::pair()),
            4 => u(Async::<UnixDatagram>::unbound()),
            5 => u(Async::<UnixDatagram>::bind(format!("{p}d"))),
            6 => u(Async::<UnixListener>::bind(format!("{p}l"))),
            7 => u(async_io::block_on(Async::<TcpStream>::connect(addr))),
            _ => u(async_io::block_on(Async::<UnixStream>::connect(format!("{p}none")))),
        }
    };
    let r = crate::conn::with_no_fds(|| {
        let r = op();
        let _ = fdu::write(b.as_raw_fd(), b"x");
        await_cond(|| by.is_done() && by2.is_done(), "bystanders while descriptors are exhausted", || Some(String::new()));
        r
    });
    match r {
        Err(e) if e.raw_os_error() == Some(libc::EMFILE) => {}
        r => violation(format!("operation {which} without free descriptors returned {r:?}"), ""),
    }
    let _ = std::fs::remove_file(format!("{p}d"));
    let _ = std::fs::remove_file(format!("{p}l"));
    match op() {
        Ok(()) => {}
        Err(e) if which == 8 && e.kind() == io::ErrorKind::NotFound => {}
        Err(e) => violation(format!("operation {which} fails after descriptors were freed: {e:?}"), ""),
    }
    check!(regs() == r0 && fdu::open_fds() == before, "operation {which} left something behind when descriptors were exhausted");
    count("exhausted_descriptors", 1);
    evaluated(Some(mix(0xf00d, which)));
}

// ---------------------------------------------------------------------------------------------
// What a failed call leaves behind in the handle: nothing. After an error, a wait begins afresh.

#[derive(Default)]
struct Woken(AtomicU64);
impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}
#[derive(Default)]
struct Waits {
    f: Option<Pin<Box<dyn Future<Output = io::Result<()>>>>>,
    /// The flag of the most recent poll that returned `Pending`, until it is woken.
    armed: Option<Arc<Woken>>,
    /// Events delivered since the wait began, if there is one.
    events: Option<u64>,
}
fn after_failure(rng: &mut Rng) {
    let (a, b) = UnixStream::pair().unwrap();
    a.set_nonblocking(true).unwrap();
    b.set_nonblocking(true).unwrap();
    let h = Arc::new(Async::new(a).unwrap());
    let (fd, peer) = (h.as_raw_fd(), b.as_raw_fd());
    fdu::set_buf(fd, 4096, 4096);
    fdu::fill(fd);
    // Per direction: the poll function and two futures.
    let mut w: [[Waits; 3]; 2] = Default::default();
    let mut script = String::new();
    let arm = |class: usize, n: i64| {
        INJECTED.store(0, SeqCst);
        CLASS.store(class, SeqCst);
        BEFORE.store(0, SeqCst);
        BURST.store(n, SeqCst);
        ACTIVE.store(n > 0, SeqCst);
    };
    ERRNO.store(*rng.pick(&[libc::ENOMEM, libc::ENOSPC, libc::EPERM]), SeqCst);
    let steps = rng.range(5, 40);
    for step in 0.. {
        let end = step >= steps;
        if end && w.iter().flatten().all(|x| x.events.is_none()) {
            break;
        }
        check!(step < steps + 40, "waits do not end although every failure is over: {script}");
        // In the end: events and polls in turn.
        let d = if end { (step % 8 / 4) as usize } else { rng.us(2) };
        let fire = if end { step % 4 == 0 } else { rng.chance(25) };
        if fire {
            if w[d].iter().all(|x| x.armed.is_none()) {
                continue;
            }
            let fail = !end && rng.chance(30);
            script.push_str(&format!("event{d}{} ", if fail { "!" } else { "" }));
            arm(2, fail as i64);
            if d == 0 {
                let _ = fdu::write(peer, b"x");
            } else {
                fdu::drain(peer);
            }
            for x in &mut w[d] {
                if let Some(f) = x.armed.take() {
                    await_cond(|| f.0.load(SeqCst) > 0, "a wait in a handle with failures", || Some(script.clone()));
                }
                // (Also for those that were told about a failure and have not looked yet.)
                x.events = x.events.map(|n| n + 1);
            }
            // Those that cannot be told anymore are told at once.
            if INJECTED.load(SeqCst) > 0 {
                for x in &mut w[1 - d] {
                    if let Some(f) = x.armed.take() {
                        await_cond(|| f.0.load(SeqCst) > 0, "a wait whose interest cannot be renewed", || Some(script.clone()));
                    }
                }
                count("failed_renewals", 1);
            }
            arm(0, 0);
            if d == 0 {
                fdu::drain(fd);
            } else {
                fdu::fill(fd);
            }
            continue;
        }
        let i = if end { (step % 4 - 1) as usize } else { rng.us(3) };
        if end && w[d][i].events.is_none() {
            continue;
        }
        if i > 0 && !end && rng.chance(10) {
            script.push_str(&format!("drop{d}{i} "));
            w[d][i] = Waits::default();
            continue;
        }
        let fail = !end && rng.chance(40);
        let flag = Arc::new(Woken::default());
        let waker: Waker = flag.clone().into();
        let cx = &mut Context::from_waker(&waker);
        arm(1, fail as i64);
        let p = match (i, d) {
            (0, 0) => judge("poll_readable", scope(|| h.poll_readable(cx)), &[]),
            (0, _) => judge("poll_writable", scope(|| h.poll_writable(cx)), &[]),
            _ => {
                let x = &mut w[d][i];
                let f = x.f.get_or_insert_with(|| {
                    if d == 0 {
                        Box::pin(h.clone().readable_owned())
                    } else {
                        Box::pin(h.clone().writable_owned())
                    }
                });
                judge("readable/writable", scope(|| f.as_mut().poll(cx)), &[])
            }
        };
        arm(0, 0);
        let x = &mut w[d][i];
        script.push_str(&format!(
            "{d}{i}{} ",
            match &p {
                Poll::Pending => "p",
                Poll::Ready(Ok(())) => "r",
                _ => "e",
            }
        ));
        match p {
            Poll::Pending => {
                check!(x.events < Some(2), "a wait is still pending after {:?} events: {script}", x.events);
                x.armed = Some(flag);
                x.events = x.events.or(Some(0));
            }
            Poll::Ready(r) => {
                if r.is_ok() {
                    check!(
                        x.events > Some(0),
                        "a wait resolved although no event was delivered since it began (events: {:?}; the OS had refused to arm interest before): {script}",
                        x.events
                    );
                    count("resolved_after_failures", 1);
                }
                *x = Waits::default();
            }
        }
    }
    count("failure_histories", 1);
    evaluated(Some(mix(0xaf7e, take_trace())));
}

// ---------------------------------------------------------------------------------------------
// Every operation, while the OS refuses to arm its interest

/// A stream whose flush waits until everything can be written.
struct Flushing(UnixStream);
impl std::os::fd::AsFd for Flushing {
    fn as_fd(&self) -> std::os::fd::BorrowedFd<'_> {
        self.0.as_fd()
    }
}
impl io::Read for &Flushing {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        (&self.0).read(b)
    }
    fn read_vectored(&mut self, b: &mut [io::IoSliceMut<'_>]) -> io::Result<usize> {
        (&self.0).read_vectored(b)
    }
}
impl io::Write for &Flushing {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        (&self.0).write(b)
    }
    fn write_vectored(&mut self, b: &[io::IoSlice<'_>]) -> io::Result<usize> {
        (&self.0).write_vectored(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        match fdu::truth(self.0.as_raw_fd()).1 {
            true => Ok(()),
            false => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
}
impl io::Read for Flushing {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        (&mut &*self).read(b)
    }
    fn read_vectored(&mut self, b: &mut [io::IoSliceMut<'_>]) -> io::Result<usize> {
        (&mut &*self).read_vectored(b)
    }
}
impl io::Write for Flushing {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        (&mut &*self).write(b)
    }
    fn write_vectored(&mut self, b: &[io::IoSlice<'_>]) -> io::Result<usize> {
        (&mut &*self).write_vectored(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        (&mut &*self).flush()
    }
}
unsafe impl async_io::IoSafe for Flushing {}

/// Starts the operation until the OS lets it wait, then lets it go on.
fn refused_then_done<T>(what: &str, n: i64, mut poll: impl FnMut(&mut Context<'_>) -> Poll<io::Result<T>>, ready: impl FnOnce()) {
    CLASS.store(1, SeqCst);
    INJECTED.store(0, SeqCst);
    BEFORE.store(0, SeqCst);
    BURST.store(n, SeqCst);
    ACTIVE.store(n > 0, SeqCst);
    let mut go = |stage: &str| {
        let flag = Arc::new(Woken::default());
        let w: Waker = flag.clone().into();
        let r = judge(&format!("{what} ({stage})"), scope(|| poll(&mut Context::from_waker(&w))), &[]);
        (r, flag)
    };
    let mut errors = 0;
    let flag = loop {
        match go("refused") {
            (Poll::Pending, f) => break f,
            (Poll::Ready(Ok(_)), _) => violation(format!("{what} completed although it cannot proceed"), ""),
            (Poll::Ready(Err(_)), _) => errors += 1,
        }
        check!(errors <= n, "{what} goes on failing after the cause is gone");
    };
    ACTIVE.store(false, SeqCst);
    check!(errors == n, "{what} reported {errors} of {n} failures");
    ready();
    let mut flag = flag;
    loop {
        await_cond(|| flag.0.load(SeqCst) > 0, "an operation that the OS had refused to wait for", || Some(what.to_string()));
        match go("ready") {
            (Poll::Ready(Ok(_)), _) => break,
            (Poll::Pending, f) => flag = f,
            (Poll::Ready(Err(e)), _) => violation(format!("{what} failed after the cause was gone: {e:?}"), ""),
        }
    }
    count("operations_refused", 1);
}

fn every_operation(rng: &mut Rng) {
    ERRNO.store(*rng.pick(&[libc::ENOMEM, libc::ENOSPC, libc::EPERM]), SeqCst);
    let n = *rng.pick(&[0, 1, 1, 1, 2, 3]);
    for op in 0..12 {
        let (a, b) = UnixStream::pair().unwrap();
        b.set_nonblocking(true).unwrap();
        let mut h = Async::new(Flushing(a)).unwrap();
        let (fd, peer) = (h.get_ref().0.as_raw_fd(), b.as_raw_fd());
        fdu::fill(fd);
        let (mut x, mut y) = ([0; 2], [0; 3]);
        let what = [
            "poll_read", "poll_read_vectored", "poll_write", "poll_write_vectored", "poll_flush", "poll_close",
        ][op % 6];
        let what = format!("{what} {}", if op < 6 { "by value" } else { "by reference" });
        let ready = || {
            if op % 6 < 2 {
                let _ = fdu::write(peer, b"abcde");
            } else {
                fdu::drain(peer);
            }
        };
        macro_rules! go {
            ($p:expr) => {
                refused_then_done(
                    &what,
                    n,
                    |cx| match op % 6 {
                        0 => Pin::new(&mut $p).poll_read(cx, &mut x).map_ok(|_| ()),
                        1 => {
                            let mut v = [io::IoSliceMut::new(&mut x), io::IoSliceMut::new(&mut y)];
                            Pin::new(&mut $p).poll_read_vectored(cx, &mut v).map_ok(|_| ())
                        }
                        2 => Pin::new(&mut $p).poll_write(cx, b"w").map_ok(|_| ()),
                        3 => Pin::new(&mut $p).poll_write_vectored(cx, &[io::IoSlice::new(b"w")]).map_ok(|_| ()),
                        4 => Pin::new(&mut $p).poll_flush(cx),
                        _ => Pin::new(&mut $p).poll_close(cx),
                    },
                    ready,
                )
            };
        }
        if op < 6 {
            go!(h)
        } else {
            let mut r = &h;
            go!(r)
        }
    }
    // The operations that are futures: a failed one is started again.
    macro_rules! fut {
        ($what:expr, $e:expr, $ready:expr) => {{
            let mut f: Option<Pin<Box<dyn Future<Output = io::Result<()>> + '_>>> = None;
            refused_then_done(
                $what,
                n,
                |cx| {
                    let r = f
                        .get_or_insert_with(|| {
                            Box::pin(async {
                                $e.await?;
                                Ok(())
                            })
                        })
                        .as_mut()
                        .poll(cx);
                    if r.is_ready() {
                        f = None;
                    }
                    r
                },
                || $ready,
            );
        }};
    }
    let u = Async::<UdpSocket>::bind((fdu::lo(), 0)).unwrap();
    let c = UdpSocket::bind((fdu::lo(), 0)).unwrap();
    u.get_ref().connect(c.local_addr().unwrap()).unwrap();
    c.connect(u.get_ref().local_addr().unwrap()).unwrap();
    macro_rules! buf {
        ($b:ident, $e:expr) => {
            async {
                let mut $b = [0; 8];
                let r = $e.await;
                r.map(|_| ())
            }
        };
    }
    fut!("UdpSocket::recv", buf!(b, u.recv(&mut b)), drop(c.send(b"1")));
    fut!("UdpSocket::recv_from", buf!(b, u.recv_from(&mut b)), drop(c.send(b"1")));
    fut!("UdpSocket::peek", buf!(b, u.peek(&mut b)), drop(c.send(b"1")));
    fdu::drain(u.as_raw_fd());
    fut!("UdpSocket::peek_from", buf!(b, u.peek_from(&mut b)), drop(c.send(b"1")));
    let (d, e) = Async::<UnixDatagram>::pair().unwrap();
    fut!("UnixDatagram::recv", buf!(b, d.recv(&mut b)), drop(e.get_ref().send(b"1")));
    fut!("UnixDatagram::recv_from", buf!(b, d.recv_from(&mut b)), drop(e.get_ref().send(b"1")));
    fdu::fill(d.as_raw_fd());
    fut!("UnixDatagram::send", d.send(b"1"), {
        fdu::drain(e.as_raw_fd());
    });
    let l = Async::<TcpListener>::bind((fdu::lo(), 0)).unwrap();
    let to = l.get_ref().local_addr().unwrap();
    fut!("TcpListener::accept", l.accept(), drop(TcpStream::connect(to)));
    // The stream of connections is the same one all the time.
    let mut inc = Box::pin(l.incoming());
    let mut conns = vec![];
    refused_then_done(
        "TcpListener::incoming",
        n,
        |cx| match inc.as_mut().poll_next(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(None) => violation("incoming() ended", "the OS refused to arm interest"),
            Poll::Ready(Some(r)) => Poll::Ready(r),
        },
        || conns.push(TcpStream::connect(to)),
    );
    let mut s = TcpStream::connect(to).unwrap();
    let (mut t, _) = l.get_ref().accept().unwrap_or_else(|_| {
        std::thread::sleep(Duration::from_millis(20));
        l.get_ref().accept().unwrap()
    });
    let t2 = Async::<TcpStream>::new(t.try_clone().unwrap()).unwrap();
    fut!("TcpStream::peek", buf!(b, t2.peek(&mut b)), drop(io::Write::write(&mut s, b"1")));
    let _ = (&mut t, &mut s);
    count("operation_sets", 1);
}

// ---------------------------------------------------------------------------------------------
// A handle whose descriptor cannot be made non-blocking

/// From now on, the OS refuses to change the mode of descriptors for this thread.
fn refuse_mode_changes(errno: i32) -> bool {
    let s = |code: u32, jt, jf, k: u32| libc::sock_filter { code: code as u16, jt, jf, k };
    let (ld, jeq, ret) = (libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, libc::BPF_RET | libc::BPF_K);
    // (seccomp_data: nr at 0, the low half of the second argument at 24.)
    let mut f = [
        s(ld, 0, 0, 0),
        s(jeq, 0, 2, libc::SYS_fcntl as u32),
        s(ld, 0, 0, 24),
        s(jeq, 3, 4, libc::F_SETFL as u32),
        s(jeq, 0, 3, libc::SYS_ioctl as u32),
        s(ld, 0, 0, 24),
        s(jeq, 0, 1, libc::FIONBIO as u32),
        s(ret, 0, 0, libc::SECCOMP_RET_ERRNO | errno as u32),
        s(ret, 0, 0, libc::SECCOMP_RET_ALLOW),
    ];
    let p = libc::sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
    unsafe {
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0
            && libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &p as *const _) == 0
    }
}
fn mode_refused(rng: &mut Rng) {
    let errno = *rng.pick(&[libc::EPERM, libc::ENOMEM, libc::EIO]);
    let before = regs();
    let fds = fdu::open_fds();
    let t = std::thread::Builder::new().name("refused".into()).spawn(move || {
        let l = TcpListener::bind((fdu::lo(), 0)).unwrap();
        let to = l.local_addr().unwrap();
        let l = Async::new(l).unwrap();
        if !refuse_mode_changes(errno) {
            return false;
        }
        // (It is all right not to need a change.)
        let refused = |what: &str, r: io::Result<RawFd>| match r {
            Err(e) if e.raw_os_error() == Some(errno) => {}
            Ok(fd) if fdu::is_nonblocking(fd) => {}
            r => violation(format!("{what}: {r:?}, although the OS refused to make the descriptor non-blocking (errno {errno})"), ""),
        };
        fn same(e: &io::Error) -> io::Error {
            e.raw_os_error().map_or(io::ErrorKind::Other.into(), io::Error::from_raw_os_error)
        }
        let (a, b) = UnixStream::pair().unwrap();
        // The mode is left alone: nothing can fail.
        let h = match Async::new_nonblocking(a) {
            Ok(h) => h,
            Err(e) => violation(format!("new_nonblocking changes the mode of the descriptor: {e:?}"), ""),
        };
        check!(!fdu::is_nonblocking(h.as_raw_fd()), "new_nonblocking made the descriptor non-blocking");
        // (A refused one is closed.)
        let (fd, id) = (b.as_raw_fd(), fdu::identity(b.as_raw_fd()));
        refused("Async::new", Async::new(b).as_ref().map(|h| h.as_raw_fd()).map_err(same));
        check!(fdu::identity(fd) != id, "a refused descriptor stays open");
        refused("try_from", Async::<UdpSocket>::try_from(UdpSocket::bind((fdu::lo(), 0)).unwrap()).as_ref().map(|h| h.as_raw_fd()).map_err(same));
        refused("UdpSocket::bind", Async::<UdpSocket>::bind((fdu::lo(), 0)).as_ref().map(|h| h.as_raw_fd()).map_err(same));
        refused("UnixDatagram::unbound", Async::<UnixDatagram>::unbound().as_ref().map(|h| h.as_raw_fd()).map_err(same));
        refused("UnixStream::pair", Async::<UnixStream>::pair().as_ref().map(|h| h.0.as_raw_fd()).map_err(same));
        // A connection that cannot be taken; connecting needs no change.
        let c = TcpStream::connect(to).unwrap();
        refused("accept", futures_lite::future::block_on(l.accept()).as_ref().map(|h| h.0.as_raw_fd()).map_err(same));
        drop((c, h));
        count("mode_changes_refused", 6);
        true
    });
    let ok = t.unwrap().join().unwrap_or_else(|_| violation("a thread panicked when the OS refused to change the mode of a descriptor", ""));
    if !ok {
        count("mode_refusal_unavailable", 1);
    }
    let (r, open) = (regs(), fdu::open_fds());
    check!(r == before, "registered descriptors {r:?} instead of {before:?} after the OS refused to change modes");
    check!(open <= fds, "{open} open descriptors, {fds} before the OS refused to change modes");
}

pub fn run() {
    start_watchdog();
    set_monitor(&Mon);
    let mut rng = Rng::new(opts().seed);
    async_io::block_on(Timer::after(Duration::from_millis(1)));
    let base = regs();
    let n = 1 + opts().worker % 3;
    let pool = Pool::new(&vec![Kind::Plain; n as usize]);
    let mut fds = None;
    while time_left() {
        let script = rng.u64();
        // Without failures, for the baseline.
        BEFORE.store(i64::MAX / 2, SeqCst);
        BURST.store(0, SeqCst);
        if rng.chance(10) || fds.is_none() {
            case(script, &pool, &base, &mut fds);
        }
        let class = *rng.pick(&[0, 0, 1, 1, 2, 2, 2, 3, 4]);
        CLASS.store(class, SeqCst);
        let burst = if class == 4 { rng.range(1, 12) } else { *rng.pick(&[1, 1, 1, 2, 5]) } as i64;
        let errno = if class == 4 {
            *rng.pick(&[libc::EINTR, libc::ENOMEM, libc::EINVAL, libc::EBADF])
        } else {
            *rng.pick(&[libc::ENOMEM, libc::ENOSPC, libc::EPERM, libc::EBADF, libc::EINVAL])
        };
        ERRNO.store(errno, SeqCst);
        let mut k = 0;
        loop {
            inj_shuffle(&mut rng);
            take_trace();
            BEFORE.store(k, SeqCst);
            BURST.store(burst, SeqCst);
            activity(format!("script {script:x} class {class} k {k} errno {errno}"));
            let (struck, n) = case(script, &pool, &base, &mut fds);
            evaluated((struck && n > 0).then_some(mix(mix(script, k as u64), take_trace())));
            if struck {
                count("fault_points", 1);
                maximum("max_fault_position", k + 1);
            }
            // (Waits are without end.)
            if !struck || !time_left() || k > if class == 4 { 12 } else { 200 } {
                if !struck && class != 4 {
                    count("scripts_enumerated_completely", 1);
                }
                break;
            }
            k += 1;
        }
        count("scripts", 1);
        inj_off();
        for _ in 0..5 {
            after_failure(&mut rng);
        }
        if rng.chance(25) {
            every_operation(&mut rng);
            mode_refused(&mut rng);
        }
        if rng.chance(20) {
            exhausted(&mut rng, &pool);
            if rng.chance(10) {
                crate::life::failed_leave_nothing();
            }
        }
    }
    count("errors_surfaced", SURFACED.load(SeqCst) as i64);
    inj_off();
    report_points();
    finish()
}
