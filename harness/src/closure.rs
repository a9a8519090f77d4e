//! C15: the try / wait / retry protocol of closures and of AsyncRead / AsyncWrite.

use std::collections::HashMap;
use std::future::{poll_fn, Future};
use std::io::{self, IoSlice, IoSliceMut, Read, Write};
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, RawFd};
use std::os::unix::net::UnixStream;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

use async_io::{Async, IoSafe, Timer};
use futures_io::{AsyncRead, AsyncWrite};
use vpoint::Delivered;

use crate::fdu;
use crate::rt::*;

/// Events delivered per registration and direction.
static EVENTS: Mutex<Option<HashMap<u32, [u64; 2]>>> = Mutex::new(None);
struct Mon;
impl Monitor for Mon {
    fn wait_exit(&self, events: &[Delivered], _: u64, _: bool) {
        let mut g = lock(&EVENTS);
        let m = g.get_or_insert_with(HashMap::new);
        for e in events {
            let x = m.entry(e.gen).or_default();
            x[0] += e.readable as u64;
            x[1] += e.writable as u64;
        }
    }
}
fn delivered(gen: u32) -> [u64; 2] {
    lock(&EVENTS).get_or_insert_with(HashMap::new).get(&gen).copied().unwrap_or_default()
}

#[derive(Clone, Debug)]
enum Out {
    Block(u8),
    Ok(u64),
    Raw(i32),
    Kind(io::ErrorKind),
    Custom(io::ErrorKind, u64),
    Panic,
}
impl Out {
    fn make(&self) -> io::Result<u64> {
        match self {
            Out::Block(0) => Err(io::ErrorKind::WouldBlock.into()),
            Out::Block(1) => Err(io::Error::from_raw_os_error(libc::EAGAIN)),
            Out::Block(_) => Err(io::Error::new(io::ErrorKind::WouldBlock, "later")),
            Out::Ok(n) => Ok(*n),
            Out::Raw(e) => Err(io::Error::from_raw_os_error(*e)),
            Out::Kind(k) => Err((*k).into()),
            Out::Custom(k, id) => Err(io::Error::new(*k, format!("custom {id}"))),
            Out::Panic => panic_any(Deliberate),
        }
    }
    fn random_final(rng: &mut Rng, max: u64) -> Out {
        use io::ErrorKind::*;
        match rng.below(8) {
            0..=3 => Out::Ok(rng.below(max + 1)),
            4 => Out::Raw(*rng.pick(&[
                libc::EINTR,
                libc::EPIPE,
                libc::ECONNRESET,
                libc::EINPROGRESS,
                libc::EALREADY,
                libc::ETIMEDOUT,
                libc::ENOBUFS,
                libc::EBADF,
                libc::EIO,
                libc::ENOTCONN,
            ])),
            5 => Out::Kind(*rng.pick(&[Interrupted, TimedOut, UnexpectedEof, BrokenPipe, Other, InvalidData, ConnectionAborted])),
            6 => Out::Custom(*rng.pick(&[Interrupted, TimedOut, Other, InvalidInput, NotConnected]), rng.u64()),
            _ => {
                if rng.chance(10) {
                    Out::Panic
                } else {
                    Out::Ok(0)
                }
            }
        }
    }
}

/// What one operation's closure or I/O object observes.
struct Probe {
    script: Vec<Out>,
    calls: AtomicU64,
    /// The buffers that have to arrive.
    bufs: Mutex<Vec<(usize, usize)>>,
    method: &'static str,
    /// Ends the operation when the script has run out of blocks.
    object: Mutex<usize>,
    thread_calls: AtomicU64,
}
impl Probe {
    fn call(&self, method: &str, object: usize, bufs: &[(usize, usize)]) -> io::Result<u64> {
        let n = self.calls.fetch_add(1, SeqCst) as usize;
        if self.thread_calls.fetch_add(1, SeqCst) != 0 {
            violation("two calls of an operation run at once", "");
        }
        check!(method == self.method, "the operation calls {method} instead of {}", self.method);
        check!(*lock(&self.object) == object, "the operation is called with another object");
        let want = lock(&self.bufs).clone();
        check!(want == bufs, "the operation passes buffers {bufs:?} instead of {want:?}");
        check!(n < self.script.len(), "{method} was called again after it had returned {:?}", self.script.last());
        self.thread_calls.fetch_sub(1, SeqCst);
        self.script[n].make()
    }
}

/// An I/O object that only follows its script.
struct Inst {
    io: UnixStream,
    probe: Mutex<Option<Arc<Probe>>>,
}
impl Inst {
    fn go(&self, method: &str, bufs: &[(usize, usize)]) -> io::Result<u64> {
        let p = lock(&self.probe).clone();
        match p {
            Some(p) => p.call(method, self as *const Inst as usize, bufs),
            None => violation(format!("{method} called without an operation"), ""),
        }
    }
}
impl AsFd for Inst {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.io.as_fd()
    }
}
unsafe impl IoSafe for Inst {}
fn ptrs<'a, T: std::ops::Deref<Target = [u8]> + 'a>(b: impl Iterator<Item = &'a T>) -> Vec<(usize, usize)> {
    b.map(|b| (b.as_ptr() as usize, b.len())).collect()
}
impl Read for &Inst {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.go("read", &[(b.as_ptr() as usize, b.len())]).map(|n| n as usize)
    }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        self.go("read_vectored", &ptrs(b.iter())).map(|n| n as usize)
    }
}
impl Write for &Inst {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.go("write", &[(b.as_ptr() as usize, b.len())]).map(|n| n as usize)
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
        self.go("write_vectored", &ptrs(b.iter())).map(|n| n as usize)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.go("flush", &[]).map(|_| ())
    }
}
impl Read for Inst {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        (&*self).read(b)
    }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        (&*self).read_vectored(b)
    }
}
impl Write for Inst {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        (&*self).write(b)
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
        (&*self).write_vectored(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        (&*self).flush()
    }
}

struct Flag(AtomicU64);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

const OPS: [(&str, usize, &str); 16] = [
    ("read_with", 0, "closure"),
    ("write_with", 1, "closure"),
    ("read_with_mut", 0, "closure"),
    ("write_with_mut", 1, "closure"),
    ("poll_read", 0, "read"),
    ("poll_read_vectored", 0, "read_vectored"),
    ("poll_write", 1, "write"),
    ("poll_write_vectored", 1, "write_vectored"),
    ("poll_flush", 1, "flush"),
    ("poll_close", 1, "flush"),
    ("ref poll_read", 0, "read"),
    ("ref poll_read_vectored", 0, "read_vectored"),
    ("ref poll_write", 1, "write"),
    ("ref poll_write_vectored", 1, "write_vectored"),
    ("ref poll_flush", 1, "flush"),
    ("ref poll_close", 1, "flush"),
];

struct Ctx<'a> {
    name: &'static str,
    dir: usize,
    fd: RawFd,
    peer: RawFd,
    gen: u32,
    /// Goes through poll_readable/poll_writable, whose state lives in the handle.
    asyncio: bool,
    /// Nobody else has used the handle so far.
    first: bool,
    shared: bool,
    /// Calls answered by events that had come before the wait.
    extras: &'a AtomicU64,
    probe: Arc<Probe>,
    ep: RawFd,
    limit: u64,
}
impl Ctx<'_> {
    fn set(&self, on: bool) {
        match (self.dir, on) {
            (0, true) => {
                let _ = fdu::write(self.peer, b"x");
            }
            (0, false) => {
                fdu::drain(self.fd);
            }
            (_, true) => {
                fdu::drain(self.peer);
            }
            (_, false) => {
                fdu::fill(self.fd);
            }
        }
    }
    fn truth(&self) -> bool {
        let t = fdu::truth(self.fd);
        [t.0, t.1][self.dir]
    }
    fn armed(&self) -> [bool; 2] {
        fdu::epoll_registrations(self.ep)
            .iter()
            .find(|r| r.0 == self.fd)
            .map_or([false; 2], |r| [r.1 & libc::EPOLLIN as u32 != 0, r.1 & libc::EPOLLOUT as u32 != 0])
    }
}

/// Drives one operation to its end, or drops it.
fn drive(rng: &mut Rng, c: &Ctx<'_>, mut fut: Pin<&mut dyn Future<Output = io::Result<u64>>>) -> u64 {
    let p = &c.probe;
    let what = || format!("{} with script {:?}", c.name, p.script);
    let mut sig = 0;
    let mut polls = 0u64;
    let mut wakers: Vec<Arc<Flag>> = vec![];
    let d0 = delivered(c.gen)[c.dir];
    loop {
        if wakers.is_empty() || rng.chance(30) {
            wakers.push(Arc::new(Flag(AtomicU64::new(0))));
        }
        let w = wakers.last().unwrap().clone();
        let woken0 = w.0.load(SeqCst);
        let calls0 = p.calls.load(SeqCst);
        let dp = delivered(c.gen)[c.dir];
        let waker: Waker = w.clone().into();
        let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut Context::from_waker(&waker))));
        drop(waker);
        polls += 1;
        let calls1 = p.calls.load(SeqCst);
        let n = calls1 - calls0;
        if polls == 1 {
            check!(calls0 == 0, "{}: called before the first poll", what());
            check!(n >= 1, "{}: not called at once", what());
        }
        let dn = delivered(c.gen)[c.dir];
        // One call per poll, except that an event which has come may answer one wait at once.
        let more = n.saturating_sub(1);
        let used = c.extras.load(SeqCst) + more;
        c.extras.store(used, SeqCst);
        check!(
            if c.asyncio { more <= 1 + (dn - dp) && used <= dn } else { more <= dn - dp },
            "{}: {n} calls in one poll; {} events meanwhile, {dn} ever, {used} used",
            what(),
            dn - dp
        );
        count("calls", n as i64);
        let last = calls1.checked_sub(1).map(|i| p.script[i as usize].clone());
        match r {
            Err(_) => {
                check!(matches!(last, Some(Out::Panic)), "{}: panicked out of nothing", what());
                count("panicked_closures", 1);
                return mix(sig, 77);
            }
            Ok(Poll::Ready(r)) => {
                let Some(l) = last else { violation(format!("{}: done without a call", what()), "") };
                if let Err(e) = &r {
                    check!(e.kind() != io::ErrorKind::WouldBlock, "{}: WouldBlock came out", what());
                }
                check!(
                    !matches!(l, Out::Block(_)) && n > 0,
                    "{}: done with {r:?} although the last call returned {l:?}",
                    what()
                );
                let want = l.make();
                let same = match (&want, &r) {
                    (Ok(a), Ok(b)) => c.limit == 0 && c.name.contains("flush") | c.name.contains("close") || a == b,
                    (Err(a), Err(b)) => format!("{a:?}") == format!("{b:?}"),
                    _ => false,
                };
                check!(same, "{}: returned {r:?} instead of {want:?}", what());
                count("completed", 1);
                return mix(sig, polls << 8 | 1);
            }
            Ok(Poll::Pending) => {
                check!(
                    matches!(last, Some(Out::Block(_))),
                    "{}: pending although the last call returned {last:?}",
                    what()
                );
            }
        }
        // Something has to be armed, or the event has come already.
        let t = Instant::now();
        loop {
            let a = c.armed();
            if a[c.dir] {
                if c.first && polls == 1 && !c.shared && delivered(c.gen) == [0, 0] {
                    check!(!a[1 - c.dir], "{}: waits for the other direction, too", what());
                    count("exact_interest", 1);
                }
                break;
            }
            if delivered(c.gen)[c.dir] > dp || w.0.load(SeqCst) > woken0 {
                break;
            }
            check!(
                t.elapsed() < Duration::from_secs(10),
                "{}: pending, but its direction is not armed ({a:?})",
                what()
            );
            std::thread::yield_now();
        }
        count("armed_checks", 1);
        // Wakes are due to events or to replaced wakers only.
        let wakes: u64 = wakers.iter().map(|w| w.0.load(SeqCst)).sum();
        let ev = delivered(c.gen)[c.dir] - d0;
        check!(
            wakes <= ev * wakers.len() as u64 + polls || c.shared,
            "{}: {wakes} wake-ups, {ev} events, {polls} polls",
            what()
        );
        let act = rng.below(10);
        sig = mix(sig, act);
        match act {
            0 => {
                count("dropped_pending", 1);
                return sig;
            }
            1 => continue,
            2 => {
                // Nothing happens while nothing happens.
                if !c.shared {
                    c.set(false);
                }
                let k = p.calls.load(SeqCst);
                reactor_rounds(2);
                check!(p.calls.load(SeqCst) == k, "{}: called outside of a poll", what());
                if rng.chance(50) {
                    continue;
                }
            }
            _ => {}
        }
        c.set(true);
        await_cond(
            || {
                if c.shared && !c.truth() {
                    c.set(true);
                }
                w.0.load(SeqCst) > woken0
            },
            "an operation whose condition holds",
            || Some(format!("{}; fd {} truth {:?} armed {:?}", what(), c.fd, fdu::truth(c.fd), c.armed())),
        );
        count("wakes_awaited", 1);
        if rng.chance(50) && !c.shared {
            c.set(false);
        }
    }
}

fn actor(seed: u64, sigs: Arc<AtomicU64>) {
    let mut rng = Rng::new(seed);
    let ep = async_io::os::unix::reactor_fd().unwrap().as_raw_fd();
    let mut big = vec![0u8; 70_000];
    while time_left() {
        let (a, b) = UnixStream::pair().unwrap();
        a.set_nonblocking(true).unwrap();
        b.set_nonblocking(true).unwrap();
        let (fd, peer) = (a.as_raw_fd(), b.as_raw_fd());
        fdu::set_buf(fd, 4096, 4096);
        fdu::fill(fd);
        let mut h = match Async::new(Inst { io: a, probe: Mutex::new(None) }) {
            Ok(h) => h,
            Err(e) => violation(format!("Async::new failed: {e:?}"), ""),
        };
        let gen = LAST_ADD.with(|l| l.get().2);
        let extras = [AtomicU64::new(0), AtomicU64::new(0)];
        for round in 0..rng.range(1, 5) {
            let op = rng.us(OPS.len());
            let (name, dir, method) = OPS[op];
            let limit = if method == "flush" { 0 } else { 1 << 40 };
            let mut script: Vec<Out> = (0..*rng.pick(&[0, 0, 1, 1, 2, 3, 6])).map(|_| Out::Block(rng.below(3) as u8)).collect();
            script.push(Out::random_final(&mut rng, limit));
            let probe = Arc::new(Probe {
                script,
                calls: AtomicU64::new(0),
                bufs: Mutex::new(vec![]),
                method,
                object: Mutex::new(h.get_ref() as *const Inst as usize),
                thread_calls: AtomicU64::new(0),
            });
            *lock(&h.get_ref().probe) = Some(probe.clone());
            let asyncio = op >= 4;
            let c = Ctx {
                name,
                dir,
                fd,
                peer,
                gen,
                asyncio,
                first: round == 0,
                shared: false,
                extras: &extras[dir],
                probe: probe.clone(),
                ep,
                limit,
            };
            c.set(rng.chance(30));
            let token = Arc::new(());
            let t2 = token.clone();
            let p = probe.clone();
            // Small, large and empty ones.
            let n1 = *rng.pick(&[0, 1, 16, 16, 16, 16, 5000, 70_000]);
            let b1 = &mut big[..n1];
            let mut b2 = [0u8; 5];
            let mut b3 = [0u8; 0];
            let nv = *rng.pick(&[0, 1, 2, 3, 3, 3]);
            if asyncio {
                *lock(&probe.bufs) = match method {
                    "read" | "write" => vec![(b1.as_ptr() as usize, n1)],
                    "flush" => vec![],
                    _ => [(b1.as_ptr() as usize, n1), (b3.as_ptr() as usize, 0), (b2.as_ptr() as usize, 5)][..nv].to_vec(),
                };
            }
            let (r1, r2, r3) = (&mut b1[..], &mut b2[..], &mut b3[..]);
            let addr = |i: &Inst| i as *const Inst as usize;
            macro_rules! rv {
                ($h:expr) => {{
                    let mut hh = $h;
                    let mut v = [IoSliceMut::new(r1), IoSliceMut::new(r3), IoSliceMut::new(r2)];
                    drive(&mut rng, &c, pin!(poll_fn(|cx| Pin::new(&mut hh).poll_read_vectored(cx, &mut v[..nv]).map_ok(|n| n as u64))))
                }};
            }
            macro_rules! wv {
                ($h:expr) => {{
                    let mut hh = $h;
                    let v = [IoSlice::new(r1), IoSlice::new(r3), IoSlice::new(r2)];
                    drive(&mut rng, &c, pin!(poll_fn(|cx| Pin::new(&mut hh).poll_write_vectored(cx, &v[..nv]).map_ok(|n| n as u64))))
                }};
            }
            macro_rules! pf {
                ($h:expr, $m:ident $(, $a:expr)*) => {{
                    let mut hh = $h;
                    drive(&mut rng, &c, pin!(poll_fn(|cx| Pin::new(&mut hh).$m(cx $(, $a)*).map_ok(|n| Num::num(n)))))
                }};
            }
            let s = match op {
                0 => drive(&mut rng, &c, pin!(h.read_with(|i| { let _k = &t2; p.call("closure", addr(i), &[]) }))),
                1 => drive(&mut rng, &c, pin!(h.write_with(|i| { let _k = &t2; p.call("closure", addr(i), &[]) }))),
                2 => drive(&mut rng, &c, pin!(unsafe { h.read_with_mut(|i| { let _k = &t2; p.call("closure", addr(i), &[]) }) })),
                3 => drive(&mut rng, &c, pin!(unsafe { h.write_with_mut(|i| { let _k = &t2; p.call("closure", addr(i), &[]) }) })),
                4 => pf!(&mut h, poll_read, &mut *r1),
                5 => rv!(&mut h),
                6 => pf!(&mut h, poll_write, &*r1),
                7 => wv!(&mut h),
                8 => pf!(&mut h, poll_flush),
                9 => pf!(&mut h, poll_close),
                10 => pf!(&h, poll_read, &mut *r1),
                11 => rv!(&h),
                12 => pf!(&h, poll_write, &*r1),
                13 => wv!(&h),
                14 => pf!(&h, poll_flush),
                _ => pf!(&h, poll_close),
            };
            drop(t2);
            check!(Arc::strong_count(&token) == 1, "{name}: its closure outlives it");
            // Events after the operation do not call it again.
            let k = probe.calls.load(SeqCst);
            if rng.chance(20) {
                c.set(true);
                reactor_rounds(1);
            }
            check!(probe.calls.load(SeqCst) == k, "{name}: called after it was over");
            *lock(&h.get_ref().probe) = None;
            sample(|| format!("{name} {:?}", probe.script));
            count(&format!("op_{name}"), 1);
            sigs.fetch_xor(mix(s, op as u64), SeqCst);
            evaluated((probe.script.len() > 1).then_some(mix(mix(s, op as u64), mix(probe.script.len() as u64, take_trace()))));
        }
        drop(h);
        drop(b);
        if rng.chance(20) {
            bounded(&mut rng);
        }
    }
}
trait Num {
    fn num(self) -> u64;
}
impl Num for usize {
    fn num(self) -> u64 {
        self as u64
    }
}
impl Num for () {
    fn num(self) -> u64 {
        0
    }
}

/// A wait for a condition that holds ends after a bounded number of events and polls.
fn bounded(rng: &mut Rng) {
    let (a, b) = UnixStream::pair().unwrap();
    let h = Arc::new(Async::new(a).unwrap());
    let gen = LAST_ADD.with(|l| l.get().2);
    let _ = (&b).write(b"x");
    for _ in 0..rng.range(1, 4) {
        let dir = rng.us(2);
        let kind = rng.below(3);
        let mut f: Pin<Box<dyn Future<Output = io::Result<()>>>> = match (kind, dir) {
            (0, 0) => Box::pin(poll_fn(|cx| h.poll_readable(cx))),
            (0, _) => Box::pin(poll_fn(|cx| h.poll_writable(cx))),
            (1, 0) => Box::pin(h.readable()),
            (1, _) => Box::pin(h.writable()),
            (_, 0) => Box::pin(h.clone().readable_owned()),
            (_, _) => Box::pin(h.clone().writable_owned()),
        };
        let mut polls = 0;
        let d0 = delivered(gen)[dir];
        loop {
            let w = Arc::new(Flag(AtomicU64::new(0)));
            let waker: Waker = w.clone().into();
            polls += 1;
            match f.as_mut().poll(&mut Context::from_waker(&waker)) {
                Poll::Ready(Ok(())) => break,
                Poll::Ready(Err(e)) => violation(format!("a wait failed: {e:?}"), ""),
                Poll::Pending => {}
            }
            let ev = delivered(gen)[dir] - d0;
            check!(
                polls <= 8,
                "a wait (kind {kind}, direction {dir}) for a condition that holds is still pending after {polls} polls and {ev} events"
            );
            await_cond(|| w.0.load(SeqCst) > 0, "a wait whose condition holds", || Some(format!("kind {kind} dir {dir}")));
        }
        count("bounded_waits", 1);
        maximum("max_polls_per_bounded_wait", polls);
        evaluated(None);
    }
}

/// Many closure operations on one handle, on several threads.
fn crowd(seed: u64, h: Arc<Async<Inst>>, peer: Arc<UnixStream>, gen: u32) {
    let mut rng = Rng::new(seed);
    let ep = async_io::os::unix::reactor_fd().unwrap().as_raw_fd();
    for _ in 0..rng.range(2, 6) {
        let op = rng.us(2);
        let (name, dir, method) = OPS[op];
        let mut script: Vec<Out> = (0..rng.below(4)).map(|_| Out::Block(rng.below(3) as u8)).collect();
        script.push(Out::random_final(&mut rng, 1 << 40));
        let probe = Arc::new(Probe {
            script,
            calls: AtomicU64::new(0),
            bufs: Mutex::new(vec![]),
            method,
            object: Mutex::new(h.get_ref() as *const Inst as usize),
            thread_calls: AtomicU64::new(0),
        });
        let c = Ctx {
            name,
            dir,
            fd: h.as_fd().as_raw_fd(),
            peer: peer.as_raw_fd(),
            gen,
            asyncio: false,
            first: false,
            shared: true,
            extras: &AtomicU64::new(0),
            probe: probe.clone(),
            ep,
            limit: 1 << 40,
        };
        let p = probe.clone();
        let s = if op == 0 {
            drive(&mut rng, &c, pin!(h.read_with(|i| p.call("closure", i as *const Inst as usize, &[]))))
        } else {
            drive(&mut rng, &c, pin!(h.write_with(|i| p.call("closure", i as *const Inst as usize, &[]))))
        };
        count("crowd_ops", 1);
        evaluated((probe.script.len() > 1).then_some(mix(s, take_trace())));
    }
}

pub fn run() {
    start_watchdog();
    set_monitor(&Mon);
    let mut rng = Rng::new(opts().seed);
    async_io::block_on(Timer::after(Duration::from_millis(1)));
    let sigs = Arc::new(AtomicU64::new(0));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(20));
        inj_shuffle(&mut rng);
    });
    let mut ts = vec![];
    for i in 0..2 {
        let s = sigs.clone();
        let seed = opts().seed ^ (i + 1) << 40;
        ts.push(std::thread::spawn(move || actor(seed, s)));
    }
    let mut rng = Rng::new(opts().seed ^ 99);
    while time_left() {
        let (a, b) = UnixStream::pair().unwrap();
        a.set_nonblocking(true).unwrap();
        b.set_nonblocking(true).unwrap();
        fdu::set_buf(a.as_raw_fd(), 4096, 4096);
        fdu::fill(a.as_raw_fd());
        let h = Arc::new(Async::new(Inst { io: a, probe: Mutex::new(None) }).unwrap());
        let gen = LAST_ADD.with(|l| l.get().2);
        let b = Arc::new(b);
        let ts: Vec<_> = (0..rng.range(2, 4))
            .map(|_| {
                let (seed, h, b) = (rng.u64(), h.clone(), b.clone());
                std::thread::spawn(move || crowd(seed, h, b, gen))
            })
            .collect();
        for t in ts {
            let _ = t.join();
        }
    }
    for t in ts {
        let _ = t.join();
    }
    inj_off();
    report_points();
    finish()
}
