//! C11 (registration lifecycle and descriptor safety).

use std::collections::HashMap;
use std::fs::File;
use std::io::{self, Read, Write};
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, OwnedFd, RawFd};
use std::os::unix::net::{UnixDatagram, UnixListener, UnixStream};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use async_io::{Async, Timer};
use vpoint::{OpKind, PollOp};

use crate::fdu;
use crate::rt::*;

// ---------------------------------------------------------------------------------------------
// The monitor: what the reactor touches

static IDS: Mutex<Option<HashMap<u32, (u64, u64)>>> = Mutex::new(None);
struct Mon;
impl Monitor for Mon {
    fn pre_op(&self, op: &PollOp) -> Option<i32> {
        let id = fdu::identity(op.fd);
        count("poller_calls_checked", 1);
        let Some(id) = id else {
            violation(format!("the reactor calls {:?} for descriptor {}, which is not open", op.kind, op.fd), format!("{op:?}"))
        };
        if op.kind != OpKind::Add {
            let known = lock(&IDS).get_or_insert_with(HashMap::new).get(&op.gen).copied();
            match known {
                Some(k) if k == id => {}
                Some(k) => violation(
                    format!("the reactor calls {:?} for descriptor {}, which now belongs to someone else", op.kind, op.fd),
                    format!("{op:?}: registered {k:?}, now {id:?}"),
                ),
                None if op.gen == 0 => violation(
                    format!("the reactor calls {:?} for descriptor {}, which is not registered", op.kind, op.fd),
                    format!("{op:?}"),
                ),
                None => {}
            }
        }
        None
    }
    fn post_op(&self, op: &PollOp, _: u64, res: &io::Result<()>) {
        if res.is_ok() {
            let mut g = lock(&IDS);
            let m = g.get_or_insert_with(HashMap::new);
            match op.kind {
                OpKind::Add => {
                    if let Some(id) = fdu::identity(op.fd) {
                        m.insert(op.gen, id);
                    }
                }
                OpKind::Delete => {
                    m.remove(&op.gen);
                }
                _ => {}
            }
        }
    }
}

pub fn regs() -> Vec<RawFd> {
    let ep = async_io::os::unix::reactor_fd().map_or(-1, |f| f.as_raw_fd());
    let mut v: Vec<RawFd> = fdu::epoll_registrations(ep).into_iter().map(|r| r.0).collect();
    v.sort();
    v
}

// ---------------------------------------------------------------------------------------------
// Handles of all kinds

enum H {
    Tcp(Async<TcpStream>),
    Unix(Async<UnixStream>),
    Udp(Async<UdpSocket>),
    Dgram(Async<UnixDatagram>),
    TcpL(Async<TcpListener>),
    UnixL(Async<UnixListener>),
    File(Async<File>),
    Owned(Async<OwnedFd>),
    /// Shared, with futures that own it.
    Shared(Arc<Async<UnixStream>>, Vec<async_io::ReadableOwned<UnixStream>>),
}
/// The unwrapped object.
enum Raw {
    Tcp(TcpStream),
    Unix(UnixStream),
    Udp(UdpSocket),
    Dgram(UnixDatagram),
    TcpL(TcpListener),
    UnixL(UnixListener),
    File(File),
    Owned(OwnedFd),
}
macro_rules! each {
    ($e:expr, $t:ident, $x:ident => $b:expr) => {
        match $e {
            $t::Tcp($x) => $b,
            $t::Unix($x) => $b,
            $t::Udp($x) => $b,
            $t::Dgram($x) => $b,
            $t::TcpL($x) => $b,
            $t::UnixL($x) => $b,
            $t::File($x) => $b,
            $t::Owned($x) => $b,
            #[allow(unreachable_patterns)]
            _ => unreachable!(),
        }
    };
}
impl Raw {
    fn fd(&self) -> RawFd {
        each!(self, Raw, x => x.as_raw_fd())
    }
}
impl H {
    fn fd(&self) -> RawFd {
        match self {
            H::Shared(a, _) => a.as_raw_fd(),
            h => each!(h, H, x => {
                let fd = x.as_raw_fd();
                check!(fd == x.as_fd().as_raw_fd() && fd == x.get_ref().as_raw_fd() && fd == AsRef::as_ref(x).as_raw_fd(),
                    "the accessors of a handle disagree about its descriptor");
                fd
            }),
        }
    }
    fn poll(&self, dir: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        macro_rules! p {
            ($x:expr) => {
                if dir == 0 {
                    $x.poll_readable(cx)
                } else {
                    $x.poll_writable(cx)
                }
            };
        }
        match self {
            H::Shared(a, _) => p!(a),
            h => each!(h, H, x => p!(x)),
        }
    }
}

struct Entry {
    h: H,
    fd: RawFd,
    id: (u64, u64),
    peer: Option<OwnedFd>,
    dups: Vec<OwnedFd>,
}

fn raw(rng: &mut Rng) -> (Raw, Option<OwnedFd>) {
    match rng.below(8) {
        0 => {
            let l = TcpListener::bind((fdu::lo(), 0)).unwrap();
            let a = TcpStream::connect(l.local_addr().unwrap()).unwrap();
            let b = l.accept().unwrap().0;
            (Raw::Tcp(a), Some(b.into()))
        }
        1 | 2 => {
            let (a, b) = UnixStream::pair().unwrap();
            (Raw::Unix(a), Some(b.into()))
        }
        3 => (Raw::Udp(UdpSocket::bind((fdu::lo(), 0)).unwrap()), None),
        4 => {
            let (a, b) = UnixDatagram::pair().unwrap();
            (Raw::Dgram(a), Some(b.into()))
        }
        5 => {
            if rng.chance(50) {
                (Raw::TcpL(TcpListener::bind((fdu::lo(), 0)).unwrap()), None)
            } else {
                let n = format!("l{}-{}", std::process::id(), rnd(1 << 60));
                use std::os::linux::net::SocketAddrExt;
                let a = std::os::unix::net::SocketAddr::from_abstract_name(n.as_bytes()).unwrap();
                (Raw::UnixL(UnixListener::bind_addr(&a).unwrap()), None)
            }
        }
        6 => {
            let (r, w) = fdu::pipe().unwrap();
            (Raw::File(r.into()), Some(w))
        }
        _ => {
            let (a, b) = fdu::socketpair(libc::SOCK_STREAM).unwrap();
            (Raw::Owned(a), Some(b))
        }
    }
}

fn ok<T>(what: &str, r: io::Result<T>) -> T {
    r.unwrap_or_else(|e| violation(format!("{what} failed without a cause: {e:?}"), format!("{:?}", regs())))
}

/// Registers the object, in one of the ways there are.
fn register(rng: &mut Rng, r: Raw) -> H {
    let fd = r.fd();
    if rng.chance(50) {
        fdu::set_nonblocking(fd, rng.chance(50));
    }
    if rng.chance(30) {
        fdu::toggle_flags(fd);
    }
    let before = fdu::is_nonblocking(fd);
    let flags = fdu::flags(fd);
    let way = rng.below(4);
    macro_rules! go {
        ($x:expr, $v:ident, $std:expr) => {
            match way {
                0 => H::$v(ok("new_nonblocking", Async::new_nonblocking($x))),
                1 => H::$v(ok("try_from", $std($x))),
                2 => H::$v(ok("try_from OwnedFd", Async::try_from(OwnedFd::from($x)))),
                _ => H::$v(ok("new", Async::new($x))),
            }
        };
    }
    let h = match r {
        Raw::Tcp(x) => go!(x, Tcp, |x| Async::<TcpStream>::try_from(x)),
        Raw::Unix(x) => {
            if rng.chance(40) {
                H::Shared(Arc::new(ok("new", if way == 0 { Async::new_nonblocking(x) } else { Async::new(x) })), vec![])
            } else {
                go!(x, Unix, |x| Async::<UnixStream>::try_from(x))
            }
        }
        Raw::Udp(x) => go!(x, Udp, |x| Async::<UdpSocket>::try_from(x)),
        Raw::Dgram(x) => go!(x, Dgram, |x| Async::<UnixDatagram>::try_from(x)),
        Raw::TcpL(x) => go!(x, TcpL, |x| Async::<TcpListener>::try_from(x)),
        Raw::UnixL(x) => go!(x, UnixL, |x| Async::<UnixListener>::try_from(x)),
        Raw::File(x) => go!(x, File, |x| Async::<File>::new(x)),
        Raw::Owned(x) => go!(x, Owned, |x| Async::<OwnedFd>::new(x)),
    };
    check!(h.fd() == fd, "registering changed the descriptor");
    let after = fdu::is_nonblocking(fd);
    if way == 0 {
        check!(after == before, "new_nonblocking changed the blocking mode from {before} to {after}");
    } else {
        check!(after, "Async::new / try_from left the descriptor in blocking mode");
    }
    check!(fdu::flags(fd) == flags, "registering changed the descriptor's other flags from {flags:?} to {:?}", fdu::flags(fd));
    h
}

/// The events of the handle reach a waiter.
fn works(e: &Entry, expect: &str) {
    struct Flag(AtomicBool);
    impl std::task::Wake for Flag {
        fn wake(self: Arc<Self>) {
            self.0.store(true, SeqCst)
        }
    }
    let Some(p) = &e.peer else { return };
    let _ = fdu::write(p.as_raw_fd(), b"x");
    let f = Arc::new(Flag(AtomicBool::new(false)));
    let w: Waker = f.clone().into();
    let mut cx = Context::from_waker(&w);
    match e.h.poll(0, &mut cx) {
        Poll::Ready(Ok(())) => return,
        Poll::Ready(Err(err)) => violation(format!("waiting on a {expect} handle failed: {err:?}"), ""),
        Poll::Pending => {}
    }
    await_cond(
        || f.0.load(SeqCst),
        "a waiter of a registered handle",
        || Some(format!("{expect}: fd {} truth {:?}, registrations {:?}", e.fd, fdu::truth(e.fd), regs())),
    );
    match e.h.poll(0, &mut cx) {
        Poll::Ready(Ok(())) => {}
        // The event may have come for the wait that was pending before.
        Poll::Pending => {}
        Poll::Ready(Err(err)) => violation(format!("waiting on a {expect} handle failed: {err:?}"), ""),
    }
    count("functional_checks", 1);
}

struct Actor {
    rng: Rng,
    live: Vec<Entry>,
    /// Unwrapped objects.
    loose: Vec<(Raw, Option<OwnedFd>)>,
    script: Vec<String>,
    sig: u64,
}

impl Actor {
    fn note(&mut self, s: String) {
        self.sig = mix(self.sig, s.as_bytes().iter().take(8).fold(0, |h, b| mix(h, *b as u64)));
        if self.script.len() > 80 {
            self.script.drain(..40);
        }
        self.script.push(s);
    }
    fn add(&mut self, r: Raw, peer: Option<OwnedFd>) {
        let fd = r.fd();
        let id = fdu::identity(fd).unwrap();
        if let Some(p) = &peer {
            fdu::set_nonblocking(p.as_raw_fd(), true);
        }
        let h = register(&mut self.rng, r);
        self.note(format!("register {fd}"));
        self.live.push(Entry { h, fd, id, peer, dups: vec![] });
        count("registered", 1);
    }
    fn op(&mut self, single: bool) {
        let op = self.rng.below(20);
        if self.live.is_empty() || op < 4 && self.live.len() < 12 {
            let (r, p) = raw(&mut self.rng);
            return self.add(r, p);
        }
        let k = self.rng.us(self.live.len());
        match op {
            0..=3 => {}
            4 | 5 if !self.loose.is_empty() => {
                let i = self.rng.us(self.loose.len());
                let (r, p) = self.loose.swap_remove(i);
                self.note(format!("again {}", r.fd()));
                self.add(r, p);
            }
            4..=7 => {
                // Drop.
                let e = self.live.swap_remove(k);
                let (fd, id) = (e.fd, e.id);
                let Entry { h, peer, dups, .. } = e;
                self.note(format!("drop {fd} dups={}", dups.len()));
                match h {
                    H::Shared(a, futs) if !futs.is_empty() => {
                        drop(a);
                        // The futures keep the handle alive.
                        check!(fdu::identity(fd) == Some(id), "a descriptor was closed although a future owns its handle");
                        if single {
                            check!(regs().contains(&fd), "a handle was deregistered although a future owns it");
                        }
                        drop(futs);
                    }
                    h => drop(h),
                }
                if single {
                    check!(!fdu::is_open(fd), "dropping a handle did not close its descriptor {fd}");
                    let r = regs();
                    check!(!r.contains(&fd), "dropping a handle did not deregister its descriptor {fd}: {r:?}");
                }
                drop((peer, dups));
                count("dropped", 1);
            }
            8..=10 => {
                // Unwrap.
                let e = self.live.swap_remove(k);
                let (fd, id, peer) = (e.fd, e.id, e.peer);
                let nb = fdu::is_nonblocking(fd);
                let flags = fdu::flags(fd);
                self.note(format!("unwrap {fd}"));
                let as_owned = self.rng.chance(30);
                macro_rules! un {
                    ($x:expr, $v:ident) => {
                        if as_owned {
                            Raw::Owned(ok("OwnedFd::try_from", OwnedFd::try_from($x)))
                        } else {
                            Raw::$v(ok("into_inner", $x.into_inner()))
                        }
                    };
                }
                let r = match e.h {
                    H::Tcp(x) => un!(x, Tcp),
                    H::Unix(x) => un!(x, Unix),
                    H::Udp(x) => un!(x, Udp),
                    H::Dgram(x) => un!(x, Dgram),
                    H::TcpL(x) => un!(x, TcpL),
                    H::UnixL(x) => un!(x, UnixL),
                    H::File(x) => un!(x, File),
                    H::Owned(x) => un!(x, Owned),
                    H::Shared(a, futs) => {
                        drop(futs);
                        match Arc::try_unwrap(a) {
                            Ok(x) => un!(x, Unix),
                            Err(_) => violation("a future keeps its handle alive after it was dropped", ""),
                        }
                    }
                };
                check!(
                    r.fd() == fd && fdu::identity(fd) == Some(id),
                    "unwrapping returned descriptor {} ({:?}) for {fd} ({id:?})",
                    r.fd(),
                    fdu::identity(r.fd())
                );
                check!(fdu::is_nonblocking(fd) == nb, "unwrapping changed the blocking mode");
                check!(fdu::flags(fd) == flags, "unwrapping changed the descriptor's other flags");
                if single {
                    check!(!regs().contains(&fd), "an unwrapped descriptor {fd} is still registered: {:?}", regs());
                }
                count("unwrapped", 1);
                if self.loose.len() > 4 {
                    self.loose.remove(0);
                }
                self.loose.push((r, peer));
            }
            11 => {
                // A second registration of the same descriptor.
                let e = &self.live[k];
                let fd = e.fd;
                let b = unsafe { BorrowedFd::borrow_raw(fd) };
                match Async::new_nonblocking(b) {
                    Ok(_) => violation(format!("descriptor {fd} was registered twice"), format!("{:?}", regs())),
                    Err(err) => check!(
                        err.kind() == io::ErrorKind::AlreadyExists,
                        "a second registration failed with {err:?}"
                    ),
                }
                works(&self.live[k], "doubly registered");
                self.note(format!("duplicate {fd}"));
                count("duplicates_refused", 1);
            }
            12 => {
                // Something that cannot be registered. It has to be closed.
                let f = tempfile();
                // Keeps the identity from being reused.
                let keep = f.try_clone().unwrap();
                let fd = f.as_raw_fd();
                let id = fdu::identity(fd);
                match Async::new(f) {
                    Ok(_) => violation("a regular file was registered", ""),
                    Err(e) => check!(e.raw_os_error() == Some(libc::EPERM), "registering a regular file failed with {e:?}"),
                }
                if single {
                    check!(!fdu::is_open(fd), "a failed registration left the descriptor open");
                } else {
                    check!(fdu::identity(fd) != id, "a failed registration left the descriptor open");
                }
                drop(keep);
                self.note("regular file".into());
                count("failed_registrations", 1);
            }
            13 => {
                // Another descriptor for the same object.
                let b = unsafe { BorrowedFd::borrow_raw(self.live[k].fd) };
                if let Ok(d) = b.try_clone_to_owned() {
                    if self.rng.chance(50) {
                        self.note(format!("dup of {} kept", self.live[k].fd));
                        self.live[k].dups.push(d);
                    } else {
                        self.note(format!("dup of {} registered as {}", self.live[k].fd, d.as_raw_fd()));
                        self.add(Raw::Owned(d), None);
                    }
                }
            }
            14 => {
                // A handle that borrows.
                let (a, b) = UnixStream::pair().unwrap();
                let h = ok("new", Async::new(&a));
                let fd = a.as_raw_fd();
                if single {
                    check!(regs().contains(&fd), "a borrowed descriptor is not registered");
                }
                let _ = (&b).write(b"x");
                let mut buf = [0; 1];
                let r = async_io::block_on(h.read_with(|s| {
                    let mut r: &UnixStream = s;
                    r.read(&mut buf)
                }));
                check!(matches!(r, Ok(1)), "reading through a borrowing handle returned {r:?}");
                drop(h);
                check!(fdu::is_open(fd), "a borrowed descriptor was closed");
                if single {
                    check!(!regs().contains(&fd), "a borrowed descriptor stays registered");
                }
                self.note("borrowed".into());
            }
            15 => {
                if let H::Shared(a, futs) = &mut self.live[k].h {
                    let mut f = a.clone().readable_owned();
                    let _ = futures_lite::future::block_on(futures_lite::future::poll_once(&mut f));
                    futs.push(f);
                    if futs.len() > 3 {
                        drop(futs.remove(0));
                    }
                }
            }
            16 | 17 => {
                // Waits that are still pending when the handle goes away.
                let mut cx = Context::from_waker(Waker::noop());
                let d = self.rng.us(2);
                if let Poll::Ready(Err(e)) = self.live[k].h.poll(d, &mut cx) {
                    violation(format!("waiting failed: {e:?}"), format!("{:?}", self.script));
                }
            }
            18 => works(&self.live[k], "live"),
            _ => {
                let e = &self.live[k];
                check!(
                    e.h.fd() == e.fd && fdu::identity(e.fd) == Some(e.id),
                    "the descriptor of a live handle was closed or replaced: {} is {:?}, was {:?}",
                    e.fd,
                    fdu::identity(e.fd),
                    e.id
                );
            }
        }
    }
}
fn tempfile() -> File {
    static N: AtomicU64 = AtomicU64::new(0);
    let p = format!("f{}-{}", std::process::id(), N.fetch_add(1, Relaxed));
    let f = File::create(&p).unwrap();
    let _ = std::fs::remove_file(&p);
    f
}

/// What a refused registration leaves behind in memory.
pub fn failed_leave_nothing() {
    let live = Async::new(UnixDatagram::pair().unwrap().0).unwrap();
    let b = unsafe { BorrowedFd::borrow_raw(live.as_raw_fd()) };
    let f = tempfile();
    let mut grown = vec![];
    // The first phases warm up; the background thread may be in any state at a measurement.
    for _ in 0..8 {
        let m0 = crate::heap::LIVE.load(SeqCst);
        for _ in 0..300 {
            check!(Async::new_nonblocking(b).is_err(), "a descriptor was registered twice");
            check!(Async::new_nonblocking(&f).is_err(), "a regular file was registered");
        }
        let d = crate::heap::LIVE.load(SeqCst) - m0;
        grown.push(d);
        if d < 16384 {
            count("failure_heap_checks", 1);
            return;
        }
    }
    violation(
        "every failed registration leaves memory behind",
        format!("bytes per phase of 600 failed registrations: {grown:?}"),
    );
}

/// The reactor has exactly these descriptors (besides its own).
fn exact(internal: &[RawFd], live: &mut Vec<RawFd>, script: &str) {
    live.extend_from_slice(internal);
    live.sort();
    let r = regs();
    if *live != r {
        violation(
            format!("registered descriptors {r:?} differ from the live handles {live:?} (its own: {internal:?})"),
            script.to_string(),
        );
    }
    count("exact_checks", 1);
}

pub fn run() {
    start_watchdog();
    set_monitor(&Mon);
    let mut rng = Rng::new(opts().seed);
    async_io::block_on(Timer::after(Duration::from_millis(1)));
    let ep = async_io::os::unix::reactor_fd().unwrap().as_raw_fd();
    let internal = regs();
    let check_fd = || {
        let e = async_io::os::unix::reactor_fd().map_or(-1, |f| f.as_raw_fd());
        check!(e == ep && fdu::is_open(ep), "reactor_fd changed from {ep} to {e}");
    };
    // Events are being delivered and block_on callers come and go all the time.
    std::thread::spawn(|| loop {
        async_io::block_on(Timer::after(Duration::from_micros(rnd(2000))));
        std::thread::sleep(Duration::from_micros(rnd(500)));
    });
    if opts().mode == "single" {
        let mut fds0 = None;
        while time_left() {
            inj_shuffle(&mut rng);
            take_trace();
            let mut a = Actor { rng: Rng::new(rng.u64()), live: vec![], loose: vec![], script: vec![], sig: 0 };
            for _ in 0..rng.range(20, 120) {
                a.op(true);
                let s = format!("{:?}", a.script);
                exact(&internal, &mut a.live.iter().map(|e| e.fd).collect(), &s);
            }
            check_fd();
            if rng.chance(3) {
                failed_leave_nothing();
            }
            let Actor { live, loose, script, sig, .. } = a;
            drop((live, loose));
            exact(&internal, &mut vec![], &format!("{script:?}"));
            let n = fdu::open_fds();
            let base = *fds0.get_or_insert(n);
            check!(n <= base, "{n} descriptors open after everything was dropped, {base} before");
            sample(|| format!("{script:?}"));
            evaluated(Some(mix(sig, take_trace())));
        }
        inj_off();
        report_points();
        finish()
    }
    // Several threads, so that descriptor numbers and slots are reused at once.
    let threads = 4;
    let stop = Arc::new(AtomicBool::new(false));
    let round = Arc::new(AtomicUsize::new(0));
    let b = Arc::new(Barrier::new(threads + 1));
    let lists: Arc<Mutex<Vec<RawFd>>> = Arc::default();
    let sigs = Arc::new(AtomicU64::new(0));
    for t in 0..threads {
        let (stop, b, lists, sigs) = (stop.clone(), b.clone(), lists.clone(), sigs.clone());
        let mut a = Actor { rng: Rng::new(rng.u64() ^ t as u64), live: vec![], loose: vec![], script: vec![], sig: 0 };
        std::thread::spawn(move || {
            while !stop.load(SeqCst) {
                b.wait();
                for _ in 0..a.rng.range(10, 60) {
                    a.op(false);
                    progress();
                }
                lock(&lists).extend(a.live.iter().map(|e| e.fd));
                sigs.fetch_xor(a.sig, SeqCst);
                b.wait();
                b.wait();
            }
        });
    }
    while time_left() {
        round.fetch_add(1, SeqCst);
        inj_shuffle(&mut rng);
        take_trace();
        lock(&lists).clear();
        b.wait();
        b.wait();
        exact(&internal, &mut lock(&lists).clone(), "(concurrent)");
        check_fd();
        evaluated(Some(mix(sigs.load(SeqCst), take_trace())));
        b.wait();
    }
    inj_off();
    report_points();
    finish()
}
