//! C10 (connect and accept).

use std::collections::HashMap;
use std::io::{self, Read, Write};
use std::net::{Ipv6Addr, SocketAddr, TcpListener, TcpStream};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::os::linux::net::SocketAddrExt;
use std::os::unix::net::{SocketAddr as UnixAddr, UnixListener, UnixStream};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use async_io::{Async, Timer};
use futures_lite::future::poll_once;
use futures_lite::{AsyncReadExt, AsyncWriteExt, StreamExt};

use crate::exec::*;
use crate::fdu;
use crate::rt::*;

pub fn tcp_state(fd: RawFd) -> u8 {
    let mut b = [0u8; 256];
    let mut l = b.len() as libc::socklen_t;
    let r = unsafe { libc::getsockopt(fd, libc::IPPROTO_TCP, libc::TCP_INFO, b.as_mut_ptr() as *mut _, &mut l) };
    if r != 0 {
        return 0;
    }
    b[0]
}
fn hygiene(what: &str, fd: RawFd) {
    check!(fdu::is_nonblocking(fd), "a socket made by {what} is not non-blocking");
    check!(fdu::is_cloexec(fd), "a socket made by {what} is not close-on-exec");
}
fn get<T>(what: &str, r: io::Result<T>) -> T {
    r.unwrap_or_else(|e| violation(format!("{what} failed without a cause"), format!("{e:?}")))
}

#[derive(Clone, Debug)]
enum Addr {
    Tcp(SocketAddr),
    Path(String),
    /// With the leading zero.
    Abstract(String),
}
enum Listener {
    Tcp(Async<TcpListener>),
    Unix(Async<UnixListener>),
}
enum Stream {
    Tcp(Async<TcpStream>),
    Unix(Async<UnixStream>),
}
impl Stream {
    fn fd(&self) -> RawFd {
        match self {
            Stream::Tcp(s) => s.as_raw_fd(),
            Stream::Unix(s) => s.as_raw_fd(),
        }
    }
    async fn send(&mut self, b: &[u8]) -> io::Result<()> {
        match self {
            Stream::Tcp(s) => s.write_all(b).await,
            Stream::Unix(s) => s.write_all(b).await,
        }
    }
    async fn recv(&mut self, b: &mut [u8]) -> io::Result<()> {
        match self {
            Stream::Tcp(s) => s.read_exact(b).await,
            Stream::Unix(s) => s.read_exact(b).await,
        }
    }
}
static NAMES: AtomicU64 = AtomicU64::new(1);
fn name() -> String {
    format!("vh{}-{}", std::process::id(), NAMES.fetch_add(1, Relaxed))
}
fn have_v6() -> bool {
    TcpListener::bind((Ipv6Addr::LOCALHOST, 0)).is_ok()
}

fn make_listener(rng: &mut Rng) -> (Arc<Listener>, Addr) {
    match rng.below(4) {
        0 | 1 => {
            let v6 = rng.chance(30) && have_v6();
            let ip: std::net::IpAddr = if v6 { Ipv6Addr::LOCALHOST.into() } else { fdu::lo().into() };
            let l = get("bind", Async::<TcpListener>::bind((ip, 0)));
            let a = l.get_ref().local_addr().unwrap();
            hygiene("Async::<TcpListener>::bind", l.as_raw_fd());
            (Arc::new(Listener::Tcp(l)), Addr::Tcp(a))
        }
        2 => {
            let p = name();
            let l = get("bind", Async::<UnixListener>::bind(&p));
            hygiene("Async::<UnixListener>::bind", l.as_raw_fd());
            (Arc::new(Listener::Unix(l)), Addr::Path(p))
        }
        _ => {
            let mut n = name();
            // Any bytes are allowed, up to the size of the address.
            match rng.below(4) {
                0 => n = format!("\0{n}"),
                1 => n = format!("{n}\0/{n}\0"),
                2 => n = format!("{n:x<w$}", w = rng.range(40, 107) as usize),
                _ => {}
            }
            let a = UnixAddr::from_abstract_name(n.as_bytes()).unwrap();
            let l = get("Async::new", Async::new(UnixListener::bind_addr(&a).unwrap()));
            (Arc::new(Listener::Unix(l)), Addr::Abstract(format!("\0{n}")))
        }
    }
}

async fn connect(a: &Addr) -> io::Result<Stream> {
    match a {
        Addr::Tcp(a) => Async::<TcpStream>::connect(*a).await.map(Stream::Tcp),
        Addr::Path(p) | Addr::Abstract(p) => Async::<UnixStream>::connect(p).await.map(Stream::Unix),
    }
}

/// What must hold at the moment a connect resolves.
fn connected(s: &Stream, a: &Addr) {
    hygiene("connect", s.fd());
    match (s, a) {
        (Stream::Tcp(s), Addr::Tcp(a)) => {
            let st = tcp_state(s.as_raw_fd());
            check!(st == 1 || st == 8, "connect resolved while the TCP state of the socket is {st}, not established");
            match s.get_ref().peer_addr() {
                Ok(p) if p == *a => {}
                p => violation(format!("connect to {a} resolved to {p:?}"), ""),
            }
        }
        (Stream::Unix(s), Addr::Path(p)) => match s.get_ref().peer_addr() {
            Ok(x) if x.as_pathname().is_some_and(|y| y.to_string_lossy() == *p) => {}
            x => violation(format!("connect to {p:?} resolved to {x:?}"), ""),
        },
        (Stream::Unix(s), Addr::Abstract(p)) => match s.get_ref().peer_addr() {
            Ok(x) if x.as_abstract_name() == Some(&p.as_bytes()[1..]) => {}
            x => violation(format!("connect to {p:?} resolved to {x:?}"), ""),
        },
        _ => violation("connect returned a stream of the wrong kind", ""),
    }
}

#[derive(Default)]
struct Book {
    /// id -> (local address of the connector)
    connectors: Mutex<HashMap<u64, String>>,
    /// id -> addresses that accept reported
    accepted: Mutex<HashMap<u64, Vec<String>>>,
    /// Connections without an id (cancelled connectors).
    empty: AtomicU64,
    /// Connections accepted at all.
    total: AtomicU64,
    errors: Mutex<Vec<String>>,
}

async fn serve(mut s: Stream, from: String, book: Arc<Book>) {
    book.total.fetch_add(1, SeqCst);
    hygiene("accept", s.fd());
    let mut b = [0; 8];
    match s.recv(&mut b).await {
        Ok(()) => {
            let id = u64::from_le_bytes(b);
            lock(&book.accepted).entry(id).or_default().push(from);
            let _ = s.send(&b).await;
            // Wait for the client to go first, so that it never sees a reset.
            let _ = s.recv(&mut [0; 1]).await;
        }
        Err(_) => {
            book.empty.fetch_add(1, SeqCst);
        }
    }
}
fn unix_name(a: &UnixAddr) -> String {
    if a.is_unnamed() {
        return "unnamed".into();
    }
    match a.as_abstract_name() {
        Some(n) => format!("@{}", String::from_utf8_lossy(n)),
        None => format!("{a:?}"),
    }
}

/// A bound plain client: its address is known to the acceptor.
fn bound_unix_client(to: &Addr) -> Option<(UnixStream, String)> {
    let n = name();
    let mk = |name: &[u8], abs: bool| -> (libc::sockaddr_un, u32) {
        let mut sa: libc::sockaddr_un = unsafe { std::mem::zeroed() };
        sa.sun_family = libc::AF_UNIX as _;
        let off = abs as usize;
        for (i, b) in name.iter().enumerate() {
            sa.sun_path[i + off] = *b as _;
        }
        (sa, (2 + off + name.len() + !abs as usize) as u32)
    };
    let fd = unsafe { libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0) };
    let s = unsafe { UnixStream::from_raw_fd(fd) };
    let (a, l) = mk(n.as_bytes(), true);
    let (b, m) = match to {
        Addr::Path(p) => mk(p.as_bytes(), false),
        Addr::Abstract(p) => mk(&p.as_bytes()[1..], true),
        _ => return None,
    };
    unsafe {
        if libc::bind(fd, &a as *const _ as *const _, l) != 0 || libc::connect(fd, &b as *const _ as *const _, m) != 0 {
            return None;
        }
    }
    Some((s, format!("@{n}")))
}

fn episode(rng: &mut Rng, pool: &Pool) -> u64 {
    let (l, addr) = make_listener(rng);
    let n = rng.range(1, 12);
    let book = Arc::new(Book::default());
    let mut tasks: Vec<Arc<Task>> = Vec::new();
    let mut servers: Vec<Arc<Task>> = Vec::new();
    let acceptors = rng.range(1, 3);
    let use_incoming = rng.chance(45);
    let children: Arc<Mutex<Vec<Stream>>> = Arc::default();
    let _ = &children;
    let spawned: Arc<Mutex<Vec<(Stream, String)>>> = Arc::default();
    for i in 0..acceptors {
        let (l, spawned) = (l.clone(), spawned.clone());
        let pct = *rng.pick(&[0, 50, 100]);
        let mut r = Rng::new(rng.u64());
        let cancel = rng.chance(40);
        servers.push(pool.spawn(rng, format!("acceptor {i} incoming={use_incoming}"), pct, async move {
            let hand = |x: io::Result<(Stream, String)>| match x {
                Ok(x) => lock(&spawned).push(x),
                Err(e) => violation(format!("accept failed without a cause: {e:?}"), ""),
            };
            if use_incoming {
                match &*l {
                    Listener::Tcp(l) => {
                        let mut s = Box::pin(l.incoming());
                        loop {
                            match s.next().await {
                                Some(x) => hand(x.map(|s| {
                                    let from = s.get_ref().peer_addr().map(|a| a.to_string()).unwrap_or_default();
                                    (Stream::Tcp(s), from)
                                })),
                                None => violation("incoming() ended", ""),
                            }
                        }
                    }
                    Listener::Unix(l) => {
                        let mut s = Box::pin(l.incoming());
                        loop {
                            match s.next().await {
                                Some(x) => hand(x.map(|s| {
                                    let from = s.get_ref().peer_addr().map(|a| unix_name(&a)).unwrap_or_default();
                                    (Stream::Unix(s), from)
                                })),
                                None => violation("incoming() ended", ""),
                            }
                        }
                    }
                }
            }
            loop {
                let mut f = Box::pin(async {
                    match &*l {
                        Listener::Tcp(l) => l.accept().await.map(|(s, a)| (Stream::Tcp(s), a.to_string())),
                        Listener::Unix(l) => l.accept().await.map(|(s, a)| (Stream::Unix(s), unix_name(&a))),
                    }
                });
                let x = if cancel && r.chance(30) {
                    match poll_once(&mut f).await {
                        None => {
                            count("cancelled_accepts", 1);
                            drop(f);
                            Timer::after(Duration::from_micros(r.below(200))).await;
                            continue;
                        }
                        Some(x) => x,
                    }
                } else {
                    f.as_mut().await
                };
                drop(f);
                hand(x);
            }
        }));
    }
    let mut plain: Vec<(UnixStream, u64)> = Vec::new();
    for id in 0..n {
        if rng.chance(15) && !matches!(addr, Addr::Tcp(_)) {
            if let Some((mut s, from)) = bound_unix_client(&addr) {
                let _ = s.write_all(&id.to_le_bytes());
                lock(&book.connectors).insert(id, from);
                plain.push((s, id));
                continue;
            }
        }
        let (addr, book) = (addr.clone(), book.clone());
        let pct = *rng.pick(&[0, 50, 100]);
        let cancel = rng.chance(15);
        let mut r = Rng::new(rng.u64());
        tasks.push(pool.spawn(rng, format!("connector {id}"), pct, async move {
            if r.chance(50) {
                Timer::after(Duration::from_micros(r.below(500))).await;
            }
            let mut f = Box::pin(connect(&addr));
            if cancel {
                for _ in 0..r.range(1, 2) {
                    match poll_once(&mut f).await {
                        Some(Ok(s)) => {
                            connected(&s, &addr);
                            return;
                        }
                        Some(Err(e)) => violation(format!("connect to {addr:?} failed: {e:?}"), ""),
                        None => {}
                    }
                }
                count("cancelled_connects", 1);
                return;
            }
            let s = f.await;
            let mut s = match s {
                Ok(s) => s,
                Err(e) => violation(format!("connect to {addr:?} failed: {e:?}"), ""),
            };
            connected(&s, &addr);
            let me = match &s {
                Stream::Tcp(s) => s.get_ref().local_addr().unwrap().to_string(),
                Stream::Unix(_) => "unnamed".into(),
            };
            lock(&book.connectors).insert(id, me);
            let mut b = [0; 8];
            if let Err(e) = s.send(&id.to_le_bytes()).await {
                violation(format!("a connected stream does not accept data: {e:?}"), "");
            }
            match s.recv(&mut b).await {
                Ok(()) if u64::from_le_bytes(b) == id => {}
                x => violation(format!("a connected stream returned {x:?} {b:?} instead of the echo of {id}"), ""),
            }
            count("connections", 1);
        }));
    }
    let mut kids: Vec<Arc<Task>> = Vec::new();
    let mut handed = 0u64;
    await_cond(
        || {
            let new: Vec<_> = lock(&spawned).drain(..).collect();
            for (s, from) in new {
                handed += 1;
                kids.push(pool.spawn(&mut Rng::new(handed), "server".into(), 50, serve(s, from, book.clone())));
            }
            let mut ok = tasks.iter().all(|t| t.is_done());
            for (_, id) in &plain {
                ok &= lock(&book.accepted).contains_key(id);
            }
            ok
        },
        "connecting and accepting",
        || {
            let mut s = format!("{addr:?} incoming={use_incoming} {n} connectors, {acceptors} acceptors\n");
            for t in tasks.iter().chain(&servers) {
                s.push_str(&t.describe());
                s.push('\n');
            }
            let lfd = match &*l {
                Listener::Tcp(l) => l.as_raw_fd(),
                Listener::Unix(l) => l.as_raw_fd(),
            };
            s.push_str(&format!("listener readable={:?}\n", fdu::truth(lfd)));
            Some(s)
        },
    );
    for (mut s, id) in plain {
        let mut b = [0; 8];
        s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        match s.read_exact(&mut b) {
            Ok(()) if u64::from_le_bytes(b) == id => {}
            x => violation(format!("a plain client got {x:?} {b:?} instead of the echo of {id}"), ""),
        }
    }
    // The queue is empty: every connection was handed out.
    let lfd = match &*l {
        Listener::Tcp(l) => l.as_raw_fd(),
        Listener::Unix(l) => l.as_raw_fd(),
    };
    await_cond(
        || {
            let new: Vec<_> = lock(&spawned).drain(..).collect();
            for (s, from) in new {
                kids.push(pool.spawn(&mut Rng::new(1), "server".into(), 50, serve(s, from, book.clone())));
            }
            !fdu::truth(lfd).0
        },
        "accepting connections that were cancelled",
        || Some(format!("listener still readable; {:?}", servers.iter().map(|t| t.describe()).collect::<Vec<_>>())),
    );
    for s in &servers {
        s.cancel();
    }
    lock(&spawned).clear();
    await_cond(|| kids.iter().all(|k| k.is_done()), "serving", || {
        Some(kids.iter().map(|k| k.describe()).collect::<Vec<_>>().join("\n"))
    });
    let acc = lock(&book.accepted);
    for (id, me) in lock(&book.connectors).iter() {
        match acc.get(id).map(|v| v.as_slice()) {
            Some([from]) if from == me => {}
            x => violation(
                format!("connection {id} from {me} was accepted as {x:?}"),
                format!("{addr:?} incoming={use_incoming}"),
            ),
        }
    }
    count("accepted", book.total.load(SeqCst) as i64);
    if let Addr::Path(p) = &addr {
        let _ = std::fs::remove_file(p);
    }
    mix(n << 8 | acceptors, use_incoming as u64)
}

/// Connects that fail, compared with the blocking connect of std.
fn failures(rng: &mut Rng) {
    let what = rng.below(9);
    let mut reserved = None;
    let addr = match what {
        0 | 1 => {
            // Bound, so that nobody else gets the port, but not listening.
            let fd = unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0) };
            let s = unsafe { TcpListener::from_raw_fd(fd) };
            let mut sa: libc::sockaddr_in = unsafe { std::mem::zeroed() };
            sa.sin_family = libc::AF_INET as _;
            sa.sin_addr.s_addr = u32::from_ne_bytes(fdu::lo().octets());
            unsafe { libc::bind(fd, &sa as *const _ as *const _, std::mem::size_of_val(&sa) as u32) };
            let a = s.local_addr().unwrap();
            reserved = Some(s);
            Addr::Tcp(a)
        }
        2 => Addr::Path(name()),
        3 => {
            let p = name();
            std::fs::write(&p, b"").unwrap();
            Addr::Path(p)
        }
        4 => {
            // A socket file without a listener.
            let p = name();
            drop(UnixListener::bind(&p).unwrap());
            Addr::Path(p)
        }
        5 => Addr::Abstract(format!("\0{}", name())),
        6 => Addr::Path("x".repeat(200)),
        7 => Addr::Tcp(([255, 255, 255, 255], 80).into()),
        8 => {
            // A datagram socket.
            let p = name();
            drop(std::os::unix::net::UnixDatagram::bind(&p).unwrap());
            Addr::Path(p)
        }
        _ => Addr::Path(format!("missing-{}/x", name())),
    };
    let want = match &addr {
        Addr::Tcp(a) => TcpStream::connect(a).map(|_| ()),
        Addr::Path(p) => UnixStream::connect(p).map(|_| ()),
        Addr::Abstract(p) => {
            UnixStream::connect_addr(&UnixAddr::from_abstract_name(&p.as_bytes()[1..]).unwrap()).map(|_| ())
        }
    };
    let Err(want) = want else { return };
    let got = async_io::block_on(connect(&addr));
    match got {
        Ok(_) => violation(format!("connect to {addr:?} resolved although std reports {want:?}"), ""),
        Err(e) => {
            if want.raw_os_error().is_some() {
                check!(
                    e.raw_os_error() == want.raw_os_error(),
                    "connect to {addr:?} failed with {e:?}, std reports {want:?}"
                );
            }
        }
    }
    if let Addr::Path(p) = &addr {
        let _ = std::fs::remove_file(p);
    }
    drop(reserved);
    count("failed_connects", 1);
}

/// A Unix listener whose queue is full: connect cannot succeed at the moment, so it must not say it did.
fn unix_full(rng: &mut Rng) {
    let (l, addr) = loop {
        match make_listener(rng) {
            (_, Addr::Tcp(_)) => {}
            x => break x,
        }
    };
    let Listener::Unix(u) = &*l else { unreachable!() };
    unsafe { libc::listen(u.as_raw_fd(), rng.below(3) as i32) };
    let mut fillers = Vec::new();
    loop {
        let fd = unsafe { libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK, 0) };
        let s = unsafe { UnixStream::from_raw_fd(fd) };
        let r = match &addr {
            Addr::Path(p) => rustix_connect(&s, p.as_bytes(), false),
            Addr::Abstract(p) => rustix_connect(&s, &p.as_bytes()[1..], true),
            _ => unreachable!(),
        };
        if r != 0 {
            break;
        }
        fillers.push(s);
    }
    let mut f = Box::pin(connect(&addr));
    let mut r = async_io::block_on(poll_once(&mut f));
    if r.is_none() {
        // Waiting for room is fine as well.
        let room = rng.range(1, fillers.len() as u64 + 1);
        for _ in 0..room {
            let _ = u.get_ref().accept();
        }
        r = Some(async_io::block_on(f));
        count("full_unix_waits", 1);
    }
    match r.unwrap() {
        Ok(s) => connected(&s, &addr),
        Err(_) => count("full_unix_errors", 1),
    }
    if let Addr::Path(p) = &addr {
        let _ = std::fs::remove_file(p);
    }
}
fn rustix_connect(s: &UnixStream, name: &[u8], abs: bool) -> i32 {
    let mut sa: libc::sockaddr_un = unsafe { std::mem::zeroed() };
    sa.sun_family = libc::AF_UNIX as _;
    for (i, b) in name.iter().enumerate() {
        sa.sun_path[i + abs as usize] = *b as _;
    }
    let l = 2 + abs as usize + name.len() + !abs as usize;
    unsafe { libc::connect(s.as_raw_fd(), &sa as *const _ as *const _, l as u32) }
}

/// Pairs are two connected, non-blocking streams.
fn pairs(rng: &mut Rng) {
    let (a, b) = get("UnixStream::pair", Async::<UnixStream>::pair());
    hygiene("UnixStream::pair (first)", a.as_raw_fd());
    hygiene("UnixStream::pair (second)", b.as_raw_fd());
    let (mut a, mut b) = if rng.chance(50) { (a, b) } else { (b, a) };
    let n = rng.range(1, 300_000) as usize;
    let data: Vec<u8> = (0..n).map(|i| i as u8).collect();
    let mut got = vec![0; n];
    async_io::block_on(async {
        let w = async {
            a.write_all(&data).await?;
            a.flush().await
        };
        if let Err(e) = futures_lite::future::try_zip(w, b.read_exact(&mut got)).await {
            violation(format!("a pair does not transport {n} bytes: {e:?}"), "");
        }
    });
    check!(got == data, "a pair delivered other bytes");
    count("pairs", 1);
}

/// A listener that is shut down: every accept fails, a pending one too, and incoming never ends.
fn shut_listener(rng: &mut Rng, pool: &Pool) {
    let (l, addr) = make_listener(rng);
    let fd = match &*l {
        Listener::Tcp(l) => l.as_raw_fd(),
        // (The OS reports such a listener as readable, and EAGAIN for ever.)
        Listener::Unix(_) => {
            if let Addr::Path(p) = &addr {
                let _ = std::fs::remove_file(p);
            }
            return;
        }
    };
    let n = rng.range(1, 4) as usize;
    let got: Arc<Mutex<Vec<i32>>> = Arc::default();
    let (l2, got2, inc) = (l.clone(), got.clone(), rng.chance(60));
    let t = pool.spawn(rng, "accept from a listener that is shut down".into(), 30, async move {
        macro_rules! serve {
            ($l:expr) => {{
                let mut s = Box::pin($l.incoming());
                for _ in 0..n {
                    let r = if inc { s.next().await } else { Some($l.accept().await.map(|x| x.0)) };
                    match r {
                        None => violation("incoming() ended", "the listener was shut down"),
                        Some(Ok(_)) => violation("a connection was accepted that nobody made", ""),
                        Some(Err(e)) => lock(&got2).push(e.raw_os_error().unwrap_or(0)),
                    }
                }
            }};
        }
        match &*l2 {
            Listener::Tcp(l) => serve!(l),
            Listener::Unix(l) => serve!(l),
        }
    });
    delay(1500);
    unsafe { libc::shutdown(fd, libc::SHUT_RDWR) };
    await_cond(|| t.is_done(), "accept after the listener was shut down", || Some(format!("{addr:?}, incoming: {inc}")));
    drop(t);
    let want = unsafe { libc::accept(fd, std::ptr::null_mut(), std::ptr::null_mut()) };
    let want = if want < 0 { io::Error::last_os_error().raw_os_error().unwrap_or(0) } else { 0 };
    check!(
        lock(&got).iter().all(|e| *e == want),
        "accept reported {:?} on a listener that was shut down, the OS reports {want}",
        lock(&got)
    );
    count("listeners_shut_down", 1);
    // A TCP socket can listen again.
    if let Listener::Tcp(l) = &*l {
        check!(unsafe { libc::listen(fd, 8) } == 0, "listen failed");
        let a = get("local_addr", l.get_ref().local_addr());
        let c = TcpStream::connect(a).unwrap();
        let s = if inc {
            async_io::block_on(async { Box::pin(l.incoming()).next().await.map(|r| r.map(|s| s.get_ref().peer_addr().ok())) })
        } else {
            async_io::block_on(async { Some(l.accept().await.map(|(_, a)| Some(a))) })
        };
        match s {
            Some(Ok(p)) if p == c.local_addr().ok() => count("listeners_revived", 1),
            r => violation(format!("a listener that listens again yields {r:?}"), ""),
        }
    }
}

pub fn with_no_fds<R>(f: impl FnOnce() -> R) -> R {
    let mut old: libc::rlimit = unsafe { std::mem::zeroed() };
    unsafe {
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut old);
        let low = libc::dup(0);
        libc::close(low);
        let new = libc::rlimit { rlim_cur: low as u64, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_NOFILE, &new);
    }
    let r = f();
    unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &old) };
    r
}

/// accept and incoming go on after errors (no descriptors left).
fn exhausted(rng: &mut Rng) {
    let (l, addr) = make_listener(rng);
    // Clients are created and connected first.
    let k = rng.range(1, 3);
    let mut clients: Vec<OwnedFd> = Vec::new();
    for _ in 0..k {
        clients.push(match &addr {
            Addr::Tcp(a) => TcpStream::connect(a).unwrap().into(),
            Addr::Path(p) => UnixStream::connect(p).unwrap().into(),
            Addr::Abstract(p) => {
                UnixStream::connect_addr(&UnixAddr::from_abstract_name(&p.as_bytes()[1..]).unwrap()).unwrap().into()
            }
        });
    }
    let use_incoming = rng.chance(50);
    let errs = rng.range(1, 3);
    let before = rng.below(k + 1).min(k - 1);
    let limit = |i: &mut u64, x: Option<io::Result<()>>, low: bool| {
        match (x, low) {
            (None, _) => violation("incoming() ended", ""),
            (Some(Err(e)), true) if e.raw_os_error() == Some(libc::EMFILE) => {}
            (Some(r), true) => violation(format!("accept returned {r:?} while no descriptor was available"), ""),
            (Some(Ok(())), false) => {}
            (Some(Err(e)), false) => {
                violation(format!("accept failed with {e:?} although the cause of earlier errors is gone"), "")
            }
        }
        *i += 1;
    };
    let mut streams: Vec<Stream> = Vec::new();
    let mut n = 0;
    macro_rules! go {
        ($next:expr) => {{
            for phase in 0..3 {
                let (times, low) = [(before, false), (errs, true), (k - before, false)][phase];
                for _ in 0..times {
                    let r = if low {
                        with_no_fds(|| async_io::block_on($next))
                    } else {
                        async_io::block_on($next)
                    };
                    let x = r.map(|r| r.map(|s| streams.push(s)));
                    limit(&mut n, x, low);
                }
            }
        }};
    }
    match (&*l, use_incoming) {
        (Listener::Tcp(l), true) => {
            let mut s = Box::pin(l.incoming());
            go!(async { s.next().await.map(|r| r.map(Stream::Tcp)) })
        }
        (Listener::Unix(l), true) => {
            let mut s = Box::pin(l.incoming());
            go!(async { s.next().await.map(|r| r.map(Stream::Unix)) })
        }
        (Listener::Tcp(l), false) => go!(async { Some(l.accept().await.map(|(s, _)| Stream::Tcp(s))) }),
        (Listener::Unix(l), false) => go!(async { Some(l.accept().await.map(|(s, _)| Stream::Unix(s))) }),
    }
    check!(streams.len() as u64 == k, "{} of {k} connections were accepted", streams.len());
    // A connect without descriptors.
    let r = with_no_fds(|| async_io::block_on(connect(&addr)));
    match r {
        Err(e) if e.raw_os_error() == Some(libc::EMFILE) => {}
        r => violation(format!("connect without descriptors returned {:?}", r.map(|_| ())), ""),
    }
    count("exhaustions", 1);
    if let Addr::Path(p) = &addr {
        let _ = std::fs::remove_file(p);
    }
}

// ---------------------------------------------------------------------------------------------
// Connections that take their time: the queue of the listener is full.

fn raw_connect_nb(a: &SocketAddr) -> OwnedFd {
    let SocketAddr::V4(v4) = a else { unreachable!() };
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0);
        let mut sa: libc::sockaddr_in = std::mem::zeroed();
        sa.sin_family = libc::AF_INET as _;
        sa.sin_port = v4.port().to_be();
        sa.sin_addr.s_addr = u32::from_ne_bytes(v4.ip().octets());
        libc::connect(fd, &sa as *const _ as *const _, std::mem::size_of_val(&sa) as u32);
        OwnedFd::from_raw_fd(fd)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fate {
    Accepted,
    ListenerClosed,
    Cancelled,
}

fn slow_batch(rng: &mut Rng, pool: &Pool) {
    struct Site {
        l: Option<TcpListener>,
        fate: Fate,
        addr: SocketAddr,
        fillers: Vec<OwnedFd>,
        tasks: Vec<Arc<Task>>,
        results: Arc<Mutex<Vec<Result<(), (io::ErrorKind, Option<i32>)>>>>,
        accepted: Vec<TcpStream>,
    }
    let base = fdu::open_fds();
    let mut sites: Vec<Site> = Vec::new();
    for _ in 0..rng.range(4, 16) {
        let l = TcpListener::bind((crate::fdu::lo(), 0)).unwrap();
        unsafe { libc::listen(l.as_raw_fd(), 0) };
        l.set_nonblocking(true).unwrap();
        let addr = l.local_addr().unwrap();
        // Fill the queue until a connect stays in SYN-SENT.
        let mut fillers = Vec::new();
        for _ in 0..8 {
            let s = raw_connect_nb(&addr);
            std::thread::sleep(Duration::from_micros(300));
            let st = tcp_state(s.as_raw_fd());
            fillers.push(s);
            if st == 2 {
                break;
            }
        }
        let fate = *rng.pick(&[Fate::Accepted, Fate::Accepted, Fate::ListenerClosed, Fate::Cancelled]);
        sites.push(Site {
            l: Some(l),
            fate,
            addr,
            fillers,
            tasks: vec![],
            results: Arc::default(),
            accepted: vec![],
        });
    }
    for s in &mut sites {
        for _ in 0..rng.range(1, 3) {
            let (addr, results) = (s.addr, s.results.clone());
            let pct = *rng.pick(&[0, 50, 100]);
            s.tasks.push(pool.spawn(rng, format!("slow connect {:?}", s.fate), pct, async move {
                let r = Async::<TcpStream>::connect(addr).await;
                if let Ok(x) = &r {
                    let st = tcp_state(x.as_raw_fd());
                    check!(st == 1 || st == 8, "connect resolved while the TCP state of the socket is {st}, not established");
                    check!(x.get_ref().peer_addr().is_ok_and(|p| p == addr), "connect resolved without the requested peer");
                    hygiene("connect", x.as_raw_fd());
                }
                if let Err(e) = &r {
                    check!(e.kind() != io::ErrorKind::WouldBlock && e.raw_os_error() != Some(libc::EINPROGRESS),
                        "connect returned {e:?}");
                }
                lock(&results).push(r.map(|_| ()).map_err(|e| (e.kind(), e.raw_os_error())));
            }));
        }
    }
    std::thread::sleep(Duration::from_millis(rng.range(2, 40)));
    // Someone polls them although nothing has happened.
    for s in &sites {
        for t in &s.tasks {
            for _ in 0..rng.below(3) {
                let r = pool.any(rng).clone();
                t.repoll(&r, rng.chance(50));
                count("connects_polled_again", 1);
            }
        }
    }
    std::thread::sleep(Duration::from_millis(rng.range(2, 40)));
    for s in &mut sites {
        let pending = s.tasks.iter().filter(|t| !t.is_done()).count();
        count("connects_left_pending", pending as i64);
        match s.fate {
            Fate::Accepted => {}
            Fate::ListenerClosed => {
                s.fillers.clear();
                s.l = None
            }
            Fate::Cancelled => {
                for t in &s.tasks {
                    t.cancel();
                }
            }
        }
    }
    await_cond(
        || {
            let mut all = true;
            for s in &mut sites {
                if s.fate == Fate::Accepted {
                    while let Ok((c, _)) = s.l.as_ref().unwrap().accept() {
                        s.accepted.push(c);
                    }
                }
                all &= s.tasks.iter().all(|t| t.is_done());
            }
            progress();
            all
        },
        "connects that were delayed",
        || None,
    );
    for s in &sites {
        for r in lock(&s.results).iter() {
            count(&format!("delayed_{:?}_{}", s.fate, if r.is_ok() { "ok" } else { "err" }), 1);
            match (s.fate, r) {
                (Fate::Accepted | Fate::Cancelled, Ok(())) => {}
                // It may have been established in time.
                (Fate::ListenerClosed, Ok(())) => {}
                (Fate::ListenerClosed, Err((_, Some(e)))) if *e == libc::ECONNREFUSED || *e == libc::ECONNRESET => {}
                (f, Err(e)) => violation(format!("a delayed connect ({f:?}) failed with {e:?}"), ""),
            }
        }
    }
    drop(sites);
    leak_check(base);
}
fn leak_check(base: usize) {
    await_cond(
        || fdu::open_fds() <= base,
        "descriptors stay open after connects and accepts have completed or been cancelled",
        || {
            let l: Vec<_> = std::fs::read_dir("/proc/self/fd")
                .map(|d| d.flatten().map(|e| format!("{:?} -> {:?}", e.file_name(), std::fs::read_link(e.path()))).collect())
                .unwrap_or_default();
            Some(format!("{} open, {base} before: {l:?}", fdu::open_fds()))
        },
    );
}

pub fn run() {
    start_watchdog();
    let mut rng = Rng::new(opts().seed);
    let pool = Pool::new(&[Kind::Plain, Kind::BlockOn, Kind::BlockOn]);
    // Everything that is created lazily.
    async_io::block_on(Timer::after(Duration::from_millis(1)));
    let mut n = 0;
    while time_left() {
        n += 1;
        if n % 4 == 1 {
            pool.shuffle(&mut rng);
            inj_shuffle(&mut rng);
        }
        take_trace();
        if opts().mode == "slow" {
            slow_batch(&mut rng, &pool);
            evaluated(Some(take_trace()));
            continue;
        }
        let base = fdu::open_fds();
        let sig = match rng.below(8) {
            0 => {
                failures(&mut rng);
                1
            }
            1 => {
                exhausted(&mut rng);
                2
            }
            2 if rng.chance(50) => {
                unix_full(&mut rng);
                pairs(&mut rng);
                shut_listener(&mut rng, &pool);
                3
            }
            _ => episode(&mut rng, &pool),
        };
        leak_check(base);
        evaluated(Some(mix(sig, take_trace())));
    }
    inj_off();
    report_points();
    finish()
}
