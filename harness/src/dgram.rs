//! C09 (datagrams): two copies of the same small network, one of Async sockets and one of plain
//! non-blocking sockets. Every operation is done in both; the plain one says what the result has to be
//! and when an operation has to be pending. Plus crowds of tasks on one socket (exactly once).

use std::collections::HashMap;
use std::io;
use std::net::{SocketAddr, UdpSocket};
use std::os::fd::{AsRawFd, RawFd};
use std::os::unix::net::{SocketAddr as UnixAddr, UnixDatagram};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use async_io::{Async, Timer};

use crate::exec::*;
use crate::fdu;
use crate::rt::*;

#[derive(Clone)]
enum Sub {
    Udp(Arc<Async<UdpSocket>>),
    Unix(Arc<Async<UnixDatagram>>),
}
enum Mir {
    Udp(UdpSocket),
    Unix(UnixDatagram),
}
impl Sub {
    fn fd(&self) -> RawFd {
        match self {
            Sub::Udp(s) => s.as_raw_fd(),
            Sub::Unix(s) => s.as_raw_fd(),
        }
    }
}
impl Mir {
    fn fd(&self) -> RawFd {
        match self {
            Mir::Udp(s) => s.as_raw_fd(),
            Mir::Unix(s) => s.as_raw_fd(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Outcome {
    n: Result<usize, (io::ErrorKind, Option<i32>)>,
    buf: Vec<u8>,
    from: String,
}
impl Outcome {
    fn blocked(&self) -> bool {
        matches!(self.n, Err((io::ErrorKind::WouldBlock, _)))
    }
}

/// Where a datagram goes, independently of the copy of the network.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Dest {
    Socket(usize),
    /// A port on which nothing listens, a path that does not exist, ...
    Odd(u64),
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Op {
    Recv(usize),
    RecvFrom(usize),
    Peek(usize),
    PeekFrom(usize),
    Send(Vec<u8>),
    SendTo(Vec<u8>, Dest),
}
impl Op {
    fn dir(&self) -> usize {
        matches!(self, Op::Send(_) | Op::SendTo(..)) as usize
    }
    fn short(&self) -> String {
        match self {
            Op::Send(v) => format!("Send({})", v.len()),
            Op::SendTo(v, d) => format!("SendTo({}, {d:?})", v.len()),
            o => format!("{o:?}"),
        }
    }
}

/// Names of the addresses of one copy.
#[derive(Default)]
struct Names {
    udp: HashMap<SocketAddr, usize>,
    udp_of: HashMap<usize, SocketAddr>,
    prefix: String,
}
impl Names {
    fn udp(&self, a: SocketAddr) -> String {
        match self.udp.get(&a) {
            Some(i) => format!("udp{i}"),
            None => format!("other {a}"),
        }
    }
    fn unix(&self, a: UnixAddr) -> String {
        match a.as_pathname() {
            Some(p) => {
                let s = p.to_string_lossy().into_owned();
                s.strip_prefix(&self.prefix).map(|x| x.to_string()).unwrap_or(s)
            }
            None => format!("unnamed={}", a.is_unnamed()),
        }
    }
    fn udp_dest(&self, d: &Dest) -> SocketAddr {
        match d {
            Dest::Socket(i) => *self.udp_of.get(i).unwrap_or(&([127, 0, 0, 1], 9).into()),
            Dest::Odd(0) => ([127, 0, 0, 1], 0).into(),
            Dest::Odd(1) => ([255, 255, 255, 255], 9).into(),
            Dest::Odd(2) => (std::net::Ipv6Addr::LOCALHOST, 9).into(),
            Dest::Odd(_) => ([127, 0, 0, 1], 1).into(),
        }
    }
    fn unix_dest(&self, d: &Dest) -> String {
        match d {
            Dest::Socket(i) => format!("{}sock{i}", self.prefix),
            Dest::Odd(0) => "a\0b".into(),
            Dest::Odd(1) => "x".repeat(300),
            Dest::Odd(2) => "/".into(),
            Dest::Odd(_) => format!("{}missing", self.prefix),
        }
    }
}

fn pack<T>(r: io::Result<T>, buf: Vec<u8>, f: impl FnOnce(T) -> (usize, String)) -> Outcome {
    match r {
        Ok(t) => {
            let (n, from) = f(t);
            Outcome { n: Ok(n), buf, from }
        }
        Err(e) => Outcome { n: Err((e.kind(), e.raw_os_error())), buf, from: String::new() },
    }
}

fn mirror(m: &Mir, op: &Op, names: &Names) -> Outcome {
    let mut b = match op {
        Op::Recv(n) | Op::RecvFrom(n) | Op::Peek(n) | Op::PeekFrom(n) => vec![0xEE; *n],
        _ => vec![],
    };
    let no = |n| (n, String::new());
    match (m, op) {
        (Mir::Udp(s), Op::Recv(_)) => {
            let r = s.recv(&mut b);
            pack(r, b, no)
        }
        (Mir::Udp(s), Op::RecvFrom(_)) => {
            let r = s.recv_from(&mut b);
            pack(r, b, |(n, a)| (n, names.udp(a)))
        }
        (Mir::Udp(s), Op::Peek(_)) => {
            let r = s.peek(&mut b);
            pack(r, b, no)
        }
        (Mir::Udp(s), Op::PeekFrom(_)) => {
            let r = s.peek_from(&mut b);
            pack(r, b, |(n, a)| (n, names.udp(a)))
        }
        (Mir::Udp(s), Op::Send(v)) => pack(s.send(v), b, no),
        (Mir::Udp(s), Op::SendTo(v, d)) => pack(s.send_to(v, names.udp_dest(d)), b, no),
        (Mir::Unix(s), Op::Recv(_) | Op::Peek(_)) => {
            let r = s.recv(&mut b);
            pack(r, b, no)
        }
        (Mir::Unix(s), Op::RecvFrom(_) | Op::PeekFrom(_)) => {
            let r = s.recv_from(&mut b);
            pack(r, b, |(n, a)| (n, names.unix(a)))
        }
        (Mir::Unix(s), Op::Send(v)) => pack(s.send(v), b, no),
        (Mir::Unix(s), Op::SendTo(v, d)) => pack(s.send_to(v, names.unix_dest(d)), b, no),
    }
}
async fn subject(s: Sub, op: Op, names: Arc<Names>) -> Outcome {
    let mut b = match &op {
        Op::Recv(n) | Op::RecvFrom(n) | Op::Peek(n) | Op::PeekFrom(n) => vec![0xEE; *n],
        _ => vec![],
    };
    let no = |n| (n, String::new());
    match (s, op) {
        (Sub::Udp(s), Op::Recv(_)) => {
            let r = s.recv(&mut b).await;
            pack(r, b, no)
        }
        (Sub::Udp(s), Op::RecvFrom(_)) => {
            let r = s.recv_from(&mut b).await;
            pack(r, b, |(n, a)| (n, names.udp(a)))
        }
        (Sub::Udp(s), Op::Peek(_)) => {
            let r = s.peek(&mut b).await;
            pack(r, b, no)
        }
        (Sub::Udp(s), Op::PeekFrom(_)) => {
            let r = s.peek_from(&mut b).await;
            pack(r, b, |(n, a)| (n, names.udp(a)))
        }
        (Sub::Udp(s), Op::Send(v)) => pack(s.send(&v).await, b, no),
        (Sub::Udp(s), Op::SendTo(v, d)) => pack(s.send_to(&v, names.udp_dest(&d)).await, b, no),
        (Sub::Unix(s), Op::Recv(_) | Op::Peek(_)) => {
            let r = s.recv(&mut b).await;
            pack(r, b, no)
        }
        (Sub::Unix(s), Op::RecvFrom(_) | Op::PeekFrom(_)) => {
            let r = s.recv_from(&mut b).await;
            pack(r, b, |(n, a)| (n, names.unix(a)))
        }
        (Sub::Unix(s), Op::Send(v)) => pack(s.send(&v).await, b, no),
        (Sub::Unix(s), Op::SendTo(v, d)) => pack(s.send_to(&v, names.unix_dest(&d)).await, b, no),
    }
}

struct Running {
    sock: usize,
    op: Op,
    task: Arc<Task>,
    out: Arc<Mutex<Option<Outcome>>>,
}

struct Node {
    sub: Sub,
    mir: Mir,
    connected: Option<usize>,
    unix: bool,
    /// Datagrams that are on their way to or in the queue of the socket.
    queued: usize,
}

struct Net<'a> {
    rng: &'a mut Rng,
    pool: &'a Pool,
    nodes: Vec<Node>,
    ns: Arc<Names>,
    nm: Names,
    running: Vec<Running>,
    script: Vec<String>,
    sig: u64,
}

fn get<T>(what: &str, r: io::Result<T>) -> T {
    r.unwrap_or_else(|e| violation(format!("{what} failed without a cause"), format!("{e:?}")))
}
fn hygiene(what: &str, fd: RawFd) {
    check!(fdu::is_nonblocking(fd), "a socket made by {what} is not non-blocking");
    check!(fdu::is_cloexec(fd), "a socket made by {what} is not close-on-exec");
}
fn wait_truth(fd: RawFd, dir: usize) -> bool {
    let t = Instant::now();
    loop {
        let x = fdu::truth(fd);
        if [x.0, x.1][dir] {
            return true;
        }
        if t.elapsed() > Duration::from_millis(200) {
            count("late_datagrams", 1);
            return false;
        }
        std::thread::sleep(Duration::from_micros(50));
    }
}

impl Net<'_> {
    fn build(&mut self) {
        let unix = self.rng.chance(50);
        let n = self.rng.range(2, 3) as usize;
        let mut ns = Names { prefix: format!("s{}-", rnd(1 << 40)), ..Default::default() };
        let mut nm = Names { prefix: format!("m{}-", rnd(1 << 40)), ..Default::default() };
        if unix {
            if self.rng.chance(50) {
                let (a, b) = get("UnixDatagram::pair", Async::<UnixDatagram>::pair());
                hygiene("Async::<UnixDatagram>::pair", a.as_raw_fd());
                hygiene("Async::<UnixDatagram>::pair", b.as_raw_fd());
                let (c, d) = UnixDatagram::pair().unwrap();
                for (s, m, peer) in [(a, c, 1), (b, d, 0)] {
                    self.nodes.push(Node {
                        sub: Sub::Unix(Arc::new(s)),
                        mir: Mir::Unix(m),
                        connected: Some(peer),
                        unix,
                        queued: 0,
                    });
                }
            }
            for i in self.nodes.len()..n {
                let bound = self.rng.chance(75);
                let (s, m) = if bound {
                    (
                        get("bind", Async::<UnixDatagram>::bind(format!("{}sock{i}", ns.prefix))),
                        UnixDatagram::bind(format!("{}sock{i}", nm.prefix)).unwrap(),
                    )
                } else {
                    (get("unbound", Async::<UnixDatagram>::unbound()), UnixDatagram::unbound().unwrap())
                };
                hygiene("bind/unbound", s.as_raw_fd());
                self.nodes.push(Node { sub: Sub::Unix(Arc::new(s)), mir: Mir::Unix(m), connected: None, unix, queued: 0 });
            }
            if self.rng.chance(60) {
                for n in &self.nodes {
                    fdu::set_buf(n.sub.fd(), 4608, 0);
                    fdu::set_buf(n.mir.fd(), 4608, 0);
                }
            }
        } else {
            for i in 0..n {
                let s = get("bind", Async::<UdpSocket>::bind((crate::fdu::lo(), 0)));
                hygiene("Async::<UdpSocket>::bind", s.as_raw_fd());
                let m = UdpSocket::bind((crate::fdu::lo(), 0)).unwrap();
                let (a, b) = (s.get_ref().local_addr().unwrap(), m.local_addr().unwrap());
                ns.udp.insert(a, i);
                ns.udp_of.insert(i, a);
                nm.udp.insert(b, i);
                nm.udp_of.insert(i, b);
                self.nodes.push(Node { sub: Sub::Udp(Arc::new(s)), mir: Mir::Udp(m), connected: None, unix, queued: 0 });
            }
        }
        // Connections.
        let k = self.nodes.len();
        for i in 0..k {
            if self.nodes[i].connected.is_some() || !self.rng.chance(50) {
                continue;
            }
            let to = self.rng.us(k);
            let to_dead = self.rng.chance(15);
            let node = &mut self.nodes[i];
            let (a, b) = match (&node.sub, &node.mir) {
                (Sub::Udp(s), Mir::Udp(m)) => {
                    if to_dead {
                        // A port that was just closed: nobody listens there.
                        let p = UdpSocket::bind((crate::fdu::lo(), 0)).unwrap().local_addr().unwrap();
                        (s.get_ref().connect(p), m.connect(p))
                    } else {
                        (s.get_ref().connect(ns.udp_of[&to]), m.connect(nm.udp_of[&to]))
                    }
                }
                (Sub::Unix(s), Mir::Unix(m)) => (
                    s.get_ref().connect(format!("{}sock{to}", ns.prefix)),
                    m.connect(format!("{}sock{to}", nm.prefix)),
                ),
                _ => unreachable!(),
            };
            if a.is_ok() != b.is_ok() {
                harness_error(format!("connect of the two copies differs: {a:?} {b:?}"));
            }
            if a.is_ok() {
                node.connected = Some(if to_dead && !unix { usize::MAX } else { to });
            }
        }
        for n in &self.nodes {
            fdu::set_nonblocking(n.mir.fd(), true);
        }
        self.script.push(format!(
            "unix={unix} nodes={:?}",
            self.nodes.iter().map(|n| n.connected).collect::<Vec<_>>()
        ));
        self.ns = Arc::new(ns);
        self.nm = nm;
    }

    fn explain(&self, r: &Running, expected: &Outcome) -> String {
        format!(
            "socket {} {}: expected {:?}\nsubject (readable, writable)={:?} plain={:?}\n{}\n{:?}",
            r.sock,
            r.op.short(),
            short(expected),
            fdu::truth(self.nodes[r.sock].sub.fd()),
            fdu::truth(self.nodes[r.sock].mir.fd()),
            r.task.describe(),
            self.script
        )
    }
    fn conclude(&mut self, r: Running, expected: Outcome) {
        await_cond(
            || r.task.is_done(),
            "an operation on a datagram socket that can proceed",
            || Some(self.explain(&r, &expected)),
        );
        let got = lock(&r.out).take();
        match got {
            Some(g) if g == expected => {}
            g => violation(
                format!(
                    "{} returned {:?}, the plain socket {:?}",
                    r.op.short(),
                    g.as_ref().map(short),
                    short(&expected)
                ),
                self.explain(&r, &expected),
            ),
        }
        self.script.push(format!("  -> {:?}", short(&expected)));
        count("operations", 1);
        if expected.n.is_err() {
            count("errors_compared", 1);
        }
        if expected.n.is_ok() {
            match &r.op {
                Op::Recv(_) | Op::RecvFrom(_) => self.nodes[r.sock].queued = self.nodes[r.sock].queued.saturating_sub(1),
                Op::Peek(_) | Op::PeekFrom(_) if self.nodes[r.sock].unix => {
                    self.nodes[r.sock].queued = self.nodes[r.sock].queued.saturating_sub(1)
                }
                Op::Send(_) => {
                    if let Some(p) = self.nodes[r.sock].connected {
                        self.arrived(r.sock, p)
                    }
                }
                Op::SendTo(_, Dest::Socket(p)) if *p < self.nodes.len() => self.arrived(r.sock, *p),
                _ => {}
            }
        }
    }
    fn arrived(&mut self, from: usize, to: usize) {
        if to == usize::MAX {
            // The error comes back.
            let n = &self.nodes[from];
            wait_truth(n.mir.fd(), 0);
            if !self.running.iter().any(|r| r.sock == from) {
                wait_truth(n.sub.fd(), 0);
            }
            return;
        }
        // A connected receiver drops what others send.
        let deliverable = match self.nodes[to].connected {
            None => true,
            Some(p) => p == from,
        };
        if deliverable {
            self.nodes[to].queued += 1;
            wait_truth(self.nodes[to].mir.fd(), 0);
            if !self.running.iter().any(|r| r.sock == to) {
                wait_truth(self.nodes[to].sub.fd(), 0);
            }
        }
    }
    /// Operations that have become possible must complete.
    fn settle(&mut self) {
        loop {
            let mut again = false;
            for i in 0..self.running.len() {
                let r = &self.running[i];
                let n = &self.nodes[r.sock];
                let t = fdu::truth(n.mir.fd());
                if ![t.0, t.1][r.op.dir()] {
                    continue;
                }
                let m = mirror(&n.mir, &r.op, &self.nm);
                if m.blocked() {
                    continue;
                }
                let r = self.running.swap_remove(i);
                self.script.push(format!("  completes: {} {}", r.sock, r.op.short()));
                count("pending_completed", 1);
                self.conclude(r, m);
                again = true;
                break;
            }
            if !again {
                return;
            }
        }
    }
    fn op(&mut self) {
        let k = self.nodes.len();
        let i = self.rng.us(k);
        let lens = [0usize, 1, 10, 100, 600, 1500, 9000];
        let op = match self.rng.below(10) {
            0 | 1 => Op::Recv(*self.rng.pick(&lens)),
            2 | 3 => Op::RecvFrom(*self.rng.pick(&lens)),
            4 => Op::Peek(*self.rng.pick(&lens)),
            5 => Op::PeekFrom(*self.rng.pick(&lens)),
            x => {
                let mut n = *self.rng.pick(&[0usize, 1, 10, 100, 600, 1000]);
                if self.rng.chance(3) {
                    n = 70_000;
                }
                let mut v = vec![0; n];
                crate::streams::Keyed(self.rng.u64()).fill(0, &mut v);
                if x < 8 {
                    Op::Send(v)
                } else if self.rng.chance(85) {
                    let d = self.rng.us(k);
                    Op::SendTo(v, Dest::Socket(d))
                } else {
                    let d = self.rng.below(4);
                    Op::SendTo(v, Dest::Odd(d))
                }
            }
        };
        // One pending operation per direction: the order among several is not specified.
        if self.running.iter().any(|r| r.sock == i && r.op.dir() == op.dir()) {
            return;
        }
        self.sig = mix(self.sig, (i as u64) << 8 | op.short().len() as u64);
        self.script.push(format!("{i} {}", op.short()));
        if op.dir() == 0 && self.nodes[i].queued > 0 {
            wait_truth(self.nodes[i].mir.fd(), 0);
        }
        let m = mirror(&self.nodes[i].mir, &op, &self.nm);
        let out = Arc::new(Mutex::new(None));
        let (s, o2, op2, ns) = (self.nodes[i].sub.clone(), out.clone(), op.clone(), self.ns.clone());
        let pct = *self.rng.pick(&[0, 50, 100]);
        let task = self.pool.spawn(self.rng, op.short(), pct, async move {
            let o = subject(s, op2, ns).await;
            *lock(&o2) = Some(o);
        });
        let r = Running { sock: i, op, task, out };
        if !m.blocked() {
            self.conclude(r, m);
            return;
        }
        // send_to on a Unix socket that is not connected cannot wait for room in the other's queue:
        // the OS calls the socket writable all the time.
        if matches!(r.op, Op::SendTo(..)) && self.nodes[i].unix {
            r.task.cancel();
            await_cond(|| r.task.is_done(), "cancel", || None);
            if let Some(g) = lock(&r.out).take() {
                violation(
                    format!("{} returned {:?} although the plain socket would block", r.op.short(), short(&g)),
                    format!("{:?}", self.script),
                );
            }
            return;
        }
        await_cond(|| r.task.is_done() || r.task.polls.load(SeqCst) > 0, "the first poll", || None);
        self.script.push("  pending".into());
        count("pending", 1);
        self.running.push(r);
    }
    fn still_pending(&mut self, r: &Running) {
        if let Some(g) = lock(&r.out).take() {
            violation(
                format!("{} returned {:?} although the plain socket would block", r.op.short(), short(&g)),
                format!("{:?}", self.script),
            );
        }
    }
    fn run(&mut self) {
        self.build();
        let steps = self.rng.range(4, 40);
        for _ in 0..steps {
            self.op();
            self.settle();
            if self.rng.chance(15) {
                delay(300);
            }
            if self.rng.chance(8) && !self.running.is_empty() {
                // Another poll, possibly with another waker.
                let i = self.rng.us(self.running.len());
                let r = self.pool.any(self.rng).clone();
                // (A blocked send tried once more may succeed before the socket counts as writable.)
                if self.running[i].op.dir() == 0 {
                    self.running[i].task.repoll(&r, true);
                }
            }
            if self.rng.chance(6) && !self.running.is_empty() {
                let i = self.rng.us(self.running.len());
                let r = self.running.swap_remove(i);
                r.task.cancel();
                self.still_pending(&r);
                self.script.push(format!("cancel {} {}", r.sock, r.op.short()));
                count("cancelled", 1);
            }
        }
        // Nothing that has to be pending has completed.
        let rest = std::mem::take(&mut self.running);
        for r in rest {
            r.task.cancel();
            self.still_pending(&r);
        }
        // What is left in the queues is the same, too.
        for i in 0..self.nodes.len() {
            loop {
                if self.nodes[i].queued > 0 {
                    wait_truth(self.nodes[i].mir.fd(), 0);
                    wait_truth(self.nodes[i].sub.fd(), 0);
                }
                let op = Op::RecvFrom(70_000);
                let m = mirror(&self.nodes[i].mir, &op, &self.nm);
                let s = match &self.nodes[i].sub {
                    Sub::Udp(s) => {
                        let mut b = vec![0xEE; 70_000];
                        let r = s.get_ref().recv_from(&mut b);
                        pack(r, b, |(n, a)| (n, self.ns.udp(a)))
                    }
                    Sub::Unix(s) => {
                        let mut b = vec![0xEE; 70_000];
                        let r = s.get_ref().recv_from(&mut b);
                        pack(r, b, |(n, a)| (n, self.ns.unix(a)))
                    }
                };
                if m != s {
                    violation(
                        format!("datagrams left in the queue differ: {:?}, plain socket {:?}", short(&s), short(&m)),
                        format!("{:?}", self.script),
                    );
                }
                if m.n.is_err() {
                    break;
                }
                self.nodes[i].queued = self.nodes[i].queued.saturating_sub(1);
                count("left_in_queue", 1);
            }
        }
        if self.nodes[0].unix {
            for i in 0..self.nodes.len() {
                let _ = std::fs::remove_file(format!("{}sock{i}", self.ns.prefix));
                let _ = std::fs::remove_file(format!("{}sock{i}", self.nm.prefix));
            }
        }
    }
}
fn short(o: &Outcome) -> String {
    let h = o.buf.iter().fold(0, |h, b| mix(h, *b as u64));
    format!("{:?} from {:?} buf len {} hash {:x}", o.n, o.from, o.buf.len(), h & 0xffff)
}

/// Many tasks receive from one socket: every datagram reaches exactly one of them, whole.
fn crowd(rng: &mut Rng, pool: &Pool) {
    let unix = rng.chance(40);
    let total = rng.range(1, if unix { 200 } else { 120 });
    let consumers = rng.range(1, 5);
    let seen: Arc<Mutex<HashMap<u64, u64>>> = Arc::default();
    let got = Arc::new(AtomicU64::new(0));
    let key = rng.u64();
    let mut tasks: Vec<Arc<Task>> = Vec::new();
    let (rx, tx) = if unix {
        let (a, b) = get("pair", Async::<UnixDatagram>::pair());
        fdu::set_buf(b.as_raw_fd(), 9000, 0);
        (Sub::Unix(Arc::new(a)), Sub::Unix(Arc::new(b)))
    } else {
        let a = get("bind", Async::<UdpSocket>::bind((crate::fdu::lo(), 0)));
        let b = get("bind", Async::<UdpSocket>::bind((crate::fdu::lo(), 0)));
        b.get_ref().connect(a.get_ref().local_addr().unwrap()).unwrap();
        (Sub::Udp(Arc::new(a)), Sub::Udp(Arc::new(b)))
    };
    let ok = move |b: &[u8]| -> Option<u64> {
        if b.len() < 8 {
            return None;
        }
        let id = u64::from_le_bytes(b[..8].try_into().unwrap());
        let n = 8 + (mix(key, id) % 300) as usize;
        (id < total && b.len() == n && crate::streams::Keyed(mix(key, id)).first_difference(0, &b[8..]).is_none())
            .then_some(id)
    };
    for c in 0..consumers {
        let (rx, seen, got) = (rx.clone(), seen.clone(), got.clone());
        let mut r = Rng::new(rng.u64());
        let peeks = !unix && rng.chance(30);
        let pct = *rng.pick(&[0, 50, 100]);
        tasks.push(pool.spawn(rng, format!("consumer {c}"), pct, async move {
            while got.load(SeqCst) < total {
                let mut b = [0u8; 400];
                let cancel = r.chance(10);
                let peek = peeks && r.chance(30);
                let fut = async {
                    match (&rx, peek) {
                        (Sub::Udp(s), true) => s.peek(&mut b).await,
                        (Sub::Udp(s), false) => s.recv(&mut b).await,
                        (Sub::Unix(s), _) => s.recv(&mut b).await,
                    }
                };
                let mut fut = Box::pin(fut);
                let res = if cancel {
                    match futures_lite::future::poll_once(&mut fut).await {
                        None => {
                            drop(fut);
                            count("cancelled", 1);
                            Timer::after(Duration::from_micros(r.below(100))).await;
                            continue;
                        }
                        Some(x) => x,
                    }
                } else {
                    fut.as_mut().await
                };
                drop(fut);
                match res {
                    Ok(n) => match ok(&b[..n]) {
                        Some(id) if !peek => {
                            *lock(&seen).entry(id).or_insert(0) += 1;
                            got.fetch_add(1, SeqCst);
                        }
                        Some(_) => {
                            count("crowd_peeks", 1);
                            Timer::after(Duration::from_micros(50)).await;
                        }
                        None => violation(format!("a receive returned {n} bytes that were never sent"), format!("{:?}", &b[..n])),
                    },
                    Err(e) => violation(format!("a receive failed: {e:?}"), ""),
                }
            }
        }));
    }
    let senders = rng.range(1, 3);
    let next = Arc::new(AtomicU64::new(0));
    for s in 0..senders {
        let (tx, next) = (tx.clone(), next.clone());
        let mut r = Rng::new(rng.u64());
        tasks.push(pool.spawn(rng, format!("sender {s}"), 50, async move {
            loop {
                let id = next.fetch_add(1, SeqCst);
                if id >= total {
                    return;
                }
                let n = 8 + (mix(key, id) % 300) as usize;
                let mut v = vec![0; n];
                v[..8].copy_from_slice(&id.to_le_bytes());
                crate::streams::Keyed(mix(key, id)).fill(0, &mut v[8..]);
                loop {
                    let cancel = r.chance(10);
                    let mut fut = Box::pin(async {
                        match &tx {
                            Sub::Udp(s) => s.send(&v).await,
                            Sub::Unix(s) => s.send(&v).await,
                        }
                    });
                    let res = if cancel {
                        match futures_lite::future::poll_once(&mut fut).await {
                            None => {
                                count("cancelled", 1);
                                continue;
                            }
                            Some(x) => x,
                        }
                    } else {
                        fut.as_mut().await
                    };
                    match res {
                        Ok(k) if k == n => break,
                        x => violation(format!("a send of {n} bytes returned {x:?}"), ""),
                    }
                }
                if r.chance(20) {
                    Timer::after(Duration::from_micros(r.below(200))).await;
                }
            }
        }));
    }
    await_cond(
        || got.load(SeqCst) >= total,
        "receivers of a crowd",
        || {
            Some(format!(
                "unix={unix} received {} of {total}, sender at {}, readable={:?}; {:?}",
                got.load(SeqCst),
                next.load(SeqCst),
                fdu::truth(rx.fd()),
                tasks.iter().map(|t| t.describe()).collect::<Vec<_>>()
            ))
        },
    );
    for t in &tasks {
        t.cancel();
    }
    let seen = lock(&seen);
    for id in 0..total {
        let n = seen.get(&id).copied().unwrap_or(0);
        check!(n == 1, "datagram {id} of {total} was received {n} times (unix={unix}, {consumers} receivers)");
    }
    count("crowd_datagrams", total as i64);
}

/// The kernel refuses an operation for the moment, although the socket is ready: the operation waits for its own direction and is
/// then performed, once.
#[cfg(not(vh_san))]
fn refusals(rng: &mut Rng, pool: &Pool) {
    let unix = rng.chance(40);
    let kinds: &[&str] = if unix { &["send", "recv", "recv_from", "send_to"] } else { &["send", "recv", "recv_from", "send_to", "peek", "peek_from"] };
    let kind = *rng.pick(kinds);
    let path = std::env::temp_dir().join(format!("vh-dgram-{}", std::process::id()));
    // The peer is a plain socket.
    let (s, peer): (Sub, Mir) = if unix {
        let _ = std::fs::remove_file(&path);
        let p = get("bind", UnixDatagram::bind(&path));
        let s = get("unbound", Async::<UnixDatagram>::unbound());
        if kind != "send_to" {
            let (a, b) = get("pair", Async::<UnixDatagram>::pair());
            (Sub::Unix(Arc::new(a)), Mir::Unix(get("into_inner", b.into_inner())))
        } else {
            (Sub::Unix(Arc::new(s)), Mir::Unix(p))
        }
    } else {
        let s = get("bind", Async::<UdpSocket>::bind((crate::fdu::lo(), 0)));
        let p = get("bind", UdpSocket::bind((crate::fdu::lo(), 0)));
        p.connect(s.get_ref().local_addr().unwrap()).unwrap();
        if matches!(kind, "send" | "recv" | "peek") || rng.chance(30) {
            s.get_ref().connect(p.local_addr().unwrap()).unwrap();
        }
        (Sub::Udp(Arc::new(s)), Mir::Udp(p))
    };
    match &peer {
        Mir::Udp(p) => p.set_nonblocking(true).unwrap(),
        Mir::Unix(p) => p.set_nonblocking(true).unwrap(),
    }
    let sends = kind.starts_with("send");
    let data: Vec<u8> = (0..rng.range(1, 40)).map(|_| rng.u64() as u8).collect();
    if !sends {
        let n = match &peer {
            Mir::Udp(p) => p.send(&data),
            Mir::Unix(p) => p.send(&data),
        };
        check!(matches!(n, Ok(k) if k == data.len()), "the peer could not send: {n:?}");
        wait_truth(s.fd(), 0);
        if rng.chance(50) {
            // Both directions are armed, or none.
            let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
            let _ = match &s {
                Sub::Udp(s) => s.poll_readable(&mut cx),
                Sub::Unix(s) => s.poll_readable(&mut cx),
            };
        }
    }
    let n = rng.range(1, 4) as u8;
    let fd = s.fd();
    check!(crate::refuse::refuse(fd, n), "descriptor {fd}");
    let out: Arc<Mutex<Option<(io::Result<usize>, Vec<u8>)>>> = Arc::default();
    let (o, s2, d, path2) = (out.clone(), s.clone(), data.clone(), path.clone());
    let to = match &peer {
        Mir::Udp(p) => p.local_addr().ok(),
        _ => None,
    };
    let pct = *rng.pick(&[0, 50, 100]);
    let task = pool.spawn(rng, format!("{kind} refused {n} times"), pct, async move {
        let mut b = vec![0u8; 64];
        let r = match (&s2, kind) {
            (Sub::Udp(s), "send") => s.send(&d).await,
            (Sub::Udp(s), "send_to") => s.send_to(&d, to.unwrap()).await,
            (Sub::Udp(s), "recv") => s.recv(&mut b).await,
            (Sub::Udp(s), "recv_from") => s.recv_from(&mut b).await.map(|x| x.0),
            (Sub::Udp(s), "peek") => s.peek(&mut b).await,
            (Sub::Udp(s), _) => s.peek_from(&mut b).await.map(|x| x.0),
            (Sub::Unix(s), "send") => s.send(&d).await,
            (Sub::Unix(s), "send_to") => s.send_to(&d, &path2).await,
            (Sub::Unix(s), "recv") => s.recv(&mut b).await,
            (Sub::Unix(s), _) => s.recv_from(&mut b).await.map(|x| x.0),
        };
        *lock(&o) = Some((r, b));
    });
    await_cond(
        || lock(&out).is_some(),
        "an operation on a datagram socket that the kernel refused for the moment",
        || Some(format!("{kind} unix={unix} refused {n} times, {} to go; truth {:?}; {}", crate::refuse::left(fd), fdu::truth(fd), task.describe())),
    );
    let (r, b) = lock(&out).take().unwrap();
    check!(crate::refuse::left(fd) == 0, "{kind} gave up after {} of {n} refusals: {r:?}", n - crate::refuse::left(fd));
    crate::refuse::refuse(fd, 0);
    check!(matches!(r, Ok(k) if k == data.len()), "{kind} of {} bytes, refused {n} times, returned {r:?}", data.len());
    let mut c = vec![0u8; 64];
    if sends {
        let got = match &peer {
            Mir::Udp(p) => p.recv(&mut c),
            Mir::Unix(p) => p.recv(&mut c),
        };
        check!(matches!(got, Ok(k) if k == data.len() && c[..k] == data[..]), "{kind}, refused {n} times: the peer received {got:?}");
    } else {
        check!(b[..data.len()] == data[..], "{kind}, refused {n} times, returned other data");
    }
    // Nothing else arrives, and nothing is left but what was only peeked at.
    let rest = match (&s, &peer) {
        (_, Mir::Udp(p)) if sends => p.recv(&mut c),
        (_, Mir::Unix(p)) if sends => p.recv(&mut c),
        (Sub::Udp(s), _) => s.get_ref().recv(&mut c),
        (Sub::Unix(s), _) => s.get_ref().recv(&mut c),
    };
    if kind.starts_with("peek") {
        check!(matches!(rest, Ok(k) if k == data.len()), "{kind} consumed the datagram: {rest:?}");
    } else {
        check!(rest.is_err(), "{kind}, refused {n} times, was performed more than once: {rest:?}");
    }
    if unix {
        let _ = std::fs::remove_file(&path);
    }
    task.cancel();
    count(&format!("refused_{kind}"), 1);
}

/// A datagram for somebody whose queue is full, from a socket that is not connected.
#[cfg(not(vh_san))]
fn full_unconnected(rng: &mut Rng, pool: &Pool) {
    let path = std::env::temp_dir().join(format!("vh-dgram-{}", std::process::id()));
    let _ = std::fs::remove_file(&path);
    let p = get("bind", UnixDatagram::bind(&path));
    let f = get("unbound", UnixDatagram::unbound());
    f.set_nonblocking(true).unwrap();
    let mut queued = 0;
    while f.send_to(b"x", &path).is_ok() {
        queued += 1;
    }
    let s = Arc::new(get("unbound", Async::<UnixDatagram>::unbound()));
    let out: Arc<Mutex<Option<io::Result<usize>>>> = Arc::default();
    let (o, s2, path2) = (out.clone(), s.clone(), path.clone());
    let task = pool.spawn(rng, "send_to a full queue".into(), 50, async move {
        let r = s2.send_to(b"hello", &path2).await;
        *lock(&o) = Some(r);
    });
    std::thread::sleep(Duration::from_micros(rng.below(1500)));
    check!(lock(&out).is_none(), "send_to a full queue returned {:?}", lock(&out));
    let mut c = [0u8; 16];
    p.set_nonblocking(true).unwrap();
    check!(p.recv(&mut c).is_ok(), "recv");
    await_cond(|| lock(&out).is_some(), "a send_to whose receiver has room again", || Some(task.describe()));
    let r = lock(&out).take().unwrap();
    check!(matches!(r, Ok(5)), "send_to returned {r:?}");
    let mut last = 0;
    let mut n = 1;
    while let Ok(k) = p.recv(&mut c) {
        last = k;
        n += 1;
    }
    check!(n == queued + 1 && last == 5 && &c[..5] == b"hello", "{n} datagrams arrived instead of {}, the last has {last} bytes", queued + 1);
    let _ = std::fs::remove_file(&path);
    task.cancel();
    count("full_unconnected", 1);
}

pub fn run() {
    start_watchdog();
    let mut rng = Rng::new(opts().seed);
    let pool = Pool::new(&[Kind::Plain, Kind::BlockOn, Kind::BlockOn]);
    let mut episode = 0u64;
    while time_left() {
        episode += 1;
        if episode % 8 == 1 {
            pool.shuffle(&mut rng);
            inj_shuffle(&mut rng);
        }
        take_trace();
        #[cfg(not(vh_san))]
        if episode % 6 == 3 {
            refusals(&mut rng, &pool);
            full_unconnected(&mut rng, &pool);
            evaluated(Some(take_trace()));
            continue;
        }
        if episode % 6 == 0 {
            crowd(&mut rng, &pool);
            evaluated(Some(take_trace()));
            continue;
        }
        let mut n = Net {
            rng: &mut rng,
            pool: &pool,
            nodes: vec![],
            ns: Arc::default(),
            nm: Names::default(),
            running: vec![],
            script: vec![],
            sig: 0,
        };
        n.run();
        let (sig, script) = (n.sig, std::mem::take(&mut n.script));
        sample(|| format!("{script:?}"));
        evaluated((script.len() > 3).then(|| mix(sig, take_trace())));
    }
    inj_off();
    report_points();
    finish()
}
