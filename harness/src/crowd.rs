//! C01/C02: a great many handles that become ready at once, and a great many waiters of one handle.

use std::future::Future;
use std::os::fd::OwnedFd;
use std::os::unix::net::UnixStream;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use async_io::Async;

use crate::fdu;
use crate::rt::*;

#[derive(Default)]
pub struct Counted(pub AtomicU64);
impl Wake for Counted {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

type Wait = Pin<Box<dyn Future<Output = std::io::Result<()>>>>;
struct W {
    f: Wait,
    dir: usize,
    w: Arc<Counted>,
    seen: u64,
    done: bool,
}

fn wait(h: Arc<Async<OwnedFd>>, dir: usize, kind: u64) -> Wait {
    match (kind, dir) {
        (0, 0) => Box::pin(h.readable_owned()),
        (0, _) => Box::pin(h.writable_owned()),
        (1, 0) => Box::pin(async move { h.readable().await }),
        (1, _) => Box::pin(async move { h.writable().await }),
        (_, 0) => Box::pin(std::future::poll_fn(move |cx| h.poll_readable(cx))),
        (_, _) => Box::pin(std::future::poll_fn(move |cx| h.poll_writable(cx))),
    }
}

fn nofile() -> usize {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        if l.rlim_cur < 20_000 && l.rlim_max > l.rlim_cur {
            l.rlim_cur = l.rlim_max.min(20_000);
            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        }
        l.rlim_cur as usize
    }
}

/// Waits for all of `dirs`, polling only those that were woken since their last poll.
fn complete(ws: &mut [W], dirs: [bool; 2], what: &str) {
    let n = ws.len();
    let ws = std::cell::RefCell::new(ws);
    await_cond(
        || {
            let mut all = true;
            for w in ws.borrow_mut().iter_mut().filter(|w| !w.done) {
                let c = w.w.0.load(SeqCst);
                if c != w.seen {
                    w.seen = c;
                    match w.f.as_mut().poll(&mut Context::from_waker(&Waker::from(w.w.clone()))) {
                        Poll::Ready(Ok(())) => {
                            check!(dirs[w.dir], "a wait for direction {} resolved in {what}", w.dir);
                            w.done = true;
                        }
                        Poll::Ready(Err(e)) => violation(format!("a wait failed in {what}"), format!("{e:?}")),
                        Poll::Pending => {}
                    }
                }
                all &= w.done || !dirs[w.dir];
            }
            all
        },
        "some of very many waits are not woken although their descriptors are ready",
        || {
            let late = ws.borrow().iter().filter(|w| !w.done && dirs[w.dir]).count();
            (late > 0).then(|| format!("{late} of {n} waits in {what}"))
        },
    );
}

/// Handles that become ready in the same round.
fn handles(rng: &mut Rng) {
    let max = (nofile().saturating_sub(fdu::open_fds() + 200)).min(3000);
    let n = rng.range(max as u64 / 8, max as u64) as usize;
    let (a, b) = UnixStream::pair().unwrap();
    a.set_nonblocking(true).unwrap();
    b.set_nonblocking(true).unwrap();
    let a = OwnedFd::from(a);
    let full = rng.chance(50);
    if full {
        use std::os::fd::AsRawFd;
        fdu::fill(a.as_raw_fd());
    }
    let mut ws = Vec::new();
    for _ in 0..n {
        let h = Arc::new(Async::new(a.try_clone().unwrap()).unwrap());
        let both = full && rng.chance(30);
        for dir in 0..1 + both as usize {
            let mut w = W { f: wait(h.clone(), dir, rng.below(3)), dir, w: Default::default(), seen: 0, done: false };
            check!(
                w.f.as_mut().poll(&mut Context::from_waker(&Waker::from(w.w.clone()))).is_pending(),
                "a wait on a descriptor that is not ready resolved at once"
            );
            ws.push(w);
        }
        progress();
    }
    for _ in 0..rng.us(n / 4) {
        let i = rng.us(ws.len());
        ws.swap_remove(i);
    }
    count("crowd_handles", n as i64);
    if rng.chance(25) {
        drop(b);
        complete(&mut ws, [true, true], "a crowd of handles that are hung up");
    } else {
        use std::os::fd::AsRawFd;
        fdu::write(b.as_raw_fd(), b"x").unwrap();
        complete(&mut ws, [true, false], "a crowd of handles");
        drop(b);
        complete(&mut ws, [true, true], "a crowd of handles, hung up");
    }
    drop(ws);
    evaluated(Some(mix(n as u64, rng.u64())));
}

/// Waiters of one handle.
fn waiters(rng: &mut Rng) {
    use std::os::fd::AsRawFd;
    let (a, b) = UnixStream::pair().unwrap();
    a.set_nonblocking(true).unwrap();
    b.set_nonblocking(true).unwrap();
    fdu::fill(a.as_raw_fd());
    let h = Arc::new(Async::new(OwnedFd::from(a)).unwrap());
    let n = rng.range(500, 8000) as usize;
    let mut ws: Vec<W> = Vec::new();
    let mut slots = [false; 2];
    for _ in 0..n {
        let dir = rng.us(2);
        let mut kind = rng.below(3);
        if kind == 2 && std::mem::replace(&mut slots[dir], true) {
            kind = 0;
        }
        let mut w = W { f: wait(h.clone(), dir, kind), dir, w: Default::default(), seen: 0, done: false };
        check!(
            w.f.as_mut().poll(&mut Context::from_waker(&Waker::from(w.w.clone()))).is_pending(),
            "a wait on a descriptor that is not ready resolved at once"
        );
        ws.push(w);
        if rng.chance(30) {
            let i = rng.us(ws.len());
            ws.swap_remove(i);
        }
    }
    count("crowd_waiters", ws.len() as i64);
    if rng.chance(25) {
        drop(b);
        complete(&mut ws, [true, true], "a crowd of waiters that is hung up");
    } else if rng.chance(50) {
        fdu::write(b.as_raw_fd(), b"x").unwrap();
        complete(&mut ws, [true, false], "a crowd of waiters");
        drop(b);
        complete(&mut ws, [true, true], "a crowd of waiters, hung up");
    } else {
        let mut buf = [0; 65536];
        while unsafe { libc::recv(b.as_raw_fd(), buf.as_mut_ptr() as *mut _, buf.len(), libc::MSG_DONTWAIT) } > 0 {}
        complete(&mut ws, [false, true], "a crowd of waiters with room to write");
        fdu::write(b.as_raw_fd(), b"x").unwrap();
        complete(&mut ws, [true, true], "a crowd of waiters, all ready");
    }
    drop(ws);
    evaluated(Some(mix(n as u64, rng.u64())));
}

pub fn crowd(rng: &mut Rng) {
    if rng.chance(50) {
        handles(rng)
    } else {
        waiters(rng)
    }
}
