//! C08 (byte streams): keyed pseudo-random streams through every AsyncRead/AsyncWrite implementation,
//! with pressure, concurrency of directions, vectored and cancelled operations, wrappers that buffer,
//! spuriously block or fail.

use std::cell::RefCell;
use std::collections::HashMap;
use std::future::{poll_fn, Future};
use std::io::{self, BufWriter, IoSlice, IoSliceMut, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, OwnedFd, RawFd};
use std::os::unix::net::UnixStream;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;

use async_io::{Async, IoSafe, Timer};
use futures_io::{AsyncRead, AsyncWrite};

use crate::exec::*;
use crate::fdu;
use crate::rt::*;

#[derive(Clone, Copy)]
pub struct Keyed(pub u64);
impl Keyed {
    pub fn fill(self, off: u64, buf: &mut [u8]) {
        for (i, b) in buf.iter_mut().enumerate() {
            let p = off + i as u64;
            *b = mix(self.0, p / 8).to_le_bytes()[(p % 8) as usize];
        }
    }
    pub fn first_difference(self, off: u64, buf: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i < buf.len() {
            let p = off + i as u64;
            let w = mix(self.0, p / 8).to_le_bytes();
            let mut k = (p % 8) as usize;
            while k < 8 && i < buf.len() {
                if buf[i] != w[k] {
                    return Some(i);
                }
                i += 1;
                k += 1;
            }
        }
        None
    }
}

// ---------------------------------------------------------------------------------------------
// I/O types

/// An error of which the identity can be checked.
#[derive(Debug)]
struct Unique(u64);
impl std::fmt::Display for Unique {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "unique error {}", self.0)
    }
}
impl std::error::Error for Unique {}
static UNIQUE: AtomicU64 = AtomicU64::new(1);

type Raw = Result<usize, (io::ErrorKind, Option<i32>, u64)>;
fn norm(r: &io::Result<usize>) -> Raw {
    match r {
        Ok(n) => Ok(*n),
        Err(e) => Err((
            e.kind(),
            e.raw_os_error(),
            e.get_ref().and_then(|x| x.downcast_ref::<Unique>()).map_or(0, |u| u.0),
        )),
    }
}
thread_local!(static LAST: RefCell<Option<Raw>> = const { RefCell::new(None) });

/// Records the result of every call on this thread, sometimes blocks for no reason and sometimes fails.
/// The state that a failed call leaves behind is that of an error of the OS: nothing was moved.
pub struct Rec {
    io: std::fs::File,
    block: u64,
    fail: u64,
    written: Arc<AtomicU64>,
}
impl AsFd for Rec {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.io.as_fd()
    }
}
unsafe impl IoSafe for Rec {}
impl Rec {
    fn call(&self, f: impl FnOnce() -> io::Result<usize>) -> io::Result<usize> {
        let r = if rnd(1000) < self.block {
            Err(io::ErrorKind::WouldBlock.into())
        } else if rnd(1000) < self.fail {
            let id = UNIQUE.fetch_add(1, Relaxed);
            Err(match rnd(3) {
                0 => io::ErrorKind::Interrupted.into(),
                1 => io::Error::new(io::ErrorKind::Interrupted, Unique(id)),
                _ => io::Error::new(io::ErrorKind::Other, Unique(id)),
            })
        } else {
            f()
        };
        LAST.with(|l| *l.borrow_mut() = Some(norm(&r)));
        r
    }
    fn note(&self, r: io::Result<usize>) -> io::Result<usize> {
        if let Ok(n) = r {
            self.written.fetch_add(n as u64, SeqCst);
        }
        r
    }
}
impl Read for &Rec {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.call(|| (&self.io).read(b))
    }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        self.call(|| (&self.io).read_vectored(b))
    }
}
impl Read for Rec {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        (&*self).read(b)
    }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        (&*self).read_vectored(b)
    }
}
impl Write for &Rec {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.note(self.call(|| (&self.io).write(b)))
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
        self.note(self.call(|| (&self.io).write_vectored(b)))
    }
    fn flush(&mut self) -> io::Result<()> {
        self.call(|| (&self.io).flush().map(|_| 0)).map(|_| ())
    }
}
impl Write for Rec {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        (&*self).write(b)
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
        (&*self).write_vectored(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        (&*self).flush()
    }
}

/// A buffering writer behind a mutex, so that it can be used through a reference, too. Flushing it can
/// block.
pub struct Buffered {
    fd: OwnedFd,
    w: Mutex<BufWriter<Rec>>,
}
impl AsFd for Buffered {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.fd.as_fd()
    }
}
unsafe impl IoSafe for Buffered {}
impl Write for &Buffered {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        lock(&self.w).write(b)
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
        lock(&self.w).write_vectored(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        lock(&self.w).flush()
    }
}
impl Write for Buffered {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        (&*self).write(b)
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
        (&*self).write_vectored(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        (&*self).flush()
    }
}

// ---------------------------------------------------------------------------------------------
// Ends

async fn poll_once<F: Future>(f: F) -> Option<F::Output> {
    let mut f = pin!(f);
    poll_fn(|cx| Poll::Ready(match f.as_mut().poll(cx) {
        Poll::Ready(r) => Some(r),
        Poll::Pending => None,
    }))
    .await
}
async fn yield_once() {
    let mut y = false;
    poll_fn(|cx| {
        if y {
            return Poll::Ready(());
        }
        y = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

pub enum End<T> {
    Shared(Arc<Async<T>>),
    Owned(Async<T>),
}
/// `Some(end)`: how the operation was run; used in messages.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum How {
    Poll,
    Vectored,
    With,
    WithMut,
}

fn split(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut left = n;
    while left > 0 && v.len() < 5 {
        let k = if rng.chance(15) { 0 } else { rng.range(1, left as u64) as usize };
        v.push(k);
        left -= k;
    }
    if left > 0 {
        v.push(left)
    }
    v
}

impl<T> End<T> {
    fn h(&self) -> &Async<T> {
        match self {
            End::Shared(a) => a,
            End::Owned(a) => a,
        }
    }
}

impl<T: IoSafe + Read> End<T>
where
    for<'a> &'a T: Read,
{
    async fn read(&mut self, how: How, parts: &[usize], buf: &mut [u8]) -> io::Result<usize> {
        match (self, how) {
            (End::Shared(a), How::Poll) => poll_fn(|cx| Pin::new(&mut &**a).poll_read(cx, buf)).await,
            (End::Owned(a), How::Poll) => poll_fn(|cx| Pin::new(&mut *a).poll_read(cx, buf)).await,
            (e, How::Vectored) => {
                let mut sl = Vec::new();
                let mut rest = buf;
                for p in parts {
                    let (x, y) = rest.split_at_mut(*p);
                    sl.push(IoSliceMut::new(x));
                    rest = y;
                }
                match e {
                    End::Shared(a) => poll_fn(|cx| Pin::new(&mut &**a).poll_read_vectored(cx, &mut sl)).await,
                    End::Owned(a) => poll_fn(|cx| Pin::new(&mut *a).poll_read_vectored(cx, &mut sl)).await,
                }
            }
            (End::Owned(a), How::WithMut) => unsafe { a.read_with_mut(|t| t.read(buf)).await },
            (e, _) => e.h().read_with(|mut t| t.read(buf)).await,
        }
    }
}
impl<T: IoSafe + Write> End<T>
where
    for<'a> &'a T: Write,
{
    async fn write(&mut self, how: How, parts: &[usize], buf: &[u8]) -> io::Result<usize> {
        match (self, how) {
            (End::Shared(a), How::Poll) => poll_fn(|cx| Pin::new(&mut &**a).poll_write(cx, buf)).await,
            (End::Owned(a), How::Poll) => poll_fn(|cx| Pin::new(&mut *a).poll_write(cx, buf)).await,
            (e, How::Vectored) => {
                let mut sl = Vec::new();
                let mut rest = buf;
                for p in parts {
                    let (x, y) = rest.split_at(*p);
                    sl.push(IoSlice::new(x));
                    rest = y;
                }
                match e {
                    End::Shared(a) => poll_fn(|cx| Pin::new(&mut &**a).poll_write_vectored(cx, &sl)).await,
                    End::Owned(a) => poll_fn(|cx| Pin::new(&mut *a).poll_write_vectored(cx, &sl)).await,
                }
            }
            (End::Owned(a), How::WithMut) => unsafe { a.write_with_mut(|t| t.write(buf)).await },
            (e, _) => e.h().write_with(|mut t| t.write(buf)).await,
        }
    }
    async fn flush(&mut self, close: bool) -> io::Result<()> {
        match self {
            End::Shared(a) => {
                poll_fn(|cx| {
                    if close {
                        Pin::new(&mut &**a).poll_close(cx)
                    } else {
                        Pin::new(&mut &**a).poll_flush(cx)
                    }
                })
                .await
            }
            End::Owned(a) => {
                poll_fn(|cx| {
                    if close {
                        Pin::new(&mut *a).poll_close(cx)
                    } else {
                        Pin::new(&mut *a).poll_flush(cx)
                    }
                })
                .await
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// One direction of one stream

pub struct Flow {
    name: String,
    key: Keyed,
    total: u64,
    wfd: RawFd,
    rfd: RawFd,
    sent: AtomicU64,
    received: AtomicU64,
    /// The writer is done for good: `sent` is final.
    closed: AtomicBool,
    /// The reader went away early.
    reader_gone: AtomicBool,
    /// The reader stops after this many bytes.
    read_limit: u64,
    chunk: usize,
    /// Bytes that reached the OS, for buffering writers.
    written: Option<Arc<AtomicU64>>,
    /// The writer's side was reset instead of closed.
    reset: AtomicBool,
    script: Mutex<Vec<String>>,
}
impl Flow {
    fn note(&self, s: impl FnOnce() -> String) {
        let mut g = lock(&self.script);
        if g.len() < 60 {
            g.push(s())
        }
    }
    fn describe(&self) -> String {
        format!(
            "{}: {} of {} bytes sent, {} received, writer closed={}, reader gone={}, write end writable={:?}, read end readable={:?}\n  ops: {:?}\n",
            self.name,
            self.sent.load(SeqCst),
            self.total,
            self.received.load(SeqCst),
            self.closed.load(SeqCst),
            self.reader_gone.load(SeqCst),
            fdu::truth(self.wfd).1,
            fdu::truth(self.rfd).0,
            lock(&self.script),
        )
    }
}
fn pick_how(rng: &mut Rng) -> How {
    *rng.pick(&[How::Poll, How::Poll, How::Vectored, How::With, How::WithMut])
}
fn verbatim(f: &Flow, what: &str, r: &io::Result<usize>, recorded: bool) {
    if let Err(e) = r {
        if e.kind() == io::ErrorKind::WouldBlock {
            violation(format!("{what} returned WouldBlock"), f.describe());
        }
    }
    if recorded {
        let last = LAST.with(|l| l.borrow_mut().take());
        if last != Some(norm(r)) {
            violation(
                format!("{what} returned {:?} but the last call of the I/O object returned {last:?}", norm(r)),
                f.describe(),
            );
        }
    }
    count("operations", 1);
}
fn transient(e: &io::Error) -> bool {
    e.kind() == io::ErrorKind::Interrupted || e.get_ref().is_some_and(|x| x.is::<Unique>())
}
/// How a writer ends its stream.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ending {
    Drop,
    Shutdown,
}

/// `recorded`: the I/O object is a `Rec` (not below a buffer).
async fn writer<T>(mut end: End<T>, f: Arc<Flow>, mut rng: Rng, recorded: bool, ending: Ending, other: Option<Arc<AtomicBool>>)
where
    T: IoSafe + Write,
    for<'a> &'a T: Write,
{
    let mut buf = vec![0u8; f.chunk];
    let mut pos = 0u64;
    let mut failed = false;
    while pos < f.total {
        let n = (rng.range(1, f.chunk as u64)).min(f.total - pos) as usize;
        f.key.fill(pos, &mut buf[..n]);
        let how = pick_how(&mut rng);
        let parts = split(&mut rng, n);
        LAST.with(|l| l.borrow_mut().take());
        let r = if rng.chance(12) {
            match poll_once(end.write(how, &parts, &buf[..n])).await {
                Some(r) => r,
                None => {
                    // Cancelled while it was blocked: nothing of it may have been written.
                    count("cancelled_writes", 1);
                    f.note(|| format!("write({n},{how:?}) cancelled at {pos}"));
                    if rng.chance(50) {
                        yield_once().await
                    }
                    continue;
                }
            }
        } else {
            end.write(how, &parts, &buf[..n]).await
        };
        verbatim(&f, "a write", &r, recorded);
        f.note(|| format!("write({n},{how:?}) at {pos} -> {r:?}"));
        match r {
            Ok(0) => violation("a write of a non-empty buffer returned Ok(0)", f.describe()),
            Ok(k) if k > n => violation(format!("a write of {n} bytes returned {k}"), f.describe()),
            Ok(k) => {
                pos += k as u64;
                f.sent.store(pos, SeqCst);
                progress();
            }
            Err(e) if transient(&e) => count("transient_errors", 1),
            Err(e)
                if f.read_limit < f.total
                    && matches!(e.kind(), io::ErrorKind::BrokenPipe | io::ErrorKind::ConnectionReset) =>
            {
                if !f.reader_gone.load(SeqCst) {
                    violation(format!("a write failed with {e:?} although the peer is alive"), f.describe());
                }
                count("broken_pipes_reported", 1);
                failed = true;
                break;
            }
            Err(e) => violation(format!("a write failed with {e:?}"), f.describe()),
        }
        if rng.chance(10) {
            let close = rng.chance(40);
            loop {
                let r = end.flush(close).await;
                match r {
                    Ok(()) => break,
                    Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
                        violation("a flush returned WouldBlock", f.describe())
                    }
                    Err(e) if transient(&e) => {}
                    Err(_) if f.read_limit < f.total && f.reader_gone.load(SeqCst) => {
                        failed = true;
                        break;
                    }
                    Err(e) => violation(format!("a flush failed with {e:?}"), f.describe()),
                }
            }
            if failed {
                break;
            }
            count("flushes", 1);
            f.note(|| format!("flush close={close}"));
            if let Some(w) = &f.written {
                let w = w.load(SeqCst);
                if w != pos {
                    violation(
                        format!("a flush completed with {w} of {pos} bytes passed on to the OS"),
                        f.describe(),
                    );
                }
            }
        }
        if rng.chance(6) {
            Timer::after(Duration::from_micros(rng.below(400))).await;
        }
    }
    if f.written.is_some() && !failed {
        loop {
            match end.flush(rng.chance(50)).await {
                Ok(()) => break,
                Err(e) if transient(&e) => {}
                Err(_) if f.read_limit < f.total && f.reader_gone.load(SeqCst) => break,
                Err(e) => violation(format!("a flush failed with {e:?}"), f.describe()),
            }
        }
    }
    if failed {
        f.note(|| "writer gives up".into());
    }
    f.closed.store(true, SeqCst);
    if ending == Ending::Shutdown {
        unsafe { libc::shutdown(f.wfd, libc::SHUT_WR) };
    }
    if let Some(o) = other {
        o.store(true, SeqCst)
    }
    drop(end);
}

async fn reader<T>(mut end: End<T>, f: Arc<Flow>, mut rng: Rng, recorded: bool, peek: Option<Arc<Async<TcpStream>>>)
where
    T: IoSafe + Read,
    for<'a> &'a T: Read,
{
    let mut buf = vec![0u8; f.chunk + 16];
    let mut pos = 0u64;
    let mut eofs = 0;
    loop {
        let left = f.read_limit - pos;
        if left == 0 && f.read_limit < f.total {
            f.reader_gone.store(true, SeqCst);
            f.note(|| format!("reader leaves at {pos}"));
            drop(end);
            return;
        }
        let n = rng.range(1, f.chunk as u64).min(if f.read_limit < f.total { left } else { u64::MAX }) as usize;
        let how = pick_how(&mut rng);
        let parts = split(&mut rng, n);
        for b in &mut buf {
            *b = 0xEE;
        }
        if let Some(p) = &peek {
            if rng.chance(15) {
                match p.peek(&mut buf[..n]).await {
                    Ok(k) => {
                        if let Some(d) = f.key.first_difference(pos, &buf[..k.min(n)]) {
                            violation(format!("peek returned a wrong byte at offset {}", pos + d as u64), f.describe());
                        }
                        if k == 0 && !f.closed.load(SeqCst) {
                            violation("peek reported the end of the stream while the writer is alive", f.describe());
                        }
                        count("peeks", 1);
                    }
                    Err(e) if f.reset.load(SeqCst) => {
                        f.note(|| format!("peek -> {e:?}"));
                    }
                    Err(e) => violation(format!("peek failed with {e:?}"), f.describe()),
                }
                for b in &mut buf {
                    *b = 0xEE;
                }
            }
        }
        LAST.with(|l| l.borrow_mut().take());
        let r = if rng.chance(12) {
            match poll_once(end.read(how, &parts, &mut buf[..n])).await {
                Some(r) => r,
                None => {
                    count("cancelled_reads", 1);
                    f.note(|| format!("read({n},{how:?}) cancelled at {pos}"));
                    if rng.chance(50) {
                        yield_once().await
                    }
                    continue;
                }
            }
        } else {
            end.read(how, &parts, &mut buf[..n]).await
        };
        // (Read before `closed`: the end of the stream can only come after it.)
        verbatim(&f, "a read", &r, recorded);
        f.note(|| format!("read({n},{how:?}) at {pos} -> {r:?}"));
        match r {
            Ok(0) => {
                if !f.closed.load(SeqCst) {
                    violation("a read reported the end of the stream while the writer is alive", f.describe());
                }
                let sent = f.sent.load(SeqCst);
                if pos != sent && !f.reset.load(SeqCst) {
                    violation(format!("the stream ended after {pos} bytes although {sent} were written"), f.describe());
                }
                eofs += 1;
                if eofs == 2 {
                    count("streams_complete", 1);
                    count("bytes", pos as i64);
                    return;
                }
            }
            Ok(k) => {
                if k > n {
                    violation(format!("a read into {n} bytes returned {k}"), f.describe());
                }
                if eofs > 0 {
                    violation("data after the end of the stream", f.describe());
                }
                if let Some(d) = f.key.first_difference(pos, &buf[..k]) {
                    violation(
                        format!("wrong byte at offset {} (read of {n} bytes at {pos} returned {k})", pos + d as u64),
                        f.describe(),
                    );
                }
                if let Some(d) = buf[k..].iter().position(|b| *b != 0xEE) {
                    violation(format!("a read that returned {k} changed byte {} of the buffer", k + d), f.describe());
                }
                pos += k as u64;
                f.received.store(pos, SeqCst);
                progress();
            }
            Err(e) if transient(&e) => count("transient_errors", 1),
            Err(e) if f.reset.load(SeqCst) && e.kind() == io::ErrorKind::ConnectionReset => {
                count("resets_reported", 1);
                return;
            }
            Err(e) => violation(format!("a read failed with {e:?}"), f.describe()),
        }
        if rng.chance(6) {
            Timer::after(Duration::from_micros(rng.below(400))).await;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Raw ends, pumped by the controller

enum RawEnd {
    W { fd: Option<OwnedFd>, f: Arc<Flow>, pos: u64 },
    R { fd: Option<OwnedFd>, f: Arc<Flow>, pos: u64 },
}
impl RawEnd {
    /// Returns true when it is finished.
    fn pump(&mut self, rng: &mut Rng) -> bool {
        match self {
            RawEnd::W { fd, f, pos } => {
                let Some(o) = fd else { return true };
                let n = rng.range(1, f.chunk as u64).min(f.total - *pos) as usize;
                let mut buf = vec![0; n];
                f.key.fill(*pos, &mut buf);
                // The reader may see the bytes before we do.
                match if n == 0 { Ok(0) } else { fdu::write(o.as_raw_fd(), &buf) } {
                    Ok(k) => {
                        *pos += k as u64;
                        f.sent.store(*pos, SeqCst);
                        if *pos == f.total {
                            f.closed.store(true, SeqCst);
                            if rng.chance(20) && f.name.contains("Tcp") {
                                // Reset instead of an orderly end.
                                f.reset.store(true, SeqCst);
                                let l = libc::linger { l_onoff: 1, l_linger: 0 };
                                unsafe {
                                    libc::setsockopt(
                                        o.as_raw_fd(),
                                        libc::SOL_SOCKET,
                                        libc::SO_LINGER,
                                        &l as *const _ as *const _,
                                        std::mem::size_of_val(&l) as u32,
                                    );
                                }
                            }
                            *fd = None;
                            return true;
                        }
                        false
                    }
                    Err(e) if matches!(e.kind(), io::ErrorKind::BrokenPipe | io::ErrorKind::ConnectionReset) => {
                        f.closed.store(true, SeqCst);
                        *fd = None;
                        true
                    }
                    Err(_) => false,
                }
            }
            RawEnd::R { fd, f, pos } => {
                let Some(o) = fd else { return true };
                if *pos == f.read_limit && f.read_limit < f.total {
                    f.reader_gone.store(true, SeqCst);
                    *fd = None;
                    return true;
                }
                let n = rng.range(1, f.chunk as u64).min(f.read_limit - *pos).max(1) as usize;
                let mut buf = vec![0; n];
                match fdu::read(o.as_raw_fd(), &mut buf) {
                    Ok(0) => {
                        if !f.closed.load(SeqCst) {
                            violation(
                                "the peer sees the end of the stream although the writer has not closed it",
                                f.describe(),
                            );
                        }
                        let sent = f.sent.load(SeqCst);
                        if *pos != sent {
                            violation(format!("the peer received {pos} of {sent} bytes written"), f.describe());
                        }
                        count("streams_complete", 1);
                        count("bytes", *pos as i64);
                        *fd = None;
                        true
                    }
                    Ok(k) => {
                        if let Some(d) = f.key.first_difference(*pos, &buf[..k]) {
                            violation(format!("the peer received a wrong byte at offset {}", *pos + d as u64), f.describe());
                        }
                        *pos += k as u64;
                        f.received.store(*pos, SeqCst);
                        false
                    }
                    Err(_) => false,
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Episodes

fn tcp_pair() -> (OwnedFd, OwnedFd) {
    let l = TcpListener::bind((crate::fdu::lo(), 0)).unwrap();
    let a = TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let (b, _) = l.accept().unwrap();
    a.set_nodelay(true).unwrap();
    b.set_nodelay(true).unwrap();
    (a.into(), b.into())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Net {
    Unix,
    Tcp,
    Pipe,
}
/// Which side of the stream is asynchronous.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Side {
    Async,
    Raw,
}

struct World<'a> {
    rng: &'a mut Rng,
    pool: &'a Pool,
    tasks: Vec<Arc<Task>>,
    noise: Vec<Arc<Task>>,
    flows: Vec<Arc<Flow>>,
    raw: Vec<RawEnd>,
    sig: u64,
}

fn mk<T: AsFd>(t: T) -> Async<T> {
    match Async::new(t) {
        Ok(a) => a,
        Err(e) => violation("Async::new failed without a cause", format!("{e:?}")),
    }
}

impl World<'_> {
    fn flow(&mut self, name: String, wfd: RawFd, rfd: RawFd, may_leave: bool, written: Option<Arc<AtomicU64>>) -> Arc<Flow> {
        let max = *self.rng.pick(&[1, 50, 3000, 20_000, 60_000, 200_000]);
        let total = self.rng.range(1, max);
        let chunk = *self.rng.pick(&[1usize, 7, 100, 3000, 10_000, 70_000]);
        let chunk = chunk.max((total / 300) as usize);
        let leave = may_leave && self.rng.chance(15);
        let f = Arc::new(Flow {
            name: format!("{name} total={total} chunk={chunk} leave={leave}"),
            key: Keyed(self.rng.u64()),
            total,
            wfd,
            rfd,
            sent: AtomicU64::new(0),
            received: AtomicU64::new(0),
            closed: AtomicBool::new(false),
            reader_gone: AtomicBool::new(false),
            read_limit: if leave { self.rng.below(total) } else { total },
            chunk,
            written,
            reset: AtomicBool::new(false),
            script: Mutex::new(Vec::new()),
        });
        self.sig = mix(self.sig, total << 20 ^ chunk as u64);
        self.flows.push(f.clone());
        f
    }
    fn spawn(&mut self, name: &str, fut: impl Future<Output = ()> + Send + 'static) {
        let pct = *self.rng.pick(&[0, 50, 100]);
        let t = self.pool.spawn(self.rng, name.to_string(), pct, fut);
        self.tasks.push(t);
    }
    /// Other tasks that wait for readiness of the same handle.
    fn noise<T: Send + Sync + 'static>(&mut self, h: &Arc<Async<T>>) {
        for _ in 0..self.rng.below(3) {
            let h = h.clone();
            let w = self.rng.chance(50);
            let t = self.pool.spawn(self.rng, "noise".into(), 50, async move {
                for _ in 0..200 {
                    let r = if w { h.writable().await } else { h.readable().await };
                    if r.is_err() {
                        return;
                    }
                    Timer::after(Duration::from_micros(200)).await;
                }
            });
            self.noise.push(t);
        }
    }
    /// Starts the asynchronous parts of one side of a bidirectional stream.
    fn side<T>(&mut self, t: T, out: Option<Arc<Flow>>, inp: Option<Arc<Flow>>, recorded: bool, peek: bool)
    where
        T: AsFd + IoSafe + Read + Write + Send + Sync + 'static,
        for<'a> &'a T: Read + Write,
    {
        let h = mk(t);
        let ending = if out.is_some() && inp.is_some() { Ending::Shutdown } else { *self.rng.pick(&[Ending::Drop, Ending::Shutdown]) };
        let both = out.is_some() && inp.is_some();
        if !both && self.rng.chance(40) {
            let r = Rng::new(self.rng.u64());
            if let Some(f) = out {
                self.spawn("owned writer", writer(End::Owned(h), f, r, recorded, ending, None));
            } else if let Some(f) = inp {
                self.spawn("owned reader", reader(End::Owned(h), f, r, recorded, None));
            }
            return;
        }
        let _ = peek;
        let h = Arc::new(h);
        if self.rng.chance(30) {
            self.noise(&h);
        }
        if let Some(f) = out {
            let r = Rng::new(self.rng.u64());
            self.spawn("writer", writer(End::Shared(h.clone()), f, r, recorded, if both { Ending::Shutdown } else { ending }, None));
        }
        if let Some(f) = inp {
            let r = Rng::new(self.rng.u64());
            self.spawn("reader", reader(End::Shared(h), f, r, recorded, None));
        }
    }

    fn stream(&mut self) {
        let net = *self.rng.pick(&[Net::Unix, Net::Unix, Net::Tcp, Net::Pipe]);
        let wrap = *self.rng.pick(&["std", "std", "rec", "rec", "buf"]);
        let (a, b) = match net {
            Net::Unix => fdu::socketpair(libc::SOCK_STREAM).unwrap(),
            Net::Tcp => tcp_pair(),
            Net::Pipe => {
                let (r, w) = fdu::pipe().unwrap();
                (w, r)
            }
        };
        let (afd, bfd) = (a.as_raw_fd(), b.as_raw_fd());
        match net {
            Net::Unix if self.rng.chance(70) => {
                fdu::set_buf(afd, 4096, 4096);
                fdu::set_buf(bfd, 4096, 4096);
            }
            Net::Pipe if self.rng.chance(70) => unsafe {
                libc::fcntl(afd, libc::F_SETPIPE_SZ, 4096);
            },
            _ => {}
        }
        // Without shutting down, a side that uses both directions could not signal the end.
        let both = net != Net::Pipe && wrap != "buf" && self.rng.chance(60);
        let pcts = (*self.rng.pick(&[0, 0, 50, 300]), *self.rng.pick(&[0, 0, 20, 200]));
        let sides = match self.rng.below(4) {
            0 if !both || wrap == "std" => (Side::Raw, Side::Async),
            1 => (Side::Async, Side::Raw),
            _ => (Side::Async, Side::Async),
        };
        let sides = if wrap == "buf" { (Side::Async, sides.1) } else if both { (Side::Async, Side::Async) } else { sides };
        let name = format!("{net:?} {wrap} {sides:?} both={both} block/fail={pcts:?}");
        self.sig = mix(self.sig, name.len() as u64 ^ (net as u64) << 8);
        let written = Arc::new(AtomicU64::new(0));
        let leave = !both;
        let ab = self.flow(format!("a->b {name}"), afd, bfd, leave, (wrap == "buf").then(|| written.clone()));
        let ba = both.then(|| self.flow(format!("b->a {name}"), bfd, afd, false, None));
        let rec = |o: OwnedFd, w: &Arc<AtomicU64>, p: (u64, u64)| (o, w.clone(), p);
        let _ = rec;
        // Side a.
        if sides.0 == Side::Raw {
            fdu::set_nonblocking(afd, true);
            self.raw.push(RawEnd::W { fd: Some(a), f: ab.clone(), pos: 0 });
        } else {
            match (net, wrap) {
                (Net::Pipe, "std") => self.side(std::fs::File::from(a), Some(ab.clone()), None, false, false),
                (Net::Unix, "std") => self.side(UnixStream::from(a), Some(ab.clone()), ba.clone(), false, false),
                (Net::Tcp, "std") => self.side(TcpStream::from(a), Some(ab.clone()), ba.clone(), false, false),
                (_, "rec") => {
                    let io = Rec { io: std::fs::File::from(a), block: pcts.0, fail: pcts.1, written: written.clone() };
                    self.side(io, Some(ab.clone()), ba.clone(), true, false)
                }
                _ => {
                    let fd = a.try_clone().unwrap();
                    let cap = *self.rng.pick(&[1usize, 10, 500, 8192]);
                    let io = Buffered {
                        w: Mutex::new(BufWriter::with_capacity(
                            cap,
                            Rec { io: std::fs::File::from(a), block: pcts.0, fail: 0, written: written.clone() },
                        )),
                        fd,
                    };
                    let h = mk(io);
                    let r = Rng::new(self.rng.u64());
                    let e = if self.rng.chance(50) { End::Owned(h) } else { End::Shared(Arc::new(h)) };
                    self.spawn("buffered writer", writer(e, ab.clone(), r, false, Ending::Drop, None));
                }
            }
        }
        // Side b.
        if sides.1 == Side::Raw {
            fdu::set_nonblocking(bfd, true);
            self.raw.push(RawEnd::R { fd: Some(b), f: ab, pos: 0 });
        } else {
            match (net, wrap) {
                (Net::Tcp, _) if !both => {
                    // A reader that peeks, too.
                    let h = Arc::new(mk(TcpStream::from(b)));
                    let r = Rng::new(self.rng.u64());
                    let p = h.clone();
                    self.spawn("peeking reader", reader(End::Shared(h), ab, r, false, Some(p)));
                }
                (Net::Unix, "std") => self.side(UnixStream::from(b), ba, Some(ab), false, false),
                (Net::Tcp, "std") => self.side(TcpStream::from(b), ba, Some(ab), false, false),
                (Net::Pipe, "std") => self.side(std::fs::File::from(b), None, Some(ab), false, false),
                _ => {
                    let io = Rec { io: std::fs::File::from(b), block: pcts.0, fail: pcts.1, written };
                    self.side(io, ba, Some(ab), true, false)
                }
            }
        }
    }
}

pub fn run() {
    start_watchdog();
    let mut rng = Rng::new(opts().seed);
    let pool = Pool::new(&[Kind::Plain, Kind::BlockOn, Kind::BlockOn]);
    let mut episode = 0;
    while time_left() {
        episode += 1;
        pool.shuffle(&mut rng);
        inj_shuffle(&mut rng);
        take_trace();
        let mut w = World {
            rng: &mut rng,
            pool: &pool,
            tasks: vec![],
            noise: vec![],
            flows: vec![],
            raw: vec![],
            sig: 0,
        };
        for _ in 0..w.rng.range(1, 3) {
            w.stream();
        }
        let World { tasks, noise, flows, mut raw, sig, .. } = w;
        let mut prng = Rng::new(rng.u64());
        let slow = prng.chance(30);
        await_cond(
            || {
                let mut all = true;
                // These keep the handles open.
                if flows.iter().any(|f| f.closed.load(SeqCst) || f.reader_gone.load(SeqCst)) {
                    for n in &noise {
                        n.cancel();
                    }
                }
                for r in raw.iter_mut() {
                    for _ in 0..20 {
                        if r.pump(&mut prng) {
                            break;
                        }
                    }
                    all &= matches!(r, RawEnd::W { fd: None, .. } | RawEnd::R { fd: None, .. });
                }
                if slow {
                    delay(100);
                }
                tasks.iter().all(|t| t.is_done()) && all
            },
            "operations on byte streams",
            || {
                let mut s = String::new();
                for t in &tasks {
                    s.push_str(&format!("{}\n", t.describe()));
                }
                for f in &flows {
                    s.push_str(&f.describe());
                }
                Some(s)
            },
        );
        for n in &noise {
            n.cancel();
        }
        sample(|| flows.iter().map(|f| f.describe()).collect());
        evaluated(Some(mix(sig, take_trace())));
    }
    let _ = (Shutdown::Both, HashMap::<u8, u8>::new(), episode);
    inj_off();
    report_points();
    finish()
}
