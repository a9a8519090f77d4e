//! Descriptor helpers that do not go through the crate under test.

use std::io;
use std::os::fd::{AsRawFd, BorrowedFd, FromRawFd, OwnedFd, RawFd};

/// Level-triggered truth about a descriptor: (readable-ish, writable-ish), including errors/hangups
/// in the sense in which the `polling` crate maps them.
pub fn truth(fd: RawFd) -> (bool, bool) {
    let mut p = libc::pollfd {
        fd,
        events: libc::POLLIN | libc::POLLOUT | libc::POLLPRI,
        revents: 0,
    };
    loop {
        let r = unsafe { libc::poll(&mut p, 1, 0) };
        if r < 0 && io::Error::last_os_error().kind() == io::ErrorKind::Interrupted {
            continue;
        }
        break;
    }
    let he = p.revents & (libc::POLLHUP | libc::POLLERR) != 0;
    (
        he || p.revents & (libc::POLLIN | libc::POLLPRI) != 0,
        he || p.revents & libc::POLLOUT != 0,
    )
}

pub fn set_nonblocking(fd: RawFd, on: bool) {
    unsafe {
        let f = libc::fcntl(fd, libc::F_GETFL);
        let n = if on { f | libc::O_NONBLOCK } else { f & !libc::O_NONBLOCK };
        assert!(libc::fcntl(fd, libc::F_SETFL, n) >= 0);
    }
}
pub fn is_nonblocking(fd: RawFd) -> bool {
    unsafe { libc::fcntl(fd, libc::F_GETFL) & libc::O_NONBLOCK != 0 }
}
/// The status flags other than O_NONBLOCK, and the descriptor flags.
pub fn flags(fd: RawFd) -> (i32, i32) {
    unsafe { (libc::fcntl(fd, libc::F_GETFL) & !libc::O_NONBLOCK, libc::fcntl(fd, libc::F_GETFD)) }
}
/// Toggles a status flag and the close-on-exec flag.
pub fn toggle_flags(fd: RawFd) {
    unsafe {
        let f = libc::fcntl(fd, libc::F_GETFL);
        libc::fcntl(fd, libc::F_SETFL, f ^ libc::O_APPEND);
        let f = libc::fcntl(fd, libc::F_GETFD);
        libc::fcntl(fd, libc::F_SETFD, f ^ libc::FD_CLOEXEC);
    }
}
pub fn is_cloexec(fd: RawFd) -> bool {
    unsafe { libc::fcntl(fd, libc::F_GETFD) & libc::FD_CLOEXEC != 0 }
}
pub fn is_open(fd: RawFd) -> bool {
    unsafe { libc::fcntl(fd, libc::F_GETFD) >= 0 }
}
pub fn open_fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

/// What a descriptor refers to.
pub fn identity(fd: RawFd) -> Option<(u64, u64)> {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    if unsafe { libc::fstat(fd, &mut st) } == 0 {
        Some((st.st_dev, st.st_ino))
    } else {
        None
    }
}

pub fn socketpair(kind: i32) -> io::Result<(OwnedFd, OwnedFd)> {
    let mut fds = [0; 2];
    let r = unsafe { libc::socketpair(libc::AF_UNIX, kind | libc::SOCK_CLOEXEC, 0, fds.as_mut_ptr()) };
    if r < 0 {
        return Err(io::Error::last_os_error());
    }
    unsafe { Ok((OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1]))) }
}
pub fn pipe() -> io::Result<(OwnedFd, OwnedFd)> {
    let mut fds = [0; 2];
    if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } < 0 {
        return Err(io::Error::last_os_error());
    }
    unsafe { Ok((OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1]))) }
}
pub fn eventfd() -> io::Result<OwnedFd> {
    let fd = unsafe { libc::eventfd(0, libc::EFD_CLOEXEC) };
    if fd < 0 {
        return Err(io::Error::last_os_error());
    }
    unsafe { Ok(OwnedFd::from_raw_fd(fd)) }
}
pub fn set_buf(fd: RawFd, snd: i32, rcv: i32) {
    unsafe {
        for (opt, v) in [(libc::SO_SNDBUF, snd), (libc::SO_RCVBUF, rcv)] {
            if v > 0 {
                libc::setsockopt(fd, libc::SOL_SOCKET, opt, &v as *const i32 as *const _, 4);
            }
        }
    }
}
fn cvt(r: isize) -> io::Result<usize> {
    if r < 0 {
        Err(io::Error::last_os_error())
    } else {
        Ok(r as usize)
    }
}
pub fn read(fd: RawFd, buf: &mut [u8]) -> io::Result<usize> {
    cvt(unsafe { libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len()) })
}
pub fn write(fd: RawFd, buf: &[u8]) -> io::Result<usize> {
    cvt(unsafe { libc::write(fd, buf.as_ptr() as *const _, buf.len()) })
}
pub fn recv(fd: RawFd, buf: &mut [u8], flags: i32) -> io::Result<usize> {
    cvt(unsafe { libc::recv(fd, buf.as_mut_ptr() as *mut _, buf.len(), flags) })
}
pub fn send(fd: RawFd, buf: &[u8], flags: i32) -> io::Result<usize> {
    cvt(unsafe { libc::send(fd, buf.as_ptr() as *const _, buf.len(), flags | libc::MSG_NOSIGNAL) })
}
/// Peeks one byte.
pub fn peek(fd: RawFd) -> io::Result<usize> {
    let mut b = [0; 1];
    recv(fd, &mut b, libc::MSG_PEEK | libc::MSG_DONTWAIT)
}
/// Reads everything that is there (the descriptor must be non-blocking). Returns the bytes.
pub fn drain(fd: RawFd) -> usize {
    let mut buf = [0u8; 65536];
    let mut n = 0;
    loop {
        match read(fd, &mut buf) {
            Ok(0) => return n,
            Ok(k) => n += k,
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(_) => return n,
        }
    }
}
/// Writes until the descriptor would block. Returns the bytes.
pub fn fill(fd: RawFd) -> usize {
    let buf = [7u8; 65536];
    let mut n = 0;
    let mut chunk = buf.len();
    loop {
        match write(fd, &buf[..chunk]) {
            Ok(k) => n += k,
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
                if chunk == 1 {
                    return n;
                }
                chunk = (chunk / 16).max(1);
            }
            Err(_) => return n,
        }
    }
}
pub fn bfd(fd: &impl AsRawFd) -> BorrowedFd<'_> {
    unsafe { BorrowedFd::borrow_raw(fd.as_raw_fd()) }
}

/// The registrations of an epoll instance: (fd, events, data).
pub fn epoll_registrations(epfd: RawFd) -> Vec<(RawFd, u32, u64)> {
    let mut v = Vec::new();
    let s = std::fs::read_to_string(format!("/proc/self/fdinfo/{epfd}")).unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("tfd:") {
            let mut it = r.split_whitespace();
            let fd = it.next().and_then(|x| x.parse().ok()).unwrap_or(-1);
            let mut ev = 0;
            let mut data = 0;
            let words: Vec<&str> = it.collect();
            for w in words.windows(2) {
                if w[0] == "events:" {
                    ev = u32::from_str_radix(w[1], 16).unwrap_or(0);
                }
                if w[0] == "data:" {
                    data = u64::from_str_radix(w[1], 16).unwrap_or(0);
                }
            }
            v.push((fd, ev, data));
        }
    }
    v
}

/// A loopback address of this process, so that concurrent processes never meet on a port.
pub fn lo() -> std::net::Ipv4Addr {
    let p = std::process::id();
    // (Not the last octets 0 and 255.)
    std::net::Ipv4Addr::new(127, 1 + ((p >> 12) & 0x7f) as u8, ((p >> 6) & 0x3f) as u8, 1 + (p & 0x3f) as u8)
}
