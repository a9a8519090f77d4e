//! Interposed socket calls that can be made to refuse with EAGAIN although the kernel would perform them.
//!
//! Loopback UDP sockets never refuse to send, so the way in which a send waits is otherwise out of reach.

#![cfg(not(vh_san))]

use libc::{c_int, c_void, size_t, sockaddr, socklen_t, ssize_t};
use std::os::fd::RawFd;
use std::sync::atomic::{AtomicU8, Ordering::SeqCst};

static LEFT: [AtomicU8; 1024] = [const { AtomicU8::new(0) }; 1024];

/// The next `n` calls on the descriptor are refused.
pub fn refuse(fd: RawFd, n: u8) -> bool {
    let Some(l) = LEFT.get(fd as usize) else { return false };
    l.store(n, SeqCst);
    true
}
pub fn left(fd: RawFd) -> u8 {
    LEFT.get(fd as usize).map_or(0, |l| l.load(SeqCst))
}

fn refused(fd: c_int) -> bool {
    let Some(l) = LEFT.get(fd as usize) else { return false };
    if l.load(SeqCst) == 0 || l.fetch_update(SeqCst, SeqCst, |x| x.checked_sub(1)).is_err() {
        return false;
    }
    unsafe { *libc::__errno_location() = libc::EAGAIN };
    true
}

#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: size_t, f: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    if refused(fd) {
        return -1;
    }
    libc::syscall(libc::SYS_sendto, fd, b, n, f, a, l as usize) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, f: c_int) -> ssize_t {
    if refused(fd) {
        return -1;
    }
    libc::syscall(libc::SYS_sendto, fd, b, n, f, 0usize, 0usize) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, f: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    if refused(fd) {
        return -1;
    }
    libc::syscall(libc::SYS_recvfrom, fd, b, n, f, a, l) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, f: c_int) -> ssize_t {
    if refused(fd) {
        return -1;
    }
    libc::syscall(libc::SYS_recvfrom, fd, b, n, f, 0usize, 0usize) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if refused(fd) {
        return -1;
    }
    libc::syscall(libc::SYS_write, fd, b, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if refused(fd) {
        return -1;
    }
    libc::syscall(libc::SYS_read, fd, b, n) as ssize_t
}
