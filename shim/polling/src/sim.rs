//! verif: a poller that lives in memory, for Miri. Descriptors are plain numbers whose readiness is
//! set through [`control`].

use std::collections::BTreeMap;
use std::io;
use std::os::unix::io::{AsFd, AsRawFd, BorrowedFd, RawFd};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Instant;

use crate::{Event, PollMode};

struct Reg {
    key: u64,
    r: bool,
    w: bool,
    oneshot: bool,
    armed: bool,
}
struct State {
    open: BTreeMap<RawFd, (bool, bool)>,
    regs: BTreeMap<RawFd, Reg>,
    notified: bool,
    next: RawFd,
}
static STATE: Mutex<State> = Mutex::new(State {
    open: BTreeMap::new(),
    regs: BTreeMap::new(),
    notified: false,
    next: 3,
});
static CV: Condvar = Condvar::new();

fn state() -> MutexGuard<'static, State> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}

/// The other side of the descriptors.
pub mod control {
    use super::*;
    /// Opens a descriptor that is not ready.
    pub fn open() -> RawFd {
        let mut s = state();
        // (Numbers are reused at once, as the OS does.)
        let mut fd = 3;
        while s.open.contains_key(&fd) {
            fd += 1;
        }
        s.next = s.next.max(fd + 1);
        s.open.insert(fd, (false, false));
        fd
    }
    pub fn close(fd: RawFd) {
        let mut s = state();
        assert!(s.open.remove(&fd).is_some(), "closed twice: {fd}");
        assert!(
            s.regs.remove(&fd).is_none(),
            "a descriptor was closed while it was registered with the poller: {fd}"
        );
    }
    pub fn set(fd: RawFd, r: Option<bool>, w: Option<bool>) {
        let mut s = state();
        if let Some(x) = s.open.get_mut(&fd) {
            x.0 = r.unwrap_or(x.0);
            x.1 = w.unwrap_or(x.1);
        }
        CV.notify_all();
    }
    pub fn get(fd: RawFd) -> (bool, bool) {
        state().open.get(&fd).copied().unwrap_or((false, false))
    }
    pub fn registered() -> usize {
        state().regs.len()
    }
}

#[derive(Debug)]
pub struct Poller(());

impl Poller {
    pub fn new() -> io::Result<Poller> {
        Ok(Poller(()))
    }
    pub fn supports_level(&self) -> bool {
        true
    }
    pub fn supports_edge(&self) -> bool {
        false
    }
    pub unsafe fn add(&self, fd: RawFd, ev: Event, mode: PollMode) -> io::Result<()> {
        let mut s = state();
        assert!(s.open.contains_key(&fd), "a descriptor that is not open is added to the poller: {fd}");
        if s.regs.contains_key(&fd) {
            return Err(io::Error::from_raw_os_error(17));
        }
        s.regs.insert(fd, reg(ev, mode));
        CV.notify_all();
        Ok(())
    }
    pub fn modify(&self, fd: BorrowedFd<'_>, ev: Event, mode: PollMode) -> io::Result<()> {
        let fd = fd.as_raw_fd();
        let mut s = state();
        assert!(s.open.contains_key(&fd), "a descriptor that is not open is modified in the poller: {fd}");
        match s.regs.get_mut(&fd) {
            None => return Err(io::Error::from_raw_os_error(2)),
            Some(r) => *r = reg(ev, mode),
        }
        CV.notify_all();
        Ok(())
    }
    pub fn delete(&self, fd: BorrowedFd<'_>) -> io::Result<()> {
        let fd = fd.as_raw_fd();
        let mut s = state();
        assert!(s.open.contains_key(&fd), "a descriptor that is not open is deleted from the poller: {fd}");
        match s.regs.remove(&fd) {
            None => Err(io::Error::from_raw_os_error(2)),
            Some(_) => Ok(()),
        }
    }
    pub fn wait_deadline(&self, events: &mut Events, deadline: Option<Instant>) -> io::Result<()> {
        let mut s = state();
        loop {
            let s2 = &mut *s;
            for (fd, reg) in s2.regs.iter_mut() {
                let Some(&(r, w)) = s2.open.get(fd) else { continue };
                let (r, w) = (r && reg.r, w && reg.w);
                if reg.armed && (r || w) && events.list.len() < events.cap {
                    if reg.oneshot {
                        reg.armed = false;
                    }
                    events.list.push((reg.key, r, w));
                }
            }
            if s.notified || !events.list.is_empty() {
                s.notified = false;
                return Ok(());
            }
            s = match deadline {
                None => CV.wait(s).unwrap_or_else(|e| e.into_inner()),
                Some(d) => {
                    let now = Instant::now();
                    if now >= d {
                        return Ok(());
                    }
                    CV.wait_timeout(s, d - now).unwrap_or_else(|e| e.into_inner()).0
                }
            };
        }
    }
    pub fn notify(&self) -> io::Result<()> {
        state().notified = true;
        CV.notify_all();
        Ok(())
    }
}

fn reg(ev: Event, mode: PollMode) -> Reg {
    Reg {
        key: ev.key as u64,
        r: ev.readable,
        w: ev.writable,
        oneshot: matches!(mode, PollMode::Oneshot | PollMode::EdgeOneshot),
        armed: true,
    }
}

impl AsRawFd for Poller {
    fn as_raw_fd(&self) -> RawFd {
        2
    }
}
impl AsFd for Poller {
    fn as_fd(&self) -> BorrowedFd<'_> {
        unsafe { BorrowedFd::borrow_raw(2) }
    }
}

pub struct Events {
    list: Vec<(u64, bool, bool)>,
    cap: usize,
}
impl Events {
    pub fn with_capacity(cap: usize) -> Events {
        Events { list: Vec::new(), cap }
    }
    pub fn iter(&self) -> impl Iterator<Item = Event> + '_ {
        self.list.iter().map(|e| Event::new(e.0 as usize, e.1, e.2))
    }
    pub fn clear(&mut self) {
        self.list.clear();
    }
    pub fn capacity(&self) -> usize {
        self.cap
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct EventExtra(());
impl EventExtra {
    #[inline]
    pub const fn empty() -> EventExtra {
        EventExtra(())
    }
    pub fn set_hup(&mut self, _: bool) {}
    pub fn set_pri(&mut self, _: bool) {}
    pub fn is_hup(&self) -> bool {
        false
    }
    pub fn is_pri(&self) -> bool {
        false
    }
    pub fn is_connect_failed(&self) -> Option<bool> {
        None
    }
    pub fn is_err(&self) -> Option<bool> {
        None
    }
}
