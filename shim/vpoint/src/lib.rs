//! Observation points used by the patched `polling` and `parking` crates.
//!
//! The crates call the installed [`Hook`]; without one, everything behaves like upstream.

use std::sync::OnceLock;
use std::time::Duration;

/// Places where a thread can be delayed.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Point {
    PreAdd,
    PostAdd,
    PreModify,
    PostModify,
    PreDelete,
    PostDelete,
    WaitEnter,
    WaitExit,
    PreNotify,
    PostNotify,
    ParkZeroPre,
    ParkZeroPost,
    ParkPre,
    ParkPost,
    ParkTimedPre,
    ParkTimedPost,
    UnparkPre,
    UnparkPost,
}
pub const NPOINTS: usize = 18;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpKind {
    Add,
    Modify,
    Delete,
}

/// A call into the OS poller.
#[derive(Clone, Copy, Debug)]
pub struct PollOp {
    pub kind: OpKind,
    pub fd: i32,
    pub key: usize,
    pub readable: bool,
    pub writable: bool,
    /// Generation of the registration of this descriptor (0 if it is not registered).
    pub gen: u32,
    /// Anything beyond plain oneshot interest.
    pub odd_mode: bool,
}

/// An event returned by the OS poller.
#[derive(Clone, Copy, Debug)]
pub struct Delivered {
    pub gen: u32,
    pub key: usize,
    pub readable: bool,
    pub writable: bool,
}

pub trait Hook: Sync {
    fn point(&self, _p: Point) {}
    /// Called before an operation. `Some(errno)` makes it fail without being performed.
    fn pre_op(&self, _op: &PollOp) -> Option<i32> {
        None
    }
    fn post_op(&self, _op: &PollOp, _res: &std::io::Result<()>) {}
    /// Called before the wait. `Some(errno)` makes it fail without being performed.
    fn wait_enter(&self, _timeout: Option<Duration>) -> Option<i32> {
        None
    }
    fn wait_exit(&self, _events: &[Delivered], _ok: bool) {}
    /// `effective` tells whether the notification was not pending already.
    fn notify(&self) {}
    fn park(&self, _timeout: Option<Duration>) {}
    fn unpark(&self) {}
}

static HOOK: OnceLock<&'static dyn Hook> = OnceLock::new();

/// Installs the hook. Only the first call has an effect.
pub fn install(h: &'static dyn Hook) {
    let _ = HOOK.set(h);
}

#[inline]
pub fn hook() -> Option<&'static dyn Hook> {
    HOOK.get().copied()
}

#[inline]
pub fn point(p: Point) {
    if let Some(h) = hook() {
        h.point(p)
    }
}
