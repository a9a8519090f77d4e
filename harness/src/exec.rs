//! A small executor whose tasks are polled *only* when the waker of their most recent poll is woken
//! (or when the workload asks for an extra poll), so that a wakeup sent to a stale waker never makes
//! up for a lost one.

use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use crate::rt::*;

pub type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;

pub struct Task {
    pub name: String,
    fut: Mutex<Option<Fut>>,
    /// Identifies the waker given to the most recent poll.
    cur: AtomicU64,
    /// That waker, for reuse.
    waker: Mutex<Option<Waker>>,
    runner: Mutex<Arc<Runner>>,
    queued: AtomicBool,
    fresh_next: AtomicBool,
    pub done: AtomicBool,
    pub cancelled: AtomicBool,
    pub polls: AtomicU64,
    pub wakes: AtomicU64,
    pub stale_wakes: AtomicU64,
    reuse_waker_pct: u64,
}

struct TaskWaker {
    task: Arc<Task>,
    id: u64,
}
static WAKER_IDS: AtomicU64 = AtomicU64::new(1);

thread_local! {
    static CURRENT: RefCell<Option<Arc<Task>>> = const { RefCell::new(None) };
}
/// The task being polled by this thread.
pub fn current() -> Option<Arc<Task>> {
    CURRENT.with(|c| c.borrow().clone())
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.task.cur.load(SeqCst) == self.id {
            self.task.wakes.fetch_add(1, Relaxed);
            Task::schedule(&self.task);
        } else {
            self.task.stale_wakes.fetch_add(1, Relaxed);
        }
    }
}

impl Task {
    fn schedule(self: &Arc<Self>) {
        if self.done.load(SeqCst) || self.queued.swap(true, SeqCst) {
            return;
        }
        let r = lock(&self.runner).clone();
        r.push(self.clone());
    }
    fn run(self: &Arc<Self>) {
        // From here on, wakes schedule another poll.
        self.queued.store(false, SeqCst);
        let mut f = lock(&self.fut);
        let Some(fut) = f.as_mut() else { return };
        let reuse = !self.fresh_next.swap(false, SeqCst) && rnd(100) < self.reuse_waker_pct;
        let waker = {
            let mut w = lock(&self.waker);
            match (&*w, reuse) {
                (Some(w), true) => w.clone(),
                _ => {
                    let id = WAKER_IDS.fetch_add(1, SeqCst);
                    self.cur.store(id, SeqCst);
                    let new = Waker::from(Arc::new(TaskWaker { task: self.clone(), id }));
                    *w = Some(new.clone());
                    new
                }
            }
        };
        self.polls.fetch_add(1, Relaxed);
        CURRENT.with(|c| *c.borrow_mut() = Some(self.clone()));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            fut.as_mut().poll(&mut Context::from_waker(&waker))
        }));
        CURRENT.with(|c| *c.borrow_mut() = None);
        match res {
            Ok(Poll::Pending) => {}
            _ => {
                *f = None;
                drop(f);
                *lock(&self.waker) = None;
                self.cur.store(0, SeqCst);
                self.done.store(true, SeqCst);
            }
        }
    }
    /// Polls the task once more on `runner` although nothing woke it, possibly with a new waker.
    pub fn repoll(self: &Arc<Self>, runner: &Arc<Runner>, fresh: bool) {
        if fresh {
            self.fresh_next.store(true, SeqCst);
        }
        *lock(&self.runner) = runner.clone();
        self.schedule();
    }
    /// Drops the future.
    pub fn cancel(self: &Arc<Self>) {
        let f = {
            let mut g = lock(&self.fut);
            g.take()
        };
        if f.is_some() {
            self.cancelled.store(true, SeqCst);
        }
        drop(f);
        *lock(&self.waker) = None;
        self.cur.store(0, SeqCst);
        self.done.store(true, SeqCst);
    }
    /// Drops the future unless it is just being polled or dropped.
    pub fn try_cancel(self: &Arc<Self>) {
        let f = match self.fut.try_lock() {
            Ok(mut g) => g.take(),
            Err(_) => return,
        };
        if f.is_some() {
            self.cancelled.store(true, SeqCst);
            drop(f);
            *lock(&self.waker) = None;
            self.cur.store(0, SeqCst);
            self.done.store(true, SeqCst);
        }
    }
    /// Wakes through any of its wakers.
    pub fn all_wakes(&self) -> u64 {
        self.wakes.load(SeqCst) + self.stale_wakes.load(SeqCst)
    }
    pub fn is_done(&self) -> bool {
        self.done.load(SeqCst)
    }
    pub fn describe(&self) -> String {
        format!(
            "{} done={} queued={} polls={} wakes={} stale_wakes={}",
            self.name,
            self.done.load(SeqCst),
            self.queued.load(SeqCst),
            self.polls.load(SeqCst),
            self.wakes.load(SeqCst),
            self.stale_wakes.load(SeqCst)
        )
    }
}

/// How a runner thread executes its tasks.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// Blocks on a condition variable when idle; only the async-io thread drives the reactor.
    Plain,
    /// Runs inside `async_io::block_on`, so it drives the reactor when idle.
    BlockOn,
}

pub struct Runner {
    q: Mutex<(VecDeque<Arc<Task>>, Option<Waker>)>,
    cv: Condvar,
    mode: AtomicUsize,
    /// Incremented to make the runner leave its current loop.
    epoch: AtomicU64,
    pub idle: AtomicBool,
    /// Extra work done at the end of a turn, to vary timing.
    pub yields: AtomicU64,
}

impl Runner {
    pub fn start(name: &str, kind: Kind) -> Arc<Runner> {
        let r = Arc::new(Runner {
            q: Mutex::new((VecDeque::new(), None)),
            cv: Condvar::new(),
            mode: AtomicUsize::new(kind as usize),
            epoch: AtomicU64::new(0),
            idle: AtomicBool::new(false),
            yields: AtomicU64::new(0),
        });
        let r2 = r.clone();
        std::thread::Builder::new()
            .name(name.into())
            .spawn(move || loop {
                let epoch = r2.epoch.load(SeqCst);
                if r2.mode.load(SeqCst) == Kind::Plain as usize {
                    r2.run_plain(epoch)
                } else {
                    async_io::block_on(RunnerFut(&r2, epoch))
                }
            })
            .unwrap();
        r
    }
    fn push(&self, t: Arc<Task>) {
        let w = {
            let mut q = lock(&self.q);
            q.0.push_back(t);
            self.cv.notify_all();
            q.1.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    /// Makes the runner switch to `kind` (and, for BlockOn, finish the current block_on call).
    pub fn switch(&self, kind: Kind) {
        self.mode.store(kind as usize, SeqCst);
        self.epoch.fetch_add(1, SeqCst);
        let w = {
            let mut q = lock(&self.q);
            self.cv.notify_all();
            q.1.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    fn run_plain(&self, epoch: u64) {
        loop {
            let mut q = lock(&self.q);
            let t = loop {
                if self.epoch.load(SeqCst) != epoch {
                    return;
                }
                if let Some(t) = q.0.pop_front() {
                    break t;
                }
                q = self.cv.wait(q).unwrap_or_else(|e| e.into_inner());
            };
            drop(q);
            t.run();
        }
    }
}

struct RunnerFut<'a>(&'a Runner, u64);
impl Future for RunnerFut<'_> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        // Like an executor: a bounded number of tasks per turn, then yield to the reactor.
        for _ in 0..4 {
            let t = {
                let mut q = lock(&self.0.q);
                if self.0.epoch.load(SeqCst) != self.1 {
                    return Poll::Ready(());
                }
                match q.0.pop_front() {
                    Some(t) => t,
                    None => {
                        q.1 = Some(cx.waker().clone());
                        return Poll::Pending;
                    }
                }
            };
            t.run();
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

pub struct Pool {
    pub runners: Vec<Arc<Runner>>,
}
impl Pool {
    pub fn new(kinds: &[Kind]) -> Pool {
        Pool {
            runners: kinds
                .iter()
                .enumerate()
                .map(|(i, k)| Runner::start(&format!("runner{i}"), *k))
                .collect(),
        }
    }
    /// Picks new kinds for some runners.
    pub fn shuffle(&self, rng: &mut Rng) {
        let style = rng.below(4);
        for r in &self.runners {
            let k = match style {
                0 => Kind::Plain,
                1 => Kind::BlockOn,
                _ => {
                    if rng.chance(50) {
                        Kind::Plain
                    } else {
                        Kind::BlockOn
                    }
                }
            };
            r.switch(k);
        }
    }
    pub fn any(&self, rng: &mut Rng) -> &Arc<Runner> {
        let i = rng.us(self.runners.len());
        &self.runners[i]
    }
    pub fn spawn(
        &self,
        rng: &mut Rng,
        name: String,
        reuse_waker_pct: u64,
        fut: impl Future<Output = ()> + Send + 'static,
    ) -> Arc<Task> {
        let t = Arc::new(Task {
            name,
            fut: Mutex::new(Some(Box::pin(fut))),
            cur: AtomicU64::new(0),
            waker: Mutex::new(None),
            runner: Mutex::new(self.any(rng).clone()),
            queued: AtomicBool::new(false),
            fresh_next: AtomicBool::new(false),
            done: AtomicBool::new(false),
            cancelled: AtomicBool::new(false),
            polls: AtomicU64::new(0),
            wakes: AtomicU64::new(0),
            stale_wakes: AtomicU64::new(0),
            reuse_waker_pct,
        });
        t.schedule();
        t
    }
}
