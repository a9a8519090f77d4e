//! Reference model of one `Timer`.

use std::task::Poll;
use std::time::{Duration, Instant};

use async_io::Timer;

use crate::rt::*;

/// The deadline is only known to lie in a range if the crate read the clock itself.
#[derive(Clone, Copy, Debug)]
pub struct Model {
    pub dl: Option<(Instant, Instant)>,
    /// Duration::MAX: fires once.
    pub period: Duration,
}

/// One call on a timer.
#[derive(Clone, Copy, Debug)]
pub enum Call {
    Never,
    After(Duration),
    At(Instant),
    Interval(Duration),
    IntervalAt(Instant, Duration),
}

fn plus(t: (Instant, Instant), d: Duration) -> Option<(Instant, Instant)> {
    match (t.0.checked_add(d), t.1.checked_add(d)) {
        (Some(a), Some(b)) => Some((a, b)),
        (None, None) => None,
        // The overflow boundary falls into the bracket; callers do not generate this.
        _ => None,
    }
}

impl Model {
    fn of(c: Call, t0: Instant, t1: Instant) -> Model {
        match c {
            Call::Never => Model { dl: None, period: Duration::MAX },
            Call::After(d) => Model { dl: plus((t0, t1), d), period: Duration::MAX },
            Call::At(i) => Model { dl: Some((i, i)), period: Duration::MAX },
            Call::Interval(p) => Model { dl: plus((t0, t1), p), period: p },
            Call::IntervalAt(i, p) => Model { dl: Some((i, i)), period: p },
        }
    }
    /// Creates a timer by `c`.
    pub fn create(c: Call) -> (Timer, Model) {
        let t0 = Instant::now();
        let t = match c {
            Call::Never => Timer::never(),
            Call::After(d) => Timer::after(d),
            Call::At(i) => Timer::at(i),
            Call::Interval(p) => Timer::interval(p),
            Call::IntervalAt(i, p) => Timer::interval_at(i, p),
        };
        let m = Model::of(c, t0, Instant::now());
        m.check_will_fire(&t, c);
        (t, m)
    }
    /// Applies `c` to an existing timer (not Never).
    pub fn set(&mut self, t: &mut Timer, c: Call) {
        let t0 = Instant::now();
        match c {
            Call::Never => unreachable!(),
            Call::After(d) => t.set_after(d),
            Call::At(i) => t.set_at(i),
            Call::Interval(p) => t.set_interval(p),
            Call::IntervalAt(i, p) => t.set_interval_at(i, p),
        }
        *self = Model::of(c, t0, Instant::now());
        self.check_will_fire(t, c);
    }
    pub fn check_will_fire(&self, t: &Timer, c: impl std::fmt::Debug) {
        check!(
            t.will_fire() == self.dl.is_some(),
            "will_fire() = {} but the schedule says {:?} (after {c:?})",
            t.will_fire(),
            self
        );
    }
    /// Judges one poll made within [t0, t1].
    pub fn polled(&mut self, t0: Instant, t1: Instant, r: Poll<Option<Instant>>, hist: impl Fn() -> String) {
        match (r, self.dl) {
            (Poll::Ready(None), _) => violation("the stream of a timer ended", hist()),
            (Poll::Ready(Some(v)), None) => violation(
                "a timer without a deadline fired",
                format!("yielded {v:?} in a poll at [{t0:?}, {t1:?}]; {}", hist()),
            ),
            (Poll::Ready(Some(v)), Some((lo, hi))) => {
                if v < lo || v > hi {
                    violation(
                        "a timer did not yield exactly its deadline",
                        format!("yielded {v:?}, deadline in [{lo:?}, {hi:?}], period {:?}; {}", self.period, hist()),
                    );
                }
                if t1 < v {
                    violation(
                        "a timer fired early",
                        format!("deadline {v:?} but the poll returned at {t1:?}; {}", hist()),
                    );
                }
                self.dl = v.checked_add(self.period).map(|n| (n, n));
            }
            (Poll::Pending, Some((lo, hi))) => {
                if t0 >= hi {
                    violation(
                        "a timer whose deadline has passed stays pending when polled",
                        format!("deadline in [{lo:?}, {hi:?}], polled at [{t0:?}, {t1:?}]; {}", hist()),
                    );
                }
                // The clock was read at t0 or later and was before the deadline.
                self.dl = Some((lo.max(t0), hi));
            }
            (Poll::Pending, None) => {}
        }
    }
}
