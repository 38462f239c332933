//! Timers: a state machine over timer operations, checked against a reference timer.
use crate::cells::{Racy, Task};
use crate::run::{self, note, tag, Def, Opts, Prop};
use crate::sim;
use async_io::Timer;
use futures_lite::Stream;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

/// Scheduling slack allowed to the reactor (virtual time).
pub const TOL: u64 = 200_000_000;
const SLOTS: u8 = 6;
const TASKS: u8 = 3;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dur {
    Ns(u64),
    Max,
    /// seconds, for values beyond what nanoseconds can express
    Secs(u64),
}
impl Dur {
    fn get(&self) -> Duration {
        match self {
            Dur::Ns(n) => Duration::from_nanos(*n),
            Dur::Max => Duration::MAX,
            Dur::Secs(s) => Duration::from_secs(*s),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Off {
    Now(i64),
    /// The deadline of another slot plus something (equal deadlines).
    Same(u8, i64),
    /// That many seconds before the largest representable instant.
    NearMax(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Spec {
    After(Dur),
    At(Off),
    Interval(Dur),
    IntervalAt(Off, Dur),
    Never,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Adv {
    Ns(u64),
    To(u8, i64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    New(u8, Spec),
    Poll(u8, u8, bool),
    Set(u8, Spec),
    Drop(u8),
    Advance(Adv),
    /// The clock moves while nobody else runs.
    Jump(Adv),
    Settle,
    Run(u16),
    /// n timers, polled once each, spread over `spread` ns after `off`.
    Bulk(u16, u64, u64),
    BulkDrop(u16),
    /// Resets that many of them to `off` ns from now.
    BulkSet(u16, u64),
    /// A thread that sleeps `n` times for `d` under block_on (async_io's when true).
    Sleeper(u64, u8, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Helper {
    /// block_on(pending)
    Idle,
    /// block_on that keeps sleeping for this many ms
    Ticking(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sched: sim::Sched,
    pub helpers: Vec<Helper>,
    pub ops: Vec<Op>,
    /// Begins with timers for one instant, then almost 2^16 others that are dropped, then more timers for that same instant.
    #[serde(default)]
    pub long: bool,
}

const EARLY: u32 = 1;
const VALUE: u32 = 2;
const DUE: u32 = 4;
const WAKE: u32 = 8;
const PROMPT: u32 = 16;
const STRAY: u32 = 32;
const LEAK: u32 = 64;
const WILL: u32 = 128;

pub const TAGS: &[&str] = &[
    "fired", "fired_late(>=1ms)", "pending_then_woken", "reset_while_armed", "poll_by_other_task", "dropped_while_armed",
    "equal_deadlines", "interval_yield", "interval_caught_up(>=2 behind)", "overflow_to_never", "exact_boundary_poll",
    "one_ns_before_poll", "bulk>1000", "set_at_on_interval", "never_polled_then_set", "two_tasks_one_timer", "sleeper", "helper",
    "poll_after_end", "reset_after_fire", "time_passed_while_armed",
    "long_history",
];
const G_FIRED: usize = 0;
const G_LATE: usize = 1;
const G_WOKEN: usize = 2;
const G_RESET: usize = 3;
const G_OTHER: usize = 4;
const G_DROPARM: usize = 5;
const G_EQ: usize = 6;
const G_IVAL: usize = 7;
const G_CATCH: usize = 8;
const G_OVF: usize = 9;
const G_EXACT: usize = 10;
const G_BEFORE: usize = 11;
const G_BULK: usize = 12;
const G_SETIV: usize = 13;
const G_NEVERSET: usize = 14;
const G_SLEEPER: usize = 16;
const G_HELPER: usize = 17;
const G_AFTEREND: usize = 18;
const G_RESETFIRED: usize = 19;
const G_LONG: usize = 21;

/// Reference timer. `lo..=hi` bounds the deadline (they differ only when the clock ticks between reads).
#[derive(Clone, Debug)]
struct Model {
    when: Option<(Instant, Instant)>,
    period: Option<Duration>,
}

struct Armed {
    task: usize,
    /// wake count of the task when the obligation began
    base: usize,
    since: u64,
}

struct Slot {
    timer: Timer,
    m: Model,
    armed: Option<Armed>,
    polled_never: bool,
    fired: bool,
    /// the task that polled last
    last: Option<usize>,
    /// (task, lower bound of deadline, start, end): every registration ever made, for judging wakes
    regs: Vec<(usize, u64, u64, u64)>,
    tasks: Vec<Task>,
}

struct World {
    mask: u32,
    t0: Instant,
    slots: Vec<Option<Slot>>,
    graves: Vec<(Vec<Task>, Vec<(usize, u64, u64, u64)>)>,
    bulk: Vec<(Slot, u64)>,
    last_jump: u64,
    tick: u64,
    sleepers: Vec<Arc<Racy<(u64, u64, bool, u64)>>>,
    nontriv: bool,
    jumped: u64,
}

fn ns_of(t0: Instant, i: Instant) -> u64 {
    // u64 nanoseconds since the start of the case, saturating both ways
    match i.checked_duration_since(t0) {
        Some(d) => d.as_nanos().min(u64::MAX as u128 - 1) as u64,
        None => 0,
    }
}

impl World {
    fn bad(&self, bit: u32, msg: impl FnOnce() -> String) {
        if self.mask & bit != 0 {
            run::fail(msg());
        } else {
            // judged by another check: the model no longer applies
            sim::stop();
            unsafe { libc::_exit(finish_ok()) }
        }
    }
    /// The slot, or the next one that has a timer.
    fn at(&self, s: u8) -> u8 {
        (0..SLOTS).map(|k| (s + k) % SLOTS).find(|k| self.slots[*k as usize].is_some()).unwrap_or(s)
    }
    fn inst_now(&self) -> Instant {
        self.t0 + Duration::from_nanos(sim::now())
    }
    fn off(&self, o: &Off) -> Option<Instant> {
        let add = |b: Instant, d: i64| {
            if d >= 0 {
                b.checked_add(Duration::from_nanos(d as u64))
            } else {
                b.checked_sub(Duration::from_nanos(d.unsigned_abs()))
            }
        };
        match o {
            Off::Now(d) => add(self.inst_now(), *d),
            Off::Same(s, d) => {
                let s = self.slots[*s as usize % SLOTS as usize].as_ref()?;
                let b = s.m.when?.0;
                if *d == 0 {
                    tag(G_EQ);
                }
                add(b, *d)
            }
            Off::NearMax(s) => {
                let base = Duration::from_secs(i64::MAX as u64 - 1_000_000 - 2 - *s);
                self.t0.checked_add(base)
            }
        }
    }
    fn adv(&self, a: &Adv) -> Option<u64> {
        match a {
            Adv::Ns(n) => Some(*n),
            Adv::To(s, d) => {
                let s = self.slots[*s as usize % SLOTS as usize].as_ref()?;
                let w = ns_of(self.t0, s.m.when?.0) as i128 + *d as i128 - sim::now() as i128;
                (0..=86_400_000_000_000i128 * 20).contains(&w).then_some(w as u64)
            }
        }
    }
    /// The reference semantics of a constructor / setter, with the clock read somewhere in n0..=n1.
    fn model(&self, s: &Spec, at: Option<Instant>, n0: Instant, n1: Instant) -> Model {
        match s {
            Spec::After(d) => Model { when: pair(n0.checked_add(d.get()), n1.checked_add(d.get())), period: None },
            Spec::At(_) => Model { when: at.map(|a| (a, a)), period: None },
            Spec::Interval(d) => {
                Model { when: pair(n0.checked_add(d.get()), n1.checked_add(d.get())), period: Some(d.get()) }
            }
            Spec::IntervalAt(_, d) => Model { when: at.map(|a| (a, a)), period: Some(d.get()) },
            Spec::Never => Model { when: None, period: None },
        }
    }

    fn resolve(&self, s: &Spec) -> Option<Option<Instant>> {
        match s {
            Spec::At(o) | Spec::IntervalAt(o, _) => self.off(o).map(Some),
            _ => Some(None),
        }
    }

    fn op_new(&mut self, slot: u8, s: &Spec) {
        self.op_drop(slot);
        let Some(at) = self.resolve(s) else { return };
        let n0 = self.inst_now();
        let timer = match s {
            Spec::After(d) => Timer::after(d.get()),
            Spec::At(_) => Timer::at(at.unwrap()),
            Spec::Interval(d) => Timer::interval(d.get()),
            Spec::IntervalAt(_, d) => Timer::interval_at(at.unwrap(), d.get()),
            Spec::Never => Timer::never(),
        };
        let m = self.model(s, at, n0, self.inst_now());
        if m.when.is_none() && *s != Spec::Never {
            tag(G_OVF);
        }
        let sl = Slot {
            timer,
            m,
            armed: None,
            polled_never: false,
            fired: false,
                            last: None,
            regs: vec![],
            tasks: (0..TASKS).map(|_| Task::new()).collect(),
        };
        self.will(&sl);
        self.slots[slot as usize] = Some(sl);
    }

    fn will(&self, s: &Slot) {
        if s.timer.will_fire() != s.m.when.is_some() {
            self.bad(WILL, || format!("will_fire() = {} but the reference timer says {:?}", s.timer.will_fire(), s.m));
        }
    }

    fn op_drop(&mut self, slot: u8) {
        if let Some(s) = self.slots[slot as usize].take() {
            self.bury(s);
        }
    }

    fn bury(&mut self, mut s: Slot) {
        if s.armed.is_some() {
            tag(G_DROPARM);
            if s.m.when.is_some() {
                self.nontriv |= self.mask & STRAY != 0;
            }
        }
        end_regs(&mut s.regs);
        run::drop_in(s.timer, self.graves.len() % 4 == 3);
        self.graves.push((s.tasks, s.regs));
    }

    fn op_set(&mut self, slot: u8, s: &Spec) {
        let Some(at) = self.resolve(s) else { return };
        if *s == Spec::Never {
            return;
        }
        let Some(mut sl) = self.slots[slot as usize].take() else { return };
        self.set_slot(&mut sl, s, at);
        self.slots[slot as usize] = Some(sl);
    }

    fn set_slot(&mut self, sl: &mut Slot, s: &Spec, at: Option<Instant>) {
        let base = sl.armed.as_ref().map(|a| sl.tasks[a.task].wakes());
        end_regs(&mut sl.regs);
        let n0 = self.inst_now();
        match s {
            Spec::After(d) => sl.timer.set_after(d.get()),
            Spec::At(_) => sl.timer.set_at(at.unwrap()),
            Spec::Interval(d) => sl.timer.set_interval(d.get()),
            Spec::IntervalAt(_, d) => sl.timer.set_interval_at(at.unwrap(), d.get()),
            Spec::Never => {}
        }
        let m = self.model(s, at, n0, self.inst_now());
        if m.when.is_none() {
            tag(G_OVF);
        }
        if sl.m.period.is_some() && m.period.is_none() {
            tag(G_SETIV);
        }
        if sl.fired {
            tag(G_RESETFIRED);
        }
        if sl.armed.is_some() {
            tag(G_RESET);
            if sl.polled_never && m.when.is_some() {
                tag(G_NEVERSET);
            }
            self.nontriv |= self.mask & (STRAY | WAKE | WILL) != 0;
        }
        sl.m = m;
        sl.polled_never = false;
        // set_* keeps the task that polled last, even when that poll was ready
        if let (Some(t), Some((lo, _))) = (sl.last, sl.m.when) {
            sl.regs.push((t, ns_of(self.t0, lo), sim::now(), u64::MAX));
        }
        if let (Some(a), Some(b)) = (&mut sl.armed, base) {
            a.base = b;
            a.since = sim::now();
        }
        self.will(sl);
    }

    fn op_poll(&mut self, slot: u8, task: u8, stream: bool) {
        let Some(mut sl) = self.slots[slot as usize].take() else { return };
        self.poll_slot(&mut sl, task as usize, stream);
        self.slots[slot as usize] = Some(sl);
    }

    fn poll_slot(&mut self, sl: &mut Slot, task: usize, stream: bool) {
        let base = sl.tasks[task].wakes();
        if let Some(a) = &sl.armed {
            if a.task != task {
                tag(G_OTHER);
                // the previous task's registration ends here
                end_regs(&mut sl.regs);
                self.nontriv |= self.mask & (WAKE | STRAY) != 0;
            } else if sl.tasks[task].wakes() > a.base {
                tag(G_WOKEN);
            }
        }
        let n0 = self.inst_now();
        let w = sl.tasks[task].waker.clone();
        let mut cx = Context::from_waker(&w);
        let r = if stream {
            match Pin::new(&mut sl.timer).poll_next(&mut cx) {
                Poll::Ready(Some(i)) => Poll::Ready(i),
                Poll::Ready(None) => {
                    self.bad(VALUE, || "the timer stream ended".into());
                    return;
                }
                Poll::Pending => Poll::Pending,
            }
        } else {
            Pin::new(&mut sl.timer).poll(&mut cx)
        };
        let n1 = self.inst_now();
        sl.last = Some(task);
        match r {
            Poll::Ready(x) => {
                let Some((lo, hi)) = sl.m.when else {
                    self.bad(EARLY | VALUE, || format!("a timer that never fires yielded {:?}", ns_of(self.t0, x)));
                    return;
                };
                if n1 < lo {
                    self.bad(EARLY, || {
                        format!("timer fired early: deadline {} ns, clock {} ns", ns_of(self.t0, lo), ns_of(self.t0, n1))
                    });
                }
                if x < lo || x > hi {
                    self.bad(VALUE, || {
                        format!("yielded instant {} but the deadline is {}..={}", ns_of(self.t0, x), ns_of(self.t0, lo), ns_of(self.t0, hi))
                    });
                }
                tag(G_FIRED);
                self.nontriv |= self.mask & (EARLY | DUE) != 0;
                if n0 == hi {
                    tag(G_EXACT);
                }
                let late = n0.saturating_duration_since(hi);
                if late >= Duration::from_millis(1) {
                    tag(G_LATE);
                }
                sl.armed = None;
                end_regs(&mut sl.regs);
                sl.fired = true;
                match sl.m.period {
                    None => sl.m.when = None,
                    Some(p) => {
                        tag(G_IVAL);
                        if p > Duration::ZERO && late >= p.saturating_mul(2) {
                            tag(G_CATCH);
                        }
                        sl.m.when = pair(x.checked_add(p), x.checked_add(p));
                        if let Some((lo, _)) = sl.m.when {
                            // the library may register the next period with this task right away
                            sl.regs.push((task, ns_of(self.t0, lo), sim::now(), u64::MAX));
                        } else {
                            tag(G_OVF);
                        }
                    }
                }
            }
            Poll::Pending => {
                if let Some((lo, hi)) = sl.m.when {
                    if n0 >= hi {
                        self.bad(DUE, || {
                            format!("poll returned Pending although the deadline {} ns had passed (clock {} ns)", ns_of(self.t0, hi), ns_of(self.t0, n0))
                        });
                    }
                    if lo - n1 <= Duration::from_nanos(1) {
                        tag(G_BEFORE);
                    }
                    let need = match sl.regs.last() {
                        Some(l) => l.0 != task || l.3 != u64::MAX,
                        None => true,
                    };
                    if need {
                        end_regs(&mut sl.regs);
                        sl.regs.push((task, ns_of(self.t0, lo), sim::now(), u64::MAX));
                    }
                } else {
                    sl.polled_never = true;
                    if sl.fired {
                        tag(G_AFTEREND);
                    }
                }
                sl.armed = Some(Armed { task, base, since: sim::now() });
            }
        }
        self.will(sl);
    }

    /// To be called when everything is quiescent at the current virtual time.
    fn judge(&mut self) {
        let now = sim::now();
        let slack = TOL + sim::stalled() + self.tick * 20_000;
        let one = |s: &Slot, w: &World| {
            let (Some(a), Some((_, hi))) = (&s.armed, s.m.when) else { return };
            let dl = ns_of(w.t0, hi).max(a.since);
            let wakes = s.tasks[a.task].wakes();
            if wakes <= a.base {
                if now >= dl.max(w.last_jump).saturating_add(slack) {
                    w.bad(WAKE, || {
                        format!(
                            "task not woken: armed at {} ns for deadline {} ns, clock now {} ns and everything idle",
                            a.since, ns_of(w.t0, hi), now
                        )
                    });
                }
            }
        };
        for s in self.slots.iter().flatten() {
            one(s, self);
        }
        for (s, _) in &self.bulk {
            one(s, self);
        }
        if self.mask & STRAY != 0 {
            for s in self.slots.iter().flatten() {
                self.stray(&s.tasks, &s.regs);
            }
            for (t, r) in &self.graves {
                self.stray(t, r);
            }
        }
    }

    fn bulk_one(&mut self, at: Instant) {
        let mut sl = Slot {
            timer: Timer::at(at),
            m: Model { when: Some((at, at)), period: None },
            armed: None,
            polled_never: false,
            fired: false,
            last: None,
            regs: vec![],
            tasks: vec![Task::new()],
        };
        self.poll_slot(&mut sl, 0, false);
        if sl.armed.is_some() {
            self.bulk.push((sl, 0));
        }
    }

    /// Everything is at rest: cancelled registrations are over.
    fn at_rest(&mut self) {
        sim::settle();
        if sim::stalled_now() {
            return;
        }
        let n = sim::now();
        let regs = self.slots.iter_mut().flatten().map(|s| &mut s.regs).chain(self.graves.iter_mut().map(|g| &mut g.1));
        for x in regs.flatten() {
            if x.3 == ENDING {
                x.3 = n;
            }
        }
    }

    /// Every wake must come from a registration whose deadline had been reached while it was live.
    fn stray(&self, tasks: &[Task], regs: &[(usize, u64, u64, u64)]) {
        for (k, t) in tasks.iter().enumerate() {
            for &w in t.cell.times() {
                let ok = regs.iter().any(|&(task, dl, _start, end)| task == k && dl <= w && end >= dl);
                if !ok {
                    self.bad(STRAY, || {
                        format!("task {k} woken at {w} ns although no live registration of it had reached its deadline: (task, deadline, from, to) = {regs:?}")
                    });
                }
            }
        }
    }

    fn sleepers_ok(&self, end: bool) {
        let slack = TOL + sim::stalled() + self.tick * 20_000 + self.jumped;
        for s in &self.sleepers {
            let (start, want, done, at) = *s.get();
            if done {
                if at < start + want {
                    self.bad(EARLY, || format!("sleeping thread resumed at {at} ns, before {} ns", start + want));
                }
                if at > start + want + slack {
                    self.bad(PROMPT | WAKE, || format!("sleeping thread resumed at {at} ns, long after {} ns", start + want));
                }
            } else if end || sim::now() > start + want + slack {
                self.bad(WAKE, || format!("thread sleeping until {} ns is still blocked at {} ns [{}]", start + want, sim::now(), sim::describe()));
            }
        }
    }
}

fn finish_ok() -> i32 {
    run::mark_ok();
    0
}

fn pair(a: Option<Instant>, b: Option<Instant>) -> Option<(Instant, Instant)> {
    Some((a?, b?))
}
/// Marks the registrations as over; the reactor may still be in the middle of handling them, so that
/// the end takes effect when everything has come to rest.
fn end_regs(r: &mut [(usize, u64, u64, u64)]) {
    for x in r {
        if x.3 == u64::MAX {
            x.3 = ENDING;
        }
    }
}
const ENDING: u64 = u64::MAX - 1;

pub struct T {
    mask: u32,
    flavour: u8,
}

fn dur() -> BoxedStrategy<Dur> {
    prop_oneof![
        2 => Just(Dur::Ns(0)),
        2 => Just(Dur::Ns(1)),
        3 => (0u64..2_000).prop_map(Dur::Ns),
        6 => (1u64..50).prop_map(|m| Dur::Ns(m * 1_000_000)),
        3 => (0u64..3_000_000_000).prop_map(Dur::Ns),
        1 => (0u64..72).prop_map(|h| Dur::Ns(h * 3_600_000_000_000)),
        1 => Just(Dur::Max),
        1 => prop_oneof![
            Just(Dur::Secs(u64::MAX)),
            Just(Dur::Secs(i64::MAX as u64)),
            Just(Dur::Secs(i64::MAX as u64 - 1_000_000)),
            Just(Dur::Secs(i64::MAX as u64 - 1_000_000 - 10)),
            Just(Dur::Secs(1u64 << 62)),
            Just(Dur::Secs(u64::MAX / 1_000_000_000)),
            Just(Dur::Secs(1u64 << 40)),
        ],
    ]
    .boxed()
}
fn small_dur() -> BoxedStrategy<Dur> {
    prop_oneof![
        1 => Just(Dur::Ns(0)),
        1 => Just(Dur::Ns(1)),
        6 => (1u64..50).prop_map(|m| Dur::Ns(m * 1_000_000)),
        3 => (0u64..1_000_000_000).prop_map(Dur::Ns),
    ]
    .boxed()
}
fn off() -> BoxedStrategy<Off> {
    prop_oneof![
        3 => (-5i64..50).prop_map(|m| Off::Now(m * 1_000_000)),
        2 => (-3i64..4).prop_map(Off::Now),
        2 => (0..SLOTS, prop_oneof![3 => Just(0i64), 1 => Just(1i64), 1 => Just(-1i64)]).prop_map(|(s, d)| Off::Same(s, d)),
        1 => (0i64..5_000_000_000).prop_map(Off::Now),
        1 => (0u64..20).prop_map(Off::NearMax),
    ]
    .boxed()
}
fn spec(flavour: u8) -> BoxedStrategy<Spec> {
    let d = if flavour == 4 { dur() } else { prop_oneof![6 => small_dur(), 1 => dur()].boxed() };
    let iv = if flavour == 3 || flavour == 4 { 6 } else { 2 };
    prop_oneof![
        4 => d.clone().prop_map(Spec::After),
        4 => off().prop_map(Spec::At),
        iv => d.clone().prop_map(Spec::Interval),
        iv => (off(), d).prop_map(|(o, d)| Spec::IntervalAt(o, d)),
        1 => Just(Spec::Never),
    ]
    .boxed()
}
fn adv() -> BoxedStrategy<Adv> {
    prop_oneof![
        5 => (0..SLOTS, prop_oneof![3 => Just(0i64), 2 => Just(-1i64), 1 => Just(1i64), 1 => Just(3_000_000i64)]).prop_map(|(s, d)| Adv::To(s, d)),
        2 => (0u64..30_000_000).prop_map(Adv::Ns),
        1 => (0u64..4_000_000_000).prop_map(Adv::Ns),
        1 => Just(Adv::Ns(1)),
    ]
    .boxed()
}

fn op(flavour: u8, bulk: u32) -> BoxedStrategy<Op> {
    let s = 0..SLOTS;
    let set = match flavour {
        4 | 5 => 8,
        6 => 4,
        _ => 2,
    };
    let drop = if flavour == 6 { 6 } else { 1 };
    let sleeper = if flavour == 2 || flavour == 1 { 3 } else { 0 };
    let jump = if flavour == 3 { 4 } else { 1 };
    // most polls come from task 0, so that re-polls by the same task are common
    let task = prop_oneof![4 => Just(0u8), 1 => 0..TASKS].boxed();
    let all: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (6, (s.clone(), spec(flavour)).prop_map(|(a, b)| Op::New(a, b)).boxed()),
        (14, (s.clone(), task, any::<bool>()).prop_map(|(a, b, c)| Op::Poll(a, b, c)).boxed()),
        (set, (s.clone(), spec(flavour)).prop_map(|(a, b)| Op::Set(a, b)).boxed()),
        (drop, s.prop_map(Op::Drop).boxed()),
        (7, adv().prop_map(Op::Advance).boxed()),
        (jump, adv().prop_map(Op::Jump).boxed()),
        (2, Just(Op::Settle).boxed()),
        (3, (1u16..150).prop_map(Op::Run).boxed()),
        (
            bulk,
            (
                prop_oneof![10u16..300, 900u16..1300, 1900u16..2400],
                prop_oneof![Just(0u64), Just(1u64), 0u64..100_000_000],
                0u64..20_000_000,
            )
                .prop_map(|(a, b, c)| Op::Bulk(a, b, c))
                .boxed(),
        ),
        (bulk, (1u16..2000).prop_map(Op::BulkDrop).boxed()),
        (bulk, (1u16..2000, prop_oneof![0u64..20_000_000, 0u64..4_000_000_000]).prop_map(|(a, b)| Op::BulkSet(a, b)).boxed()),
        (
            sleeper,
            (prop_oneof![0u64..3_000_000, 0u64..400_000_000], 1u8..4, any::<bool>())
                .prop_map(|(a, b, c)| Op::Sleeper(a, b, c))
                .boxed(),
        ),
    ];
    run::weighted(all)
}

impl Prop for T {
    type Case = Case;
    fn strategy(&self, thorough: bool) -> BoxedStrategy<Case> {
        let helper = prop_oneof![Just(Helper::Idle), (20u16..90).prop_map(Helper::Ticking)];
        let n = if thorough { 90 } else { 45 };
        let f = self.flavour;
        let ops = match f {
            2 => vec(op(f, 1), 3..n).boxed(),
            5 | 6 => prop_oneof![15 => vec(op(f, 0), 3..n), 1 => vec(op(f, 4), 3..n / 2)].boxed(),
            _ => vec(op(f, 0), 3..n).boxed(),
        };
        (run::sched_strategy(true, true), prop_oneof![3 => Just(vec![]), 1 => vec(helper, 1..3)], ops, run::rarely(if f == 2 { 400 } else { 0 }))
            .prop_map(|(sched, helpers, ops, long)| {
                // Some threads sleep until exactly the same instant.
                let twins = |o: Op| if matches!(o, Op::Sleeper(d, ..) if d % 2 == 0) { vec![o.clone(), o] } else { vec![o] };
                let ops = ops.into_iter().flat_map(twins).collect();
                Case { sched, helpers, ops, long }
            })
            .boxed()
    }
    fn sched(&self, c: &Case) -> sim::Sched {
        c.sched.clone()
    }
    fn exec(&self, c: &Case) {
        let mut w = World {
            mask: self.mask,
            t0: sim::quiet(|| Instant::now() - Duration::from_nanos(sim::now())),
            slots: (0..SLOTS).map(|_| None).collect(),
            graves: vec![],
            bulk: vec![],
            last_jump: 0,
            tick: c.sched.tick_ns,
            sleepers: vec![],
            nontriv: false,
            jumped: 0,
        };
        if c.long {
            tag(G_LONG);
            let at = w.inst_now() + Duration::from_secs(20);
            for _ in 0..200 {
                w.bulk_one(at);
            }
            // Nobody may be stalled in the middle of an operation on the queue: the others would wait for it.
            sim::settle();
            while sim::stalled_now() {
                sim::advance(1_000_000);
            }
            sim::quiet(|| {
                for _ in 0..65536 - 100 {
                    let mut t = Timer::at(at);
                    let _ = std::pin::Pin::new(&mut t).poll(&mut Context::from_waker(std::task::Waker::noop()));
                }
            });
            for _ in 0..200 {
                w.bulk_one(at);
            }
        }
        for h in &c.helpers {
            tag(G_HELPER);
            match h.clone() {
                Helper::Idle => sim::spawn(|| async_io::block_on(std::future::pending::<()>())),
                Helper::Ticking(ms) => sim::spawn(move || loop {
                    async_io::block_on(async { Timer::after(Duration::from_millis(ms as u64)).await });
                }),
            }
        }
        for (i, op) in c.ops.iter().enumerate() {
            note(&format!("op {i} {op:?}"));
            match op {
                Op::New(s, sp) => w.op_new(*s, sp),
                Op::Poll(s, t, st) => w.op_poll(w.at(*s), *t, *st),
                Op::Set(s, sp) => w.op_set(w.at(*s), sp),
                Op::Drop(s) => w.op_drop(w.at(*s)),
                Op::Advance(a) => {
                    if let Some(d) = w.adv(a) {
                        let ticking = c.helpers.iter().any(|h| matches!(h, Helper::Ticking(_)));
                        w.at_rest();
                        sim::advance(if ticking { d.min(20_000_000_000) } else { d });
                        w.judge();
                        w.sleepers_ok(false);
                    }
                }
                Op::Jump(a) => {
                    if let Some(d) = w.adv(a) {
                        let d = d.min(10_000_000_000);
                        sim::jump(d);
                        w.jumped += d;
                        w.last_jump = sim::now();
                    }
                }
                Op::Settle => {
                    w.at_rest();
                    w.judge();
                }
                Op::Run(k) => sim::run_steps(*k as u64),
                Op::Bulk(n, spread, off) => {
                    if *n > 1000 {
                        tag(G_BULK);
                    }
                    for j in 0..*n {
                        let at = w.inst_now() + Duration::from_nanos(off + if *spread > 0 { (j as u64 * 7919) % (spread + 1) } else { 0 });
                        w.bulk_one(at);
                    }
                }
                Op::BulkSet(n, off) => {
                    let at = w.inst_now() + Duration::from_nanos(*off);
                    let keep = w.bulk.len().saturating_sub(*n as usize);
                    let mut part = w.bulk.split_off(keep);
                    for (s, _) in &mut part {
                        w.set_slot(s, &Spec::At(Off::Now(0)), Some(at));
                    }
                    w.bulk.extend(part);
                }
                Op::BulkDrop(n) => {
                    let keep = w.bulk.len().saturating_sub(*n as usize);
                    for (s, _) in w.bulk.split_off(keep) {
                        w.bury(s);
                    }
                }
                Op::Sleeper(d, n, aio) => {
                    if w.sleepers.len() < 8 {
                        tag(G_SLEEPER);
                        let st = Arc::new(Racy::new((0u64, d * *n as u64, false, 0u64)));
                        st.get().0 = sim::now();
                        w.sleepers.push(st.clone());
                        let (d, n, aio) = (*d, *n, *aio);
                        // let it start at once, so that the deadline is known
                        sim::spawn(move || {
                            st.get().0 = sim::now();
                            let f = async {
                                for _ in 0..n {
                                    Timer::after(Duration::from_nanos(d)).await;
                                }
                            };
                            if aio {
                                async_io::block_on(f)
                            } else {
                                futures_lite::future::block_on(f)
                            }
                            let s = st.get();
                            s.3 = sim::now();
                            s.2 = true;
                        });
                    }
                }
            }
        }
        // Final phase: give everything that is due within a minute the time to happen.
        note("final settling");
        sim::no_stalls();
        w.at_rest();
        w.judge();
        let now = sim::now();
        let mut far = now;
        let ticking = c.helpers.iter().any(|h| matches!(h, Helper::Ticking(_)));
        for s in w.slots.iter().flatten().chain(w.bulk.iter().map(|b| &b.0)) {
            if let (Some(_), Some((_, hi))) = (&s.armed, s.m.when) {
                let d = ns_of(w.t0, hi);
                if d < now + if ticking { 20_000_000_000 } else { 90_000_000_000_000 } {
                    far = far.max(d);
                }
            }
        }
        for s in &w.sleepers {
            far = far.max(s.get().0 + s.get().1);
        }
        let slack = 2 * TOL + sim::stalled() + c.sched.tick_ns * 40_000 + w.jumped;
        sim::advance(far - now + slack);
        w.judge();
        w.sleepers_ok(true);
        // Everyone woken must find its timer due.
        for i in 0..SLOTS {
            let Some(mut sl) = w.slots[i as usize].take() else { continue };
            if let Some(a) = &sl.armed {
                let t = a.task;
                w.poll_slot(&mut sl, t, i % 2 == 0);
            }
            w.slots[i as usize] = Some(sl);
        }
        let bulk = std::mem::take(&mut w.bulk);
        for (mut s, _) in bulk {
            w.poll_slot(&mut s, 0, false);
            w.bury(s);
        }
        if self.mask & LEAK != 0 {
            note("leak check");
            for i in 0..SLOTS {
                w.op_drop(i);
            }
            w.at_rest();
            // A short timer makes the reactor process what has been queued.
            let mut t = Timer::after(Duration::from_millis(1));
            let task = Task::new();
            let _ = Pin::new(&mut t).poll(&mut Context::from_waker(&task.waker));
            sim::advance(2 * TOL + sim::stalled());
            for (tasks, regs) in &w.graves {
                w.stray(tasks, regs);
                for (k, t) in tasks.iter().enumerate() {
                    if t.outside_refs() != 0 {
                        run::fail(format!("task {k} of a dropped timer is still referenced {} times; registrations {regs:?}", t.outside_refs()));
                    }
                }
            }
        }
        if w.nontriv {
            run::nontrivial();
        }
    }
}

fn go(d: &Def, o: &Opts, mask: u32, flavour: u8) -> i32 {
    run::run_prop(d, &T { mask, flavour }, o)
}

const ASSUME: &[&str] = &[
    "virtual clock: Instant::now(), timerfd and futex time-outs are served by the simulation; 64-bit Linux, epoll backend",
    "schedules are sequentially consistent interleavings at atomic operations and system calls",
    "a wake may be up to 200 ms of virtual time late (the documentation allows timers to be late)",
];

pub fn defs() -> Vec<Def> {
    vec![
        Def {
            id: "T01",
            title: "timers never early",
            tags: TAGS,
            rule: "random histories of timer operations, clock advances and reactor interleavings; non-trivial: at least one timer or sleeping thread fired",
            quick: 40_000,
            stuck_violates: false,
            run: |d, o| go(d, o, EARLY | VALUE, 1),
            assumptions: ASSUME,
        },
        Def {
            id: "T02",
            title: "due timers wake",
            tags: TAGS,
            rule: "random histories including thousands of timers at once, sleeping threads and block_on helpers; non-trivial: a timer fired after its task had been pending",
            quick: 24_000,
            stuck_violates: true,
            run: |d, o| go(d, o, WAKE | PROMPT | DUE, 2),
            assumptions: ASSUME,
        },
        Def {
            id: "T03",
            title: "interval cadence",
            tags: TAGS,
            rule: "interval-heavy histories with late polls; non-trivial: at least one yield",
            quick: 40_000,
            stuck_violates: false,
            run: |d, o| go(d, o, EARLY | VALUE | DUE, 3),
            assumptions: ASSUME,
        },
        Def {
            id: "T04",
            title: "set_* decides",
            tags: TAGS,
            rule: "histories with many set_* calls and extreme durations/instants; non-trivial: a fire or a reset while a task was waiting",
            quick: 40_000,
            stuck_violates: false,
            run: |d, o| go(d, o, EARLY | VALUE | DUE | WILL, 4),
            assumptions: ASSUME,
        },
        Def {
            id: "T05",
            title: "re-arming keeps the waiting task",
            tags: TAGS,
            rule: "set_* while a task waits, several tasks polling one timer; non-trivial: reset while armed or poll by another task",
            quick: 40_000,
            stuck_violates: true,
            run: |d, o| go(d, o, WAKE | PROMPT, 5),
            assumptions: ASSUME,
        },
        Def {
            id: "T06",
            title: "cancelled timers are silent and released",
            tags: TAGS,
            rule: "drop / reset / hand-over of armed timers, then every wake is matched with a live due registration and every waker must have been released; non-trivial: something armed was cancelled",
            quick: 40_000,
            stuck_violates: false,
            run: |d, o| go(d, o, STRAY | LEAK, 6),
            assumptions: ASSUME,
        },
    ]
}
