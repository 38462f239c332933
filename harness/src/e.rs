//! Re-entrancy: wakers that run code using async-io inside wake(), and wakers whose destructor does.
use crate::cells::Racy;
use crate::r::{nonblock, pollfd, Fd};
use crate::run::{self, note, tag, Def, Opts, Prop};
use crate::sim;
use async_io::{Async, ReadableOwned, Timer, WritableOwned};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

const TOL: u64 = 200_000_000;
const SRCS: usize = 3;
const SLOTS: usize = 6;
const TASKS: usize = 3;

/// Which waker a poll uses.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Wk {
    /// an inline task: wake() runs its next batch of acts
    Task(u8),
    /// a waker of its own: wake() runs acts, dropping the last reference runs other acts
    Own(Vec<Act>, Vec<Act>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    PollDir(u8, bool, Wk),
    Wait(u8, u8, bool, Wk),
    RePoll(u8, Wk),
    DropWait(u8),
    Timer(u8, u32, Wk),
    TimerPoll(u8, Wk),
    TimerSet(u8, u32),
    TimerDrop(u8),
    Close(u8),
    Open(u8),
    PeerWrite(u8),
    Drain(u8),
    /// polls and drops that many far timers
    Flood(u16),
    Advance(u32),
    Settle,
    Run(u8),
    On(Box<Act>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sched: sim::Sched,
    pub helper: bool,
    pub tasks: Vec<Vec<Vec<Act>>>,
    pub ops: Vec<Act>,
}

pub const TAGS: &[&str] = &[
    "acts_run_inside_wake", "acts_run_inside_waker_drop", "woken_while_running", "polled_same_handle_inside_wake", "handle_closed_inside_wake",
    "timer_touched_inside_wake", "flood_inside_waker", "wait_completed", "timer_fired", "run_by_reactor_thread",
];
const G_WAKE: usize = 0;
const G_DROP: usize = 1;
const G_AGAIN: usize = 2;
const G_POLLIN: usize = 3;
const G_CLOSEIN: usize = 4;
const G_TIMERIN: usize = 5;
const G_FLOODIN: usize = 6;
const G_DONE: usize = 7;
const G_FIRED: usize = 8;
const G_LIB: usize = 9;

type H = Async<Fd>;
type Count = Arc<Racy<u64>>;

enum Fut {
    R(ReadableOwned<Fd>),
    W(WritableOwned<Fd>),
}

struct Wait {
    fut: Fut,
    raw: RawFd,
    dir: usize,
    wakes: Count,
    base: u64,
}

struct Tm {
    t: Timer,
    wakes: Count,
    base: u64,
    pending: bool,
    at: u64,
}

struct Src {
    h: Arc<H>,
    raw: RawFd,
    peer: OwnedFd,
    gen: u64,
}

struct World {
    srcs: Vec<Option<Src>>,
    waits: Vec<Option<Wait>>,
    timers: Vec<Option<Tm>>,
    /// latest pending poll per source and direction: (generation, wake counter, its value before the poll)
    pdir: Vec<[Option<(u64, Count, u64)>; 2]>,
    tasks: Vec<Arc<Task>>,
    gen: u64,
    inside: u32,
    driver: i32,
    nontriv: bool,
}

static mut WORLD: Option<World> = None;
fn world() -> &'static mut World {
    #[allow(static_mut_refs)]
    unsafe {
        WORLD.as_mut().unwrap()
    }
}

struct Task {
    wakes: Count,
    st: Racy<(bool, bool, std::collections::VecDeque<Vec<Act>>)>,
}
impl Task {
    fn run(&self) {
        let s = self.st.get();
        if s.0 {
            s.1 = true;
            tag(G_AGAIN);
            return;
        }
        s.0 = true;
        while let Some(b) = self.st.get().2.pop_front() {
            inside(&b, G_WAKE);
            let s = self.st.get();
            if !std::mem::replace(&mut s.1, false) {
                break;
            }
        }
        self.st.get().0 = false;
    }
}
impl Wake for Task {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        *self.wakes.get() += 1;
        self.run();
    }
}

struct Own {
    wakes: Count,
    on_wake: Racy<Vec<Act>>,
    on_drop: Vec<Act>,
}
impl Wake for Own {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        *self.wakes.get() += 1;
        let l = std::mem::take(self.on_wake.get());
        inside(&l, G_WAKE);
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        let l = std::mem::take(&mut self.on_drop);
        inside(&l, G_DROP);
    }
}

fn inside(l: &[Act], g: usize) {
    if l.is_empty() || !sim::active() {
        return;
    }
    tag(g);
    world().nontriv = true;
    if sim::me() != world().driver {
        tag(G_LIB);
    }
    world().inside += 1;
    for a in l {
        act(a, true);
    }
    world().inside -= 1;
}

fn waker(k: &Wk) -> (Waker, Count) {
    match k {
        Wk::Task(i) => {
            let t = world().tasks[*i as usize].clone();
            let c = t.wakes.clone();
            (Waker::from(t), c)
        }
        Wk::Own(w, d) => {
            let c: Count = Arc::new(Racy::new(0));
            (Waker::from(Arc::new(Own { wakes: c.clone(), on_wake: Racy::new(w.clone()), on_drop: d.clone() })), c)
        }
    }
}

fn open(s: usize) {
    if world().srcs[s].is_some() {
        return;
    }
    let mut p = [0; 2];
    if unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()) } != 0 {
        run::abort_case("socketpair");
    }
    nonblock(p[1]);
    let (a, b) = unsafe { (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1])) };
    let h = match Async::new(Fd(a)) {
        Ok(h) => Arc::new(h),
        Err(e) => run::fail(format!("cannot register a fresh socket: {e}")),
    };
    world().gen += 1;
    let src = Src { h, raw: p[0], peer: b, gen: world().gen };
    let old = world().srcs[s].replace(src);
    drop(old);
}

fn poll_wait(i: usize, mut w: Wait, k: &Wk) {
    let (wk, c) = waker(k);
    let base = *c.get();
    let mut cx = Context::from_waker(&wk);
    let r = match &mut w.fut {
        Fut::R(f) => Pin::new(f).poll(&mut cx),
        Fut::W(f) => Pin::new(f).poll(&mut cx),
    };
    match r {
        Poll::Ready(r) => {
            tag(G_DONE);
            if let Err(e) = r {
                run::fail(format!("a wait failed: {e}"));
            }
        }
        Poll::Pending => {
            w.wakes = c;
            w.base = base;
            let old = world().waits[i].replace(w);
            drop(old);
        }
    }
}

fn act(a: &Act, nested: bool) {
    match a {
        Act::PollDir(s, wr, k) => {
            let s = *s as usize;
            let Some(src) = &world().srcs[s] else { return };
            let (h, gen) = (sim::quiet(|| src.h.clone()), src.gen);
            if nested {
                tag(G_POLLIN);
            }
            let (wk, c) = waker(k);
            let base = *c.get();
            let d = *wr as usize;
            let mut cx = Context::from_waker(&wk);
            let r = if *wr { h.poll_writable(&mut cx) } else { h.poll_readable(&mut cx) };
            // Assigning would drop the old value in place, with yield points while it is half gone.
            let new = match r {
                Poll::Ready(r) => {
                    tag(G_DONE);
                    if let Err(e) = r {
                        run::fail(format!("poll_readable/poll_writable failed: {e}"));
                    }
                    None
                }
                // A poll of the same direction from inside a wake makes it unclear which one is the latest.
                Poll::Pending if nested => None,
                Poll::Pending => Some((gen, c, base)),
            };
            let old = std::mem::replace(&mut world().pdir[s][d], new);
            drop(old);
            drop(h);
        }
        Act::Wait(i, s, wr, k) => {
            let Some(src) = &world().srcs[*s as usize] else { return };
            let (h, raw) = (sim::quiet(|| src.h.clone()), src.raw);
            if nested {
                tag(G_POLLIN);
            }
            let fut = if *wr { Fut::W(h.writable_owned()) } else { Fut::R(h.readable_owned()) };
            let c: Count = Arc::new(Racy::new(0));
            let w = Wait { fut, raw, dir: *wr as usize, wakes: c, base: 0 };
            poll_wait(*i as usize, w, k);
        }
        Act::RePoll(i, k) => {
            if let Some(w) = world().waits[*i as usize].take() {
                poll_wait(*i as usize, w, k);
            }
        }
        Act::DropWait(i) => drop(world().waits[*i as usize].take()),
        Act::Timer(i, us, k) => {
            if nested {
                tag(G_TIMERIN);
            }
            let mut t = Timer::after(Duration::from_micros(*us as u64));
            let at = sim::now() + *us as u64 * 1000;
            let (wk, c) = waker(k);
            let base = *c.get();
            let pending = Pin::new(&mut t).poll(&mut Context::from_waker(&wk)).is_pending();
            let old = world().timers[*i as usize].replace(Tm { t, wakes: c, base, pending, at });
            drop(old);
        }
        Act::TimerPoll(i, k) => {
            if nested {
                tag(G_TIMERIN);
            }
            let Some(mut tm) = world().timers[*i as usize].take() else { return };
            if !tm.pending {
                return;
            }
            let (wk, c) = waker(k);
            tm.base = *c.get();
            tm.wakes = c;
            tm.pending = Pin::new(&mut tm.t).poll(&mut Context::from_waker(&wk)).is_pending();
            if !tm.pending {
                tag(G_FIRED);
            }
            let old = world().timers[*i as usize].replace(tm);
            drop(old);
        }
        Act::TimerSet(i, us) => {
            if nested {
                tag(G_TIMERIN);
            }
            let Some(mut tm) = world().timers[*i as usize].take() else { return };
            tm.at = sim::now() + *us as u64 * 1000;
            if tm.pending {
                tm.base = *tm.wakes.get();
            }
            tm.t.set_after(Duration::from_micros(*us as u64));
            let old = world().timers[*i as usize].replace(tm);
            drop(old);
        }
        Act::TimerDrop(i) => {
            if nested {
                tag(G_TIMERIN);
            }
            drop(world().timers[*i as usize].take())
        }
        Act::Close(s) => {
            if nested {
                tag(G_CLOSEIN);
            }
            let old = world().srcs[*s as usize].take();
            drop(old);
        }
        Act::Open(s) => open(*s as usize),
        Act::PeerWrite(s) => {
            if let Some(src) = &world().srcs[*s as usize] {
                unsafe { libc::write(src.peer.as_raw_fd(), b"x".as_ptr() as *const _, 1) };
            }
        }
        Act::Drain(s) => {
            if let Some(src) = &world().srcs[*s as usize] {
                let mut b = [0u8; 4096];
                unsafe { libc::recv(src.raw, b.as_mut_ptr() as *mut _, b.len(), libc::MSG_DONTWAIT) };
            }
        }
        Act::Flood(n) => {
            if nested {
                tag(G_FLOODIN);
            }
            let (wk, _c) = waker(&Wk::Own(vec![], vec![]));
            let mut l: Vec<Timer> = (0..*n).map(|_| Timer::after(Duration::from_secs(7200))).collect();
            for t in &mut l {
                let _ = Pin::new(t).poll(&mut Context::from_waker(&wk));
            }
            drop(l);
        }
        Act::Advance(us) if !nested => sim::advance(*us as u64 * 1000),
        Act::Settle if !nested => sim::settle(),
        Act::Run(n) if !nested => sim::run_steps(*n as u64),
        Act::On(a) if !nested => {
            let a = a.clone();
            sim::spawn(move || act(&a, false));
        }
        _ => {}
    }
}

pub struct E;

fn acts(depth: u32) -> BoxedStrategy<Act> {
    let s = || 0u8..SRCS as u8;
    let i = || 0u8..SLOTS as u8;
    let us = prop_oneof![2 => 0u32..50, 2 => 50u32..5_000, 1 => 5_000u32..2_000_000].boxed();
    let wk: BoxedStrategy<Wk> = if depth == 0 {
        prop_oneof![3 => (0u8..TASKS as u8).prop_map(Wk::Task), 1 => Just(Wk::Own(vec![], vec![]))].boxed()
    } else {
        let l = || vec(acts(depth - 1), 0..3);
        prop_oneof![2 => (0u8..TASKS as u8).prop_map(Wk::Task), 3 => (l(), l()).prop_map(|(a, b)| Wk::Own(a, b))].boxed()
    };
    prop_oneof![
        5 => (s(), any::<bool>(), wk.clone()).prop_map(|(a, b, c)| Act::PollDir(a, b, c)),
        5 => (i(), s(), any::<bool>(), wk.clone()).prop_map(|(a, b, c, d)| Act::Wait(a, b, c, d)),
        4 => (i(), wk.clone()).prop_map(|(a, b)| Act::RePoll(a, b)),
        2 => i().prop_map(Act::DropWait),
        4 => (i(), us.clone(), wk.clone()).prop_map(|(a, b, c)| Act::Timer(a, b, c)),
        3 => (i(), wk).prop_map(|(a, b)| Act::TimerPoll(a, b)),
        2 => (i(), us.clone()).prop_map(|(a, b)| Act::TimerSet(a, b)),
        2 => i().prop_map(Act::TimerDrop),
        1 => s().prop_map(Act::Close),
        2 => s().prop_map(Act::Open),
        4 => s().prop_map(Act::PeerWrite),
        2 => s().prop_map(Act::Drain),
        1 => prop_oneof![3 => 1u16..4, 1 => 900u16..1100].prop_map(Act::Flood),
        3 => us.prop_map(Act::Advance),
        3 => Just(Act::Settle),
        2 => (0u8..100).prop_map(Act::Run),
    ]
    .boxed()
}

impl Prop for E {
    type Case = Case;
    fn sched(&self, c: &Case) -> sim::Sched {
        c.sched.clone()
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<Case> {
        (
            run::sched_strategy(false, true),
            any::<bool>(),
            vec(vec(vec(acts(1), 0..4), 0..4), TASKS..=TASKS),
            vec(prop_oneof![8 => acts(2), 1 => acts(1).prop_map(|a| Act::On(Box::new(a)))], 4..if thorough { 30 } else { 18 }),
        )
            .prop_map(|(sched, helper, tasks, ops)| Case { sched, helper, tasks, ops })
            .boxed()
    }
    fn exec(&self, c: &Case) {
        unsafe {
            WORLD = Some(World {
                srcs: (0..SRCS).map(|_| None).collect(),
                waits: (0..SLOTS).map(|_| None).collect(),
                timers: (0..SLOTS).map(|_| None).collect(),
                pdir: (0..SRCS).map(|_| [None, None]).collect(),
                tasks: vec![],
                gen: 0,
                inside: 0,
                driver: sim::me(),
                nontriv: false,
            })
        };
        for t in &c.tasks {
            world().tasks.push(Arc::new(Task {
                wakes: Arc::new(Racy::new(0)),
                st: Racy::new((false, false, t.iter().cloned().collect())),
            }));
        }
        for s in 0..SRCS {
            open(s);
        }
        if c.helper {
            sim::spawn(|| async_io::block_on(std::future::pending::<()>()));
        }
        for (n, a) in c.ops.iter().enumerate() {
            note(&format!("op {n} {a:?}"));
            act(a, false);
        }
        note("final settling");
        sim::no_stalls();
        sim::advance(TOL + sim::stalled());
        let w = world();
        // Nobody was forgotten.
        for (i, x) in w.waits.iter().enumerate() {
            let Some(x) = x else { continue };
            if pollfd(x.raw)[x.dir] && *x.wakes.get() == x.base {
                run::fail(format!("wait {i} on a ready handle was never woken"));
            }
        }
        for s in 0..SRCS {
            let Some(src) = &w.srcs[s] else { continue };
            let r = pollfd(src.raw);
            for d in 0..2 {
                if let Some((gen, c, base)) = &w.pdir[s][d] {
                    if *gen == src.gen && r[d] && *c.get() == *base {
                        run::fail(format!("the task that polled handle {s} (direction {d}) was never woken"));
                    }
                }
            }
        }
        for (i, t) in w.timers.iter().enumerate() {
            let Some(t) = t else { continue };
            if t.pending && t.at + TOL + sim::stalled() <= sim::now() && *t.wakes.get() == t.base {
                run::fail(format!("timer {i} was due at {} ns and its task is not woken at {} ns", t.at, sim::now()));
            }
        }
        note("final polls");
        for t in &w.tasks {
            t.st.get().2.clear();
        }
        let plain = Wk::Own(vec![], vec![]);
        for _ in 0..6 {
            for i in 0..SLOTS {
                act(&Act::RePoll(i as u8, plain.clone()), false);
                act(&Act::TimerPoll(i as u8, plain.clone()), false);
            }
            sim::advance(TOL + sim::stalled());
        }
        for (i, x) in world().waits.iter().enumerate() {
            let Some(x) = x else { continue };
            if pollfd(x.raw)[x.dir] {
                run::fail(format!("wait {i} on a ready handle does not complete"));
            }
        }
        if world().nontriv {
            run::nontrivial();
        }
    }
}

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "B06",
        title: "wakers may call back into the crate",
        tags: TAGS,
        rule: "random histories of waits, poll-style polls, timers and handles in which waking a waker, or dropping its last reference, runs further operations on the same objects; non-trivial: operations ran inside a wake or a waker's destructor",
        quick: 30_000,
        stuck_violates: true,
        run: |d: &Def, o: &Opts| run::run_prop(d, &E, o),
        assumptions: &[
            "wakers do not block the thread (nested block_on inside wake() is not generated)",
            "virtual clock and scheduler; sequentially consistent interleavings; Linux epoll backend",
        ],
    }]
}
