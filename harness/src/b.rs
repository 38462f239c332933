//! block_on and the threads that drive the reactor: generated programs on several threads, checked for
//! results, promptness, poll discipline, isolation and idleness.
use crate::cells::{Racy, WakeCell};
use crate::r::{nonblock, Fd};
use crate::run::{self, note, tag, weighted, Def, Opts, Prop};
use crate::sim;
use async_io::{Async, ReadableOwned, Timer};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

/// Lateness allowed in virtual time (the helper thread backs off to 10 ms).
pub const TOL: u64 = 150_000_000;
const CHANS: usize = 4;
const PIPES: usize = 4;
const STASH: usize = 3;
/// pairs of channels, after the others, for strands that pass tokens to and fro
const PAIRS: usize = 2;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// microseconds
    Sleep(u32),
    /// Wakes itself and returns pending n times.
    Yield(u8),
    Signal(u8),
    /// Waits for a signal sent after this step began.
    Wait(u8),
    /// Waits for the next signal that no earlier step of this kind has taken.
    Take(u8),
    Write(u8),
    /// Reads one byte; the second field picks the way of waiting.
    Read(u8, u8),
    /// A nested block_on inside poll (async_io's when true).
    Nested(Box<Prog>, bool),
    /// The thread sleeps inside poll.
    Block(u32),
    Panic,
    /// A timer polled with a waker that panics when woken.
    BadTimer(u32),
    /// A readability wait (pipe) polled with a waker that panics when woken.
    BadWait(u8),
    /// A poll_readable poll with a waker that panics, then displaced by another one.
    BadDisplace(u8),
    /// A timer or wait polled with a waker that panics when its last reference is dropped; then dropped, reset, taken over or kept.
    BadDrop(u8, u32),
    /// So many of these timers, created and dropped, that the reactor's queue overflows.
    BadBurst(u16),
    /// A timer or wait polled with a waker that panics when it is cloned (after so many clones).
    BadClone(u8, u8, u32),
    /// Keeps a timer due all the time (each poll takes longer than its delay) until a readable handle's task has been woken.
    Busy(u8),
    /// Keeps a handle readable and waited for all the time until the task of a timer (us) has been woken.
    Flood(u8),
    Stash(u8),
    WakeStash(u8),
    /// Wakes itself and goes on at once.
    SelfWake,
    /// A far timer that stays armed until the end of the strand (seconds).
    Far(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Prog {
    pub strands: Vec<Vec<Step>>,
    pub value: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Thr {
    /// async_io::block_on or a plain parking executor that does not drive the reactor
    pub driver: bool,
    pub wrap: bool,
    /// (pause before, microseconds; program)
    pub progs: Vec<(u32, Prog)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ext {
    Advance(u32),
    Signal(u8),
    Write(u8),
    WakeStash(u8),
    Run(u16),
    Settle,
    /// An early wake-up of whoever polls the reactor, and the time between such ops.
    Arm(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sched: sim::Sched,
    pub threads: Vec<Thr>,
    pub ext: Vec<Ext>,
    /// (index of the poll, errno)
    pub faults: Vec<(u16, u8)>,
    /// handles exist before the threads start
    pub pre: bool,
}

const VALUE: u32 = 1;
const LATE_DRV: u32 = 2;
const LATE_ALL: u32 = 4;
const POLLS: u32 = 8;
const IDLE: u32 = 16;
const INIT: u32 = 32;
const NEST: u32 = 64;
const DONE: u32 = 128;
const EARLY: u32 = 256;

pub const TAGS: &[&str] = &[
    "block_on_done", "sleep_done", "signal_wait_done(pending first)", "read_done(pending first)", "nested", "nested_while_outer_woken",
    "panic_in_future", "panicking_waker_woken", "stash_wake", "stale_stash_wake(after return)", "self_wake_then_ready", "two_drivers_at_once",
    "plain_executor_thread", "blocked_inside_poll", "fault_injected", "cold_start_race", "idle_phase", "thread_block_on_again", "far_timer_armed",
    "block_on_after_panic", "displaced_panicking_waker", "token_passed(pending first)", "panicking_waker_destructor", "handle_noticed_while_timers_keep_firing", "timer_fired_while_handle_keeps_ready", "panicking_waker_clone",
];
const G_DONE: usize = 0;
const G_SLEEP: usize = 1;
const G_WAIT: usize = 2;
const G_READ: usize = 3;
const G_NESTED: usize = 4;
const G_NESTW: usize = 5;
const G_PANIC: usize = 6;
const G_PWAKER: usize = 7;
const G_STASH: usize = 8;
const G_STALE: usize = 9;
const G_SELFREADY: usize = 10;
const G_TWO: usize = 11;
const G_PLAIN: usize = 12;
const G_BLOCK: usize = 13;
const G_FAULT: usize = 14;
const G_COLD: usize = 15;
const G_IDLE: usize = 16;
const G_AGAIN: usize = 17;
const G_FAR: usize = 18;
const G_AFTERP: usize = 19;
const G_DISP: usize = 20;
const G_TOKEN: usize = 21;
const G_BOMB: usize = 22;
const G_BUSY: usize = 23;
const G_FLOOD: usize = 24;
const G_CLONE: usize = 25;

struct ThrState {
    /// wakes of wakers that belong to this thread, polls of its futures, block_on calls
    wakes: u64,
    polls: u64,
    calls: u64,
    wakes_done: u64,
    /// the same for the futures of nested calls and of plain executors
    nest: (u64, u64, u64),
    all_polls: u64,
    /// (wakes, polls, calls) accounted for when a top-level block_on last became ready
    base: (u64, u64, u64),
    /// when a Block step or a nested block_on last ended on this thread
    free_at: u64,
    depth: u32,
    done: bool,
    panicked: bool,
    driver: bool,
}

struct Chan {
    sent: Vec<u64>,
    waiters: Vec<(u64, Waker)>,
    taken: usize,
}

struct Pipe {
    h: Option<Arc<Async<Fd>>>,
    w: Option<OwnedFd>,
    r: i32,
    written: std::collections::VecDeque<u64>,
    busy: bool,
}

struct World {
    mask: u32,
    thr: Vec<ThrState>,
    chans: Vec<Chan>,
    pipes: Vec<Pipe>,
    stash: Vec<Option<(Waker, usize, u64)>>,
    active_drivers: u32,
    released: Option<u64>,
    keep: Vec<Box<dyn std::any::Any + Send>>,
    bad_cells: Vec<Arc<WakeCell>>,
    displaced: Vec<Arc<WakeCell>>,
    ids: u64,
    ended: Vec<u64>,
    nontriv: bool,
    creating: u32,
}

type W = Arc<Racy<World>>;

impl World {
    fn bad(&self, bit: u32, msg: impl FnOnce() -> String) {
        if self.mask & bit != 0 {
            run::fail(msg());
        } else {
            sim::stop();
            run::mark_ok();
            unsafe { libc::_exit(0) }
        }
    }
    /// Judges how long after `enabled` a step of thread `t` got done.
    fn prompt(&self, t: usize, what: &str, enabled: u64, began: u64) {
        let th = &self.thr[t];
        let from = enabled.max(began).max(th.free_at);
        let late = sim::now().saturating_sub(from);
        if late > TOL + sim::stalled() {
            let bit = if th.depth > 1 { NEST | LATE_ALL } else { LATE_ALL } | if th.driver { LATE_DRV } else { 0 };
            self.bad(bit, || format!("thread {t} (block_on of {}): {what} was possible at {enabled} ns but got done at {} ns only",
                if th.driver { "async-io" } else { "a plain executor" }, sim::now()));
        }
    }
    fn signal(&mut self, k: usize) -> Vec<(u64, Waker)> {
        self.chans[k].sent.push(sim::now());
        std::mem::take(&mut self.chans[k].waiters)
    }
}

fn signal(w: &W, k: usize) {
    let l = w.get().signal(k);
    for (_, x) in l {
        x.wake();
    }
}

fn write(w: &W, p: usize) {
    ensure_pipe(w, p);
    let pp = &mut w.get().pipes[p];
    let Some(fd) = pp.w.as_ref().map(|f| f.as_raw_fd()) else { return };
    pp.written.push_back(sim::now());
    let r = unsafe { libc::write(fd, b"x".as_ptr() as *const _, 1) };
    if r != 1 {
        pp.written.pop_back();
    }
}

/// Creates pipe `p` if it does not exist yet; concurrent creations are all real first uses.
fn ensure_pipe(w: &W, p: usize) {
    if w.get().pipes[p].h.is_some() {
        return;
    }
    let mut f = [0; 2];
    if unsafe { libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
        run::abort_case("pipe2");
    }
    nonblock(f[1]);
    let (r, wr) = unsafe { (OwnedFd::from_raw_fd(f[0]), OwnedFd::from_raw_fd(f[1])) };
    w.get().creating += 1;
    let h = match Async::new(Fd(r)) {
        Ok(h) => Arc::new(h),
        Err(e) => run::fail(format!("cannot register a fresh pipe: {e}")),
    };
    let pp = &mut w.get().pipes[p];
    if pp.h.is_none() {
        pp.r = f[0];
        pp.h = Some(h);
        pp.w = Some(wr);
    }
}

fn wake_stash(w: &W, k: usize) {
    if let Some((x, t, id)) = w.get().stash[k].take() {
        tag(G_STASH);
        let st = &w.get().thr[t];
        if st.done || w.get().ended.contains(&id) {
            tag(G_STALE);
        }
        x.wake();
    }
}

/// Forwards to the waker of block_on, recording the wake.
struct Fwd {
    inner: Waker,
    w: W,
    t: usize,
    top: bool,
}
impl Wake for Fwd {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let th = &mut self.w.get().thr[self.t];
        if !self.top {
            th.nest.0 += 1;
            self.inner.wake_by_ref();
            return;
        }
        th.wakes += 1;
        self.inner.wake_by_ref();
        self.w.get().thr[self.t].wakes_done += 1;
    }
}

enum Cur {
    None,
    Sleep(Timer, u64),
    Yield(u8, u64),
    Wait(usize),
    Busy(Timer, u32, Arc<WakeCell>, ReadableOwned<Fd>),
    Flood(Timer, u64, u32, Arc<WakeCell>, Arc<Async<Fd>>, ReadableOwned<Fd>),
    Read(usize, u8, Option<ReadableOwned<Fd>>, Option<Pin<Box<dyn Future<Output = std::io::Result<usize>> + Send>>>),
}

struct Strand {
    steps: Vec<Step>,
    i: usize,
    cur: Cur,
    began: u64,
    pended: bool,
    far: Vec<Timer>,
}

struct Root {
    top: bool,
    w: W,
    t: usize,
    id: u64,
    strands: Vec<Strand>,
    value: u32,
    done: bool,
    wrap: bool,
    fwd: Option<Waker>,
    inner: Option<Waker>,
    dropped: Arc<Racy<(bool, u64)>>,
    tid: std::thread::ThreadId,
}
impl Drop for Root {
    fn drop(&mut self) {
        self.dropped.get().0 = true;
        for s in &self.strands {
            if let Cur::Read(p, ..) = s.cur {
                self.w.get().pipes[p].busy = false;
            }
        }
    }
}

impl Root {
    fn step(&mut self, k: usize, cx: &mut Context<'_>) -> Poll<()> {
        let w = self.w.clone();
        let t = self.t;
        loop {
            let s = &mut self.strands[k];
            let Some(step) = s.steps.get(s.i).cloned() else {
                s.far.clear();
                return Poll::Ready(());
            };
            let fresh = matches!(s.cur, Cur::None);
            if fresh {
                s.began = sim::now();
                s.pended = false;
            }
            macro_rules! next {
                () => {{
                    let s = &mut self.strands[k];
                    s.cur = Cur::None;
                    s.i += 1;
                    continue;
                }};
            }
            macro_rules! pend {
                () => {{
                    self.strands[k].pended = true;
                    return Poll::Pending;
                }};
            }
            match step {
                Step::Sleep(us) => {
                    if fresh {
                        let d = Duration::from_micros(us as u64);
                        let at = sim::now();
                        s.cur = Cur::Sleep(Timer::after(d), at + d.as_nanos() as u64);
                    }
                    let Cur::Sleep(tm, at) = &mut s.cur else { unreachable!() };
                    let at = *at;
                    match Pin::new(tm).poll(cx) {
                        Poll::Pending => pend!(),
                        Poll::Ready(_) => {
                            if sim::now() < at {
                                w.get().bad(EARLY, || format!("a timer for {at} ns fired at {} ns", sim::now()));
                            }
                            w.get().prompt(t, "a sleep", at, self.strands[k].began);
                            tag(G_SLEEP);
                            w.get().nontriv |= w.get().mask & (LATE_DRV | LATE_ALL) != 0;
                            next!()
                        }
                    }
                }
                Step::Yield(n) => {
                    if fresh {
                        s.cur = Cur::Yield(n, sim::now());
                    }
                    let Cur::Yield(left, at) = &mut s.cur else { unreachable!() };
                    if *left == 0 {
                        let (at, b) = (*at, s.began);
                        w.get().prompt(t, "a poll after waking itself", at, b);
                        next!()
                    }
                    *left -= 1;
                    *at = sim::now();
                    cx.waker().wake_by_ref();
                    pend!()
                }
                Step::Signal(c) => {
                    signal(&w, c as usize);
                    next!()
                }
                Step::Wait(c) | Step::Take(c) => {
                    let c = c as usize;
                    let token = matches!(step, Step::Take(_));
                    if fresh {
                        let ch = &mut w.get().chans[c];
                        s.cur = Cur::Wait(if token { ch.taken } else { ch.sent.len() });
                        ch.taken += 1;
                    }
                    let Cur::Wait(n) = s.cur else { unreachable!() };
                    // Cloning is a yield point: none may come between the check and the registration.
                    let mine = cx.waker().clone();
                    let ch = &mut w.get().chans[c];
                    let rel = w.get().released;
                    if ch.sent.len() > n || rel.is_some() {
                        drop(mine);
                        let ch = &mut w.get().chans[c];
                        let at = ch.sent.get(n).copied().unwrap_or(u64::MAX).min(rel.unwrap_or(u64::MAX));
                        let (b, p) = (s.began, s.pended);
                        w.get().prompt(t, "a poll after a wake by another thread", at, b);
                        if p {
                            tag(if token { G_TOKEN } else { G_WAIT });
                            w.get().nontriv |= w.get().mask & (LATE_DRV | NEST | POLLS | VALUE) != 0;
                        }
                        next!()
                    }
                    let key = (self.id << 8) | k as u64;
                    let old = ch.waiters.iter().position(|x| x.0 == key).map(|i| ch.waiters.swap_remove(i));
                    ch.waiters.push((key, mine));
                    drop(old);
                    pend!()
                }
                Step::Write(p) => {
                    write(&w, p as usize);
                    next!()
                }
                Step::Read(p, style) => {
                    let p = p as usize;
                    if fresh {
                        ensure_pipe(&w, p);
                        let pp = &mut w.get().pipes[p];
                        if pp.busy {
                            next!()
                        }
                        pp.busy = true;
                        self.strands[k].cur = Cur::Read(p, style % 4, None, None);
                    }
                    let h = w.get().pipes[p].h.clone().unwrap();
                    let s = &mut self.strands[k];
                    let first = !s.pended;
                    let Cur::Read(_, style, fut, op) = &mut s.cur else { unreachable!() };
                    let mut tried = *style != 3 || !first;
                    let mut rounds = 0;
                    let done = loop {
                        rounds += 1;
                        if rounds > 100 {
                            run::fail("a wait for readability keeps completing at once although there is nothing to read");
                        }
                        if *style == 2 {
                            let o = op.get_or_insert_with(|| {
                                let h = h.clone();
                                Box::pin(async move {
                                    h.read_with(|io| {
                                        let mut b = [0u8; 1];
                                        match unsafe { libc::read(io.0.as_raw_fd(), b.as_mut_ptr() as *mut _, 1) } {
                                            1 => Ok(1),
                                            _ => Err(std::io::Error::last_os_error()),
                                        }
                                    })
                                    .await
                                })
                            });
                            match o.as_mut().poll(cx) {
                                Poll::Ready(Ok(_)) => break true,
                                Poll::Ready(Err(e)) => run::fail(format!("read_with failed: {e}")),
                                Poll::Pending => break false,
                            }
                        }
                        if tried {
                            let mut b = [0u8; 1];
                            let r = unsafe { libc::read(w.get().pipes[p].r, b.as_mut_ptr() as *mut _, 1) };
                            if r == 1 {
                                break true;
                            }
                        }
                        tried = true;
                        let r = match style {
                            1 => h.poll_readable(cx),
                            _ => {
                                let f = fut.get_or_insert_with(|| h.clone().readable_owned());
                                let r = Pin::new(f).poll(cx);
                                if r.is_ready() {
                                    *fut = None;
                                }
                                r
                            }
                        };
                        match r {
                            Poll::Pending => break false,
                            Poll::Ready(Err(e)) => run::fail(format!("a readability wait failed: {e}")),
                            Poll::Ready(Ok(())) => {}
                        }
                    };
                    drop(h);
                    if !done {
                        pend!()
                    }
                    let at = w.get().pipes[p].written.pop_front().unwrap_or(0);
                    w.get().pipes[p].busy = false;
                    let (b, pd) = (self.strands[k].began, self.strands[k].pended);
                    w.get().prompt(t, "a read of available data", at, b);
                    if pd {
                        tag(G_READ);
                        w.get().nontriv |= w.get().mask & (LATE_DRV | LATE_ALL) != 0;
                    }
                    next!()
                }
                Step::Nested(prog, drv) => {
                    tag(G_NESTED);
                    let wakes0 = w.get().thr[t].wakes;
                    let polls0 = w.get().thr[t].all_polls;
                    w.get().nontriv |= w.get().mask & NEST != 0;
                    run_prog(&w, t, &prog, drv, self.wrap);
                    let th = &w.get().thr[t];
                    if th.wakes > wakes0 && th.all_polls > polls0 {
                        tag(G_NESTW);
                    }
                    w.get().thr[t].free_at = sim::now();
                    next!()
                }
                Step::Block(us) => {
                    tag(G_BLOCK);
                    std::thread::sleep(Duration::from_micros(us as u64));
                    w.get().thr[t].free_at = sim::now();
                    next!()
                }
                Step::Panic => {
                    tag(G_PANIC);
                    self.strands[k].i += 1;
                    // As when it is ready: later polls need wakes of their own.
                    if self.top {
                        let th = &mut w.get().thr[t];
                        th.base = (th.wakes_done, th.polls, th.calls);
                    }
                    std::panic::panic_any("future panic on purpose");
                }
                Step::BadTimer(us) => {
                    let cell = WakeCell::new();
                    *cell.panics.get() = true;
                    let wk = Waker::from(cell.clone());
                    let mut tm = Timer::after(Duration::from_micros(us as u64));
                    let _ = Pin::new(&mut tm).poll(&mut Context::from_waker(&wk));
                    w.get().bad_cells.push(cell);
                    w.get().keep.push(Box::new(tm));
                    next!()
                }
                Step::BadWait(p) => {
                    ensure_pipe(&w, p as usize);
                    let cell = WakeCell::new();
                    *cell.panics.get() = true;
                    let wk = Waker::from(cell.clone());
                    let mut f = w.get().pipes[p as usize].h.clone().unwrap().readable_owned();
                    let _ = Pin::new(&mut f).poll(&mut Context::from_waker(&wk));
                    w.get().bad_cells.push(cell);
                    w.get().keep.push(Box::new(f));
                    next!()
                }
                Step::BadDisplace(p) => {
                    ensure_pipe(&w, p as usize);
                    let h = w.get().pipes[p as usize].h.clone().unwrap();
                    let cell = WakeCell::new();
                    *cell.panics.get() = true;
                    let wk = Waker::from(cell.clone());
                    let r1 = h.poll_writable(&mut Context::from_waker(&wk));
                    let other = WakeCell::new();
                    let wk2 = Waker::from(other);
                    let r2 = h.poll_writable(&mut Context::from_waker(&wk2));
                    if r1.is_pending() && r2.is_pending() {
                        // Another thread may have displaced it, and not yet have got to wake it.
                        w.get().displaced.push(cell.clone());
                        tag(G_DISP);
                    }
                    w.get().bad_cells.push(cell);
                    next!()
                }
                Step::BadDrop(how, us) => {
                    let bomb = Bomb::waker(&w);
                    let p = us as usize % PIPES;
                    if how >= 5 {
                        ensure_pipe(&w, p);
                    }
                    let w2 = w.clone();
                    let own = cx.waker().clone();
                    // What is dropped by this very code may panic here.
                    own_panics(move || {
                        let cx = &mut Context::from_waker(&bomb);
                        match how {
                            0..=4 => {
                                let mut tm = Timer::after(Duration::from_micros(us as u64));
                                let _ = Pin::new(&mut tm).poll(cx);
                                own_panics(move || drop(bomb));
                                match how {
                                    0 => return,
                                    1 => own_panics(|| drop(Pin::new(&mut tm).poll(&mut Context::from_waker(&own)))),
                                    2 => own_panics(|| tm.set_after(Duration::from_micros(us as u64 / 2 + 100))),
                                    3 => own_panics(|| tm = Timer::never()),
                                    _ => {}
                                }
                                w2.get().keep.push(Box::new(tm));
                            }
                            5 => {
                                let mut f = w2.get().pipes[p].h.clone().unwrap().readable_owned();
                                let _ = Pin::new(&mut f).poll(cx);
                                own_panics(move || drop(bomb));
                                w2.get().keep.push(Box::new(f));
                            }
                            _ => {
                                let h = w2.get().pipes[p].h.clone().unwrap();
                                let _ = h.poll_writable(cx);
                                own_panics(move || drop(bomb));
                                own_panics(|| drop(h.poll_writable(&mut Context::from_waker(&own))));
                            }
                        }
                    });
                    next!()
                }
                Step::BadBurst(n) => {
                    for i in 0..n {
                        let bomb = Bomb::waker(&w);
                        own_panics(move || {
                            let mut tm = Timer::after(Duration::from_secs(60 + i as u64));
                            let _ = Pin::new(&mut tm).poll(&mut Context::from_waker(&bomb));
                            own_panics(move || drop(bomb));
                        });
                        // Not caught: these timers have ordinary wakers.
                        if i % 4 == 0 {
                            let mut tm = Timer::after(Duration::from_secs(90));
                            let _ = Pin::new(&mut tm).poll(cx);
                        }
                    }
                    next!()
                }
                Step::BadClone(how, after, us) => {
                    let p = us as usize % PIPES;
                    if how >= 3 {
                        ensure_pipe(&w, p);
                    }
                    let bad = fragile(&w, after as u32);
                    let w2 = w.clone();
                    let own = cx.waker().clone();
                    let displaced = WakeCell::new();
                    let dw = Waker::from(displaced.clone());
                    // The panic reaches this poll and nobody else.
                    own_panics(move || {
                        let cx = &mut Context::from_waker(&bad);
                        match how {
                            0..=2 => {
                                let mut tm = Timer::after(Duration::from_micros(us as u64));
                                if how == 1 {
                                    let _ = Pin::new(&mut tm).poll(&mut Context::from_waker(&own));
                                }
                                own_panics(|| drop(Pin::new(&mut tm).poll(cx)));
                                if how != 2 {
                                    w2.get().keep.push(Box::new(tm));
                                }
                            }
                            3 | 4 => {
                                let mut f = w2.get().pipes[p].h.clone().unwrap().readable_owned();
                                if how == 4 {
                                    let _ = Pin::new(&mut f).poll(&mut Context::from_waker(&own));
                                }
                                own_panics(|| drop(Pin::new(&mut f).poll(cx)));
                                if after % 2 == 0 {
                                    w2.get().keep.push(Box::new(f));
                                }
                            }
                            _ => {
                                let h = w2.get().pipes[p].h.clone().unwrap();
                                if how == 5 {
                                    let _ = h.poll_writable(&mut Context::from_waker(&dw));
                                }
                                own_panics(|| drop(h.poll_writable(cx)));
                            }
                        }
                    });
                    next!()
                }
                Step::Busy(us) => {
                    let short = Duration::from_nanos(1 + us as u64 * 100);
                    if fresh {
                        let fd = unsafe { libc::eventfd(0, libc::EFD_CLOEXEC | libc::EFD_NONBLOCK) };
                        if fd < 0 {
                            run::abort_case("eventfd");
                        }
                        let Ok(h) = Async::new(Fd(unsafe { OwnedFd::from_raw_fd(fd) })) else {
                            run::fail("cannot register a fresh eventfd");
                        };
                        let cell = WakeCell::new();
                        let mut f = Arc::new(h).readable_owned();
                        let _ = Pin::new(&mut f).poll(&mut Context::from_waker(&Waker::from(cell.clone())));
                        unsafe { libc::write(fd, &1u64 as *const u64 as *const _, 8) };
                        self.strands[k].cur = Cur::Busy(Timer::after(short), 0, cell, f);
                    }
                    let s = &mut self.strands[k];
                    let Cur::Busy(tm, n, cell, _) = &mut s.cur else { unreachable!() };
                    if cell.count() > 0 {
                        tag(G_BUSY);
                        w.get().nontriv |= w.get().mask & (LATE_DRV | LATE_ALL) != 0;
                        next!()
                    }
                    let mut short = short;
                    if Pin::new(&mut *tm).poll(cx).is_ready() {
                        *n += 1;
                        loop {
                            *tm = Timer::after(short);
                            if Pin::new(&mut *tm).poll(cx).is_pending() {
                                break;
                            }
                            short *= 2;
                        }
                    }
                    if *n > 200 {
                        w.get().bad(LATE_DRV | LATE_ALL, || "a readable handle is not noticed while timers keep firing".into());
                    }
                    // Longer than the timer takes.
                    std::thread::sleep(short * 2);
                    pend!()
                }
                Step::Flood(us) => {
                    if fresh {
                        let fd = unsafe { libc::eventfd(1, libc::EFD_CLOEXEC | libc::EFD_NONBLOCK) };
                        if fd < 0 {
                            run::abort_case("eventfd");
                        }
                        let Ok(h) = Async::new(Fd(unsafe { OwnedFd::from_raw_fd(fd) })) else {
                            run::fail("cannot register a fresh eventfd");
                        };
                        let h = Arc::new(h);
                        let cell = WakeCell::new();
                        let mut tm = Timer::after(Duration::from_micros(us as u64));
                        if Pin::new(&mut tm).poll(&mut Context::from_waker(&Waker::from(cell.clone()))).is_ready() {
                            next!()
                        }
                        let at = sim::now() + us as u64 * 1000;
                        let f = h.clone().readable_owned();
                        self.strands[k].cur = Cur::Flood(tm, at, 0, cell, h, f);
                    }
                    let s = &mut self.strands[k];
                    let Cur::Flood(_, at, n, cell, h, f) = &mut s.cur else { unreachable!() };
                    if cell.count() > 0 {
                        tag(G_FLOOD);
                        w.get().nontriv |= w.get().mask & (LATE_DRV | LATE_ALL) != 0;
                        next!()
                    }
                    for _ in 0..2 {
                        match Pin::new(&mut *f).poll(cx) {
                            Poll::Pending => break,
                            Poll::Ready(Err(e)) => run::fail(format!("a readability wait failed: {e}")),
                            Poll::Ready(Ok(())) => {
                                *n += (sim::now() > *at) as u32;
                                *f = h.clone().readable_owned();
                            }
                        }
                    }
                    if *n > 200 {
                        w.get().bad(LATE_DRV | LATE_ALL, || "a due timer does not fire while a handle keeps being ready".into());
                    }
                    std::thread::sleep(Duration::from_micros(20));
                    pend!()
                }
                Step::Stash(c) => {
                    let old = w.get().stash[c as usize].replace((cx.waker().clone(), t, self.id));
                    drop(old);
                    next!()
                }
                Step::WakeStash(c) => {
                    wake_stash(&w, c as usize);
                    next!()
                }
                Step::SelfWake => {
                    cx.waker().wake_by_ref();
                    if s.i + 1 == s.steps.len() {
                        tag(G_SELFREADY);
                    }
                    next!()
                }
                Step::Far(secs) => {
                    let mut tm = Timer::after(Duration::from_secs(3600 + secs as u64));
                    let _ = Pin::new(&mut tm).poll(cx);
                    tag(G_FAR);
                    self.strands[k].far.push(tm);
                    next!()
                }
            }
        }
    }
}

impl Future for Root {
    type Output = Box<u32>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Box<u32>> {
        let me = self.get_mut();
        let w = me.w.clone();
        let t = me.t;
        if me.done {
            w.get().bad(VALUE, || format!("thread {t}: the future was polled again after it was ready"));
        }
        if me.tid != std::thread::current().id() {
            w.get().bad(VALUE, || "the future was polled by another thread".into());
        }
        let (k, p, c) = {
            let th = &mut w.get().thr[t];
            th.all_polls += 1;
            if me.top {
                th.polls += 1;
            } else {
                th.nest.1 += 1;
            }
            if !me.top { th.nest } else { (th.wakes - th.base.0, th.polls - th.base.1, th.calls - th.base.2) }
        };
        if me.wrap && p > k + c {
            w.get().bad(POLLS, || format!("thread {t}: {p} polls in {c} block_on calls with only {k} wakes"));
        }
        let waker = if me.wrap {
            if !me.inner.as_ref().is_some_and(|i| i.will_wake(cx.waker())) {
                me.inner = Some(cx.waker().clone());
                me.fwd = Some(Waker::from(Arc::new(Fwd { inner: cx.waker().clone(), w: w.clone(), t, top: me.top })));
            }
            me.fwd.clone().unwrap()
        } else {
            cx.waker().clone()
        };
        let mut cx = Context::from_waker(&waker);
        let mut all = true;
        for k in 0..me.strands.len() {
            all &= me.step(k, &mut cx).is_ready();
        }
        if all {
            me.done = true;
            me.dropped.get().1 = sim::now();
            // A wake that has ended by now must not cause a poll in a later call.
            let th = &mut w.get().thr[t];
            if me.top {
                th.base = (th.wakes_done, th.polls, th.calls);
            }
            return Poll::Ready(Box::new(me.value));
        }
        Poll::Pending
    }
}

fn run_prog(w: &W, t: usize, p: &Prog, driver: bool, wrap: bool) {
    let dropped = Arc::new(Racy::new((false, 0u64)));
    let id = {
        let x = w.get();
        x.ids += 1;
        x.thr[t].depth += 1;
        if x.thr[t].depth == 1 && driver {
            x.thr[t].calls += 1;
        } else {
            x.thr[t].nest.2 += 1;
        }
        if driver {
            x.active_drivers += 1;
            if x.active_drivers > 1 {
                tag(G_TWO);
            }
        } else {
            tag(G_PLAIN);
        }
        x.ids
    };
    let top = driver && w.get().thr[t].depth == 1;
    let root = Root {
        top,
        w: w.clone(),
        t,
        id,
        strands: p
            .strands
            .iter()
            .map(|s| Strand { steps: s.clone(), i: 0, cur: Cur::None, began: 0, pended: false, far: vec![] })
            .collect(),
        value: p.value,
        done: false,
        wrap,
        fwd: None,
        inner: None,
        dropped: dropped.clone(),
        tid: std::thread::current().id(),
    };
    let was_driver = std::mem::replace(&mut w.get().thr[t].driver, driver);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if driver {
            async_io::block_on(root)
        } else {
            futures_lite::future::block_on(root)
        }
    }));
    let x = w.get();
    x.thr[t].driver = was_driver;
    x.thr[t].depth -= 1;
    x.ended.push(id);
    if driver {
        x.active_drivers -= 1;
    }
    if !dropped.get().0 && driver {
        x.bad(VALUE, || format!("thread {t}: block_on came back without dropping the future"));
    }
    match res {
        Ok(v) => {
            tag(G_DONE);
            if x.thr[t].panicked {
                tag(G_AFTERP);
            }
            x.nontriv |= x.mask & VALUE != 0 && p.strands.iter().any(|s| !s.is_empty());
            if *v != p.value {
                x.bad(VALUE, || format!("block_on returned {} instead of {}", v, p.value));
            }
            let late = sim::now().saturating_sub(dropped.get().1);
            if late > TOL + sim::stalled() {
                x.bad(LATE_DRV | LATE_ALL, || format!("thread {t}: block_on came back {late} ns after the future was ready"));
            }
        }
        Err(e) => {
            let text = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
            if text != "future panic on purpose" {
                x.bad(DONE | VALUE | NEST | LATE_DRV | LATE_ALL, || format!("thread {t}: block_on panicked: {text}"));
            }
            x.thr[t].panicked = true;
            x.nontriv |= x.mask & DONE != 0;
        }
    }
}

/// A waker whose destructor panics.
struct Bomb(W);
impl Bomb {
    fn waker(w: &W) -> Waker {
        Waker::from(Arc::new(Bomb(w.clone())))
    }
}
impl std::task::Wake for Bomb {
    fn wake(self: Arc<Self>) {}
}
impl Drop for Bomb {
    fn drop(&mut self) {
        let w = self.0.get();
        w.nontriv |= w.mask & DONE != 0;
        tag(G_BOMB);
        if !std::thread::panicking() {
            std::panic::panic_any("waker panic on purpose");
        }
    }
}

/// Runs code that may drop the last reference of a waker whose destructor panics.
/// A waker whose clone() panics once it has been cloned so many times.
fn fragile(w: &W, clones: u32) -> Waker {
    use std::task::{RawWaker, RawWakerVTable};
    struct Inner {
        w: W,
        left: std::sync::atomic::AtomicU32,
    }
    unsafe fn clone(p: *const ()) -> RawWaker {
        let i = &*(p as *const Inner);
        if i.left.load(std::sync::atomic::Ordering::Relaxed) == 0 {
            let w = i.w.get();
            w.nontriv |= w.mask & DONE != 0;
            tag(G_CLONE);
            std::panic::panic_any("waker panic on purpose");
        }
        i.left.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        Arc::increment_strong_count(p as *const Inner);
        RawWaker::new(p, &VT)
    }
    unsafe fn wake_by_ref(_: *const ()) {}
    unsafe fn drop(p: *const ()) {
        Arc::decrement_strong_count(p as *const Inner);
    }
    static VT: RawWakerVTable = RawWakerVTable::new(clone, drop, wake_by_ref, drop);
    let i = Arc::new(Inner { w: w.clone(), left: clones.into() });
    unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(i) as *const (), &VT)) }
}

fn own_panics(f: impl FnOnce()) {
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        let text = e.downcast_ref::<&str>().copied().unwrap_or("?");
        if text != "waker panic on purpose" {
            std::panic::resume_unwind(e);
        }
    }
}

pub struct B {
    mask: u32,
    flavour: u8,
}

fn us() -> BoxedStrategy<u32> {
    prop_oneof![2 => 0u32..300, 3 => 300u32..20_000, 2 => 20_000u32..900_000].boxed()
}

fn step(f: u8, depth: u8) -> BoxedStrategy<Step> {
    let c = || 0u8..CHANS as u8;
    let p = || 0u8..PIPES as u8;
    let st = || 0u8..STASH as u8;
    let z = |v: u32, on: bool| if on { v } else { 0 };
    let nested = if depth > 0 {
        let pg = prog(f, depth - 1);
        (pg, prop_oneof![3 => Just(true), 1 => Just(false)]).prop_map(|(p, d)| Step::Nested(Box::new(p), d)).boxed()
    } else {
        Just(Step::SelfWake).boxed()
    };
    weighted(vec![
        (4, us().prop_map(Step::Sleep).boxed()),
        (2, (0u8..4).prop_map(Step::Yield).boxed()),
        (4, c().prop_map(Step::Signal).boxed()),
        (4, c().prop_map(Step::Wait).boxed()),
        (z(4, f != 7), p().prop_map(Step::Write).boxed()),
        (4, (p(), 0u8..4).prop_map(|(a, b)| Step::Read(a, b)).boxed()),
        (if f == 4 { 6 } else { 1 }, nested),
        (if f == 3 { 3 } else { z(1, f != 7) }, us().prop_map(Step::Block).boxed()),
        (if f == 7 { 1 } else { z(2, f == 5) }, Just(Step::Panic).boxed()),
        (z(3, f == 5), us().prop_map(Step::BadTimer).boxed()),
        (z(2, f == 5), p().prop_map(Step::BadWait).boxed()),
        (z(2, f == 5), p().prop_map(Step::BadDisplace).boxed()),
        (z(3, f == 5), (0u8..7, us()).prop_map(|(a, b)| Step::BadDrop(a, b)).boxed()),
        (z(1, f == 5), prop_oneof![30 => (0u16..20), 1 => 700u16..1100].prop_map(Step::BadBurst).boxed()),
        (z(2, f == 5), (0u8..7, 0u8..3, us()).prop_map(|(a, b, c)| Step::BadClone(a, b, c)).boxed()),
        (if f == 3 || f == 4 { 1 } else { z(1, f == 2) }, (0u8..20).prop_map(Step::Busy).boxed()),
        (if f == 3 || f == 4 { 1 } else { z(1, f == 2) }, (0u8..255).prop_map(Step::Flood).boxed()),
        (1, st().prop_map(Step::Stash).boxed()),
        (1, st().prop_map(Step::WakeStash).boxed()),
        (1, Just(Step::SelfWake).boxed()),
        (2, (0u32..50_000).prop_map(Step::Far).boxed()),
    ])
}

fn prog(f: u8, depth: u8) -> BoxedStrategy<Prog> {
    let n = if depth == 0 { 3 } else { 5 };
    (vec(vec(step(f, depth), 0..n), 0..4), any::<u32>()).prop_map(|(strands, value)| Prog { strands, value }).boxed()
}

impl Prop for B {
    type Case = Case;
    fn sched(&self, c: &Case) -> sim::Sched {
        c.sched.clone()
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<Case> {
        let f = self.flavour;
        let depth = if f == 4 { 2 } else { 1 };
        let nt = match f {
            8 => 2..6usize,
            _ => 1..5usize,
        };
        let np = if thorough { 6 } else { 4 };
        let thr = (
            prop_oneof![if f == 3 { 1 } else { 3 } => Just(true), if f == 2 || f == 1 { 0 + 1 } else { 2 } => Just(false)],
            prop_oneof![3 => Just(true), 1 => Just(false)],
            vec((prop_oneof![2 => Just(0u32), 2 => us()], prog(f, depth)), 1..np),
        )
            .prop_map(|(driver, wrap, progs)| Thr { driver, wrap, progs });
        let ext = prop_oneof![
            3 => us().prop_map(Ext::Advance),
            3 => (0u8..CHANS as u8).prop_map(Ext::Signal),
            3 => (0u8..PIPES as u8).prop_map(Ext::Write),
            1 => (0u8..STASH as u8).prop_map(Ext::WakeStash),
            2 => (0u16..200).prop_map(Ext::Run),
            2 => Just(Ext::Settle),
            1 => us().prop_map(Ext::Arm),
        ];
        let faults = if f == 9 {
            vec((0u16..60, prop_oneof![3 => Just(libc::EINTR as u8), 1 => Just(libc::ENOMEM as u8), 1 => Just(libc::EBADF as u8), 1 => Just(libc::EINVAL as u8)]), 1..24).boxed()
        } else {
            Just(vec![]).boxed()
        };
        (
            run::sched_strategy(false, f != 7),
            vec(thr, nt),
            vec(ext, 0..if thorough { 24 } else { 12 }),
            faults,
            if f == 8 { Just(false).boxed() } else { any::<bool>().boxed() },
            prop_oneof![
                if f == 2 { 1 } else { 4 } => Just(vec![]),
                1 => vec((any::<u8>(), any::<u8>(), 1u8..if thorough { 30 } else { 16 }), 1..PAIRS + 1)
            ],
        )
            .prop_map(|(sched, mut threads, ext, faults, pre, pairs)| {
                for (j, (a, b, n)) in pairs.into_iter().enumerate() {
                    let c = (CHANS + 2 * j) as u8;
                    let k = threads.len();
                    for (t, first) in [(a, true), (b, false)] {
                        let Thr { progs, .. } = &mut threads[t as usize % k];
                        let (mine, other) = if first { (c, c + 1) } else { (c + 1, c) };
                        let round = if first { [Step::Signal(other), Step::Take(mine)] } else { [Step::Take(mine), Step::Signal(other)] };
                        if let Some((_, p)) = progs.last_mut() {
                            p.strands.push(vec![round; n as usize].concat());
                        }
                    }
                }
                Case { sched, threads, ext, faults, pre }
            })
            .boxed()
    }

    fn exec(&self, c: &Case) {
        for (i, e) in &c.faults {
            sim::fault_wait(*i as u64, *e as i32);
        }
        let w: W = Arc::new(Racy::new(World {
            mask: self.mask,
            thr: c
                .threads
                .iter()
                .map(|t| ThrState {
                    wakes: 0,
                    polls: 0,
                    calls: 0,
                    wakes_done: 0,
                    nest: (0, 0, 0),
                    all_polls: 0,
                    base: (0, 0, 0),
                    free_at: 0,
                    depth: 0,
                    done: false,
                    panicked: false,
                    driver: t.driver,
                })
                .collect(),
            chans: (0..CHANS + 2 * PAIRS).map(|_| Chan { sent: vec![], waiters: vec![], taken: 0 }).collect(),
            pipes: (0..PIPES).map(|_| Pipe { h: None, w: None, r: -1, written: Default::default(), busy: false }).collect(),
            stash: (0..STASH).map(|_| None).collect(),
            active_drivers: 0,
            released: None,
            keep: vec![],
            bad_cells: vec![],
            displaced: vec![],
            ids: 0,
            ended: vec![],
            nontriv: false,
            creating: 0,
        }));
        if c.pre {
            for p in 0..PIPES {
                ensure_pipe(&w, p);
            }
        }
        for (t, th) in c.threads.iter().enumerate() {
            let (w, th) = (w.clone(), th.clone());
            sim::spawn(move || {
                for (k, (pause, p)) in th.progs.iter().enumerate() {
                    if k > 0 {
                        tag(G_AGAIN);
                    }
                    if *pause > 0 {
                        std::thread::sleep(Duration::from_micros(*pause as u64));
                    }
                    w.get().thr[t].free_at = sim::now();
                    run_prog(&w, t, p, th.driver, th.wrap);
                }
                w.get().thr[t].done = true;
            });
        }
        let mut armed: Vec<Timer> = vec![];
        for (i, e) in c.ext.iter().enumerate() {
            note(&format!("ext {i} {e:?}"));
            match e {
                Ext::Advance(us) => sim::advance(*us as u64 * 1000),
                Ext::Signal(k) => signal(&w, *k as usize),
                Ext::Write(p) => write(&w, *p as usize),
                Ext::WakeStash(k) => wake_stash(&w, *k as usize),
                Ext::Run(n) => sim::run_steps(*n as u64),
                Ext::Settle => sim::settle(),
                Ext::Arm(us) => {
                    let cell = WakeCell::new();
                    let mut t = Timer::after(Duration::from_micros(*us as u64));
                    let _ = Pin::new(&mut t).poll(&mut Context::from_waker(&Waker::from(cell)));
                    armed.push(t);
                }
            }
        }
        let all_done = |w: &W| w.get().thr.iter().all(|t| t.done);
        // Let everything that can finish do so.
        note("settling");
        sim::no_stalls();
        for _ in 0..40 {
            let before = (sim::now(), w.get().thr.iter().map(|t| t.all_polls).sum::<u64>());
            sim::advance(2_000_000_000);
            if all_done(&w) || w.get().thr.iter().map(|t| t.all_polls).sum::<u64>() == before.1 {
                break;
            }
        }
        if self.mask & IDLE != 0 {
            // Only waits for signals, data and far timers are left.
            note("idle");
            let (a, e) = (sim::all_wakeups(), sim::epoll_waits());
            let polls: u64 = w.get().thr.iter().map(|t| t.all_polls).sum();
            let far = !all_done(&w);
            sim::advance(2_000_000_000_000);
            let (da, de) = (sim::all_wakeups() - a, sim::epoll_waits() - e);
            if far {
                tag(G_IDLE);
                w.get().nontriv = true;
            }
            if da > 60 || de > 60 {
                w.get().bad(IDLE, || format!("idle for 2000 s: {da} thread wake-ups and {de} polls of the OS"));
            }
            let p2: u64 = w.get().thr.iter().map(|t| t.all_polls).sum();
            if p2 != polls {
                w.get().bad(IDLE, || format!("{} polls of futures while nothing happened", p2 - polls));
            }
        }
        // Then release the rest: signals for ever, and data for every reader.
        note("release");
        w.get().released = Some(sim::now());
        for round in 0..60 {
            if all_done(&w) {
                break;
            }
            for k in 0..CHANS + 2 * PAIRS {
                signal(&w, k);
            }
            for p in 0..PIPES {
                if w.get().pipes[p].busy && w.get().pipes[p].written.is_empty() {
                    write(&w, p);
                }
            }
            sim::advance(1_000_000_000 + sim::stalled());
            if round == 59 && !all_done(&w) {
                let l: Vec<String> =
                    w.get().thr.iter().enumerate().filter(|t| !t.1.done).map(|(i, t)| format!("{i} (async-io: {})", t.driver)).collect();
                let drv = w.get().thr.iter().any(|t| !t.done && t.driver);
                w.get().bad(LATE_ALL | NEST | DONE | if drv { LATE_DRV } else { 0 }, || {
                    format!("threads {l:?} do not finish although everything they wait for has happened [{}]", sim::describe())
                });
            }
        }
        let x = w.get();
        if x.displaced.iter().any(|c| c.count() == 0) {
            x.bad(DONE, || "a displaced task was not woken".into());
        }
        for cell in &x.bad_cells {
            if cell.count() > 0 {
                tag(G_PWAKER);
                x.nontriv |= x.mask & DONE != 0;
            }
        }
        if sim::faults_hit() > 0 {
            tag(G_FAULT);
            x.nontriv |= self.flavour == 9;
        }
        if self.mask & INIT != 0 {
            if x.creating > 1 {
                tag(G_COLD);
                x.nontriv = true;
            }
            if sim::epoll_creates() > 1 {
                x.bad(INIT, || format!("{} epoll instances were created", sim::epoll_creates()));
            }
            if sim::lib_threads() > 1 {
                x.bad(INIT, || format!("{} helper threads were spawned", sim::lib_threads()));
            }
        }
        // The system still works: a timer on this thread, which drives nothing.
        note("after");
        let cell = WakeCell::new();
        let wk = Waker::from(cell.clone());
        let mut t = Timer::after(Duration::from_millis(5));
        let p1 = Pin::new(&mut t).poll(&mut Context::from_waker(&wk));
        sim::advance(5_000_000 + TOL + sim::stalled());
        if p1.is_pending() && cell.count() == 0 {
            w.get().bad(LATE_ALL | DONE | INIT, || "a timer armed at the end never fires".into());
        }
        let t0 = sim::now();
        let v = async_io::block_on(async {
            Timer::after(Duration::from_millis(7)).await;
            42u8
        });
        if v != 42 || sim::now() < t0 + 7_000_000 || sim::now() > t0 + 7_000_000 + TOL + sim::stalled() {
            w.get().bad(LATE_ALL | DONE | LATE_DRV, || format!("block_on at the end took {} ns for 7 ms", sim::now() - t0));
        }
        if w.get().nontriv {
            run::nontrivial();
        }
        let _ = Instant::now;
        std::mem::forget(armed);
        std::mem::forget(w);
    }
}

fn go(d: &Def, o: &Opts, mask: u32, flavour: u8) -> i32 {
    run::run_prop(d, &B { mask, flavour }, o)
}

const ASSUME: &[&str] = &[
    "virtual clock and scheduler; sequentially consistent interleavings at atomic operations and system calls",
    "a step may be up to 150 ms of virtual time late (the helper thread backs off to 10 ms)",
    "Linux epoll backend",
];
const RULE: &str = "1-4 threads run generated programs (sleeping, self-waking, signalling, pipe I/O, nesting, blocking inside poll, stale wakes) under async_io::block_on or a plain executor; ";

macro_rules! def {
    ($id:literal, $title:literal, $rule:literal, $q:literal, $stuck:literal, $mask:expr, $fl:literal) => {
        Def {
            id: $id,
            title: $title,
            tags: TAGS,
            rule: concat!("1-4 threads run generated programs (sleeping, self-waking, signalling, pipe I/O, nesting, blocking inside poll, stale wakes) under async_io::block_on or a plain executor; non-trivial: ", $rule),
            quick: $q,
            stuck_violates: $stuck,
            run: |d, o| go(d, o, $mask, $fl),
            assumptions: ASSUME,
        }
    };
}

pub fn defs() -> Vec<Def> {
    let _ = RULE;
    vec![
        def!("B01", "block_on result and poll discipline", "a program with steps ran to completion", 30_000, false, VALUE, 1),
        def!("B02", "no lost or late wake-up in block_on", "a thread that was waiting got a wake, a timer or data", 40_000, true, LATE_DRV, 2),
        def!("B03", "progress under any mix of drivers", "a sleep or a read completed", 30_000, true, LATE_ALL, 3),
        def!("B04", "nested block_on", "a nested block_on ran", 30_000, true, NEST | VALUE | LATE_ALL, 4),
        def!("B05", "panic containment", "a future panicked under block_on or a panicking waker was woken or dropped", 30_000, true, DONE | VALUE | LATE_ALL, 5),
        def!("B07", "idle threads stay idle", "threads were waiting during the idle phase, or were woken by others", 30_000, true, IDLE | POLLS, 7),
        def!("B08", "one reactor, however many first uses race", "several first uses raced", 30_000, true, INIT | LATE_ALL, 8),
        def!("B09", "transient errors of the OS poll lose nothing", "a fault was hit", 30_000, true, LATE_ALL, 9),
    ]
}
