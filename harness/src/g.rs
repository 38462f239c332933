//! First uses that fail because the OS refuses the poller or the helper thread, and what comes after.
use crate::cells::{Racy, WakeCell};
use crate::r::{nonblock, Fd};
use crate::run::{self, note, tag, Def, Opts, Prop};
use crate::sim;
use async_io::{Async, ReadableOwned, Timer};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Waker};
use std::time::Duration;

const TOL: u64 = 200_000_000;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// Arms a timer (us) and leaves it.
    Timer(u32),
    /// Registers an eventfd and waits for it.
    Watch,
    /// block_on of a future that is ready.
    Ready,
    /// block_on of a future that polls itself n times.
    Yield(u8),
    /// block_on of a timer (us).
    Sleep(u32),
    /// The thread sleeps (us).
    Pause(u32),
    /// reactor_fd()
    ReactorFd,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sched: sim::Sched,
    /// how many of the first epoll_create1 calls, registrations and thread creations fail, and with what
    pub epoll: u8,
    pub add: u8,
    pub thread: u8,
    pub err: u8,
    /// operations without a second try
    pub once: bool,
    pub threads: Vec<Vec<Op>>,
}

pub const TAGS: &[&str] = &[
    "first_use_panicked", "refused_poller", "refused_registration_of_the_pollers_own_descriptors", "refused_thread", "timer_fired_by_helper", "watch_woken_by_helper",
    "block_on_slept", "several_refusals", "refused_in_other_thread_than_the_first",
];

struct World {
    panics: u64,
    timers: Vec<(Timer, Arc<WakeCell>, u64)>,
    waits: Vec<(ReadableOwned<Fd>, Arc<WakeCell>, i32)>,
    done: usize,
    panicked: Vec<std::thread::ThreadId>,
}
type W = Arc<Racy<World>>;

/// Runs `f`, again if the OS refused what the crate needs at its first use.
fn attempt<R>(w: &W, once: bool, mut f: impl FnMut() -> R) -> Option<R> {
    for _ in 0..16 {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut f)) {
            Ok(r) => return Some(r),
            Err(e) => {
                let text = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
                let x = w.get();
                x.panics += 1;
                x.panicked.push(std::thread::current().id());
                tag(0);
                if x.panics > sim::faults_hit() {
                    run::fail(format!("panic although the OS refused nothing (more): {text}"));
                }
                if once {
                    return None;
                }
            }
        }
    }
    run::fail("16 attempts have failed although the OS refused fewer than that");
}

fn watch() -> std::io::Result<(Arc<Async<Fd>>, i32)> {
    let fd = unsafe { libc::eventfd(0, libc::EFD_CLOEXEC) };
    if fd < 0 {
        run::abort_case("eventfd");
    }
    nonblock(fd);
    Ok((Arc::new(Async::new(Fd(unsafe { OwnedFd::from_raw_fd(fd) }))?), fd))
}

fn do_op(w: &W, once: bool, op: &Op) {
    match *op {
        Op::Timer(us) => {
            let mut tm = Timer::after(Duration::from_micros(us as u64));
            let at = sim::now() + us as u64 * 1000;
            let cell = WakeCell::new();
            let wk = Waker::from(cell.clone());
            if let Some(p) = attempt(w, once, || Pin::new(&mut tm).poll(&mut Context::from_waker(&wk))) {
                if p.is_pending() {
                    w.get().timers.push((tm, cell, at));
                }
            }
        }
        Op::Watch => {
            let Some(Ok((h, fd))) = attempt(w, once, || {
                // The registration itself may be what is refused.
                for _ in 0..8 {
                    match watch() {
                        Err(_) if !once => {}
                        r => return r,
                    }
                }
                watch()
            }) else {
                return;
            };
            debug_assert_eq!(h.get_ref().0.as_raw_fd(), fd);
            let cell = WakeCell::new();
            let wk = Waker::from(cell.clone());
            let mut f = h.readable_owned();
            match Pin::new(&mut f).poll(&mut Context::from_waker(&wk)) {
                std::task::Poll::Pending => w.get().waits.push((f, cell, fd)),
                std::task::Poll::Ready(r) => run::fail(format!("a wait on an empty eventfd is over at once: {r:?}")),
            }
        }
        Op::Ready => {
            if attempt(w, once, || async_io::block_on(async { 7u8 })).is_some_and(|v| v != 7) {
                run::fail("block_on returned something else");
            }
        }
        Op::Yield(n) => {
            attempt(w, once, || {
                let mut left = n;
                async_io::block_on(std::future::poll_fn(|cx| {
                    if left == 0 {
                        return std::task::Poll::Ready(());
                    }
                    left -= 1;
                    cx.waker().wake_by_ref();
                    std::task::Poll::Pending
                }))
            });
        }
        Op::Sleep(us) => {
            let mut t0 = 0;
            if attempt(w, once, || {
                t0 = sim::now();
                async_io::block_on(Timer::after(Duration::from_micros(us as u64)))
            })
            .is_some()
            {
                tag(6);
                let (d, late) = (us as u64 * 1000, sim::now() - t0);
                if late < d || late > d + TOL + sim::stalled() {
                    run::fail(format!("block_on of a timer of {d} ns took {late} ns"));
                }
            }
        }
        Op::Pause(us) => std::thread::sleep(Duration::from_micros(us as u64)),
        Op::ReactorFd => {
            attempt(w, once, || {
                async_io::os::unix::reactor_fd();
            });
        }
    }
}

fn pollers() -> usize {
    std::fs::read_dir("/proc/self/fd")
        .unwrap()
        .flatten()
        .filter(|e| std::fs::read_link(e.path()).is_ok_and(|l| l.to_string_lossy().contains("[eventpoll]")))
        .count()
}

pub struct G;

impl Prop for G {
    type Case = Case;
    fn sched(&self, c: &Case) -> sim::Sched {
        c.sched.clone()
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<Case> {
        let us = || prop_oneof![1 => 0u32..300, 3 => 300u32..20_000, 1 => 20_000u32..300_000];
        let op = prop_oneof![
            4 => us().prop_map(Op::Timer),
            2 => Just(Op::Watch),
            2 => Just(Op::Ready),
            1 => (0u8..4).prop_map(Op::Yield),
            3 => us().prop_map(Op::Sleep),
            3 => us().prop_map(Op::Pause),
            1 => Just(Op::ReactorFd),
        ];
        let few = || prop_oneof![3 => Just(0u8), 3 => 1u8..3, 1 => 3u8..5];
        let (n, t) = if thorough { (10, 5) } else { (6, 4) };
        (run::sched_strategy(true, false), few(), few(), few(), 0u8..3, any::<bool>(), vec(vec(op, 0..n), 1..t))
            .prop_map(|(sched, epoll, add, thread, err, once, threads)| Case { sched, epoll, add, thread, err, once, threads })
            .boxed()
    }
    fn exec(&self, c: &Case) {
        run::allow_panics(true);
        let err = [libc::EMFILE, libc::ENOMEM, libc::ENFILE][c.err as usize % 3];
        for i in 0..c.epoll as u64 {
            sim::fault_create(i, err);
        }
        for i in 0..c.add as u64 {
            sim::fault_add(i, if c.err == 0 { libc::ENOSPC } else { libc::ENOMEM });
        }
        for i in 0..c.thread as u64 {
            sim::fault_thread(i, libc::EAGAIN);
        }
        let w: W = Arc::new(Racy::new(World { panics: 0, timers: vec![], waits: vec![], done: 0, panicked: vec![] }));
        note("threads");
        for th in &c.threads {
            let (w, th, once) = (w.clone(), th.clone(), c.once);
            sim::spawn(move || {
                for op in &th {
                    do_op(&w, once, op);
                }
                w.get().done += 1;
            });
        }
        for _ in 0..20 {
            sim::advance(1_000_000_000);
            if w.get().done == c.threads.len() {
                break;
            }
        }
        if w.get().done != c.threads.len() {
            run::fail(format!("threads do not finish [{}]", sim::describe()));
        }
        // From now on nothing may be left of the refusals; nobody runs block_on.
        note("after");
        do_op(&w, false, &Op::Timer(5_000));
        do_op(&w, false, &Op::Watch);
        for (_, _, fd) in &w.get().waits {
            unsafe { libc::write(*fd, &1u64 as *const u64 as *const _, 8) };
        }
        sim::advance(1_000_000_000 + TOL + sim::stalled());
        for (_, cell, at) in &w.get().timers {
            if cell.count() == 0 {
                run::fail(format!("a timer due at {at} has not fired at {} [{}]", sim::now(), sim::describe()));
            }
            tag(4);
        }
        for (_, cell, _) in &w.get().waits {
            if cell.count() == 0 {
                run::fail("a readable handle has not woken its task");
            }
            tag(5);
        }
        note("block_on");
        do_op(&w, false, &Op::Sleep(7_000));
        // A thread that has delivered events to others for long leaves the reactor to the helper thread.
        note("hogging");
        let others: Vec<_> = (1..4u64)
            .map(|i| {
                let cell = WakeCell::new();
                let mut tm = Timer::after(Duration::from_millis(i));
                let _ = Pin::new(&mut tm).poll(&mut Context::from_waker(&Waker::from(cell.clone())));
                (tm, cell)
            })
            .collect();
        do_op(&w, false, &Op::Sleep(20_000));
        if others.iter().any(|o| o.1.count() == 0) {
            run::fail("a timer of another task has not fired during block_on");
        }
        let n = pollers();
        if n != 1 {
            run::fail(format!("{n} OS pollers exist"));
        }
        if sim::lib_threads() > 1 {
            run::fail(format!("{} helper threads were spawned", sim::lib_threads()));
        }
        let hit = sim::faults_hit();
        if hit > 0 {
            run::nontrivial();
            if hit > 1 {
                tag(7);
            }
            if c.epoll > 0 {
                tag(1);
            }
            if c.add > 0 {
                tag(2);
            }
            if c.thread > 0 {
                tag(3);
            }
            let p = &w.get().panicked;
            if p.iter().any(|t| *t != p[0]) {
                tag(8);
            }
        }
        std::mem::forget(others);
        std::mem::forget(w);
    }
}

fn go(d: &Def, o: &Opts) -> i32 {
    run::run_prop(d, &G, o)
}

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "B10",
        title: "a refused first use",
        tags: TAGS,
        rule: "1-3 threads arm timers, register handles and run block_on while the OS refuses the first epoll instances, registrations and threads; non-trivial: something was refused",
        quick: 20_000,
        stuck_violates: true,
        run: go,
        assumptions: &[
            "virtual clock and scheduler; sequentially consistent interleavings at atomic operations and system calls",
            "a step may be up to 200 ms of virtual time late",
            "Linux epoll backend; refusals of epoll_create1, epoll_ctl(ADD) and pthread_create",
        ],
    }]
}
