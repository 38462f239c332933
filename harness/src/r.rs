//! Readiness: a state machine over sources, waits and peers, checked against poll(2).
use crate::cells::{Racy, Task};
use crate::run::{self, note, tag, Def, Opts, Prop};
use crate::sim;
use async_io::{Async, Readable, ReadableOwned, Timer, Writable, WritableOwned};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, OwnedFd, RawFd};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

pub const TOL: u64 = 200_000_000;
const SRCS: usize = 4;
const WAITS: usize = 24;
const TASKS: usize = 8;
/// waits, tasks and sources of crowds come after the ordinary ones
const CROWD: u16 = 200;
const EXTRA: u16 = 40;
const RD: usize = 0;
const WR: usize = 1;

pub struct Fd(pub OwnedFd);
impl AsFd for Fd {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.0.as_fd()
    }
}
type H = Async<Fd>;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Stream,
    PipeR,
    PipeW,
    Event,
    Dgram,
    Listener,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Style {
    Ref,
    Owned,
    /// poll_readable / poll_writable
    Poll,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Open(u8, Kind),
    /// Creates a wait in a wait slot and polls it.
    Wait(u8, u8, bool, Style, u8),
    /// Polls an existing wait with a task.
    Poll(u8, u8),
    Drop(u8),
    /// Polls every wait whose task has been woken (what an executor does).
    PollWoken,
    PeerWrite(u8, u16),
    Drain(u8),
    Fill(u8),
    PeerDrain(u8),
    PeerShutdown(u8),
    PeerClose(u8),
    /// Drops all waits of the source, then the handle.
    Close(u8),
    /// Close, then a new source in the same slot at once.
    Reopen(u8, Kind),
    /// into_inner(), then registers the same descriptor again.
    Recycle(u8),
    Settle,
    Advance(u32),
    Run(u16),
    /// That many waits on one direction of one handle, each with a task of its own.
    Crowd(u8, bool, bool, u16),
    /// That many eventfds, each with a wait.
    Spread(u16, bool),
    /// Makes all of those readable.
    Flood,
    /// Runs an op on another thread.
    On(u8, Box<Op>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Helper {
    Idle,
    Ticking(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sched: sim::Sched,
    pub helpers: Vec<Helper>,
    pub ops: Vec<Op>,
}

const LOST: u32 = 1;
const FALSE: u32 = 2;
const HAND: u32 = 4;
const LEAK: u32 = 8;
const ERR: u32 = 16;
const STRAY: u32 = 32;

pub const TAGS: &[&str] = &[
    "completed", "woken", "rejected_stale_then_completed", "several_waits_one_direction", "wait_dropped_unwoken",
    "both_directions_pending", "displaced", "same_task_repoll", "close_with_event_in_flight", "slot_reopened", "hup", "write_ready_after_full",
    "wait_started_when_ready", "drained_while_waiting", "actor_poll", "helper", "recycled", "task_changed", "poll_style_ready", "crowd", "spread", "wait_cycles", "huge_crowd",
];
const G_DONE: usize = 0;
const G_WOKEN: usize = 1;
const G_REJECT: usize = 2;
const G_MANY: usize = 3;
const G_DROPU: usize = 4;
const G_BOTH: usize = 5;
const G_DISP: usize = 6;
const G_SAME: usize = 7;
const G_REOPEN: usize = 9;
const G_HUP: usize = 10;
const G_WRFULL: usize = 11;
const G_STARTREADY: usize = 12;
const G_DRAINED: usize = 13;
const G_ACTOR: usize = 14;
const G_HELPER: usize = 15;
const G_RECYCLED: usize = 16;
const G_TASKCH: usize = 17;
const G_POLLREADY: usize = 18;
const G_CROWD: usize = 19;
const G_SPREAD: usize = 20;
const G_CYCLES: usize = 21;
const G_HUGE: usize = 22;

enum Fut {
    R(Readable<'static, Fd>),
    W(Writable<'static, Fd>),
    RO(ReadableOwned<Fd>),
    WO(WritableOwned<Fd>),
}
impl Fut {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        match self {
            Fut::R(f) => Pin::new(f).poll(cx),
            Fut::W(f) => Pin::new(f).poll(cx),
            Fut::RO(f) => Pin::new(f).poll(cx),
            Fut::WO(f) => Pin::new(f).poll(cx),
        }
    }
}

/// One wait: a future, or a direction of a handle (poll style).
struct Wait {
    fut: Option<Fut>,
    src: usize,
    gen: u64,
    dir: usize,
    /// the task of the last poll, and its wake count just before that poll
    task: usize,
    base: usize,
    polled: bool,
    done: bool,
    busy: bool,
    saw_ready: bool,
    was_rejected: bool,
    // dropped last
    h: Option<Arc<H>>,
}

struct Src {
    h: Option<Arc<H>>,
    raw: RawFd,
    peer: Option<OwnedFd>,
    /// connected peers of a listener
    conns: Vec<OwnedFd>,
    addr: Vec<u8>,
    kind: Kind,
    gen: u64,
    ready: [bool; 2],
    /// poll style: the wait of each direction
    pw: [Option<Wait>; 2],
    filled: bool,
}

struct World {
    mask: u32,
    srcs: Vec<Option<Src>>,
    waits: Vec<Option<Wait>>,
    tasks: Vec<Task>,
    gen: u64,
    nontriv: bool,
    /// actor operations under way
    in_flight: usize,
    actors: bool,
    /// (task, wake count, why): the task must have been woken when everything is idle
    /// Every now and then something is dropped by a thread that unwinds.
    drops: u32,
    owed: Vec<(usize, usize, String)>,
}

pub fn pollfd(fd: RawFd) -> [bool; 2] {
    let mut p = libc::pollfd { fd, events: libc::POLLIN | libc::POLLPRI | libc::POLLOUT | libc::POLLRDHUP, revents: 0 };
    let r = unsafe { libc::poll(&mut p, 1, 0) };
    if r <= 0 {
        return [false, false];
    }
    let e = p.revents;
    let hup = e & (libc::POLLHUP | libc::POLLERR) != 0;
    [e & (libc::POLLIN | libc::POLLPRI | libc::POLLRDHUP) != 0 || hup, e & libc::POLLOUT != 0 || hup]
}

pub fn nonblock(fd: RawFd) {
    unsafe {
        let f = libc::fcntl(fd, libc::F_GETFL);
        libc::fcntl(fd, libc::F_SETFL, f | libc::O_NONBLOCK);
    }
}
fn own(fd: RawFd) -> OwnedFd {
    if fd < 0 {
        run::abort_case("out of descriptors");
    }
    unsafe { OwnedFd::from_raw_fd(fd) }
}
fn drain(fd: RawFd) -> usize {
    let mut b = [0u8; 65536];
    let mut n = 0;
    loop {
        let r = unsafe { libc::read(fd, b.as_mut_ptr() as *mut _, b.len()) };
        if r <= 0 {
            return n;
        }
        n += r as usize;
    }
}

fn unix_addr(name: &[u8]) -> (libc::sockaddr_un, libc::socklen_t) {
    let mut a: libc::sockaddr_un = unsafe { std::mem::zeroed() };
    a.sun_family = libc::AF_UNIX as u16;
    for (i, b) in name.iter().enumerate() {
        a.sun_path[i] = *b as libc::c_char;
    }
    (a, (2 + name.len()) as u32)
}

impl World {
    fn bad(&self, bit: u32, msg: impl FnOnce() -> String) {
        if self.mask & bit != 0 {
            run::fail(msg());
        } else {
            sim::stop();
            run::mark_ok();
            unsafe { libc::_exit(0) }
        }
    }

    /// Creates the descriptors of a source: (local, peer, listener address).
    fn make(&mut self, k: Kind) -> (OwnedFd, Option<OwnedFd>, Vec<u8>) {
        let mut p = [0; 2];
        unsafe {
            match k {
                Kind::Stream | Kind::Dgram => {
                    let ty = if k == Kind::Stream { libc::SOCK_STREAM } else { libc::SOCK_DGRAM };
                    if libc::socketpair(libc::AF_UNIX, ty | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()) != 0 {
                        run::abort_case("socketpair");
                    }
                    let small = 4096i32;
                    for f in p {
                        libc::setsockopt(f, libc::SOL_SOCKET, libc::SO_SNDBUF, &small as *const _ as *const _, 4);
                    }
                    nonblock(p[1]);
                    (own(p[0]), Some(own(p[1])), vec![])
                }
                Kind::PipeR | Kind::PipeW => {
                    if libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
                        run::abort_case("pipe2");
                    }
                    libc::fcntl(p[1], libc::F_SETPIPE_SZ, 4096);
                    if k == Kind::PipeR {
                        nonblock(p[1]);
                        (own(p[0]), Some(own(p[1])), vec![])
                    } else {
                        nonblock(p[0]);
                        (own(p[1]), Some(own(p[0])), vec![])
                    }
                }
                Kind::Event => (own(libc::eventfd(0, libc::EFD_CLOEXEC)), None, vec![]),
                Kind::Listener => {
                    let s = own(libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0));
                    self.gen += 1;
                    let mut name = vec![0u8];
                    name.extend(format!("verif-{}-{}", std::process::id(), self.gen).bytes());
                    let (a, l) = unix_addr(&name);
                    if libc::bind(s.as_raw_fd(), &a as *const _ as *const _, l) != 0 || libc::listen(s.as_raw_fd(), 64) != 0 {
                        run::abort_case("bind");
                    }
                    (s, None, name)
                }
            }
        }
    }

    fn open(&mut self, s: usize, k: Kind) {
        if self.srcs[s].is_some() {
            return;
        }
        let (fd, peer, addr) = self.make(k);
        let raw = fd.as_raw_fd();
        let h = match Async::new(Fd(fd)) {
            Ok(h) => h,
            Err(e) => {
                self.bad(ERR, || format!("cannot register a fresh {k:?}: {e}"));
                return;
            }
        };
        self.gen += 1;
        self.srcs[s] = Some(Src {
            h: Some(Arc::new(h)),
            raw,
            peer,
            conns: vec![],
            addr,
            kind: k,
            gen: self.gen,
            ready: [false; 2],
            pw: [None, None],
            filled: false,
        });
        self.kernel();
    }

    /// The kernel state may have changed: record readiness in every wait concerned.
    fn kernel(&mut self) {
        for s in 0..self.srcs.len() {
            let Some(src) = &mut self.srcs[s] else { continue };
            let r = pollfd(src.raw);
            if r[WR] && !src.ready[WR] && src.filled {
                tag(G_WRFULL);
            }
            src.ready = r;
            let gen = src.gen;
            for w in src.pw.iter_mut().flatten() {
                w.saw_ready |= r[w.dir];
            }
            for w in self.waits.iter_mut().flatten() {
                if w.src == s && w.gen == gen && w.polled {
                    w.saw_ready |= r[w.dir];
                }
            }
        }
    }

    fn close(&mut self, s: usize) -> Option<Kind> {
        let busy = self.waits.iter().flatten().any(|w| w.src == s && w.busy);
        let src = self.srcs[s].as_ref()?;
        if busy || src.h.is_none() || src.pw.iter().flatten().any(|w| w.busy) {
            return None;
        }
        let mut h = self.srcs[s].as_mut()?.h.take();
        for w in 0..self.waits.len() {
            if self.waits[w].as_ref().is_some_and(|x| x.src == s) {
                self.drop_wait(w);
            }
        }
        let src = self.srcs[s].take()?;
        let k = src.kind;
        if let Some(a) = &h {
            if Arc::strong_count(a) != 1 {
                self.bad(LEAK, || format!("a handle without waits has {} references", Arc::strong_count(a)));
            }
        }
        self.drops += 1;
        run::drop_in(h.take(), self.drops % 4 == 1);
        Some(k)
    }

    fn drop_wait(&mut self, w: usize) {
        if self.waits[w].as_ref().is_some_and(|x| x.busy) {
            return;
        }
        if let Some(x) = &mut self.waits[w] {
            if x.polled && !x.done && self.tasks[x.task].wakes() == x.base {
                tag(G_DROPU);
            }
            x.busy = true;
            let (fut, h) = (x.fut.take(), x.h.take());
            self.drops += 1;
            run::drop_in(fut, self.drops % 4 == 3);
            drop(h);
            self.waits[w] = None;
        }
    }

    fn pending_in(&self, s: usize, dir: usize) -> usize {
        self.waits.iter().flatten().filter(|w| w.src == s && w.dir == dir && w.polled && !w.done).count()
            + self.srcs[s].as_ref().map_or(0, |x| x.pw[dir].is_some() as usize)
    }

    fn new_wait(&mut self, wslot: usize, s: usize, dir: usize, st: Style, task: usize) {
        if st == Style::Poll {
            self.poll_style(s, dir, task);
            return;
        }
        if self.waits[wslot].as_ref().is_some_and(|w| w.busy) {
            return;
        }
        if let Some(x) = &self.waits[wslot] {
            // Another thread is closing its handle and is going to drop it.
            if self.srcs[x.src].as_ref().is_some_and(|s| s.h.is_none()) {
                return;
            }
        }
        self.drop_wait(wslot);
        // No yield point until the wait is marked busy, which keeps the handle from being closed.
        let Some(src) = &self.srcs[s] else { return };
        let Some(hp) = src.h.as_ref().map(|h| h as *const Arc<H>) else { return };
        self.waits[wslot] = Some(Wait {
            fut: None,
            src: s,
            gen: src.gen,
            dir,
            task,
            base: 0,
            polled: false,
            done: false,
            busy: true,
            saw_ready: false,
            was_rejected: false,
            h: None,
        });
        let h: Arc<H> = unsafe { (*hp).clone() };
        // SAFETY: `Wait` keeps `h` alive and drops the future first.
        let hs: &'static H = unsafe { &*Arc::as_ptr(&h) };
        let fut = match (st, dir) {
            (Style::Ref, RD) => Fut::R(hs.readable()),
            (Style::Ref, _) => Fut::W(hs.writable()),
            (_, RD) => Fut::RO(h.clone().readable_owned()),
            (_, _) => Fut::WO(h.clone().writable_owned()),
        };
        let keep = if st == Style::Ref {
            Some(h)
        } else {
            drop(h);
            None
        };
        let w = self.waits[wslot].as_mut().unwrap();
        w.fut = Some(fut);
        w.h = keep;
        w.busy = false;
        self.poll_wait(wslot, task);
    }

    fn poll_wait(&mut self, wslot: usize, task: usize) {
        let base = self.tasks[task].wakes();
        let waker = self.tasks[task].waker.clone();
        let w = match &mut self.waits[wslot] {
            Some(w) if !w.busy && !w.done => w,
            _ => return,
        };
        if self.srcs[w.src].as_ref().map_or(true, |s| s.h.is_none()) {
            return;
        }
        let first = !w.polled;
        let src_ready = self.srcs[w.src].as_ref().map_or([false; 2], |s| s.ready);
        if first {
            w.saw_ready = src_ready[w.dir];
            if w.saw_ready {
                tag(G_STARTREADY);
            }
        } else if w.task != task {
            tag(G_TASKCH);
        }
        let woken = w.polled && self.tasks[w.task].wakes() > w.base;
        if woken {
            tag(G_WOKEN);
        }
        w.polled = true;
        w.busy = true;
        let mut fut = w.fut.take().unwrap();
        if first {
            let (s, d) = (w.src, w.dir);
            if self.pending_in(s, d) > 1 {
                tag(G_MANY);
                self.nontriv |= self.mask & HAND == 0;
            }
            if self.pending_in(s, 1 - d) > 0 {
                tag(G_BOTH);
            }
        }
        let r = fut.poll(&mut Context::from_waker(&waker));
        let w = self.waits[wslot].as_mut().unwrap();
        w.busy = false;
        w.fut = Some(fut);
        w.task = task;
        w.base = base;
        match r {
            Poll::Pending => {
                if woken && src_ready[w.dir] {
                    w.was_rejected = true;
                }
            }
            Poll::Ready(res) => {
                w.done = true;
                tag(G_DONE);
                if w.was_rejected {
                    tag(G_REJECT);
                }
                let (ok, dir, rej) = (w.saw_ready, w.dir, w.saw_ready && !src_ready[w.dir]);
                if rej {
                    tag(G_DRAINED);
                }
                self.nontriv |= self.mask & (LOST | FALSE) != 0;
                if let Err(e) = res {
                    self.bad(ERR, || format!("a wait on an open handle failed: {e}"));
                } else if !ok {
                    self.bad(FALSE, || {
                        format!("{} reported although the handle was never {} since the wait began",
                            if dir == RD { "readability" } else { "writability" }, if dir == RD { "readable" } else { "writable" })
                    });
                }
            }
        }
    }

    fn poll_style(&mut self, s: usize, dir: usize, task: usize) {
        let base = self.tasks[task].wakes();
        let waker = self.tasks[task].waker.clone();
        let Some(src) = &mut self.srcs[s] else { return };
        let Some(hp) = src.h.as_ref().map(|h| h as *const Arc<H>) else { return };
        let ready0 = src.ready[dir];
        if src.pw[dir].as_ref().is_some_and(|w| w.busy) {
            return;
        }
        let fresh = src.pw[dir].is_none();
        if fresh {
            src.pw[dir] = Some(Wait {
                fut: None,
                src: s,
                gen: src.gen,
                dir,
                task,
                base,
                polled: true,
                done: false,
                busy: false,
                saw_ready: ready0,
                was_rejected: false,
                h: None,
            });
        }
        let w = src.pw[dir].as_mut().unwrap();
        w.busy = true;
        let (old_task, old_base) = (w.task, w.base);
        let unwoken = !fresh && self.tasks[old_task].wakes() == old_base;
        let mut cx = Context::from_waker(&waker);
        // SAFETY: the busy mark keeps the handle open
        let h: &H = unsafe { &*hp };
        let r = if dir == RD { h.poll_readable(&mut cx) } else { h.poll_writable(&mut cx) };
        let w = self.srcs[s].as_mut().unwrap().pw[dir].as_mut().unwrap();
        w.busy = false;
        w.task = task;
        w.base = base;
        let saw = w.saw_ready;
        match r {
            Poll::Pending => {
                if unwoken {
                    if old_task != task {
                        tag(G_DISP);
                        self.nontriv |= self.mask & HAND != 0;
                        self.owed.push((old_task, old_base, format!("task {old_task} was displaced by task {task} without being woken")));
                    } else {
                        tag(G_SAME);
                    }
                }
            }
            Poll::Ready(res) => {
                self.srcs[s].as_mut().unwrap().pw[dir] = None;
                tag(G_DONE);
                tag(G_POLLREADY);
                self.nontriv |= self.mask & (LOST | FALSE) != 0;
                if unwoken && old_task != task {
                    self.owed.push((old_task, old_base, format!("task {task} got the readiness that task {old_task} was waiting for, which was not woken")));
                }
                if let Err(e) = res {
                    self.bad(ERR, || format!("poll_* on an open handle failed: {e}"));
                } else if !saw {
                    self.bad(FALSE, || format!("poll style (direction {dir}): readiness reported although the handle was never ready since the wait began"));
                }
            }
        }
    }

    fn unwoken_ready(&self) -> Option<String> {
        for (s, src) in self.srcs.iter().enumerate() {
            let Some(src) = src else { continue };
            let ready = pollfd(src.raw);
            let all = self.waits.iter().flatten().filter(|w| w.src == s && w.gen == src.gen).chain(src.pw.iter().flatten());
            for w in all {
                if w.polled && !w.done && !w.busy && ready[w.dir] && self.tasks[w.task].wakes() == w.base {
                    return Some(format!(
                        "lost wakeup: the {:?} in slot {s} is {} and everything is idle, but task {} waiting for it ({}) has not been woken [{}]",
                        src.kind,
                        if w.dir == RD { "readable" } else { "writable" },
                        w.task,
                        if w.fut.is_some() { "future" } else { "poll style" },
                        sim::describe()
                    ));
                }
            }
        }
        None
    }

    fn judge(&mut self) {
        sim::settle();
        self.be_patient(|w| w.owed.iter().any(|o| w.tasks[o.0].wakes() <= o.1));
        for (t, base, why) in std::mem::take(&mut self.owed) {
            if self.tasks[t].wakes() <= base {
                self.bad(HAND, || why);
            }
        }
        self.be_patient(|w| w.unwoken_ready().is_some());
        if let Some(m) = self.unwoken_ready() {
            self.bad(LOST, || m);
        }
    }

    /// Gives the others the time that they may take, not counting that for which the scheduler stalls them.
    fn be_patient(&self, wanting: impl Fn(&Self) -> bool) {
        if !wanting(self) {
            return;
        }
        let mut before = sim::stalled();
        sim::advance(TOL + sim::stall_left());
        // Neither the time for which threads were stalled meanwhile.
        for _ in 0..4 {
            if !wanting(self) || sim::stalled() == before {
                return;
            }
            sim::no_stalls();
            let more = sim::stalled() - before;
            before += more;
            sim::advance(TOL + more.max(sim::stall_left()));
        }
    }

    /// Many waits come and go on one handle, in a pattern given by the bits of `how`; nothing may pile up.
    fn cycles(&mut self, how: u64) {
        // Tables grow by doubling: the last round is long enough to show it.
        const N: [usize; 3] = [10, 10, 80];
        let fd = own(unsafe { libc::eventfd(0, libc::EFD_CLOEXEC) });
        let raw = fd.as_raw_fd();
        let Ok(h) = Async::new(Fd(fd)) else { run::abort_case("registration") };
        let h = Arc::new(h);
        let signal = |on: bool| unsafe {
            let mut v = 1u64;
            if on {
                libc::write(raw, &v as *const _ as *const _, 8);
            } else {
                libc::read(raw, &mut v as *mut _ as *mut _, 8);
            }
        };
        let mut bytes = [0; 3];
        for round in 0..3 {
            for k in 0..N[round] {
                let t = [Task::new(), Task::new()];
                let cx = |k: usize| Context::from_waker(&t[k].waker);
                let bit = |n: u64| how >> n & 1 == 1;
                let mut owned = Box::pin(h.clone().readable_owned());
                let mut lent = Box::pin(h.readable());
                if bit(0) {
                    let _ = owned.as_mut().poll(&mut cx(0));
                }
                if bit(1) {
                    let _ = lent.as_mut().poll(&mut cx(0));
                }
                if bit(2) {
                    let _ = h.poll_readable(&mut cx(0));
                }
                if bit(3) && k % 2 == 0 {
                    let _ = owned.as_mut().poll(&mut cx(1));
                    let _ = lent.as_mut().poll(&mut cx(1));
                }
                // The first event may be too old for the wait, the second one is not.
                let (mut a, mut b) = (!bit(0), !bit(1));
                for _ in 0..if bit(8) { 3 } else { 1 } {
                    if bit(4) || bit(5) && k % 3 == 0 {
                        signal(true);
                        sim::settle();
                    }
                    if bit(6) {
                        a = a || owned.as_mut().poll(&mut cx(0)).is_ready();
                        b = b || lent.as_mut().poll(&mut cx(0)).is_ready();
                    }
                    if bit(7) {
                        let _ = h.poll_readable(&mut cx(0));
                    }
                }
                signal(false);
            }
            signal(true);
            sim::settle();
            signal(false);
            bytes[round] = crate::alloc::bytes();
        }
        tag(G_CYCLES);
        if bytes[2] - bytes[1] > 640 {
            self.bad(LEAK, || format!("{N:?} rounds of waits on one handle leave memory behind: {bytes:?} bytes in use"));
        }
    }

    /// Re-polls whatever has been woken.
    fn poll_woken(&mut self, range: std::ops::Range<usize>) -> bool {
        let mut any = false;
        for w in range {
            if let Some(x) = &self.waits[w] {
                if x.polled && !x.done && !x.busy && self.tasks[x.task].wakes() > x.base {
                    let t = x.task;
                    any = true;
                    self.poll_wait(w, t);
                }
            }
        }
        for s in 0..self.srcs.len() {
            for dir in 0..2 {
                if let Some(x) = self.srcs[s].as_ref().and_then(|x| x.pw[dir].as_ref()) {
                    if !x.busy && self.tasks[x.task].wakes() > x.base {
                        let t = x.task;
                        any = true;
                        self.poll_style(s, dir, t);
                    }
                }
            }
        }
        any
    }

    /// `me`: 0 for the main thread, or 1 + the number of the actor; each has its own wait slots.
    fn step(&mut self, op: &Op, me: usize) {
        let (n, first) = if self.actors { (WAITS / 3, me * WAITS / 3) } else { (WAITS, 0) };
        let slot = |w: u8| first + w as usize % n;
        // An op on a slot without a source goes to the next one that has one.
        let open: Vec<bool> = self.srcs[..SRCS].iter().map(|s| s.is_some()).collect();
        let at = |s: u8| (0..SRCS).map(|k| (s as usize + k) % SRCS).find(|k| open[*k]).unwrap_or(s as usize);
        if self.in_flight > 0 && matches!(op, Op::Close(_) | Op::Reopen(..) | Op::Recycle(_)) {
            return;
        }
        match op {
            Op::Open(s, k) => self.open(*s as usize, *k),
            Op::Wait(w, s, write, st, t) => self.new_wait(slot(*w), at(*s), *write as usize, *st, *t as usize),
            Op::Poll(w, t) => self.poll_wait(slot(*w), *t as usize),
            Op::Drop(w) => {
                if let Some(x) = &self.waits[slot(*w)] {
                    if self.srcs[x.src].as_ref().is_some_and(|s| s.h.is_some()) {
                        self.drop_wait(slot(*w))
                    }
                }
            }
            Op::PollWoken => {
                self.poll_woken(first..first + n);
                if me == 0 {
                    self.poll_woken(WAITS..self.waits.len());
                }
            }
            Op::Crowd(s, write, owned, n) => {
                let s = at(*s);
                tag(G_CROWD);
                for k in 0..(*n as usize).min(self.waits.len() - WAITS) {
                    self.new_wait(WAITS + k, s, *write as usize, if *owned { Style::Owned } else { Style::Ref }, TASKS + k);
                }
            }
            Op::Spread(n, write) => {
                tag(G_SPREAD);
                for k in 0..(*n as usize).min(self.srcs.len() - SRCS) {
                    self.open(SRCS + k, Kind::Event);
                    self.new_wait(WAITS + k, SRCS + k, *write as usize, Style::Ref, TASKS + k);
                }
            }
            Op::Flood => {
                for k in SRCS..self.srcs.len() {
                    if let Some(x) = &self.srcs[k] {
                        let one = 1u64;
                        unsafe { libc::write(x.raw, &one as *const _ as *const _, 8) };
                    }
                }
                self.kernel();
            }
            Op::PeerWrite(s, n) => {
                let Some(src) = &mut self.srcs[at(*s)] else { return };
                let buf = vec![7u8; (*n as usize).clamp(1, 3000)];
                unsafe {
                    match (src.kind, &src.peer) {
                        (Kind::Stream | Kind::PipeR, Some(p)) => {
                            libc::write(p.as_raw_fd(), buf.as_ptr() as *const _, buf.len());
                        }
                        (Kind::Dgram, Some(p)) => {
                            libc::send(p.as_raw_fd(), buf.as_ptr() as *const _, buf.len().min(500), libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL);
                        }
                        (Kind::Event, _) => {
                            let one = 1u64;
                            libc::write(src.raw, &one as *const _ as *const _, 8);
                        }
                        (Kind::Listener, _) => {
                            if src.conns.len() < 8 {
                                let c = own(libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK, 0));
                                let (a, l) = unix_addr(&src.addr);
                                libc::connect(c.as_raw_fd(), &a as *const _ as *const _, l);
                                src.conns.push(c);
                            }
                        }
                        _ => {}
                    }
                }
                self.kernel();
            }
            Op::Drain(s) => {
                let Some(src) = &self.srcs[at(*s)] else { return };
                match src.kind {
                    Kind::PipeW => {}
                    Kind::Listener => loop {
                        let r = unsafe { libc::accept4(src.raw, std::ptr::null_mut(), std::ptr::null_mut(), libc::SOCK_CLOEXEC) };
                        if r < 0 {
                            break;
                        }
                        drop(own(r));
                    },
                    Kind::Event => {
                        let mut v = 0u64;
                        unsafe { libc::read(src.raw, &mut v as *mut _ as *mut _, 8) };
                    }
                    _ => {
                        drain(src.raw);
                    }
                }
                self.kernel();
            }
            Op::Fill(s) => {
                let Some(src) = &mut self.srcs[at(*s)] else { return };
                unsafe {
                    match src.kind {
                        Kind::Stream | Kind::PipeW | Kind::Dgram => {
                            let b = [1u8; 512];
                            for _ in 0..4096 {
                                let r = if src.kind == Kind::PipeW {
                                    libc::write(src.raw, b.as_ptr() as *const _, 512)
                                } else {
                                    libc::send(src.raw, b.as_ptr() as *const _, 512, libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL)
                                };
                                if r < 0 {
                                    break;
                                }
                            }
                        }
                        Kind::Event => {
                            let v = u64::MAX - 1;
                            libc::write(src.raw, &v as *const _ as *const _, 8);
                        }
                        _ => {}
                    }
                }
                src.filled = true;
                self.kernel();
            }
            Op::PeerDrain(s) => {
                let Some(src) = &self.srcs[at(*s)] else { return };
                if let (Kind::Stream | Kind::Dgram | Kind::PipeW, Some(p)) = (src.kind, &src.peer) {
                    drain(p.as_raw_fd());
                }
                if src.kind == Kind::Event {
                    let mut v = 0u64;
                    unsafe { libc::read(src.raw, &mut v as *mut _ as *mut _, 8) };
                }
                self.kernel();
            }
            Op::PeerShutdown(s) => {
                let Some(src) = &self.srcs[at(*s)] else { return };
                if let (Kind::Stream, Some(p)) = (src.kind, &src.peer) {
                    tag(G_HUP);
                    unsafe { libc::shutdown(p.as_raw_fd(), libc::SHUT_WR) };
                }
                self.kernel();
            }
            Op::PeerClose(s) => {
                let Some(src) = &mut self.srcs[at(*s)] else { return };
                if src.peer.is_some() {
                    tag(G_HUP);
                }
                // Without preemption: a poll must not see the new state before it is recorded.
                let (peer, conns) = (src.peer.take(), std::mem::take(&mut src.conns));
                sim::quiet(|| drop((peer, conns)));
                self.kernel();
            }
            Op::Close(s) => {
                self.close(at(*s));
            }
            Op::Reopen(s, k) => {
                let s = at(*s);
                if self.close(s).is_some() {
                    tag(G_REOPEN);
                    self.nontriv |= self.mask & STRAY != 0;
                    self.open(s, *k);
                }
            }
            Op::Recycle(s) => {
                let s = at(*s);
                let busy = self.waits.iter().flatten().any(|w| w.src == s && w.busy);
                let Some(src) = &self.srcs[s] else { return };
                if busy || src.h.is_none() || src.pw.iter().flatten().any(|w| w.busy) {
                    return;
                }
                let h = self.srcs[s].as_mut().unwrap().h.take().unwrap();
                for w in 0..self.waits.len() {
                    if self.waits[w].as_ref().is_some_and(|x| x.src == s) {
                        self.drop_wait(w);
                    }
                }
                self.srcs[s].as_mut().unwrap().pw = [None, None];
                let h = match Arc::try_unwrap(h) {
                    Ok(h) => h,
                    Err(a) => {
                        self.bad(LEAK, || format!("a handle without waits has {} references", Arc::strong_count(&a)));
                        return;
                    }
                };
                let fd = match h.into_inner() {
                    Ok(f) => f,
                    Err(e) => {
                        self.bad(ERR, || format!("into_inner failed: {e}"));
                        return;
                    }
                };
                match Async::new(fd) {
                    Ok(h) => {
                        tag(G_RECYCLED);
                        self.nontriv |= self.mask & STRAY != 0;
                        self.gen += 1;
                        let gen = self.gen;
                        let src = self.srcs[s].as_mut().unwrap();
                        src.h = Some(Arc::new(h));
                        src.gen = gen;
                    }
                    Err(e) => self.bad(ERR, || format!("cannot register a descriptor again: {e}")),
                }
                self.kernel();
            }
            Op::Settle => self.judge(),
            Op::Advance(d) => {
                sim::advance(*d as u64);
            }
            Op::Run(k) => sim::run_steps(*k as u64),
            Op::On(..) => {}
        }
    }
}

pub struct R {
    mask: u32,
    flavour: u8,
}

fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        5 => Just(Kind::Stream),
        2 => Just(Kind::PipeR),
        2 => Just(Kind::PipeW),
        2 => Just(Kind::Event),
        2 => Just(Kind::Dgram),
        1 => Just(Kind::Listener)
    ]
    .boxed()
}

fn op(f: u8) -> BoxedStrategy<Op> {
    // fewer distinct sources and tasks where interactions on one handle matter
    let nsrc = if f == 3 || f == 4 { 2u8 } else { SRCS as u8 };
    let s = || if nsrc == 2 { prop_oneof![4 => Just(0u8), 1 => Just(1u8)].boxed() } else { (0..nsrc).boxed() };
    let w = if f == 3 { 0..WAITS as u8 } else { 0..10u8 };
    let t = 0..TASKS as u8;
    let style = match f {
        4 => prop_oneof![1 => Just(Style::Ref), 8 => Just(Style::Poll)].boxed(),
        3 => prop_oneof![4 => Just(Style::Ref), 3 => Just(Style::Owned), 1 => Just(Style::Poll)].boxed(),
        _ => prop_oneof![3 => Just(Style::Ref), 2 => Just(Style::Owned), 3 => Just(Style::Poll)].boxed(),
    };
    let life = if f == 6 { 5 } else { 1 };
    run::weighted(vec![
        (3, (s(), kind()).prop_map(|(a, b)| Op::Open(a, b)).boxed()),
        (14, (w.clone(), s(), any::<bool>(), style, t.clone()).prop_map(|(a, b, c, d, e)| Op::Wait(a, b, c, d, e)).boxed()),
        (3, (w.clone(), t).prop_map(|(a, b)| Op::Poll(a, b)).boxed()),
        (if f == 3 || f == 5 { 8 } else { 2 }, w.prop_map(Op::Drop).boxed()),
        (6, Just(Op::PollWoken).boxed()),
        (7, (s(), 1u16..2000).prop_map(|(a, b)| Op::PeerWrite(a, b)).boxed()),
        (6, s().prop_map(Op::Drain).boxed()),
        (6, s().prop_map(Op::Fill).boxed()),
        (4, s().prop_map(Op::PeerDrain).boxed()),
        (1, s().prop_map(Op::PeerShutdown).boxed()),
        (1, s().prop_map(Op::PeerClose).boxed()),
        (life, s().prop_map(Op::Close).boxed()),
        (2 * life, (s(), kind()).prop_map(|(a, b)| Op::Reopen(a, b)).boxed()),
        (life, s().prop_map(Op::Recycle).boxed()),
        (5, Just(Op::Settle).boxed()),
        (2, (0u32..20_000_000).prop_map(Op::Advance).boxed()),
        (6, (1u16..200).prop_map(Op::Run).boxed()),
    ])
}

/// Both directions of one stream in rounds: some waits begin, some are dropped, something happens; then another round.
fn duel(f: u8, thorough: bool) -> BoxedStrategy<Vec<Op>> {
    let style = match f {
        4 => prop_oneof![1 => Just(Style::Ref), 3 => Just(Style::Poll)].boxed(),
        _ => prop_oneof![2 => Just(Style::Ref), 1 => Just(Style::Owned), 3 => Just(Style::Poll)].boxed(),
    };
    let round = (
        // Both handles and peers start from a state in which nothing is ready, mostly.
        (0u8..4, 0u8..4),
        vec((any::<bool>(), style, 0u8..4, 0u8..8), 1..4),
        prop_oneof![2 => Just(None), 3 => (0usize..3).prop_map(Some)],
        prop_oneof![3 => Just(0u8), 3 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)],
        prop_oneof![1 => Just(0u8), 4 => Just(1u8), 1 => Just(2u8)],
    )
        .prop_map(|((drain, fill), waits, gone, event, end)| {
            let mut v = vec![];
            if drain != 0 {
                v.push(Op::Drain(0));
            }
            if fill != 0 {
                v.push(Op::Fill(0));
            }
            for (k, (dir, style, task, early)) in waits.iter().enumerate() {
                v.push(Op::Wait(k as u8, 0, *dir, *style, *task));
                if *early == 0 {
                    v.push(Op::Settle);
                }
            }
            if let Some(k) = gone {
                v.push(Op::Drop((k % waits.len()) as u8));
            }
            if event & 1 != 0 {
                v.push(Op::PeerWrite(0, 1));
            }
            if event & 2 != 0 {
                v.push(Op::PeerDrain(0));
            }
            if end > 0 {
                v.push(Op::Settle);
                v.push(Op::PollWoken);
            }
            if end > 1 {
                for k in 0..3 {
                    v.push(Op::Drop(k));
                }
            }
            v
        });
    vec(round, 2..if thorough { 16 } else { 9 })
        .prop_map(|rounds| {
            let mut ops = vec![Op::Open(0, Kind::Stream)];
            ops.extend(rounds.into_iter().flatten());
            ops
        })
        .boxed()
}

impl Prop for R {
    type Case = Case;
    fn strategy(&self, thorough: bool) -> BoxedStrategy<Case> {
        let helper = prop_oneof![Just(Helper::Idle), (5u16..60).prop_map(Helper::Ticking)];
        let n = if thorough { 90 } else { 50 };
        let f = self.flavour;
        let o = op(f);
        let acting = prop_oneof![
            5 => o.clone(),
            1 => (0u8..2, o.clone()).prop_map(|(k, op)| match op {
                Op::Wait(..) | Op::Poll(..) | Op::Drop(..) | Op::PollWoken => Op::On(k, Box::new(op)),
                o => o,
            }),
        ];
        let crowded = run::weighted(vec![
            (12, o.clone()),
            (1, (0..SRCS as u8, any::<bool>(), any::<bool>(), prop_oneof![30 => 20..CROWD, 1 => CROWD..1500]).prop_map(|(a, b, c, d)| Op::Crowd(a, b, c, d)).boxed()),
            (1, (prop_oneof![30 => 8..EXTRA, 1 => EXTRA..1300], any::<bool>()).prop_map(|(a, b)| Op::Spread(a, b)).boxed()),
            (1, Just(Op::Flood).boxed()),
        ]);
        let first = vec((0..SRCS as u8, kind()).prop_map(|(a, b)| Op::Open(a, b)), 1..4);
        (
            run::sched_strategy(true, true),
            prop_oneof![3 => Just(vec![]), 2 => vec(helper, 1..3)],
            first,
            prop_oneof![24 => vec(o, 3..n), 12 => vec(acting, 3..n), 10 => duel(f, thorough), 1 => vec(crowded, 3..30)],
        )
            .prop_map(|(sched, helpers, mut a, b)| {
                a.extend(b);
                Case { sched, helpers, ops: a }
            })
            .boxed()
    }
    fn sched(&self, c: &Case) -> sim::Sched {
        c.sched.clone()
    }
    fn exec(&self, c: &Case) {
        // How many waits and sources the crowds of this case need.
        let (mut crowd, mut extra) = (0, 0);
        for o in &c.ops {
            match o {
                Op::Crowd(_, _, _, n) => crowd = crowd.max(*n as usize),
                Op::Spread(n, _) => extra = extra.max(*n as usize),
                _ => {}
            }
        }
        let crowd = crowd.max(extra);
        if crowd >= CROWD as usize {
            tag(G_HUGE);
        }
        let world = Arc::new(Racy::new(World {
            mask: self.mask,
            srcs: (0..SRCS + extra).map(|_| None).collect(),
            waits: (0..WAITS + crowd).map(|_| None).collect(),
            tasks: (0..TASKS + crowd).map(|_| Task::new()).collect(),
            gen: 0,
            nontriv: false,
            in_flight: 0,
            actors: c.ops.iter().any(|o| matches!(o, Op::On(..))),
            owed: vec![],
            drops: 0,
        }));
        let w = world.get();
        for h in &c.helpers {
            tag(G_HELPER);
            match h.clone() {
                Helper::Idle => sim::spawn(|| async_io::block_on(std::future::pending::<()>())),
                Helper::Ticking(ms) => sim::spawn(move || loop {
                    async_io::block_on(async { Timer::after(Duration::from_millis(ms as u64)).await });
                }),
            }
        }
        // Actor threads run their own queues of operations.
        let has_actors = c.ops.iter().any(|o| matches!(o, Op::On(..)));
        let queues: Arc<Racy<Vec<std::collections::VecDeque<Op>>>> = Arc::new(Racy::new(vec![Default::default(), Default::default()]));
        let mut actors = vec![];
        if has_actors {
            for k in 0..2 {
                let (q, wd) = (queues.clone(), world.clone());
                let (parker, unparker) = parking::pair();
                actors.push(unparker);
                sim::spawn(move || loop {
                    while let Some(op) = q.get()[k].pop_front() {
                        tag(G_ACTOR);
                        wd.get().in_flight += 1;
                        wd.get().step(&op, k + 1);
                        wd.get().in_flight -= 1;
                    }
                    parker.park();
                });
            }
        }
        for (i, op) in c.ops.iter().enumerate() {
            note(&format!("op {i} {op:?}"));
            match op {
                Op::On(k, op) => {
                    queues.get()[*k as usize].push_back((**op).clone());
                    actors[*k as usize].unpark();
                }
                _ => w.step(op, 0),
            }
        }
        note("final settling");
        sim::no_stalls();
        sim::advance(TOL + sim::stall_left());
        w.judge();
        // Everything that stays ready must complete within a few rounds.
        for round in 0..6 {
            w.poll_woken(0..WAITS + crowd);
            w.judge();
            if round == 5 {
                for (s, src) in w.srcs.iter().enumerate() {
                    let Some(src) = src else { continue };
                    let r = pollfd(src.raw);
                    let all = w.waits.iter().flatten().filter(|x| x.src == s && x.gen == src.gen).chain(src.pw.iter().flatten());
                    for x in all {
                        if x.polled && !x.done && !x.busy && r[x.dir] {
                            w.bad(LOST, || format!("a wait on a ready handle (slot {s}, direction {}) keeps being woken without completing", x.dir));
                        }
                    }
                }
            }
        }
        if self.mask & LEAK != 0 && c.sched.seed % 4 == 0 {
            note("cycles");
            w.cycles(c.sched.seed / 4);
        }
        if self.mask & LEAK != 0 {
            note("release");
            // Dropping the waits releases the wakers at once, except those of the poll style.
            for i in 0..WAITS + crowd {
                w.drop_wait(i);
            }
            sim::settle();
            let mut held = vec![0usize; TASKS + crowd];
            for s in w.srcs.iter().flatten() {
                for x in s.pw.iter().flatten() {
                    held[x.task] += 1;
                }
            }
            for (k, t) in w.tasks.iter().enumerate() {
                if t.outside_refs() > held[k] {
                    w.bad(LEAK, || format!("task {k} is referenced {} times after all its waits are gone", t.outside_refs()));
                }
            }
            for s in 0..SRCS + extra {
                w.close(s);
            }
            sim::settle();
            for (k, t) in w.tasks.iter().enumerate() {
                if t.outside_refs() > 0 {
                    w.bad(LEAK, || format!("task {k} is referenced {} times after all handles are gone", t.outside_refs()));
                }
            }
            w.nontriv = true;
        }
        if w.nontriv {
            run::nontrivial();
        }
        // Leave without running destructors of the actors.
        std::mem::forget(world);
    }
}

fn go(d: &Def, o: &Opts, mask: u32, flavour: u8) -> i32 {
    run::run_prop(d, &R { mask, flavour }, o)
}

const ASSUME: &[&str] = &[
    "poll(2) is the ground truth for readiness (IN, PRI, RDHUP, HUP, ERR count as readable; OUT, HUP, ERR as writable)",
    "Linux epoll backend; virtual clock; sequentially consistent interleavings at atomic operations and system calls",
    "a wake may be up to 200 ms of virtual time late",
];

pub fn defs() -> Vec<Def> {
    vec![
        Def {
            id: "R01",
            title: "no lost readiness",
            tags: TAGS,
            rule: "random histories of opening, waiting, polling, peer I/O and closing over streams, pipes, eventfds, datagrams and listeners with random reactor interleavings; non-trivial: a wait completed or several waits shared a direction",
            quick: 40_000,
            stuck_violates: true,
            run: |d, o| go(d, o, LOST | ERR, 1),
            assumptions: ASSUME,
        },
        Def {
            id: "R02",
            title: "no false readiness",
            tags: TAGS,
            rule: "as R01, judging every completed wait against the readiness history of the handle; non-trivial: a wait completed",
            quick: 40_000,
            stuck_violates: false,
            run: |d, o| go(d, o, FALSE, 2),
            assumptions: ASSUME,
        },
        Def {
            id: "R03",
            title: "concurrent waits on one handle",
            tags: TAGS,
            rule: "up to 24 waits on one or two handles with many cancellations; non-trivial: two or more waits shared a direction",
            quick: 40_000,
            stuck_violates: true,
            run: |d, o| go(d, o, LOST | FALSE | ERR, 3),
            assumptions: ASSUME,
        },
        Def {
            id: "R04",
            title: "poll_readable / poll_writable hand-over",
            tags: TAGS,
            rule: "poll style from 8 tasks; non-trivial: a task displaced another one",
            quick: 40_000,
            stuck_violates: true,
            run: |d, o| go(d, o, LOST | HAND | ERR, 4),
            assumptions: ASSUME,
        },
        Def {
            id: "R06",
            title: "waits release their tasks",
            tags: TAGS,
            rule: "as R03, then all waits and handles are dropped and every waker must have been released; every case is non-trivial",
            quick: 40_000,
            stuck_violates: false,
            run: |d, o| go(d, o, LEAK, 5),
            assumptions: ASSUME,
        },
        Def {
            id: "L04",
            title: "slot and descriptor reuse",
            tags: TAGS,
            rule: "close / reopen / into_inner-and-register-again heavy histories; non-trivial: a slot was reused",
            quick: 40_000,
            stuck_violates: true,
            run: |d, o| go(d, o, LOST | FALSE | ERR | STRAY, 6),
            assumptions: ASSUME,
        },
    ]
}
