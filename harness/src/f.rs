//! Handles that go bad while they are registered (R07): their descriptor is replaced, so that the OS refuses to re-arm it.
use crate::cells::{Racy, Task};
use crate::run::{self, note, tag, weighted, Def, Prop};
use crate::sim;
use async_io::{Async, IoSafe, Timer};
use futures_io::{AsyncRead, AsyncWrite};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::io::{self, IoSlice, IoSliceMut, Read, Write};
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

const TOL: u64 = 200_000_000;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    /// readable(), writable()
    Wait,
    /// poll_readable(), poll_writable()
    Poll,
    /// read_with(), write_with()
    With,
    /// AsyncRead, AsyncWrite: which method
    Io(u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum FOp {
    Wait(u8, bool, How),
    Break(u8),
    /// The OS fails to re-arm the handle so many times.
    Refuse(u8, u8),
    Ready(u8, bool),
    Timer(u16),
    Advance(u16),
    PollWoken(u8),
    Cancel(u8),
    /// Cancels all waits on the handle, drops it, and makes a new one.
    Close(u8),
    /// The same, but takes it apart.
    IntoInner(u8),
    Settle,
    RunSteps(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FCase {
    sched: sim::Sched,
    helper: bool,
    handles: u8,
    ops: Vec<FOp>,
}
pub const TAGS: &[&str] = &["broken", "broken_with_waits", "refused_at_once", "error_after_wake", "ready_after_break", "timer", "other_handle_completed", "poll_wait", "event_on_broken_with_other_direction_pending", "cancelled", "closed_with_waits", "read_or_write_operation", "refused_in_poll", "into_inner_of_bad"];

/// An operation on it succeeds as soon as it was made ready.
struct Fd {
    fd: OwnedFd,
    ready: Ready,
}
type Ready = Arc<Racy<([bool; 2], u32)>>;
impl AsFd for Fd {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.fd.as_fd()
    }
}
impl Fd {
    fn op(&self, dir: usize) -> io::Result<usize> {
        let r = self.ready.get();
        r.1 += 1;
        if r.1 > 5000 {
            run::fail("a read or write operation is tried over and over");
        }
        if r.0[dir] {
            Ok(1)
        } else {
            Err(io::ErrorKind::WouldBlock.into())
        }
    }
}
unsafe impl IoSafe for Fd {}
macro_rules! io_impls {
    ($($t:ty),*) => { $(
        impl Read for $t {
            fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
                self.op(0)
            }
            fn read_vectored(&mut self, _: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
                self.op(0)
            }
        }
        impl Write for $t {
            fn write(&mut self, _: &[u8]) -> io::Result<usize> {
                self.op(1)
            }
            fn write_vectored(&mut self, _: &[IoSlice<'_>]) -> io::Result<usize> {
                self.op(1)
            }
            fn flush(&mut self) -> io::Result<()> {
                self.op(1).map(drop)
            }
        }
    )* };
}
io_impls!(Fd, &Fd);

struct Hd {
    a: Arc<Async<Fd>>,
    peer: OwnedFd,
    old: Option<OwnedFd>,
    ready: Ready,
}
enum W {
    Fut(Pin<Box<dyn Future<Output = io::Result<()>>>>),
    Poll,
    Io(u8),
}
struct Wait {
    h: usize,
    dir: usize,
    w: W,
    task: Task,
    base: usize,
}
struct World {
    h: Vec<Hd>,
    w: Vec<Wait>,
    t: Vec<(Timer, Task, u64)>,
}

fn rw(p: Pin<&mut (impl AsyncRead + AsyncWrite)>, cx: &mut Context<'_>, dir: usize, k: u8) -> Poll<io::Result<()>> {
    match (dir, k % 4) {
        (0, 0 | 1) => p.poll_read(cx, &mut [0]).map_ok(drop),
        (0, _) => p.poll_read_vectored(cx, &mut [IoSliceMut::new(&mut [0])]).map_ok(drop),
        (_, 0) => p.poll_write(cx, &[0]).map_ok(drop),
        (_, 1) => p.poll_write_vectored(cx, &[IoSlice::new(&[0])]).map_ok(drop),
        (_, 2) => p.poll_flush(cx),
        (_, _) => p.poll_close(cx),
    }
}

impl World {
    fn open() -> Hd {
        let Ok((x, y)) = UnixStream::pair() else { run::abort_case("socketpair") };
        let x = OwnedFd::from(x);
        unsafe {
            // Neither readable nor writable.
            let fd = x.as_raw_fd();
            let b = [0u8; 65536];
            while libc::send(fd, b.as_ptr() as *const _, b.len(), libc::MSG_DONTWAIT) > 0 {}
            while libc::send(fd, b.as_ptr() as *const _, 1, libc::MSG_DONTWAIT) > 0 {}
        }
        let ready: Ready = Arc::new(Racy::new(([false; 2], 0)));
        match Async::new(Fd { fd: x, ready: ready.clone() }) {
            Ok(a) => Hd { a: Arc::new(a), peer: y.into(), old: None, ready },
            Err(e) => run::fail(format!("cannot register a fresh socket: {e}")),
        }
    }

    fn close(&mut self, h: usize, apart: bool) {
        let mut tasks = vec![];
        let mut k = 0;
        while k < self.w.len() {
            if self.w[k].h == h {
                tasks.push(self.w.remove(k).task);
            } else {
                k += 1;
            }
        }
        if !tasks.is_empty() {
            tag(10);
            run::nontrivial();
        }
        let broken = self.h[h].old.is_some();
        // The old file goes first, and its registration with it.
        self.h[h].old = None;
        if Arc::strong_count(&self.h[h].a) != 1 {
            run::fail("a handle without waits is still referenced");
        }
        let hd = std::mem::replace(&mut self.h[h], Self::open());
        if apart {
            match (Arc::into_inner(hd.a).expect("checked above").into_inner(), broken) {
                (Ok(_), false) => {}
                (Err(e), true) if e.raw_os_error() == Some(libc::ENOENT) => tag(13),
                (Ok(_), true) => {}
                (Err(e), _) => run::fail(format!("into_inner() of a {}handle failed: {e}", if broken { "bad " } else { "" })),
            }
        } else {
            drop(hd.a);
        }
        if Arc::strong_count(&hd.ready) != 1 {
            run::fail("a handle is gone, but what it owned is not");
        }
        sim::settle();
        if sim::stalled_now() {
            return;
        }
        for t in tasks {
            if t.outside_refs() != 0 {
                run::fail(format!("a task that waited for a {} is still referenced after the handle is gone", if broken { "bad handle" } else { "handle" }));
            }
        }
    }

    fn name(h: usize, dir: usize, broken: bool) -> String {
        format!("{} wait on {}handle {h}", ["read", "write"][dir], if broken { "bad " } else { "" })
    }

    fn poll(h: &Hd, w: &mut Wait) -> Poll<io::Result<()>> {
        w.base = w.task.wakes();
        let n = sim::refused();
        let r = Self::poll_it(h, w);
        if sim::refused() != n {
            tag(12);
            if !matches!(&r, Poll::Ready(Err(e)) if e.raw_os_error() == Some(libc::ENOMEM)) {
                run::fail(format!("the OS refused to watch the handle, but {} gave {r:?}", Self::name(w.h, w.dir, h.old.is_some())));
            }
        } else if matches!(&r, Poll::Ready(Err(e)) if e.raw_os_error() == Some(libc::ENOMEM)) {
            run::fail(format!("{} failed with an error of an earlier attempt", Self::name(w.h, w.dir, h.old.is_some())));
        }
        r
    }
    fn poll_it(h: &Hd, w: &mut Wait) -> Poll<io::Result<()>> {
        let mut cx = Context::from_waker(&w.task.waker);
        match &mut w.w {
            W::Fut(f) => f.as_mut().poll(&mut cx),
            W::Poll if w.dir == 0 => h.a.poll_readable(&mut cx),
            W::Poll => h.a.poll_writable(&mut cx),
            W::Io(k) => {
                // SAFETY: nobody else uses the handle meanwhile.
                let mut own: &mut Async<Fd> = unsafe { &mut *(Arc::as_ptr(&h.a) as *mut Async<Fd>) };
                if *k % 2 == 0 {
                    rw(Pin::new(&mut own), &mut cx, w.dir, *k / 2)
                } else {
                    rw(Pin::new(&mut &*h.a), &mut cx, w.dir, *k / 2)
                }
            }
        }
    }

    /// Whether the wait has to end with an error because nothing else is known to the OS for its direction.
    fn check(&self, h: usize, dir: usize, r: &Poll<io::Result<()>>, alone: bool, first: bool) {
        let hd = &self.h[h];
        let broken = hd.old.is_some();
        match r {
            Poll::Ready(Ok(())) => {
                if !hd.ready.get().0[dir] {
                    run::fail(format!("{} completed although the handle is not ready", Self::name(h, dir, broken)));
                }
                if broken {
                    tag(4);
                } else {
                    tag(6);
                }
                run::nontrivial();
            }
            Poll::Ready(Err(e)) => {
                if e.raw_os_error() == Some(libc::ENOMEM) {
                    return;
                }
                if !broken {
                    run::fail(format!("{} failed: {e}", Self::name(h, dir, broken)));
                }
                if e.raw_os_error() != Some(libc::ENOENT) {
                    run::fail(format!("{} failed with {e}, the OS says ENOENT", Self::name(h, dir, broken)));
                }
                tag(if first { 2 } else { 3 });
                run::nontrivial();
            }
            Poll::Pending => {
                if broken && alone {
                    run::fail(format!("{} is pending although the OS refuses to watch it", Self::name(h, dir, broken)));
                }
            }
        }
    }

    fn others(&self, h: usize, dir: usize) -> bool {
        self.w.iter().any(|w| w.h == h && w.dir == dir)
    }

    fn start(&mut self, h: usize, dir: usize, how: How) {
        let by_poll = matches!(how, How::Poll | How::Io(_));
        if by_poll && self.w.iter().any(|w| w.h == h && w.dir == dir && matches!(w.w, W::Poll | W::Io(_))) {
            return;
        }
        let a = self.h[h].a.clone();
        let mut w = Wait {
            h,
            dir,
            w: match (how, dir) {
                (How::Poll, _) => W::Poll,
                (How::Io(k), _) => W::Io(k),
                (How::Wait, 0) => W::Fut(Box::pin(a.readable_owned())),
                (How::Wait, _) => W::Fut(Box::pin(a.writable_owned())),
                (How::With, 0) => W::Fut(Box::pin(async move { a.read_with(|f| f.op(0).map(drop)).await })),
                (How::With, _) => W::Fut(Box::pin(async move { a.write_with(|f| f.op(1).map(drop)).await })),
            },
            task: Task::new(),
            base: 0,
        };
        if matches!(how, How::With | How::Io(_)) {
            tag(11);
        }
        if by_poll {
            tag(7);
        }
        let alone = !self.others(h, dir);
        let r = Self::poll(&self.h[h], &mut w);
        self.check(h, dir, &r, alone, true);
        match r {
            Poll::Pending => self.w.push(w),
            // (A finished async fn must not be polled.)
            Poll::Ready(Err(_)) if alone && how != How::With => {
                // The error does not go away.
                let r = Self::poll(&self.h[h], &mut w);
                self.check(h, dir, &r, true, true);
                if r.is_pending() {
                    self.w.push(w);
                }
            }
            _ => {}
        }
    }

    fn poll_woken(&mut self, k: usize, must: bool) -> bool {
        let mut w = self.w.remove(k);
        if w.task.wakes() <= w.base {
            if must {
                run::fail(format!("{} is not woken", Self::name(w.h, w.dir, self.h[w.h].old.is_some())));
            }
            self.w.insert(k, w);
            return false;
        }
        let r = Self::poll(&self.h[w.h], &mut w);
        let alone = !self.others(w.h, w.dir);
        self.check(w.h, w.dir, &r, alone, false);
        if r.is_pending() {
            self.w.insert(k, w);
            return false;
        }
        true
    }

    fn set_ready(&mut self, h: usize, dir: usize) {
        let hd = &mut self.h[h];
        if hd.ready.get().0[dir] {
            return;
        }
        if hd.old.is_some() && self.w.iter().any(|w| w.h == h && w.dir != dir) && self.w.iter().any(|w| w.h == h && w.dir == dir) {
            tag(8);
        }
        hd.ready.get().0[dir] = true;
        let fd = hd.peer.as_raw_fd();
        unsafe {
            if dir == 0 {
                libc::write(fd, b"x".as_ptr() as *const _, 1);
            } else {
                let mut b = [0u8; 65536];
                while libc::recv(fd, b.as_mut_ptr() as *mut _, b.len(), libc::MSG_DONTWAIT) > 0 {}
            }
        }
    }

    fn timers(&mut self, must: bool) {
        let mut k = 0;
        while k < self.t.len() {
            let (t, task, at) = &mut self.t[k];
            if sim::now() > *at + TOL + sim::stalled() || must {
                if task.wakes() == 0 {
                    run::fail("the task of a due timer is not woken");
                }
                if Pin::new(t).poll(&mut Context::from_waker(&task.waker)).is_pending() {
                    run::fail("a due timer is not ready");
                }
                self.t.remove(k);
            } else {
                k += 1;
            }
        }
    }
}

pub struct F;
impl Prop for F {
    type Case = FCase;
    fn sched(&self, c: &FCase) -> sim::Sched {
        c.sched.clone()
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<FCase> {
        let h = || 0u8..3;
        let how = || prop_oneof![Just(How::Wait), Just(How::Poll), Just(How::With), any::<u8>().prop_map(How::Io)];
        let op = weighted(vec![
            (8, (h(), any::<bool>(), how()).prop_map(|(a, b, c)| FOp::Wait(a, b, c)).boxed()),
            (2, h().prop_map(FOp::Break).boxed()),
            (2, (h(), 1u8..4).prop_map(|(a, b)| FOp::Refuse(a, b)).boxed()),
            (4, (h(), any::<bool>()).prop_map(|(a, b)| FOp::Ready(a, b)).boxed()),
            (2, (0u16..200).prop_map(FOp::Timer).boxed()),
            (2, (0u16..100).prop_map(FOp::Advance).boxed()),
            (3, any::<u8>().prop_map(FOp::PollWoken).boxed()),
            (1, any::<u8>().prop_map(FOp::Cancel).boxed()),
            (1, h().prop_map(FOp::Close).boxed()),
            (1, h().prop_map(FOp::IntoInner).boxed()),
            (1, Just(FOp::Settle).boxed()),
            (2, (0u8..80).prop_map(FOp::RunSteps).boxed()),
        ]);
        (run::sched_strategy(false, false), any::<bool>(), 1u8..4, vec(op, 3..if thorough { 40 } else { 20 }))
            .prop_map(|(sched, helper, handles, ops)| FCase { sched, helper, handles, ops })
            .boxed()
    }
    fn exec(&self, c: &FCase) {
        let mut w = World { h: vec![], w: vec![], t: vec![] };
        if c.helper {
            sim::spawn(|| async_io::block_on(std::future::pending::<()>()));
        }
        for _ in 0..c.handles {
            w.h.push(World::open());
        }
        let nh = w.h.len();
        for (n, op) in c.ops.iter().enumerate() {
            note(&format!("op {n} {op:?}"));
            match *op {
                FOp::Wait(h, d, p) => w.start(h as usize % nh, d as usize, p),
                FOp::Break(h) => {
                    let h = h as usize % nh;
                    if w.h[h].old.is_some() {
                        continue;
                    }
                    tag(0);
                    if w.w.iter().any(|w| w.h == h) {
                        tag(1);
                    }
                    let fd = w.h[h].a.as_fd().as_raw_fd();
                    unsafe {
                        let old = libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 0);
                        let new = libc::eventfd(0, libc::EFD_CLOEXEC | libc::EFD_NONBLOCK);
                        if old < 0 || new < 0 || libc::dup2(new, fd) != fd {
                            run::abort_case("dup2");
                        }
                        libc::close(new);
                        w.h[h].old = Some(OwnedFd::from_raw_fd(old));
                    }
                }
                FOp::Refuse(h, k) => sim::refuse(w.h[h as usize % nh].a.as_fd().as_raw_fd(), k as i32),
                FOp::Ready(h, d) => w.set_ready(h as usize % nh, d as usize),
                FOp::Timer(ms) => {
                    tag(5);
                    let d = ms as u64 * 1_000_000;
                    let mut t = Timer::after(Duration::from_nanos(d));
                    let task = Task::new();
                    let at = sim::now() + d;
                    if Pin::new(&mut t).poll(&mut Context::from_waker(&task.waker)).is_pending() {
                        w.t.push((t, task, at));
                    }
                }
                FOp::Advance(ms) => {
                    sim::advance(ms as u64 * 1_000_000);
                    w.timers(false);
                }
                FOp::PollWoken(k) => {
                    let n = w.w.len();
                    if n > 0 {
                        w.poll_woken(k as usize % n, false);
                    }
                }
                FOp::Cancel(k) => {
                    // A task registered by poll_readable cannot be taken back.
                    let n = w.w.len();
                    if n > 0 && matches!(w.w[k as usize % n].w, W::Fut(_)) {
                        tag(9);
                        w.w.remove(k as usize % n);
                    }
                }
                FOp::Close(h) => w.close(h as usize % nh, false),
                FOp::IntoInner(h) => w.close(h as usize % nh, true),
                FOp::Settle => sim::settle(),
                FOp::RunSteps(k) => sim::run_steps(k as u64),
            }
        }
        note("final");
        sim::refuse(-1, 0);
        // One direction, then the other, with a timer in between.
        for dir in [1, 0] {
            for h in 0..nh {
                w.set_ready(h, dir);
            }
            sim::settle();
            sim::advance(TOL + 250_000_000 + sim::stalled());
        }
        w.timers(true);
        for _ in 0..4 {
            let mut k = 0;
            while k < w.w.len() {
                if !w.poll_woken(k, true) {
                    k += 1;
                }
            }
            if w.w.is_empty() {
                break;
            }
            sim::settle();
            sim::advance(TOL + sim::stalled());
        }
        if let Some(x) = w.w.first() {
            run::fail(format!("{} is woken and polled but does not complete", World::name(x.h, x.dir, w.h[x.h].old.is_some())));
        }
    }
}

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "R07",
        title: "handles that go bad",
        tags: TAGS,
        rule: "histories of waits and timers over up to three handles whose descriptors get replaced behind the reactor's back; non-trivial: a wait completed or failed",
        quick: 30_000,
        stuck_violates: true,
        run: |d, o| run::run_prop(d, &F, o),
        assumptions: &["the old open file stays open elsewhere, so that its events still arrive"],
    }]
}
