//! I/O operations on a scripted handle: when the operation is attempted, what is passed and what comes back.
use crate::cells::{Racy, Task};
use crate::r::{nonblock, pollfd};
use crate::run::{self, note, tag, Def, Opts, Prop};
use crate::sim;
use async_io::{Async, IoSafe};
use futures_io::{AsyncRead, AsyncWrite};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::io::{self, ErrorKind, IoSlice, IoSliceMut, Read, Write};
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, OwnedFd, RawFd};
use std::os::unix::net::UnixStream;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

const TOL: u64 = 200_000_000;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    ReadWith,
    ReadWithMut,
    WriteWith,
    WriteWithMut,
    Read,
    ReadV,
    Write,
    WriteV,
    Flush,
    Close,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Res {
    Wb,
    /// WouldBlock that does not come from the OS
    WbCustom,
    Ok(u8),
    Raw(i32),
    Custom(u8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Set(bool, bool),
    Settle,
    Advance(u32),
    RunSteps(u8),
    Poll,
    PollIfWoken,
    Cancel,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Io {
    what: What,
    /// through &Async<T> instead of Async<T>
    by_ref: bool,
    lens: Vec<u8>,
    script: Vec<Res>,
    acts: Vec<Act>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    sched: sim::Sched,
    init: (bool, bool),
    helper: bool,
    ios: Vec<Io>,
}

#[derive(Clone, Debug, PartialEq)]
struct Call {
    what: What,
    lens: Vec<usize>,
    sum: u64,
    res: Res,
}

struct Ctl {
    log: Vec<Call>,
    script: std::collections::VecDeque<Res>,
    /// whether the handle was readable, writable at some time
    was: [bool; 2],
    /// the same since the current operation began
    now: [bool; 2],
}

pub struct Scr {
    fd: OwnedFd,
    ctl: Arc<Racy<Ctl>>,
}
impl AsFd for Scr {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.fd.as_fd()
    }
}
unsafe impl IoSafe for Scr {}

fn kinds(i: u8) -> ErrorKind {
    use ErrorKind::*;
    const ALL: [ErrorKind; 30] = [
        Other, Interrupted, TimedOut, UnexpectedEof, InvalidData, BrokenPipe, NotFound, PermissionDenied, ConnectionRefused, ConnectionReset,
        HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, AlreadyExists, NotADirectory, IsADirectory,
        StaleNetworkFileHandle, InvalidInput, WriteZero, StorageFull, NotSeekable, ResourceBusy, Deadlock, ArgumentListTooLong, Unsupported, OutOfMemory,
    ];
    ALL[i as usize % ALL.len()]
}
fn make(r: Res, cap: usize) -> io::Result<usize> {
    match r {
        Res::Wb => Err(io::Error::from_raw_os_error(libc::EAGAIN)),
        Res::WbCustom => Err(io::Error::new(ErrorKind::WouldBlock, "not yet")),
        Res::Ok(n) => Ok((n as usize).min(cap)),
        Res::Raw(e) => Err(io::Error::from_raw_os_error(e)),
        Res::Custom(i) => Err(io::Error::new(kinds(i), format!("custom {i}"))),
    }
}
fn show(r: &io::Result<usize>) -> String {
    match r {
        Ok(n) => format!("Ok({n})"),
        Err(e) => format!("Err({:?}, {:?}, {e})", e.kind(), e.raw_os_error()),
    }
}
fn hash<'a>(b: impl Iterator<Item = &'a [u8]>) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for s in b {
        for x in s {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0x1ff).wrapping_mul(0x100000001b3);
    }
    h
}

impl Scr {
    fn call(&self, what: What, lens: Vec<usize>, sum: u64) -> io::Result<usize> {
        let c = self.ctl.get();
        let res = c.script.pop_front().unwrap_or(Res::Ok(200));
        let cap = lens.iter().sum();
        saw(c, self.fd.as_raw_fd());
        if c.log.len() > 5000 {
            run::fail("the operation is attempted over and over");
        }
        c.log.push(Call { what, lens, sum, res });
        make(res, cap)
    }
    fn do_read(&self, what: What, bufs: &mut [&mut [u8]]) -> io::Result<usize> {
        let n = self.call(what, bufs.iter().map(|b| b.len()).collect(), 0)?;
        let mut k = 0;
        for b in bufs.iter_mut() {
            for x in b.iter_mut() {
                if k < n {
                    *x = pat(k);
                    k += 1;
                }
            }
        }
        Ok(n)
    }
}
fn saw(c: &mut Ctl, fd: RawFd) {
    let r = pollfd(fd);
    for d in 0..2 {
        c.was[d] |= r[d];
        c.now[d] |= r[d];
    }
}
fn pat(k: usize) -> u8 {
    (k as u8).wrapping_mul(7).wrapping_add(3)
}

macro_rules! io_impls {
    ($($t:ty),*) => {
        $(
            impl Read for $t {
                fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                    self.do_read(What::Read, &mut [b])
                }
                fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
                    let mut v: Vec<&mut [u8]> = b.iter_mut().map(|x| &mut **x).collect();
                    self.do_read(What::ReadV, &mut v)
                }
            }
            impl Write for $t {
                fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                    self.call(What::Write, vec![b.len()], hash([b].into_iter()))
                }
                fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
                    self.call(What::WriteV, b.iter().map(|x| x.len()).collect(), hash(b.iter().map(|x| &**x)))
                }
                fn flush(&mut self) -> io::Result<()> {
                    self.call(What::Flush, vec![], 0).map(drop)
                }
            }
        )*
    };
}
io_impls!(Scr, &Scr);

pub const TAGS: &[&str] = &[
    "read_with", "read_with_mut", "write_with", "write_with_mut", "read", "read_vectored", "write", "write_vectored", "flush", "close", "by_reference", "was_pending",
    "spurious_poll", "cancelled", "error_returned", "woken_by_other_direction_checked", "became_ready_later", "several_would_block",
];

struct World {
    /// taken while an operation that needs `&mut` is under way
    a: Async<Scr>,
    fd: RawFd,
    peer: UnixStream,
    ctl: Arc<Racy<Ctl>>,
}

fn set_ready(fd: RawFd, peer: &UnixStream, rd: bool, wr: bool) {
    let mut big = [0u8; 4096];
    let n = |r: isize| r > 0;
    unsafe {
        let p = peer.as_raw_fd();
        if wr {
            while n(libc::read(p, big.as_mut_ptr() as *mut _, 4096)) {}
        } else {
            while n(libc::write(fd, big.as_ptr() as *const _, 4096)) {}
            while n(libc::write(fd, big.as_ptr() as *const _, 1)) {}
        }
        if rd {
            libc::write(p, big.as_ptr() as *const _, 1);
        } else {
            while n(libc::read(fd, big.as_mut_ptr() as *mut _, 4096)) {}
        }
    }
}

type Fut<'a> = Box<dyn FnMut(&mut Context<'_>) -> Poll<io::Result<usize>> + 'a>;

impl World {
    fn run(&mut self, io: &Io) {
        use What::*;
        let what = io.what;
        tag(what as usize);
        if io.by_ref && !matches!(what, ReadWith | ReadWithMut | WriteWith | WriteWithMut) {
            tag(10);
        }
        let dir = !matches!(what, ReadWith | ReadWithMut | Read | ReadV) as usize;
        let vectored = matches!(what, ReadV | WriteV);
        let lens: Vec<usize> = match what {
            Flush | Close => vec![],
            _ if vectored => io.lens.iter().map(|l| *l as usize).collect(),
            _ => vec![*io.lens.first().unwrap_or(&1) as usize],
        };
        let total: usize = lens.iter().sum();
        let mut bufs: Vec<Vec<u8>> = lens.iter().map(|l| vec![0xEE; *l]).collect();
        if dir == 1 {
            let mut k = 0u8;
            for b in &mut bufs {
                for x in b.iter_mut() {
                    *x = k;
                    k = k.wrapping_add(5);
                }
            }
        }
        let sum = match what {
            Write | WriteV | WriteWith | WriteWithMut => hash(bufs.iter().map(|b| &b[..])),
            Flush | Close | Read | ReadV | ReadWith | ReadWithMut => 0,
        };
        let ctl = self.ctl.clone();
        ctl.get().script = io.script.iter().copied().collect();
        ctl.get().log.clear();
        ctl.get().now = [false; 2];
        // The others share what is remembered of earlier polls.
        let own = matches!(what, ReadWith | ReadWithMut | WriteWith | WriteWithMut);
        let fd = self.fd;
        let peer = &self.peer;
        let task = Task::new();
        let sum2 = sum;
        let expect_call = match what {
            Close => Flush,
            w => w,
        };
        {
            let a = &mut self.a;
            let bufs2 = &mut bufs;
            let lens2 = lens.clone();
            let mut f: Fut<'_> = match what {
                ReadWith | WriteWith => {
                    let a = &*a;
                    let b = bufs2.first_mut().unwrap();
                    let op = move |s: &Scr| if dir == 0 { s.do_read(what, &mut [&mut b[..]]) } else { s.call(what, lens2.clone(), sum2) };
                    let mut fut: Pin<Box<dyn Future<Output = io::Result<usize>> + '_>> = if dir == 0 { Box::pin(a.read_with(op)) } else { Box::pin(a.write_with(op)) };
                    Box::new(move |cx: &mut Context<'_>| fut.as_mut().poll(cx))
                }
                ReadWithMut | WriteWithMut => {
                    let b = bufs2.first_mut().unwrap();
                    let op = move |s: &mut Scr| if dir == 0 { s.do_read(what, &mut [&mut b[..]]) } else { s.call(what, lens2.clone(), sum2) };
                    // SAFETY: the closures do not replace or drop the handle
                    let mut fut: Pin<Box<dyn Future<Output = io::Result<usize>> + '_>> =
                        if dir == 0 { Box::pin(unsafe { a.read_with_mut(op) }) } else { Box::pin(unsafe { a.write_with_mut(op) }) };
                    Box::new(move |cx: &mut Context<'_>| fut.as_mut().poll(cx))
                }
                _ => {
                    let by_ref = io.by_ref;
                    Box::new(move |cx: &mut Context<'_>| {
                        macro_rules! go {
                            ($p:expr) => {{
                                let p = $p;
                                match what {
                                    Read => p.poll_read(cx, &mut bufs2[0]),
                                    ReadV => {
                                        let mut v: Vec<IoSliceMut<'_>> = bufs2.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                                        p.poll_read_vectored(cx, &mut v)
                                    }
                                    Write => p.poll_write(cx, &bufs2[0]),
                                    WriteV => {
                                        let v: Vec<IoSlice<'_>> = bufs2.iter().map(|b| IoSlice::new(b)).collect();
                                        p.poll_write_vectored(cx, &v)
                                    }
                                    Flush => p.poll_flush(cx).map_ok(|_| 0),
                                    _ => p.poll_close(cx).map_ok(|_| 0),
                                }
                            }};
                        }
                        if by_ref {
                            let mut r = &*a;
                            go!(Pin::new(&mut r))
                        } else {
                            go!(Pin::new(&mut *a))
                        }
                    })
                }
            };

            let mut seen = 0;
            let mut polls = 0;
            let mut base = 0;
            // Polls once; returns the result if it is over.
            let mut poll = |base: &mut usize| -> Option<(io::Result<usize>, usize)> {
                *base = task.wakes();
                let r = f(&mut Context::from_waker(&task.waker));
                polls += 1;
                let log = &ctl.get().log;
                let new = &log[seen..];
                let from = seen;
                if polls == 1 && new.is_empty() {
                    run::fail(format!("{what:?} did not try the operation at once"));
                }
                for (i, c) in new.iter().enumerate() {
                    if c.what != expect_call || c.lens != lens || c.sum != sum {
                        run::fail(format!("{what:?} with buffers {lens:?} called {:?} with buffers {:?} (contents {})", c.what, c.lens, if c.sum == sum { "equal" } else { "different" }));
                    }
                    let wb = matches!(c.res, Res::Wb | Res::WbCustom);
                    if i + 1 < new.len() && !wb {
                        run::fail(format!("{what:?} went on although the operation returned {:?}", c.res));
                    }
                }
                if new.len() > 1 && !(if own { ctl.get().now } else { ctl.get().was })[dir] {
                    run::fail(format!("{what:?} tried the operation again without waiting although the handle has not been ready for it"));
                }
                seen = log.len();
                match r {
                    Poll::Pending => {
                        if let Some(c) = new.last() {
                            if !matches!(c.res, Res::Wb | Res::WbCustom) {
                                run::fail(format!("{what:?} is pending although the operation returned {:?}", c.res));
                            }
                        }
                        None
                    }
                    Poll::Ready(r) => {
                        let Some(c) = new.last() else { run::fail(format!("{what:?} completed with {} without trying the operation", show(&r))) };
                        let want = make(c.res, total);
                        let want = if matches!(what, Flush | Close) { want.map(|_| 0) } else { want };
                        if matches!(c.res, Res::Wb | Res::WbCustom) || show(&want) != show(&r) {
                            run::fail(format!("{what:?} completed with {} although the operation returned {}", show(&r), show(&want)));
                        }
                        if r.is_err() {
                            tag(14);
                        }
                        Some((r, seen - from))
                    }
                }
            };

            let mut over = poll(&mut base);
            let mut cancelled = false;
            if over.is_none() {
                tag(11);
                run::nontrivial();
                for act in &io.acts {
                    match act {
                        Act::Set(r, w) => {
                            set_ready(fd, peer, *r, *w);
                            saw(ctl.get(), fd);
                        }
                        Act::Settle => sim::settle(),
                        Act::Advance(us) => sim::advance(*us as u64 * 1000),
                        Act::RunSteps(k) => sim::run_steps(*k as u64),
                        Act::Poll => {
                            tag(12);
                            over = poll(&mut base)
                        }
                        Act::PollIfWoken => {
                            if task.wakes() > base {
                                over = poll(&mut base)
                            }
                        }
                        Act::Cancel => cancelled = true,
                    }
                    if over.is_some() || cancelled {
                        break;
                    }
                }
            }
            // Bring it to an end.
            let mut left = ctl.get().script.len() + 3;
            while over.is_none() && !cancelled {
                // While the direction is not ready, there are at most a few stale wakes.
                let mut stale = 0;
                sim::settle();
                while over.is_none() && !pollfd(fd)[dir] && task.wakes() > base {
                    stale += 1;
                    if stale > 5 {
                        run::fail(format!("{what:?}: woken again and again although the handle is not ready for it"));
                    }
                    over = poll(&mut base);
                    sim::settle();
                }
                if over.is_some() {
                    break;
                }
                if !pollfd(fd)[dir] {
                    tag(16);
                    let now = pollfd(fd);
                    if !now[1 - dir] {
                        // The other direction alone must not wake it.
                        let w0 = task.wakes();
                        if dir == 0 {
                            set_ready(fd, peer, false, true);
                        } else {
                            // readable without becoming writable
                            unsafe { libc::write(peer.as_raw_fd(), b"x".as_ptr() as *const _, 1) };
                        }
                        saw(ctl.get(), fd);
                        sim::settle();
                        if !pollfd(fd)[dir] {
                            tag(15);
                            if task.wakes() != w0 {
                                run::fail(format!("{what:?} is woken by readiness of the other direction"));
                            }
                        }
                    }
                    let now = pollfd(fd);
                    set_ready(fd, peer, now[0] || dir == 0, now[1] || dir == 1);
                    saw(ctl.get(), fd);
                }
                if task.wakes() == base {
                    sim::advance(TOL + sim::stalled());
                }
                if task.wakes() == base {
                    run::fail(format!("{what:?} is pending on a ready handle and its task is not woken"));
                }
                left -= 1;
                let before = ctl.get().log.len();
                let mut tries = 0;
                loop {
                    over = poll(&mut base);
                    if over.is_some() || ctl.get().log.len() > before {
                        break;
                    }
                    tries += 1;
                    if tries > 4 {
                        run::fail(format!("{what:?}: the operation is not attempted again although the handle is ready"));
                    }
                    sim::advance(TOL + sim::stalled());
                }
                if over.is_none() && left == 0 {
                    run::fail(format!("{what:?} does not complete although the operation does not block any more"));
                }
            }
            let n = ctl.get().log.len();
            if n > 2 {
                tag(17);
            }
            drop(f);
            sim::settle();
            if ctl.get().log.len() != n {
                run::fail(format!("{what:?} tried the operation after it was over"));
            }
            if cancelled {
                tag(13);
            } else if dir == 0 {
                let k = match &over {
                    Some((Ok(n), _)) => *n,
                    _ => 0,
                };
                let flat: Vec<u8> = bufs.iter().flatten().copied().collect();
                for (i, x) in flat.iter().enumerate() {
                    let want = if i < k { pat(i) } else { 0xEE };
                    if *x != want {
                        run::fail(format!("{what:?}: byte {i} of the caller's buffers is {x:#x} instead of {want:#x} ({k} bytes read)"));
                    }
                }
            }
        }
    }
}

pub struct S;

impl Prop for S {
    type Case = Case;
    fn sched(&self, c: &Case) -> sim::Sched {
        c.sched.clone()
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<Case> {
        use What::*;
        let what = prop_oneof![
            Just(ReadWith), Just(ReadWithMut), Just(WriteWith), Just(WriteWithMut), Just(Read), Just(ReadV), Just(Write), Just(WriteV), Just(Flush), Just(Close)
        ];
        let err = || {
            prop_oneof![
                Just(libc::EINTR), Just(libc::ECONNRESET), Just(libc::EPIPE), Just(libc::EIO), Just(libc::ENOBUFS), Just(libc::EINPROGRESS), Just(libc::ETIMEDOUT),
                Just(libc::ENOTCONN), Just(libc::EALREADY), Just(libc::EBUSY), (1i32..134).prop_map(|e| if e == libc::EAGAIN { libc::EINPROGRESS } else { e })
            ]
        };
        let last = move || prop_oneof![3 => any::<u8>().prop_map(Res::Ok), 2 => Just(Res::Ok(0)), 2 => err().prop_map(Res::Raw), 2 => (0u8..30).prop_map(Res::Custom)];
        let wb = || prop_oneof![3 => Just(Res::Wb), 1 => Just(Res::WbCustom)];
        let script = (vec(wb(), 0..5), last()).prop_map(|(mut v, l)| {
            v.push(l);
            v
        });
        let act = prop_oneof![
            3 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| Act::Set(a, b)),
            2 => Just(Act::Settle),
            1 => (0u32..3000).prop_map(Act::Advance),
            2 => (0u8..60).prop_map(Act::RunSteps),
            2 => Just(Act::Poll),
            4 => Just(Act::PollIfWoken),
            1 => Just(Act::Cancel)
        ];
        let io = (what, any::<bool>(), vec(prop_oneof![1 => Just(0u8), 6 => 1u8..40], 1..5), script, vec(act, 0..7))
            .prop_map(|(what, by_ref, lens, script, acts)| Io { what, by_ref, lens, script, acts });
        (run::sched_strategy(false, false), any::<(bool, bool)>(), any::<bool>(), vec(io, 1..if thorough { 10 } else { 6 }))
            .prop_map(|(sched, init, helper, ios)| Case { sched, init, helper, ios })
            .boxed()
    }

    fn exec(&self, c: &Case) {
        let Ok((x, peer)) = UnixStream::pair() else { run::abort_case("socketpair") };
        nonblock(peer.as_raw_fd());
        let fd = x.as_raw_fd();
        let ctl = Arc::new(Racy::new(Ctl { log: vec![], script: Default::default(), was: [false; 2], now: [false; 2] }));
        let a = match Async::new(Scr { fd: x.into(), ctl: ctl.clone() }) {
            Ok(a) => a,
            Err(e) => run::abort_case(format!("{e}")),
        };
        set_ready(fd, &peer, c.init.0, c.init.1);
        if c.helper {
            sim::spawn(|| async_io::block_on(std::future::pending::<()>()));
        }
        let mut w = World { a, fd, peer, ctl };
        for (n, io) in c.ios.iter().enumerate() {
            note(&format!("op {n} {io:?}"));
            w.run(io);
        }
        if !w.ctl.get().log.is_empty() {
            let n = w.ctl.get().log.len();
            sim::advance(TOL);
            drop(w.a);
            sim::settle();
            if w.ctl.get().log.len() != n {
                run::fail("an operation was tried after everything was over");
            }
        }
    }
}

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "R05",
        title: "I/O operations: tried at once, retried when ready, results verbatim",
        tags: TAGS,
        rule: "sequences of read/write operations of every kind on a handle with scripted results; non-trivial: an operation was pending",
        quick: 30_000,
        stuck_violates: true,
        run: |d, o: &Opts| run::run_prop(d, &S, o),
        assumptions: &["the handle is a Unix socket whose readiness the harness controls"],
    }]
}
