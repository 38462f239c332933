//! Lifecycle of registrations: flags, ownership, conversions, failures, leaks, reactor_fd.
use crate::cells::Task;
use crate::r::{nonblock, pollfd, Fd};
use crate::run::{self, note, tag, weighted, Def, Prop};
use crate::sim;
use async_io::os::unix::reactor_fd;
use async_io::Async;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::io;
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::os::fd::{AsFd, AsRawFd, FromRawFd, IntoRawFd, OwnedFd, RawFd};
use std::os::unix::net::{UnixDatagram, UnixListener, UnixStream};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

const TOL: u64 = 200_000_000;
const SLOTS: usize = 5;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Uds,
    Udg,
    Ul,
    Tcp,
    Tl,
    Udp,
    Pipe,
    Event,
    Shared,
    Ref,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    New,
    NewNonblocking,
    TryFromStd,
    TryFromOwned,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Back {
    Drop,
    /// dropped by a thread that unwinds
    Unwind,
    IntoInner,
    IntoOwned,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    File,
    Dir,
    /// a reference to a handle that is registered already
    Twice(u8),
    /// registration fails with this errno
    Inject(u8),
    /// accepting works but registering the accepted stream does not
    Accept(u8),
    /// the same for connecting
    Connect(u8),
    /// and for the second half of a pair
    Pair(u8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Way {
    Drop,
    IntoInner,
    Unwind,
    Fail,
    FailTwice,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    New(u8, Kind, How, bool, bool),
    Back(u8, Back),
    /// into_inner() and registration again, possibly several times
    Cycle(u8, u8, How),
    /// Waits for readability, with data sent before or after the first poll.
    Use(u8, bool),
    /// A wait that is left pending.
    Hang(u8, bool),
    /// poll_readable()/poll_writable(), which leaves a waker behind.
    Poll(u8, bool),
    DropHangs,
    Fail(Bad),
    /// Drops (or converts back) a handle while another thread registers a new one.
    Race(u8, u8, bool, u8),
    /// Many registrations that go away again: nothing may accumulate.
    Repeat(Way, bool),
    Settle,
    Advance(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sched: sim::Sched,
    pub helper: bool,
    pub ops: Vec<Op>,
}

const FLAGS: u32 = 1;
const GONE: u32 = 2;
const FAILS: u32 = 4;
const USE: u32 = 8;
const RFD: u32 = 16;

pub const TAGS: &[&str] = &[
    "registered_blocking_fd", "registered_nonblocking_fd", "dropped", "into_inner", "into_owned", "cycled", "used", "dropped_with_wait_pending",
    "failed_file", "failed_twice", "failed_injected", "failed_accept", "failed_connect", "failed_pair", "used_after_failure", "reactor_fd_signalled",
    "dropped_while_unwinding", "owned_wait_kept_handle", "race_with_registration", "repeated", "append_flag", "waker_left_behind",
];

macro_rules! any_async {
    ($($v:ident => $t:ty),*) => {
        enum Any { $($v(Arc<Async<$t>>)),* }
        impl Any {
            fn fd(&self) -> RawFd { match self { $(Any::$v(a) => a.as_ref().as_fd().as_raw_fd()),* } }
            fn fd_inner(&self) -> RawFd { match self { $(Any::$v(a) => a.get_ref().as_fd().as_raw_fd()),* } }
            fn readable(&self) -> Pin<Box<dyn Future<Output = io::Result<()>> + Send>> { match self { $(Any::$v(a) => { let a = a.clone(); Box::pin(a.readable_owned()) }),* } }
            fn writable(&self) -> Pin<Box<dyn Future<Output = io::Result<()>> + Send>> { match self { $(Any::$v(a) => { let a = a.clone(); Box::pin(a.writable_owned()) }),* } }
            fn sole(&self) -> bool { match self { $(Any::$v(a) => Arc::strong_count(a) == 1),* } }
            fn poll_readable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> { match self { $(Any::$v(a) => a.poll_readable(cx)),* } }
            fn poll_writable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> { match self { $(Any::$v(a) => a.poll_writable(cx)),* } }
            fn into_inner(self) -> io::Result<Inner> { match self { $(Any::$v(a) => Ok(Inner::$v(Arc::into_inner(a).unwrap().into_inner()?))),* } }
        }
        enum Inner { $($v($t)),* }
        impl Inner {
            fn fd(&self) -> RawFd { match self { $(Inner::$v(a) => a.as_fd().as_raw_fd()),* } }
        }
    };
}
any_async!(Uds => UnixStream, Udg => UnixDatagram, Ul => UnixListener, Tcp => TcpStream, Tl => TcpListener, Udp => UdpSocket, Raw => Fd,
           Shared => Arc<UdpSocket>, Ref => &'static UnixStream);

impl Inner {
    fn wrap(self, how: How) -> io::Result<Any> {
        macro_rules! std_kind {
            ($v:ident, $x:expr, $t:ty) => {
                Ok(Any::$v(Arc::new(match how {
                    How::New => Async::new($x)?,
                    How::NewNonblocking => Async::new_nonblocking($x)?,
                    How::TryFromStd => Async::try_from($x)?,
                    How::TryFromOwned => {
                        let o: OwnedFd = $x.into();
                        <Async<$t> as TryFrom<OwnedFd>>::try_from(o)?
                    }
                })))
            };
        }
        match self {
            Inner::Uds(x) => std_kind!(Uds, x, UnixStream),
            Inner::Udg(x) => std_kind!(Udg, x, UnixDatagram),
            Inner::Ul(x) => std_kind!(Ul, x, UnixListener),
            Inner::Tcp(x) => std_kind!(Tcp, x, TcpStream),
            Inner::Tl(x) => std_kind!(Tl, x, TcpListener),
            Inner::Udp(x) => std_kind!(Udp, x, UdpSocket),
            Inner::Raw(x) => Ok(Any::Raw(Arc::new(if how == How::NewNonblocking { Async::new_nonblocking(x)? } else { Async::new(x)? }))),
            Inner::Shared(x) => Ok(Any::Shared(Arc::new(if how == How::NewNonblocking { Async::new_nonblocking(x)? } else { Async::new(x)? }))),
            Inner::Ref(x) => Ok(Any::Ref(Arc::new(if how == How::NewNonblocking { Async::new_nonblocking(x)? } else { Async::new(x)? }))),
        }
    }
    /// OwnedFd::try_from(Async<T>) goes through into_inner; the types that have it are converted back.
    fn from_owned(k: &Any, o: OwnedFd) -> Inner {
        match k {
            Any::Uds(_) => Inner::Uds(o.into()),
            Any::Udg(_) => Inner::Udg(o.into()),
            Any::Ul(_) => Inner::Ul(o.into()),
            Any::Tcp(_) => Inner::Tcp(o.into()),
            Any::Tl(_) => Inner::Tl(o.into()),
            Any::Udp(_) => Inner::Udp(o.into()),
            _ => Inner::Raw(Fd(o)),
        }
    }
}

struct Slot {
    a: Option<Any>,
    fd: RawFd,
    kind: Kind,
    how: How,
    flags: (i32, i32),
    was_nonblocking: bool,
    peer: Option<OwnedFd>,
    /// address to connect to
    tl: Option<std::net::SocketAddr>,
    ul: Option<std::os::unix::net::SocketAddr>,
    /// owner of a borrowed handle
    shared: Option<Arc<UdpSocket>>,
    leaked: Option<&'static UnixStream>,
    hangs: Vec<Hang>,
    /// a waker was left behind by poll_readable()/poll_writable()
    polled: [bool; 2],
}

struct Hang {
    f: Pin<Box<dyn Future<Output = io::Result<()>> + Send>>,
    task: Task,
    base: usize,
    wr: bool,
}

struct World {
    mask: u32,
    slots: Vec<Option<Slot>>,
    adds: u64,
    failed: bool,
    nontriv: bool,
    names: u64,
    dir: std::path::PathBuf,
}

fn flags(fd: RawFd) -> (i32, i32) {
    unsafe { (libc::fcntl(fd, libc::F_GETFL), libc::fcntl(fd, libc::F_GETFD)) }
}
fn is_open(fd: RawFd) -> bool {
    unsafe { libc::fcntl(fd, libc::F_GETFD) != -1 }
}
/// Descriptors registered in the reactor's epoll instance.
fn registered() -> Vec<RawFd> {
    let Some(r) = reactor_fd() else { return vec![] };
    let text = std::fs::read_to_string(format!("/proc/self/fdinfo/{}", r.as_raw_fd())).unwrap_or_default();
    text.lines().filter_map(|l| l.strip_prefix("tfd:")).filter_map(|l| l.split_whitespace().next()?.parse().ok()).collect()
}
fn open_fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

fn hold_forever<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

impl World {
    fn bad(&self, bit: u32, msg: impl FnOnce() -> String) {
        if self.mask & bit != 0 {
            run::fail(msg());
        } else {
            sim::stop();
            run::mark_ok();
            run::clean_scratch();
            unsafe { libc::_exit(0) }
        }
    }

    /// Redirects operations to slots for which they make sense.
    fn resolve(&self, op: &Op) -> Op {
        let find = |i: u8, full: bool| (0..SLOTS).map(|k| (i as usize + k) % SLOTS).find(|k| self.slots[*k].is_some() == full).map_or(i, |k| k as u8);
        match op.clone() {
            Op::New(i, a, b, c, d) => Op::New(find(i, false), a, b, c, d),
            Op::Back(i, a) => Op::Back(find(i, true), a),
            Op::Cycle(i, a, b) => Op::Cycle(find(i, true), a, b),
            Op::Use(i, a) => Op::Use(find(i, true), a),
            Op::Hang(i, a) => Op::Hang(find(i, true), a),
            Op::Poll(i, a) => Op::Poll(find(i, true), a),
            Op::Race(i, j, a, b) => Op::Race(find(i, true), find(j, false), a, b),
            Op::Fail(Bad::Twice(i)) => Op::Fail(Bad::Twice(find(i, true))),
            o => o,
        }
    }

    fn new_handle(&mut self, i: usize, kind: Kind, how: How, nb: bool, cloexec: bool) {
        if self.slots[i].is_some() {
            return;
        }
        let res = |r: io::Result<()>| {
            if let Err(e) = r {
                run::abort_case(format!("setup: {e}"))
            }
        };
        let mut sl = Slot {
            a: None,
            fd: -1,
            kind,
            how,
            flags: (0, 0),
            was_nonblocking: nb,
            peer: None,
            tl: None,
            ul: None,
            shared: None,
            leaked: None,
            hangs: vec![],
            polled: [false; 2],
        };
        macro_rules! ok {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(e) => run::abort_case(format!("setup: {e}")),
                }
            };
        }
        let inner = match kind {
            Kind::Uds => {
                let (a, b) = ok!(UnixStream::pair());
                sl.peer = Some(b.into());
                Inner::Uds(a)
            }
            Kind::Udg => {
                let (a, b) = ok!(UnixDatagram::pair());
                sl.peer = Some(b.into());
                Inner::Udg(a)
            }
            Kind::Ul => {
                use std::os::linux::net::SocketAddrExt;
                self.names += 1;
                let ad = ok!(std::os::unix::net::SocketAddr::from_abstract_name(format!("verif-l-{}-{}", std::process::id(), self.names)));
                let l = ok!(UnixListener::bind_addr(&ad));
                sl.ul = Some(ad);
                Inner::Ul(l)
            }
            Kind::Tl => {
                let l = ok!(TcpListener::bind("127.0.0.1:0"));
                sl.tl = Some(ok!(l.local_addr()));
                Inner::Tl(l)
            }
            Kind::Tcp => {
                let l = ok!(TcpListener::bind("127.0.0.1:0"));
                let a = ok!(TcpStream::connect(ok!(l.local_addr())));
                let (b, _) = ok!(l.accept());
                sl.peer = Some(b.into());
                Inner::Tcp(a)
            }
            Kind::Udp | Kind::Shared => {
                let a = ok!(UdpSocket::bind("127.0.0.1:0"));
                let b = ok!(UdpSocket::bind("127.0.0.1:0"));
                res(b.connect(ok!(a.local_addr())));
                sl.peer = Some(b.into());
                if kind == Kind::Udp {
                    Inner::Udp(a)
                } else {
                    let a = Arc::new(a);
                    sl.shared = Some(a.clone());
                    Inner::Shared(a)
                }
            }
            Kind::Pipe => {
                let mut p = [0; 2];
                unsafe { libc::pipe2(p.as_mut_ptr(), 0) };
                let (r, w) = unsafe { (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1])) };
                sl.peer = Some(w);
                Inner::Raw(Fd(r))
            }
            Kind::Event => Inner::Raw(Fd(unsafe { OwnedFd::from_raw_fd(libc::eventfd(0, 0)) })),
            Kind::Ref => {
                let (a, b) = ok!(UnixStream::pair());
                sl.peer = Some(b.into());
                let a = hold_forever(a);
                sl.leaked = Some(a);
                Inner::Ref(a)
            }
        };
        sl.fd = inner.fd();
        if nb {
            nonblock(sl.fd);
        }
        if cloexec ^ nb && kind != Kind::Event {
            // some other status flag that has to survive
            tag(20);
            unsafe { libc::fcntl(sl.fd, libc::F_SETFL, flags(sl.fd).0 | libc::O_APPEND) };
        }
        if cloexec {
            unsafe { libc::fcntl(sl.fd, libc::F_SETFD, libc::FD_CLOEXEC) };
        } else {
            unsafe { libc::fcntl(sl.fd, libc::F_SETFD, 0) };
        }
        sl.flags = flags(sl.fd);
        tag(nb as usize);
        self.register(i, sl, inner, how);
    }

    fn register(&mut self, i: usize, mut sl: Slot, inner: Inner, how: How) {
        let before = flags(sl.fd);
        self.adds += 1;
        match inner.wrap(how) {
            Err(e) => self.bad(FAILS | FLAGS, || format!("registering a fresh {:?} ({how:?}) failed: {e}", sl.kind)),
            Ok(a) => {
                let now = flags(sl.fd);
                let want = if how == How::NewNonblocking { before.0 } else { before.0 | libc::O_NONBLOCK };
                if now.0 != want || now.1 != before.1 {
                    self.bad(FLAGS, || format!("{how:?} of {:?}: descriptor flags {before:x?} became {now:x?}, expected status {want:x}", sl.kind));
                }
                if a.fd() != sl.fd || a.fd_inner() != sl.fd {
                    self.bad(FLAGS, || format!("the handle shows descriptor {} instead of {}", a.fd(), sl.fd));
                }
                if !registered().contains(&sl.fd) {
                    self.bad(FLAGS, || "a new handle is not registered in the reactor".into());
                }
                self.nontriv |= self.mask & FLAGS != 0;
                sl.a = Some(a);
                sl.how = how;
                self.slots[i] = Some(sl);
            }
        }
    }

    fn back(&mut self, i: usize, how: Back) -> Option<(Slot, Option<Inner>)> {
        let Some(mut sl) = self.slots[i].take() else { return None };
        let fd = sl.fd;
        let pre = flags(fd);
        if !sl.hangs.is_empty() {
            tag(7);
        }
        // Owned waits keep the handle open.
        if !sl.a.as_ref().unwrap().sole() {
            tag(17);
            let a = sl.a.take().unwrap();
            drop(a);
            if !is_open(fd) || !registered().contains(&fd) {
                self.bad(GONE, || "a handle was closed or deregistered although an owned wait still exists".into());
            }
            sl.hangs.clear();
            self.check_gone(&sl, fd);
            return None;
        }
        let a = sl.a.take().unwrap();
        match how {
            Back::Drop | Back::Unwind => {
                tag(2);
                if how == Back::Unwind {
                    tag(16);
                }
                run::drop_in(a, how == Back::Unwind);
                self.check_gone(&sl, fd);
                self.nontriv |= self.mask & GONE != 0;
                None
            }
            _ => {
                tag(if how == Back::IntoInner { 3 } else { 4 });
                let inner = if how == Back::IntoInner {
                    a.into_inner()
                } else {
                    macro_rules! own {
                        ($($v:ident),*) => {
                            match a {
                                $(Any::$v(x) => {
                                    let k = Any::$v(Arc::new(Async::new(dummy::$v()).unwrap()));
                                    self.adds += 1;
                                    OwnedFd::try_from(Arc::into_inner(x).unwrap()).map(|o| Inner::from_owned(&k, o))
                                })*
                                x => x.into_inner(),
                            }
                        };
                    }
                    own!(Uds, Udg, Ul, Tl, Udp)
                };
                match inner {
                    Err(e) => {
                        self.bad(FLAGS | GONE, || format!("taking a handle back failed: {e}"));
                        None
                    }
                    Ok(x) => {
                        if x.fd() != fd || !is_open(fd) {
                            self.bad(FLAGS | GONE, || format!("taking a handle back gave descriptor {} instead of {fd}", x.fd()));
                        }
                        if flags(fd) != pre {
                            self.bad(FLAGS, || "taking a handle back changed its flags".into());
                        }
                        if registered().contains(&fd) {
                            self.bad(GONE | FLAGS, || "a handle that was taken back is still registered".into());
                        }
                        self.nontriv |= self.mask & (FLAGS | GONE) != 0;
                        Some((sl, Some(x)))
                    }
                }
            }
        }
    }

    fn check_gone(&self, sl: &Slot, fd: RawFd) {
        let keeps = matches!(sl.kind, Kind::Shared | Kind::Ref);
        if is_open(fd) != keeps {
            self.bad(GONE, || format!("after dropping the handle its descriptor is {}", if keeps { "closed although it was only borrowed" } else { "still open" }));
        }
        if registered().contains(&fd) {
            self.bad(GONE, || "after dropping the handle its descriptor is still registered".into());
        }
        if sim::bad_closes() > 0 {
            self.bad(GONE, || "a descriptor was closed twice".into());
        }
    }

    fn make_ready(&self, sl: &Slot) -> bool {
        match sl.kind {
            Kind::Event => {
                let v = 1u64;
                unsafe { libc::write(sl.fd, &v as *const _ as *const _, 8) };
            }
            Kind::Tl => {
                let Ok(c) = TcpStream::connect(sl.tl.unwrap()) else { return false };
                let _ = c.into_raw_fd();
            }
            Kind::Ul => {
                let Ok(c) = UnixStream::connect_addr(sl.ul.as_ref().unwrap()) else { return false };
                let _ = c.into_raw_fd();
            }
            _ => {
                let fd = sl.peer.as_ref().unwrap().as_raw_fd();
                unsafe { libc::write(fd, b"x".as_ptr() as *const _, 1) };
            }
        }
        true
    }
    fn unready(&self, sl: &Slot) {
        unsafe {
            match sl.kind {
                Kind::Tl | Kind::Ul => {
                    nonblock(sl.fd);
                    loop {
                        let c = libc::accept(sl.fd, std::ptr::null_mut(), std::ptr::null_mut());
                        if c < 0 {
                            break;
                        }
                        libc::close(c);
                    }
                    // the client ends were left open: close everything that is a socket of ours is not possible, so they count as leaked
                }
                _ => {
                    let mut b = [0u8; 64];
                    let f = flags(sl.fd).0;
                    nonblock(sl.fd);
                    while libc::read(sl.fd, b.as_mut_ptr() as *mut _, 64) > 0 {}
                    libc::fcntl(sl.fd, libc::F_SETFL, f);
                }
            }
        }
    }

    /// A wait for readability works.
    fn use_it(&mut self, i: usize, first: bool) {
        let Some(sl) = self.slots[i].as_ref() else { return };
        if matches!(sl.kind, Kind::Tl | Kind::Ul) && !first {
            // keep the number of left-over clients small
        }
        if first && !self.make_ready(sl) {
            return;
        }
        let task = Task::new();
        let mut f = sl.a.as_ref().unwrap().readable();
        let was = pollfd(sl.fd)[0];
        let mut r = f.as_mut().poll(&mut Context::from_waker(&task.waker));
        if !first {
            if !was {
                if r.is_ready() {
                    self.bad(USE, || "readability reported on a handle that is not readable".into());
                }
                sim::settle();
                if task.wakes() > 0 {
                    let again = f.as_mut().poll(&mut Context::from_waker(&task.waker));
                    if again.is_ready() {
                        self.bad(USE, || "readability reported on a handle that is not readable".into());
                    }
                }
                if self.mask & RFD != 0 {
                    let q = pollfd(reactor_fd().unwrap().as_raw_fd())[0];
                    let others = self.slots.iter().flatten().any(|s| {
                        let p = pollfd(s.fd);
                        s.hangs.iter().any(|h| p[h.wr as usize] && h.task.wakes() == h.base) || (0..2).any(|d| p[d] && s.polled[d])
                    });
                    if q && !others {
                        self.bad(RFD, || "reactor_fd() is readable although nothing has happened".into());
                    }
                }
            }
            if !self.make_ready(self.slots[i].as_ref().unwrap()) {
                return;
            }
            let fd = self.slots[i].as_ref().unwrap().fd;
            if self.mask & RFD != 0 && !was && pollfd(fd)[0] && task.wakes() == 0 {
                let q = sim::quiet(|| pollfd(reactor_fd().unwrap().as_raw_fd())[0]);
                if task.wakes() == 0 && !q {
                    self.bad(RFD, || "a handle with a pending wait became readable, but reactor_fd() did not".into());
                }
                tag(15);
                self.nontriv = true;
            }
        }
        let mut rounds = 0;
        while r.is_pending() {
            let base = task.wakes();
            if rounds > 0 || task.wakes() == 0 {
                sim::advance(TOL + sim::stalled());
            }
            if task.wakes() == base && base == 0 || rounds > 6 {
                self.bad(USE, || "a wait on a readable handle is not woken, or does not complete".into());
                return;
            }
            r = f.as_mut().poll(&mut Context::from_waker(&task.waker));
            rounds += 1;
        }
        if let Poll::Ready(Err(e)) = r {
            self.bad(USE, || format!("a wait failed: {e}"));
        }
        drop(f);
        tag(6);
        if self.failed {
            tag(14);
            self.nontriv |= self.mask & FAILS != 0;
        }
        self.unready(self.slots[i].as_ref().unwrap());
    }

    fn race(&mut self, i: usize, j: usize, inner: bool, k: u8) {
        if i == j || self.slots[j].is_some() || self.slots[i].as_ref().map_or(true, |s| !s.a.as_ref().unwrap().sole()) {
            return;
        }
        tag(18);
        let mut old = self.slots[i].take().unwrap();
        let a = old.a.take().unwrap();
        let cell = Arc::new(std::sync::Mutex::new(None));
        let c2 = cell.clone();
        sim::spawn(move || {
            let Ok((x, y)) = UnixStream::pair() else { return };
            let fd = x.as_raw_fd();
            let r = Async::new(x);
            sim::quiet(|| *c2.lock().unwrap() = Some((fd, r, y)));
        });
        if k % 2 == 0 {
            sim::steps_after_close(1 + 2 * k as u64);
        } else {
            sim::run_steps(k as u64);
        }
        if inner {
            match a.into_inner() {
                Ok(x) => drop(x),
                Err(e) => self.bad(GONE | FLAGS, || format!("taking a handle back failed: {e}")),
            }
        } else {
            drop(a);
        }
        sim::steps_after_close(0);
        self.adds += 1;
        sim::settle();
        sim::advance(TOL + sim::stalled());
        let Some((fd, r, y)) = sim::quiet(|| cell.lock().unwrap().take()) else { return };
        match r {
            Err(e) => self.bad(GONE | FAILS | USE, || format!("registering a handle while another one is dropped failed: {e}")),
            Ok(x) => {
                if !registered().contains(&fd) {
                    self.bad(GONE | USE, || "dropping a handle deregistered another one".into());
                }
                self.nontriv |= self.mask & GONE != 0;
                self.slots[j] = Some(Slot {
                    a: Some(Any::Uds(Arc::new(x))),
                    fd,
                    kind: Kind::Uds,
                    how: How::New,
                    flags: flags(fd),
                    was_nonblocking: false,
                    peer: Some(y.into()),
                    tl: None,
                    ul: None,
                    shared: None,
                    leaked: None,
                    hangs: vec![],
            polled: [false; 2],
                });
            }
        }
    }

    fn repeat(&mut self, way: Way, wait: bool) {
        const N: usize = 40;
        let once = |w: &World| {
            let Ok((x, y)) = UnixStream::pair() else { return };
            let fd = x.as_raw_fd();
            if way == Way::Fail {
                sim::fault_add(sim::epoll_adds(), libc::ENOMEM);
            }
            let r = Async::new(x);
            match (way, r) {
                (Way::Fail, Ok(_)) => w.bad(FAILS, || "a registration that the OS refused succeeded".into()),
                (Way::Fail, Err(_)) => {}
                (_, Err(e)) => w.bad(FAILS | GONE, || format!("a registration failed: {e}")),
                (_, Ok(a)) => {
                    if wait {
                        let t = Task::new();
                        let mut f = Box::pin(a.readable());
                        let _ = f.as_mut().poll(&mut Context::from_waker(&t.waker));
                        let _ = a.poll_writable(&mut Context::from_waker(&t.waker));
                        let _ = a.poll_readable(&mut Context::from_waker(&t.waker));
                    }
                    match way {
                        Way::IntoInner => drop(a.into_inner()),
                        Way::FailTwice => {
                            let b = unsafe { std::os::fd::BorrowedFd::borrow_raw(fd) };
                            if Async::new_nonblocking(b).is_ok() {
                                w.bad(FAILS, || "a descriptor was registered twice".into());
                            }
                        }
                        _ => run::drop_in(a, way == Way::Unwind),
                    }
                }
            }
            drop(y);
        };
        for _ in 0..N {
            once(self);
        }
        sim::settle();
        let (l0, f0, r0) = (crate::alloc::live(), open_fds(), registered().len());
        for _ in 0..N {
            once(self);
        }
        sim::settle();
        let (l1, f1, r1) = (crate::alloc::live(), open_fds(), registered().len());
        tag(19);
        let bit = if matches!(way, Way::Fail | Way::FailTwice) { FAILS } else { GONE };
        if l1 - l0 > N as i64 / 2 || f1 != f0 || r1 != r0 {
            self.bad(bit, || {
                format!("{N} rounds of {way:?} (wait: {wait}) leak: allocations {l0} -> {l1}, descriptors {f0} -> {f1}, registrations {r0} -> {r1}")
            });
        }
        self.nontriv |= self.mask & bit != 0;
    }

    fn fail(&mut self, b: &Bad) {
        let fds = open_fds();
        let regs = registered().len();
        self.failed = true;
        let inject = |w: &World, k: u64, e: u8| {
            let _ = w;
            sim::fault_add(sim::epoll_adds() + k, e as i32)
        };
        let same = |w: &mut World, what: &str, r: io::Result<()>, want: i32| match r {
            Ok(()) => w.bad(FAILS, || format!("{what}: registration succeeded, expected errno {want}")),
            Err(e) => {
                if e.raw_os_error() != Some(want) {
                    w.bad(FAILS, || format!("{what}: failed with {e} instead of errno {want}"));
                }
            }
        };
        match b {
            Bad::File | Bad::Dir => {
                tag(8);
                let p = if *b == Bad::File { self.dir.join("f") } else { self.dir.clone() };
                if *b == Bad::File {
                    std::fs::write(&p, b"data").ok();
                }
                let Ok(f) = std::fs::File::open(&p) else { return };
                let fd = f.as_raw_fd();
                let r = Async::new(f).map(drop);
                same(self, "a file", r, libc::EPERM);
                if is_open(fd) {
                    self.bad(FAILS, || "a handle that could not be registered was not closed".into());
                }
            }
            Bad::Twice(i) => {
                let Some(sl) = &self.slots[*i as usize % SLOTS] else { return };
                tag(9);
                // SAFETY: the descriptor stays open during this function
                let b = unsafe { std::os::fd::BorrowedFd::borrow_raw(sl.fd) };
                let fd = sl.fd;
                let r = Async::new_nonblocking(b).map(drop);
                same(self, "a registered descriptor", r, libc::EEXIST);
                if !is_open(fd) || !registered().contains(&fd) {
                    self.bad(FAILS, || "failing to register a descriptor twice closed or deregistered it".into());
                }
            }
            Bad::Inject(e) => {
                tag(10);
                let Ok((a, b)) = UnixStream::pair() else { return };
                let fd = a.as_raw_fd();
                inject(self, 0, *e);
                let r = Async::new(a).map(drop);
                same(self, "a socket", r, *e as i32);
                if is_open(fd) {
                    self.bad(FAILS, || "a handle that could not be registered was not closed".into());
                }
                drop(b);
            }
            Bad::Accept(e) => {
                tag(11);
                let Ok(l) = Async::<TcpListener>::bind(([127, 0, 0, 1], 0)) else { return };
                let c = TcpStream::connect(l.get_ref().local_addr().unwrap());
                let Ok(c) = c else { return };
                inject(self, 0, *e);
                let r = async_io::block_on(l.accept()).map(drop);
                same(self, "an accepted stream", r, *e as i32);
                // The peer sees the connection closed.
                use std::io::Read;
                c.set_read_timeout(Some(std::time::Duration::from_secs(5))).ok();
                let n = (&c).read(&mut [0u8; 4]);
                if !matches!(n, Ok(0)) && !matches!(&n, Err(e) if e.kind() == io::ErrorKind::ConnectionReset) {
                    self.bad(FAILS, || format!("an accepted stream that could not be registered was not closed: {n:?}"));
                }
            }
            Bad::Connect(e) => {
                tag(12);
                let Ok(l) = TcpListener::bind("127.0.0.1:0") else { return };
                let ad = l.local_addr().unwrap();
                inject(self, 0, *e);
                let r = async_io::block_on(Async::<TcpStream>::connect(ad)).map(drop);
                same(self, "a connecting stream", r, *e as i32);
            }
            Bad::Pair(e) => {
                tag(13);
                inject(self, 1, *e);
                let r = Async::<UnixStream>::pair().map(drop);
                same(self, "the second half of a pair", r, *e as i32);
            }
        }
        sim::settle();
        if open_fds() != fds {
            self.bad(FAILS, || format!("{b:?}: {} descriptors leaked by a failed registration", open_fds() as i64 - fds as i64));
        }
        if registered().len() != regs {
            self.bad(FAILS, || format!("{b:?}: {} registrations before, {} after a failed one", regs, registered().len()));
        }
        self.nontriv |= self.mask & FAILS != 0;
    }
}

#[allow(non_snake_case)]
mod dummy {
    use super::*;
    pub fn Uds() -> UnixStream {
        UnixStream::pair().unwrap().0
    }
    pub fn Udg() -> UnixDatagram {
        UnixDatagram::unbound().unwrap()
    }
    pub fn Ul() -> UnixListener {
        use std::os::linux::net::SocketAddrExt;
        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        UnixListener::bind_addr(&std::os::unix::net::SocketAddr::from_abstract_name(format!("verif-d-{}-{n}", std::process::id())).unwrap()).unwrap()
    }
    pub fn Tl() -> TcpListener {
        TcpListener::bind("127.0.0.1:0").unwrap()
    }
    pub fn Udp() -> UdpSocket {
        UdpSocket::bind("127.0.0.1:0").unwrap()
    }
}

pub struct L {
    mask: u32,
    flavour: u8,
}

impl Prop for L {
    type Case = Case;
    fn sched(&self, c: &Case) -> sim::Sched {
        c.sched.clone()
    }
    fn net_ms(&self) -> u32 {
        2
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<Case> {
        let f = self.flavour;
        let s = || 0u8..SLOTS as u8;
        let kind = prop_oneof![
            Just(Kind::Uds), Just(Kind::Udg), Just(Kind::Ul), Just(Kind::Tcp), Just(Kind::Tl), Just(Kind::Udp), Just(Kind::Pipe),
            Just(Kind::Event), Just(Kind::Shared), Just(Kind::Ref)
        ];
        let how = || prop_oneof![3 => Just(How::New), 2 => Just(How::NewNonblocking), 1 => Just(How::TryFromStd), 1 => Just(How::TryFromOwned)];
        let errno = || prop_oneof![Just(libc::ENOMEM as u8), Just(libc::ENOSPC as u8), Just(libc::EMFILE as u8)];
        let bad = prop_oneof![
            Just(Bad::File), Just(Bad::Dir), s().prop_map(Bad::Twice), errno().prop_map(Bad::Inject), errno().prop_map(Bad::Accept),
            errno().prop_map(Bad::Connect), errno().prop_map(Bad::Pair)
        ];
        let op = weighted(vec![
            (6, (s(), kind, how(), any::<bool>(), any::<bool>()).prop_map(|(a, b, c, d, e)| Op::New(a, b, c, d, e)).boxed()),
            (4, (s(), prop_oneof![3 => Just(Back::Drop), 1 => Just(Back::Unwind), 2 => Just(Back::IntoInner), 2 => Just(Back::IntoOwned)]).prop_map(|(a, b)| Op::Back(a, b)).boxed()),
            (2, (s(), 1u8..4, how()).prop_map(|(a, b, c)| Op::Cycle(a, b, c)).boxed()),
            (if f == 4 { 9 } else { 4 }, (s(), if f == 4 { (0u8..4).prop_map(|x| x == 0).boxed() } else { any::<bool>().boxed() }).prop_map(|(a, b)| Op::Use(a, b)).boxed()),
            (2, (s(), any::<bool>()).prop_map(|(a, b)| Op::Hang(a, b)).boxed()),
            (2, (s(), any::<bool>()).prop_map(|(a, b)| Op::Poll(a, b)).boxed()),
            (1, Just(Op::DropHangs).boxed()),
            (if f == 3 { 6 } else { 0 }, bad.prop_map(Op::Fail).boxed()),
            (if f == 2 { 4 } else { 0 }, (s(), s(), prop_oneof![3 => Just(false), 1 => Just(true)], 0u8..120).prop_map(|(a, b, c, d)| Op::Race(a, b, c, d)).boxed()),
            (if f == 2 { 1 } else { 0 }, (prop_oneof![Just(Way::Drop), Just(Way::Unwind), Just(Way::IntoInner)], any::<bool>()).prop_map(|(a, b)| Op::Repeat(a, b)).boxed()),
            (if f == 3 { 1 } else { 0 }, (prop_oneof![Just(Way::Fail), Just(Way::FailTwice)], any::<bool>()).prop_map(|(a, b)| Op::Repeat(a, b)).boxed()),
            (1, Just(Op::Settle).boxed()),
            (1, (0u32..30_000).prop_map(Op::Advance).boxed()),
        ]);
        (run::sched_strategy(false, false), any::<bool>(), vec(op, 2..if thorough { 30 } else { 16 }))
            .prop_map(|(sched, helper, ops)| Case { sched, helper, ops })
            .boxed()
    }

    fn exec(&self, c: &Case) {
        let dir = std::env::temp_dir().join(format!("verif-l-{}", std::process::id()));
        std::fs::create_dir_all(&dir).ok();
        run::at_exit_remove(&dir);
        let mut w = World {
            mask: self.mask,
            slots: (0..SLOTS).map(|_| None).collect(),
            adds: 0,
            failed: false,
            nontriv: false,
            names: 0,
            dir,
        };
        let fd1 = match reactor_fd() {
            Some(f) => f.as_raw_fd(),
            None => run::fail("reactor_fd() is None on Linux"),
        };
        if c.helper {
            sim::spawn(|| async_io::block_on(std::future::pending::<()>()));
        }
        sim::settle();
        let base_regs = registered().len();
        let fds0 = open_fds();
        let mut clients = 0usize;
        for (n, op) in c.ops.iter().enumerate() {
            note(&format!("op {n} {op:?}"));
            let op = &w.resolve(op);
            match op {
                Op::New(i, k, h, nb, ce) => w.new_handle(*i as usize, *k, *h, *nb, *ce),
                Op::Back(i, b) => {
                    if let Some((_sl, inner)) = w.back(*i as usize, *b) {
                        drop(inner);
                    }
                }
                Op::Cycle(i, n, how) => {
                    for _ in 0..*n {
                        if let Some((sl, Some(inner))) = w.back(*i as usize, Back::IntoInner) {
                            tag(5);
                            w.register(*i as usize, sl, inner, *how);
                        }
                    }
                }
                Op::Use(i, first) => {
                    let k = w.slots[*i as usize].as_ref().map(|s| s.kind);
                    w.use_it(*i as usize, *first);
                    if matches!(k, Some(Kind::Tl | Kind::Ul)) {
                        clients += 1;
                    }
                }
                Op::Hang(i, wr) => {
                    if let Some(sl) = &mut w.slots[*i as usize] {
                        let task = Task::new();
                        let mut f = if *wr { sl.a.as_ref().unwrap().writable() } else { sl.a.as_ref().unwrap().readable() };
                        let base = task.wakes();
                        if f.as_mut().poll(&mut Context::from_waker(&task.waker)).is_pending() {
                            sl.hangs.push(Hang { f, task, base, wr: *wr });
                        }
                    }
                }
                Op::Poll(i, wr) => {
                    if let Some(sl) = &mut w.slots[*i as usize] {
                        let task = Task::new();
                        let cx = &mut Context::from_waker(&task.waker);
                        let a = sl.a.as_ref().unwrap();
                        let r = if *wr { a.poll_writable(cx) } else { a.poll_readable(cx) };
                        if r.is_pending() {
                            tag(21);
                            sl.polled[*wr as usize] = true;
                        }
                    }
                }
                Op::DropHangs => {
                    for s in w.slots.iter_mut().flatten() {
                        s.hangs.clear();
                    }
                }
                Op::Fail(b) => w.fail(b),
                Op::Race(i, j, inner, k) => w.race(*i as usize, *j as usize, *inner, *k),
                Op::Repeat(way, wait) => w.repeat(*way, *wait),
                Op::Settle => sim::settle(),
                Op::Advance(us) => sim::advance(*us as u64 * 1000),
            }
            if reactor_fd().map(|f| f.as_raw_fd()) != Some(fd1) || !is_open(fd1) {
                w.bad(RFD | GONE, || "reactor_fd() changed or was closed".into());
            }
        }
        note("final");
        sim::advance(TOL);
        // Whatever is left still works.
        for i in 0..SLOTS {
            let k = w.slots[i].as_ref().map(|s| s.kind);
            if k.is_some() && !matches!(k, Some(Kind::Tl | Kind::Ul)) {
                w.use_it(i, true);
            }
        }
        for s in w.slots.iter_mut().flatten() {
            for h in s.hangs.drain(..) {
                let r = pollfd(s.fd)[h.wr as usize];
                if r && h.task.wakes() == h.base {
                    if w.mask & USE != 0 {
                        run::fail("a wait on a ready handle was not woken");
                    }
                }
                drop(h.f);
                let _ = h.task;
            }
        }
        for i in 0..SLOTS {
            w.back(i, Back::Drop);
        }
        for s in w.slots.iter_mut() {
            *s = None;
        }
        sim::settle();
        if registered().len() != base_regs {
            w.bad(GONE, || format!("{} registrations are left over", registered().len() as i64 - base_regs as i64));
        }
        // Descriptors the harness itself leaves open: clients of listeners and the owners of Ref handles.
        let now = open_fds();
        if now > fds0 + clients + c.ops.iter().filter(|o| matches!(o, Op::New(_, Kind::Ref, ..))).count() {
            w.bad(GONE, || format!("{} descriptors are left open", now - fds0));
        }
        if w.nontriv {
            run::nontrivial();
        }
    }
}

const ASSUME: &[&str] = &["Linux epoll: /proc/self/fdinfo of the reactor's descriptor lists the registrations", "faults are injected into epoll_ctl(ADD)"];

pub fn defs() -> Vec<Def> {
    vec![
        Def {
            id: "L01",
            title: "registration, flags and taking back",
            tags: TAGS,
            rule: "random histories of registering (all constructors, ten kinds of handles), taking back, cycling, using and dropping; non-trivial: a handle was registered",
            quick: 16_000,
            stuck_violates: false,
            run: |d, o| run::run_prop(d, &L { mask: FLAGS | USE, flavour: 1 }, o),
            assumptions: ASSUME,
        },
        Def {
            id: "L02",
            title: "drop deregisters and closes exactly once",
            tags: TAGS,
            rule: "as L01; non-trivial: a handle was dropped or taken back",
            quick: 16_000,
            stuck_violates: false,
            run: |d, o| run::run_prop(d, &L { mask: GONE, flavour: 2 }, o),
            assumptions: ASSUME,
        },
        Def {
            id: "L03",
            title: "failed registrations leave no trace",
            tags: TAGS,
            rule: "as L01 with failing registrations (files, directories, duplicates, injected errors in new/accept/connect/pair); non-trivial: a registration failed",
            quick: 16_000,
            stuck_violates: true,
            run: |d, o| run::run_prop(d, &L { mask: FAILS | USE, flavour: 3 }, o),
            assumptions: ASSUME,
        },
        Def {
            id: "U01",
            title: "reactor_fd",
            tags: TAGS,
            rule: "as L01, polling reactor_fd() whenever a handle with a pending wait becomes readable; non-trivial: that happened",
            quick: 16_000,
            stuck_violates: false,
            run: |d, o| run::run_prop(d, &L { mask: RFD, flavour: 4 }, o),
            assumptions: ASSUME,
        },
    ]
}
