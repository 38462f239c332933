//! Datagrams (D02), connections (D03) and Unix socket addresses (D04).
use crate::cells::Task;
use crate::r::Fd;
use crate::run::{self, note, tag, weighted, Def, Prop};
use crate::sim;
use async_io::os::unix::reactor_fd;
use async_io::Async;
use futures_lite::Stream;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::os::fd::{AsFd, AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::os::unix::net::{UnixDatagram, UnixListener, UnixStream};
use std::path::{Path, PathBuf};
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

const TOL: u64 = 200_000_000;

fn scratch() -> PathBuf {
    let dir = std::env::temp_dir().join(format!("verif-n-{}", std::process::id()));
    std::fs::create_dir_all(&dir).ok();
    run::at_exit_remove(&dir);
    dir
}
fn registered() -> Vec<RawFd> {
    let Some(r) = reactor_fd() else { return vec![] };
    let text = std::fs::read_to_string(format!("/proc/self/fdinfo/{}", r.as_raw_fd())).unwrap_or_default();
    text.lines().filter_map(|l| l.strip_prefix("tfd:")).filter_map(|l| l.split_whitespace().next()?.parse().ok()).collect()
}
fn open_fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}
fn errno(e: &io::Error) -> String {
    format!("{:?}/{:?}", e.kind(), e.raw_os_error())
}

/// A future that has been started, with the task that polls it.
struct Run<T> {
    f: Pin<Box<dyn Future<Output = T>>>,
    task: Task,
    base: usize,
}
impl<T> Run<T> {
    fn new(f: impl Future<Output = T> + 'static) -> Run<T> {
        Run { f: Box::pin(f), task: Task::new(), base: 0 }
    }
    fn poll(&mut self) -> Option<T> {
        self.base = self.task.wakes();
        match self.f.as_mut().poll(&mut Context::from_waker(&self.task.waker)) {
            Poll::Ready(r) => Some(r),
            Poll::Pending => None,
        }
    }
    fn woken(&self) -> bool {
        self.task.wakes() > self.base
    }
    /// It has to complete now: woken if pending, and ready within a few rounds.
    fn finish(&mut self, what: &str) -> T {
        for _ in 0..8 {
            sim::settle();
            if !self.woken() {
                sim::advance(TOL + sim::stalled());
            }
            if !self.woken() {
                run::fail(format!("{what}: it can complete, but its task is not woken"));
            }
            if let Some(r) = self.poll() {
                return r;
            }
        }
        run::fail(format!("{what}: polled again and again without completing"))
    }
    /// Follows wakes; it must not complete.
    fn stays(&mut self, what: &str) -> Option<T> {
        for _ in 0..8 {
            sim::settle();
            if !self.woken() {
                return None;
            }
            if let Some(r) = self.poll() {
                return Some(r);
            }
        }
        run::fail(format!("{what}: woken again and again although nothing can happen"))
    }
}

// ---------------------------------------------------------------- D02

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum DKind {
    Udp4,
    Udp6,
    UnixBound,
    UnixUnbound,
    UnixPair,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum RHow {
    Recv,
    RecvFrom,
    Peek,
    PeekFrom,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DOp {
    Open(DKind, u8),
    Connect(u8, u8),
    Send(u8, u32),
    SendTo(u8, u8, u32),
    Recv(u8, RHow, u16, bool),
    /// sends to the connected peer until that has to wait
    Burst(u8, u8, u32),
    Cancel(u8),
    /// receives everything
    Drain(u8),
    /// The next send or receive operation reports so many times that it would block.
    Busy(u8),
    Settle,
    RunSteps(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DCase {
    sched: sim::Sched,
    helper: bool,
    ops: Vec<DOp>,
}
pub const DTAGS: &[&str] = &[
    "udp4", "udp6", "unix_bound", "unix_unbound", "unix_pair", "connected", "sent", "sent_to", "send_pending", "recv", "recv_from", "peek", "peek_from", "recv_pending", "recv_cancelled", "truncated",
    "empty_datagram", "send_error", "several_queued", "send_would_block", "recv_would_block",
];
const SOCKS: usize = 4;
const BIG: u32 = 70_000;

#[derive(Clone, Debug, PartialEq)]
enum Addr {
    None,
    Ip(SocketAddr),
    Path(PathBuf),
    Unnamed,
}
#[derive(Clone)]
enum Sock {
    Udp(Arc<Async<UdpSocket>>),
    Unix(Arc<Async<UnixDatagram>>),
}
struct Got {
    n: usize,
    buf: Vec<u8>,
    from: Addr,
}
struct DSock {
    s: Sock,
    addr: Addr,
    q: VecDeque<(Vec<u8>, Addr)>,
    peer: Option<usize>,
    pair: bool,
    recv: Option<(Run<io::Result<Got>>, RHow, usize)>,
    send: Option<(Run<io::Result<usize>>, Vec<u8>, usize)>,
}

fn unix_addr(a: &std::os::unix::net::SocketAddr) -> Addr {
    match a.as_pathname() {
        Some(p) => Addr::Path(p.into()),
        None => Addr::Unnamed,
    }
}

struct DWorld {
    s: Vec<DSock>,
    dir: PathBuf,
    serial: u32,
    busy: u8,
}

impl DWorld {
    fn fd(&self, i: usize) -> RawFd {
        match &self.s[i].s {
            Sock::Udp(s) => s.as_raw_fd(),
            Sock::Unix(s) => s.as_raw_fd(),
        }
    }

    fn payload(&mut self, len: u32) -> Vec<u8> {
        self.serial += 1;
        let n = self.serial;
        (0..len).map(|i| (i.wrapping_mul(31) ^ (n.wrapping_mul(101)) ^ (i >> 8)) as u8).collect()
    }

    /// A datagram from i has been handed over to j.
    fn deliver(&mut self, i: usize, j: usize, data: Vec<u8>) {
        let from = self.s[i].addr.clone();
        let udp = matches!(self.s[j].s, Sock::Udp(_));
        if udp && self.s[j].peer.map_or(false, |p| p != i) {
            return; // filtered by the OS
        }
        if data.is_empty() {
            tag(16);
        }
        self.s[j].q.push_back((data, from));
        if self.s[j].q.len() > 1 {
            tag(18);
        }
        self.serve(j);
    }

    /// A waiting receive operation takes what has arrived.
    fn serve(&mut self, j: usize) {
        if self.s[j].q.is_empty() {
            return;
        }
        if let Some((mut r, how, len)) = self.s[j].recv.take() {
            let g = r.finish(&format!("{how:?} on socket {j}"));
            self.got(j, how, len, g);
            // Somebody waiting for room may go on.
            self.retry_sends();
        }
    }

    fn retry_sends(&mut self) {
        for i in 0..self.s.len() {
            if let Some((mut r, data, j)) = self.s[i].send.take() {
                let empty = self.s[j].q.is_empty();
                let res = if empty { Some(r.finish(&format!("sending from socket {i}"))) } else { r.stays("a send operation") };
                match res {
                    None => self.s[i].send = Some((r, data, j)),
                    Some(Ok(n)) if n == data.len() => self.deliver(i, j, data),
                    // The receiver was connected to somebody else meanwhile.
                    Some(Err(e)) if e.raw_os_error() == Some(libc::EPERM) && self.s[j].peer.map_or(false, |p| p != i) => tag(17),
                    Some(x) => run::fail(format!("sending {} bytes gave {x:?}", data.len())),
                }
            }
        }
    }

    fn got(&mut self, i: usize, how: RHow, len: usize, r: io::Result<Got>) {
        let g = match r {
            Ok(g) => g,
            Err(e) => run::fail(format!("{how:?} on socket {i} failed: {e}")),
        };
        let peek = matches!(how, RHow::Peek | RHow::PeekFrom);
        let Some((want, from)) = self.s[i].q.front().cloned() else { run::fail(format!("{how:?} on socket {i} gave {} bytes although nothing was sent", g.n)) };
        if !peek {
            self.s[i].q.pop_front();
        }
        run::nontrivial();
        let n = want.len().min(len);
        if want.len() > len {
            tag(15);
        }
        if g.n != n || g.buf[..n] != want[..n] {
            run::fail(format!("{how:?} on socket {i} with a buffer of {len} gave {} bytes {:?}..., expected {n} bytes {:?}...", g.n, &g.buf[..g.n.min(8)], &want[..n.min(8)]));
        }
        if g.buf[n..].iter().any(|x| *x != 0xA5) {
            run::fail(format!("{how:?} changed the rest of the buffer"));
        }
        if g.from != Addr::None && g.from != from {
            run::fail(format!("{how:?} on socket {i} reported the sender {:?} instead of {from:?}", g.from));
        }
    }

    fn send(&mut self, i: usize, to: Option<usize>, len: u32) {
        if self.s[i].send.is_some() {
            return;
        }
        let unix = matches!(self.s[i].s, Sock::Unix(_));
        let Some(j) = to.or(self.s[i].peer) else { return };
        if unix != matches!(self.s[j].s, Sock::Unix(_)) {
            return;
        }
        let waits = unix && to.is_none();
        if !waits && self.s[j].q.len() >= 8 || self.s[j].q.iter().map(|x| x.0.len()).sum::<usize>() > 60_000 {
            return;
        }
        if !unix && self.s[i].peer == Some(j) && self.s[j].peer.map_or(false, |p| p != i) {
            return; // nobody takes it, and the OS tells the sender so later
        }
        let mut want: Option<i32> = None;
        if len > 65_000 {
            if unix {
                return;
            }
            want = Some(libc::EMSGSIZE);
        }
        if unix && self.s[j].peer.map_or(false, |p| p != i) {
            want = Some(libc::EPERM);
        }
        if to.is_some() {
            if unix && self.s[i].peer.is_some() {
                return;
            }
            let fam = |a: &Addr| matches!(a, Addr::Ip(x) if x.is_ipv6());
            if fam(&self.s[i].addr) != fam(&self.s[j].addr) || self.s[j].addr == Addr::Unnamed {
                return;
            }
        }
        let data = self.payload(len);
        let d = data.clone();
        let fut: Pin<Box<dyn Future<Output = io::Result<usize>>>> = match (self.s[i].s.clone(), to) {
            (Sock::Udp(s), None) => Box::pin(async move { s.send(&d).await }),
            (Sock::Unix(s), None) => Box::pin(async move { s.send(&d).await }),
            (Sock::Udp(s), Some(j)) => {
                let Addr::Ip(a) = self.s[j].addr.clone() else { return };
                Box::pin(async move { s.send_to(&d, a).await })
            }
            (Sock::Unix(s), Some(j)) => {
                let Addr::Path(a) = self.s[j].addr.clone() else { return };
                Box::pin(async move { s.send_to(&d, &a).await })
            }
        };
        tag(if to.is_some() { 7 } else { 6 });
        let mut r = Run::new(fut);
        let busy = std::mem::take(&mut self.busy);
        if !unix && busy > 0 {
            tag(19);
            sim::busy(self.fd(i), busy as i32);
        }
        let mut first = r.poll();
        if first.is_none() && !unix && busy > 0 {
            // It has room again at once.
            first = Some(r.finish("a send operation that had to wait"));
        }
        sim::busy(-1, 0);
        match (first, want) {
            (Some(Err(e)), Some(w)) if e.raw_os_error() == Some(w) => tag(17),
            (x, Some(w)) => run::fail(format!("sending {len} bytes from socket {i} to {j} gave {x:?}, expected errno {w}")),
            (Some(Ok(n)), None) if n == data.len() => {
                self.deliver(i, j, data)
            }
            (None, None) if waits => {
                tag(8);
                self.s[i].send = Some((r, data, j));
            }
            (x, None) => run::fail(format!("sending {len} bytes from socket {i} to {j} gave {x:?}")),
        }
    }

    fn recv(&mut self, i: usize, how: RHow, len: usize, keep: bool) {
        if self.s[i].recv.is_some() {
            return;
        }
        let how = match (&self.s[i].s, how) {
            (Sock::Unix(_), RHow::Peek) => RHow::Recv,
            (Sock::Unix(_), RHow::PeekFrom) => RHow::RecvFrom,
            (_, h) => h,
        };
        tag(9 + how as usize);
        let fut: Pin<Box<dyn Future<Output = io::Result<Got>>>> = match self.s[i].s.clone() {
            Sock::Udp(s) => Box::pin(async move {
                let mut buf = vec![0xA5; len];
                let (n, from) = match how {
                    RHow::Recv => (s.recv(&mut buf).await?, Addr::None),
                    RHow::Peek => (s.peek(&mut buf).await?, Addr::None),
                    RHow::RecvFrom => s.recv_from(&mut buf).await.map(|(n, a)| (n, Addr::Ip(a)))?,
                    RHow::PeekFrom => s.peek_from(&mut buf).await.map(|(n, a)| (n, Addr::Ip(a)))?,
                };
                Ok(Got { n, buf, from })
            }),
            Sock::Unix(s) => Box::pin(async move {
                let mut buf = vec![0xA5; len];
                let (n, from) = match how {
                    RHow::RecvFrom => s.recv_from(&mut buf).await.map(|(n, a)| (n, unix_addr(&a)))?,
                    _ => (s.recv(&mut buf).await?, Addr::None),
                };
                Ok(Got { n, buf, from })
            }),
        };
        // Give the network time to deliver what has been sent.
        sim::settle();
        let mut r = Run::new(fut);
        let busy = std::mem::take(&mut self.busy);
        if busy > 0 && !self.s[i].q.is_empty() {
            tag(20);
            sim::busy(self.fd(i), busy as i32);
        }
        let mut first = r.poll();
        if first.is_none() && busy > 0 && !self.s[i].q.is_empty() {
            first = Some(r.finish("a receive operation that had to wait"));
        }
        sim::busy(-1, 0);
        match first {
            Some(g) => {
                self.got(i, how, len, g);
                self.retry_sends();
            }
            None => {
                if !self.s[i].q.is_empty() {
                    run::fail(format!("{how:?} on socket {i} is pending although {} datagrams have arrived", self.s[i].q.len()));
                }
                tag(13);
                if let Some(x) = r.stays("a receive operation") {
                    run::fail(format!("{how:?} on socket {i} gave {:?} bytes although nothing was sent", x.map(|g| g.n)));
                }
                if keep {
                    self.s[i].recv = Some((r, how, len));
                } else {
                    tag(14);
                }
            }
        }
    }
}

pub struct D2;

impl Prop for D2 {
    type Case = DCase;
    fn sched(&self, c: &DCase) -> sim::Sched {
        c.sched.clone()
    }
    fn net_ms(&self) -> u32 {
        2
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<DCase> {
        let s = || 0u8..SOCKS as u8;
        let len = || prop_oneof![1 => Just(0u32), 6 => 1u32..200, 2 => 200u32..9000, 1 => Just(BIG)];
        let open = || {
            (prop_oneof![3 => Just(DKind::Udp4), 2 => Just(DKind::Udp6), 3 => Just(DKind::UnixBound), 1 => Just(DKind::UnixUnbound), 3 => Just(DKind::UnixPair)], any::<u8>())
                .prop_map(|(k, b)| DOp::Open(k, b))
        };
        let how = prop_oneof![1 => Just(RHow::Recv), 2 => Just(RHow::RecvFrom), 1 => Just(RHow::Peek), 1 => Just(RHow::PeekFrom)];
        let op = weighted(vec![
            (1, open().boxed()),
            (3, (s(), s()).prop_map(|(a, b)| DOp::Connect(a, b)).boxed()),
            (6, (s(), len()).prop_map(|(a, l)| DOp::Send(a, l)).boxed()),
            (6, (s(), s(), len()).prop_map(|(a, b, l)| DOp::SendTo(a, b, l)).boxed()),
            (12, (s(), how, prop_oneof![1 => Just(0u16), 3 => 1u16..100, 4 => 100u16..10000], any::<bool>()).prop_map(|(a, h, l, k)| DOp::Recv(a, h, l, k)).boxed()),
            (2, (s(), 3u8..14, 1u32..9000).prop_map(|(a, n, l)| DOp::Burst(a, n, l)).boxed()),
            (1, s().prop_map(DOp::Cancel).boxed()),
            (1, s().prop_map(DOp::Drain).boxed()),
            (2, (1u8..4).prop_map(DOp::Busy).boxed()),
            (1, Just(DOp::Settle).boxed()),
            (1, (0u8..60).prop_map(DOp::RunSteps).boxed()),
        ]);
        (run::sched_strategy(false, false), any::<bool>(), vec(open(), 2..4), vec(op, 4..if thorough { 50 } else { 28 }))
            .prop_map(|(sched, helper, mut o, mut v)| {
                o.append(&mut v);
                DCase { sched, helper, ops: o }
            })
            .boxed()
    }
    fn exec(&self, c: &DCase) {
        let mut w = DWorld { s: vec![], dir: scratch(), serial: 0, busy: 0 };
        if c.helper {
            sim::spawn(|| async_io::block_on(std::future::pending::<()>()));
        }
        macro_rules! ok {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(e) => run::abort_case(format!("setup: {e}")),
                }
            };
        }
        for (n, op) in c.ops.iter().enumerate() {
            note(&format!("op {n} {op:?}"));
            let m = w.s.len();
            let at = |i: u8| if m == 0 { None } else { Some(i as usize % m) };
            match op {
                DOp::Open(k, small) => {
                    if m >= SOCKS {
                        continue;
                    }
                    tag(*k as usize);
                    let mut add = |s: Sock, addr: Addr, peer: Option<usize>| {
                        good_fd(
                            match &s {
                                Sock::Udp(s) => s.as_fd().as_raw_fd(),
                                Sock::Unix(s) => s.as_fd().as_raw_fd(),
                            },
                            &format!("{k:?}"),
                        );
                        w.s.push(DSock { s, addr, q: VecDeque::new(), peer, pair: peer.is_some(), recv: None, send: None });
                    };
                    match k {
                        DKind::Udp4 | DKind::Udp6 => {
                            let ip: std::net::IpAddr = if *k == DKind::Udp4 { [127, 0, 0, 1].into() } else { [0, 0, 0, 0, 0, 0, 0, 1u16].into() };
                            let s = ok!(Async::<UdpSocket>::bind((ip, 0)));
                            let a = ok!(s.get_ref().local_addr());
                            add(Sock::Udp(Arc::new(s)), Addr::Ip(a), None);
                        }
                        DKind::UnixBound => {
                            let p = w.dir.join(format!("s{n}"));
                            let s = ok!(Async::<UnixDatagram>::bind(&p));
                            add(Sock::Unix(Arc::new(s)), Addr::Path(p), None);
                        }
                        DKind::UnixUnbound => {
                            let s = ok!(Async::<UnixDatagram>::unbound());
                            add(Sock::Unix(Arc::new(s)), Addr::Unnamed, None);
                        }
                        DKind::UnixPair => {
                            if m + 2 > SOCKS {
                                continue;
                            }
                            let (x, y) = ok!(Async::<UnixDatagram>::pair());
                            if small % 2 == 0 {
                                let v: libc::c_int = 12000;
                                for s in [&x, &y] {
                                    unsafe { libc::setsockopt(s.as_fd().as_raw_fd(), libc::SOL_SOCKET, libc::SO_SNDBUF, &v as *const _ as *const _, 4) };
                                }
                            }
                            add(Sock::Unix(Arc::new(x)), Addr::Unnamed, Some(m + 1));
                            add(Sock::Unix(Arc::new(y)), Addr::Unnamed, Some(m));
                        }
                    }
                }
                DOp::Connect(i, j) => {
                    let (Some(i), Some(j)) = (at(*i), at(*j)) else { continue };
                    if w.s[i].pair || w.s[j].pair || w.s[i].peer.is_some() || i == j {
                        continue;
                    }
                    let r = match (&w.s[i].s, &w.s[j].addr) {
                        (Sock::Udp(s), Addr::Ip(a)) => s.get_ref().connect(a),
                        (Sock::Unix(s), Addr::Path(p)) => s.get_ref().connect(p),
                        _ => continue,
                    };
                    if r.is_ok() {
                        tag(5);
                        w.s[i].peer = Some(j);
                    }
                }
                DOp::Send(i, l) => {
                    if let Some(i) = at(*i) {
                        w.send(i, None, *l)
                    }
                }
                DOp::SendTo(i, j, l) => {
                    if let (Some(i), Some(j)) = (at(*i), at(*j)) {
                        w.send(i, Some(j), *l)
                    }
                }
                DOp::Burst(i, k, l) => {
                    if let Some(i) = at(*i) {
                        for _ in 0..*k {
                            w.send(i, None, *l);
                        }
                    }
                }
                DOp::Recv(i, h, l, keep) => {
                    if let Some(i) = at(*i) {
                        w.recv(i, *h, *l as usize, *keep)
                    }
                }
                DOp::Cancel(i) => {
                    if let Some(i) = at(*i) {
                        w.s[i].recv = None;
                    }
                }
                DOp::Drain(i) => {
                    if let Some(i) = at(*i) {
                        let mut k = 0;
                        while !w.s[i].q.is_empty() && k < 100 {
                            k += 1;
                            w.recv(i, RHow::RecvFrom, 20_000, true);
                        }
                    }
                }
                DOp::Busy(k) => w.busy = *k,
                DOp::Settle => sim::settle(),
                DOp::RunSteps(k) => sim::run_steps(*k as u64),
            }
        }
        note("final");
        for _ in 0..64 {
            let mut any = false;
            for i in 0..w.s.len() {
                w.s[i].recv = None;
                if !w.s[i].q.is_empty() {
                    any = true;
                    w.recv(i, RHow::RecvFrom, 20_000, true);
                }
            }
            w.retry_sends();
            if !any && w.s.iter().all(|s| s.send.is_none()) {
                break;
            }
        }
        if w.s.iter().any(|s| s.send.is_some()) {
            run::fail("a send operation does not complete although its receiver has been drained");
        }
        // Nothing else has arrived.
        for i in 0..w.s.len() {
            w.recv(i, RHow::RecvFrom, 100, true);
        }
        run::clean_scratch();
    }
}

// ---------------------------------------------------------------- D03

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum LKind {
    Tcp4,
    Tcp6,
    Path,
    Abstract,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    /// bound but not listening
    Refused4,
    Refused6,
    RefusedPath,
    NoPath,
    File,
    NoAbstract,
    /// no descriptors left
    NoFds(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum NOp {
    Bind(LKind),
    Connect(u8, bool),
    ConnectBad(Bad),
    CancelConnect(u8),
    Accept(u8, bool),
    CancelAccept(u8),
    AcceptNoFds(u8, bool),
    /// the OS refuses to watch the listener
    AcceptUnwatched(u8, bool),
    /// a connected TCP client goes away with a reset
    Reset(u8),
    DropIncoming(u8),
    /// shrinks the backlog of a Unix listener
    Backlog(u8),
    PollWoken,
    Settle,
    RunSteps(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NCase {
    sched: sim::Sched,
    helper: bool,
    ops: Vec<NOp>,
}
pub const NTAGS: &[&str] = &[
    "tcp4", "tcp6", "unix_path", "unix_abstract", "connected", "connect_pending_first", "connect_cancelled", "accepted", "accepted_from_stream", "accept_pending", "accept_cancelled", "accept_without_descriptors",
    "refused", "no_path", "not_a_socket", "connect_without_descriptors", "backlog_full", "accepted_cancelled_connection", "abstract_missing", "reset_before_accept", "tcp_backlog_full", "connect_unwatched",
    "accept_unwatched",
];
const LST: usize = 3;

#[derive(Clone)]
enum Lis {
    Tcp(Arc<Async<TcpListener>>),
    Unix(Arc<Async<UnixListener>>),
}
enum Str {
    Tcp(Async<TcpStream>),
    Unix(Async<UnixStream>),
}
impl Str {
    fn fd(&self) -> RawFd {
        match self {
            Str::Tcp(s) => s.as_fd().as_raw_fd(),
            Str::Unix(s) => s.as_fd().as_raw_fd(),
        }
    }
}
#[derive(Clone)]
enum Target {
    Ip(SocketAddr),
    Path(PathBuf),
}

enum CState {
    Connecting(Run<io::Result<Str>>),
    Done(Str),
    Cancelled,
    /// the backlog was full
    Failed,
}
struct Client {
    id: u32,
    l: usize,
    st: CState,
    addr: Option<SocketAddr>,
}
type ARes = io::Result<(Str, Option<SocketAddr>)>;
type Inc = Pin<Box<dyn Stream<Item = io::Result<Str>>>>;
struct L {
    kind: LKind,
    s: Lis,
    target: Target,
    /// connection attempts in the order in which the OS has seen them
    q: VecDeque<u32>,
    acc: Option<Run<ARes>>,
    inc: Option<Rc<RefCell<Inc>>>,
    backlog: Option<usize>,
}

struct NWorld {
    l: Vec<L>,
    c: Vec<Client>,
    serial: u32,
    dir: PathBuf,
    servers: Vec<Str>,
}

fn connect_fut(t: Target) -> Pin<Box<dyn Future<Output = io::Result<Str>>>> {
    match t {
        Target::Ip(a) => Box::pin(async move { Async::<TcpStream>::connect(a).await.map(Str::Tcp) }),
        Target::Path(p) => Box::pin(async move { Async::<UnixStream>::connect(&p).await.map(Str::Unix) }),
    }
}

fn good_stream(s: &Str, what: &str) {
    good_fd(s.fd(), what)
}
/// Every way of making a handle gives one that is non-blocking, registered, and not inherited by children.
pub fn good_fd(fd: RawFd, what: &str) {
    let fl = unsafe { (libc::fcntl(fd, libc::F_GETFL), libc::fcntl(fd, libc::F_GETFD)) };
    if fl.0 & libc::O_NONBLOCK == 0 {
        run::fail(format!("{what}: the socket is in blocking mode"));
    }
    if fl.1 & libc::FD_CLOEXEC == 0 {
        run::fail(format!("{what}: the socket is inherited by child processes"));
    }
    if !registered().contains(&fd) {
        run::fail(format!("{what}: the socket is not registered"));
    }
}
fn raw_write(fd: RawFd, b: &[u8]) -> isize {
    unsafe { libc::send(fd, b.as_ptr() as *const _, b.len(), libc::MSG_NOSIGNAL) }
}

impl NWorld {
    fn client(&mut self, id: u32) -> &mut Client {
        self.c.iter_mut().find(|c| c.id == id).unwrap()
    }

    fn connected(&mut self, k: usize, r: io::Result<Str>) {
        let l = self.c[k].l;
        let id = self.c[k].id;
        let kind = self.l[l].kind;
        match r {
            Err(e) => run::fail(format!("connecting to a listening {kind:?} socket failed: {} {e}", errno(&e))),
            Ok(s) => {
                tag(4);
                run::nontrivial();
                good_stream(&s, "connect");
                match (&s, &self.l[l].target) {
                    (Str::Tcp(t), Target::Ip(a)) => match t.get_ref().peer_addr() {
                        Ok(p) if p == *a => {}
                        p => run::fail(format!("connect to {a}: the peer is {p:?}")),
                    },
                    (Str::Unix(t), _) => {
                        if let Err(e) = t.get_ref().peer_addr() {
                            run::fail(format!("connect: the stream is not connected: {e}"));
                        }
                    }
                    _ => unreachable!(),
                }
                if raw_write(s.fd(), &id.to_le_bytes()) != 4 {
                    run::fail(format!("connect: cannot write to the new stream: {}", io::Error::last_os_error()));
                }
                if let Str::Tcp(t) = &s {
                    self.c[k].addr = t.get_ref().local_addr().ok();
                }
                self.c[k].st = CState::Done(s);
            }
        }
    }

    fn poll_clients(&mut self, must: bool) {
        for k in 0..self.c.len() {
            let t = std::mem::replace(&mut self.c[k].st, CState::Cancelled);
            match t {
                CState::Connecting(mut r) => {
                    let res = if must { Some(r.finish("connect")) } else if r.woken() { r.poll() } else { None };
                    match res {
                        Some(x) => self.connected(k, x),
                        None => self.c[k].st = CState::Connecting(r),
                    }
                }
                x => self.c[k].st = x,
            }
        }
    }

    fn accepted(&mut self, l: usize, r: ARes) {
        let kind = self.l[l].kind;
        let (s, addr) = match r {
            Ok(x) => x,
            Err(e) => run::fail(format!("accept on a {kind:?} listener failed: {e}")),
        };
        let Some(id) = self.l[l].q.pop_front() else { run::fail(format!("accept on a {kind:?} listener returned a connection that nobody made")) };
        tag(7);
        run::nontrivial();
        good_stream(&s, "accept");
        // Everybody who is still connecting to here is connected by now.
        self.poll_one(id);
        let server = s.fd();
        let c = self.client(id);
        let (want, client_fd) = match &c.st {
            CState::Done(x) => (true, x.fd()),
            _ => (false, -1),
        };
        let local = c.addr;
        if addr.is_some() && local.is_some() && addr != local {
            run::fail(format!("accept reported the address {addr:?} instead of {local:?}"));
        }
        if want {
            let mut b = [0u8; 4];
            sim::settle();
            let n = unsafe { libc::recv(server, b.as_mut_ptr() as *mut _, 4, libc::MSG_DONTWAIT) };
            if n != 4 || u32::from_le_bytes(b) != id {
                run::fail(format!("accept gave connection {:?} ({n} bytes) instead of {id}", u32::from_le_bytes(b)));
            }
            if raw_write(server, b"ok") != 2 {
                run::fail("cannot write to an accepted stream");
            }
            sim::settle();
            let n = unsafe { libc::recv(client_fd, b.as_mut_ptr() as *mut _, 4, libc::MSG_DONTWAIT) };
            if n == 2 {
                // Reading or peeking waits for data and for nothing else.
                use futures_lite::AsyncReadExt;
                let s = Arc::new(s);
                let t = s.clone();
                let peek = id % 2 == 0;
                let mut r = Run::new(async move {
                    let mut b = [0u8; 8];
                    let n = match &*t {
                        Str::Tcp(t) if peek => t.peek(&mut b).await?,
                        Str::Tcp(t) => (&mut &*t).read(&mut b).await?,
                        Str::Unix(t) => (&mut &*t).read(&mut b).await?,
                    };
                    Ok::<_, io::Error>((n, b))
                });
                let early = r.poll().or_else(|| r.stays("reading from an accepted stream"));
                if early.is_some() {
                    run::fail(format!("reading from an accepted stream without data gave {early:?}"));
                }
                raw_write(client_fd, b"more");
                match r.finish("reading from an accepted stream") {
                    Ok((4, x)) if &x[..4] == b"more" => {}
                    x => run::fail(format!("reading from an accepted stream gave {x:?}")),
                }
                drop(r);
                self.servers.push(Arc::into_inner(s).unwrap());
                return;
            }
            if n != 2 || &b[..2] != b"ok" {
                run::fail(format!("what was written to an accepted stream did not arrive ({n})"));
            }
        } else {
            tag(17);
        }
        self.servers.push(s);
    }

    fn poll_one(&mut self, id: u32) {
        let k = self.c.iter().position(|c| c.id == id).unwrap();
        if let CState::Connecting(_) = self.c[k].st {
            let CState::Connecting(mut r) = std::mem::replace(&mut self.c[k].st, CState::Cancelled) else { unreachable!() };
            let x = r.finish("connect to a listener that has accepted the connection");
            self.connected(k, x);
        }
    }

    fn accept_fut(&mut self, l: usize, stream: bool) -> Pin<Box<dyn Future<Output = ARes>>> {
        let none = || io::Error::other("the stream of incoming connections has ended");
        match (self.l[l].s.clone(), stream) {
            (Lis::Tcp(a), false) => Box::pin(async move { a.accept().await.map(|(s, x)| (Str::Tcp(s), Some(x))) }),
            (Lis::Unix(a), false) => Box::pin(async move {
                a.accept().await.map(|(s, x)| {
                    if !x.is_unnamed() {
                        run::fail(format!("accept reported the address {x:?} for an unnamed client"));
                    }
                    (Str::Unix(s), None)
                })
            }),
            (s, true) => {
                tag(8);
                let inc = self.l[l].inc.get_or_insert_with(|| {
                    let inc: Inc = match s {
                        Lis::Tcp(a) => Box::pin(futures_lite::stream::StreamExt::map(own_tcp(a), |r| r.map(Str::Tcp))),
                        Lis::Unix(a) => Box::pin(futures_lite::stream::StreamExt::map(own_unix(a), |r| r.map(Str::Unix))),
                    };
                    Rc::new(RefCell::new(inc))
                });
                let inc = inc.clone();
                Box::pin(async move {
                    match std::future::poll_fn(|cx| inc.borrow_mut().as_mut().poll_next(cx)).await {
                        Some(r) => r.map(|s| (s, None)),
                        None => Err(none()),
                    }
                })
            }
        }
    }

    fn accept(&mut self, l: usize, stream: bool) {
        if self.l[l].acc.is_some() {
            return;
        }
        sim::settle();
        let mut r = Run::new(self.accept_fut(l, stream));
        match r.poll() {
            Some(x) => self.accepted(l, x),
            None => {
                if !self.l[l].q.is_empty() {
                    run::fail(format!("accept on a {:?} listener is pending although {} connections wait", self.l[l].kind, self.l[l].q.len()));
                }
                tag(9);
                if r.stays("accept").is_some() {
                    run::fail("accept returned although nobody connected");
                }
                self.l[l].acc = Some(r);
            }
        }
    }

    fn serve(&mut self, l: usize) {
        if self.l[l].q.is_empty() {
            return;
        }
        if let Some(mut r) = self.l[l].acc.take() {
            let x = r.finish("accept");
            self.accepted(l, x);
        }
    }

    fn bad(&mut self, b: Bad) {
        let fds = open_fds();
        let regs = registered().len();
        let mut keep: Vec<OwnedFd> = vec![];
        let refused = |v6: bool| -> Option<(OwnedFd, SocketAddr)> {
            unsafe {
                let fd = libc::socket(if v6 { libc::AF_INET6 } else { libc::AF_INET }, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
                if fd < 0 {
                    return None;
                }
                let fd = OwnedFd::from_raw_fd(fd);
                let r = if v6 {
                    let mut a: libc::sockaddr_in6 = std::mem::zeroed();
                    a.sin6_family = libc::AF_INET6 as u16;
                    a.sin6_addr.s6_addr[15] = 1;
                    libc::bind(fd.as_raw_fd(), &a as *const _ as *const _, std::mem::size_of_val(&a) as u32)
                } else {
                    let mut a: libc::sockaddr_in = std::mem::zeroed();
                    a.sin_family = libc::AF_INET as u16;
                    a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
                    libc::bind(fd.as_raw_fd(), &a as *const _ as *const _, std::mem::size_of_val(&a) as u32)
                };
                if r != 0 {
                    return None;
                }
                let s = std::mem::ManuallyDrop::new(TcpStream::from_raw_fd(fd.as_raw_fd()));
                let a = s.local_addr().ok()?;
                Some((fd, a))
            }
        };
        let (t, want) = match b {
            Bad::Refused4 | Bad::Refused6 => {
                tag(12);
                let Some((fd, a)) = refused(b == Bad::Refused6) else { return };
                keep.push(fd);
                (Target::Ip(a), libc::ECONNREFUSED)
            }
            Bad::RefusedPath => {
                tag(12);
                let p = self.dir.join(format!("dead{}", self.serial));
                self.serial += 1;
                let Ok(l) = UnixListener::bind(&p) else { return };
                drop(l);
                (Target::Path(p), libc::ECONNREFUSED)
            }
            Bad::NoPath => {
                tag(13);
                (Target::Path(self.dir.join("missing")), libc::ENOENT)
            }
            Bad::File => {
                tag(14);
                let p = self.dir.join("file");
                std::fs::write(&p, b"x").ok();
                (Target::Path(p), libc::ECONNREFUSED)
            }
            Bad::NoAbstract => {
                tag(18);
                use std::os::unix::ffi::OsStrExt;
                (Target::Path(Path::new(std::ffi::OsStr::from_bytes(format!("\0verif-none-{}", std::process::id()).as_bytes())).into()), libc::ECONNREFUSED)
            }
            Bad::NoFds(i) => {
                if self.l.is_empty() {
                    return;
                }
                tag(15);
                (self.l[i as usize % self.l.len()].target.clone(), libc::EMFILE)
            }
        };
        let mut r = Run::new(connect_fut(t));
        let lim = matches!(b, Bad::NoFds(_)).then(NoFds::new);
        let x = match r.poll() {
            Some(x) => x,
            None => r.finish("connect to a bad address"),
        };
        drop(lim);
        match x {
            Ok(_) => run::fail(format!("connecting ({b:?}) succeeded")),
            Err(e) if e.raw_os_error() == Some(want) => run::nontrivial(),
            Err(e) => run::fail(format!("connecting ({b:?}) failed with {} {e} instead of errno {want}", errno(&e))),
        }
        drop(r);
        drop(keep);
        sim::settle();
        if open_fds() != fds || registered().len() != regs {
            run::fail(format!("a failed connect ({b:?}) leaks: descriptors {fds} -> {}, registrations {regs} -> {}", open_fds(), registered().len()));
        }
    }
}

fn own_tcp(a: Arc<Async<TcpListener>>) -> impl Stream<Item = io::Result<Async<TcpStream>>> {
    // SAFETY: `Own` drops the stream before the listener it borrows.
    struct Own {
        s: Option<Pin<Box<dyn Stream<Item = io::Result<Async<TcpStream>>>>>>,
        _a: Arc<Async<TcpListener>>,
    }
    impl Drop for Own {
        fn drop(&mut self) {
            self.s = None;
        }
    }
    impl Stream for Own {
        type Item = io::Result<Async<TcpStream>>;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            self.s.as_mut().unwrap().as_mut().poll_next(cx)
        }
    }
    let r: &'static Async<TcpListener> = unsafe { &*Arc::as_ptr(&a) };
    Own { s: Some(Box::pin(r.incoming())), _a: a }
}
fn own_unix(a: Arc<Async<UnixListener>>) -> impl Stream<Item = io::Result<Async<UnixStream>>> {
    // SAFETY: as above
    struct Own {
        s: Option<Pin<Box<dyn Stream<Item = io::Result<Async<UnixStream>>>>>>,
        _a: Arc<Async<UnixListener>>,
    }
    impl Drop for Own {
        fn drop(&mut self) {
            self.s = None;
        }
    }
    impl Stream for Own {
        type Item = io::Result<Async<UnixStream>>;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            self.s.as_mut().unwrap().as_mut().poll_next(cx)
        }
    }
    let r: &'static Async<UnixListener> = unsafe { &*Arc::as_ptr(&a) };
    Own { s: Some(Box::pin(r.incoming())), _a: a }
}

/// No new descriptors can be had while this exists.
struct NoFds(libc::rlimit);
impl NoFds {
    fn new() -> NoFds {
        unsafe {
            let mut l: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
            libc::setrlimit(libc::RLIMIT_NOFILE, &libc::rlimit { rlim_cur: 0, rlim_max: l.rlim_max });
            NoFds(l)
        }
    }
}
impl Drop for NoFds {
    fn drop(&mut self) {
        unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &self.0) };
    }
}

pub struct D3;

impl Prop for D3 {
    type Case = NCase;
    fn sched(&self, c: &NCase) -> sim::Sched {
        c.sched.clone()
    }
    fn net_ms(&self) -> u32 {
        2
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<NCase> {
        let s = || 0u8..LST as u8;
        let bind = || prop_oneof![Just(LKind::Tcp4), Just(LKind::Tcp6), Just(LKind::Path), Just(LKind::Abstract)].prop_map(NOp::Bind);
        let bad = prop_oneof![
            2 => Just(Bad::Refused4), 1 => Just(Bad::Refused6), 1 => Just(Bad::RefusedPath), 1 => Just(Bad::NoPath), 1 => Just(Bad::File), 1 => Just(Bad::NoAbstract), 2 => s().prop_map(Bad::NoFds)
        ];
        let op = weighted(vec![
            (1, bind().boxed()),
            (8, (s(), any::<bool>()).prop_map(|(a, b)| NOp::Connect(a, b)).boxed()),
            (2, bad.prop_map(NOp::ConnectBad).boxed()),
            (1, any::<u8>().prop_map(NOp::CancelConnect).boxed()),
            (7, (s(), any::<bool>()).prop_map(|(a, b)| NOp::Accept(a, b)).boxed()),
            (1, s().prop_map(NOp::CancelAccept).boxed()),
            (1, (s(), any::<bool>()).prop_map(|(a, b)| NOp::AcceptNoFds(a, b)).boxed()),
            (1, (s(), any::<bool>()).prop_map(|(a, b)| NOp::AcceptUnwatched(a, b)).boxed()),
            (2, any::<u8>().prop_map(NOp::Reset).boxed()),
            (1, s().prop_map(NOp::DropIncoming).boxed()),
            (1, s().prop_map(NOp::Backlog).boxed()),
            (2, Just(NOp::PollWoken).boxed()),
            (1, Just(NOp::Settle).boxed()),
            (1, (0u8..60).prop_map(NOp::RunSteps).boxed()),
        ]);
        (run::sched_strategy(false, false), any::<bool>(), vec(bind(), 1..3), vec(op, 3..if thorough { 40 } else { 22 }))
            .prop_map(|(sched, helper, mut o, mut v)| {
                o.append(&mut v);
                NCase { sched, helper, ops: o }
            })
            .boxed()
    }
    fn exec(&self, c: &NCase) {
        let dir = scratch();
        let mut w = NWorld { l: vec![], c: vec![], serial: 1, dir, servers: vec![] };
        let _ = reactor_fd();
        if c.helper {
            sim::spawn(|| async_io::block_on(std::future::pending::<()>()));
        }
        sim::settle();
        let (fds0, regs0) = (open_fds(), registered().len());
        macro_rules! ok {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(e) => run::abort_case(format!("setup: {e}")),
                }
            };
        }
        for (n, op) in c.ops.iter().enumerate() {
            note(&format!("op {n} {op:?}"));
            let m = w.l.len();
            let at = |i: u8| i as usize % m.max(1);
            match op {
                NOp::Bind(k) => {
                    if m >= LST {
                        continue;
                    }
                    tag(*k as usize);
                    use std::os::linux::net::SocketAddrExt;
                    use std::os::unix::ffi::OsStrExt;
                    let (s, target) = match k {
                        LKind::Tcp4 | LKind::Tcp6 => {
                            let ip: std::net::IpAddr = if *k == LKind::Tcp4 { [127, 0, 0, 1].into() } else { [0, 0, 0, 0, 0, 0, 0, 1u16].into() };
                            let l = ok!(Async::<TcpListener>::bind((ip, 0)));
                            let a = ok!(l.get_ref().local_addr());
                            (Lis::Tcp(Arc::new(l)), Target::Ip(a))
                        }
                        LKind::Path => {
                            let p = w.dir.join(format!("l{n}"));
                            (Lis::Unix(Arc::new(ok!(Async::<UnixListener>::bind(&p)))), Target::Path(p))
                        }
                        LKind::Abstract => {
                            let name = format!("verif-n-{}-{n}", std::process::id());
                            let l = ok!(UnixListener::bind_addr(&ok!(std::os::unix::net::SocketAddr::from_abstract_name(&name))));
                            let mut p = vec![0];
                            p.extend(name.as_bytes());
                            (Lis::Unix(Arc::new(ok!(Async::new(l)))), Target::Path(Path::new(std::ffi::OsStr::from_bytes(&p)).into()))
                        }
                    };
                    good_fd(
                        match &s {
                            Lis::Tcp(l) => l.as_fd().as_raw_fd(),
                            Lis::Unix(l) => l.as_fd().as_raw_fd(),
                        },
                        "bind",
                    );
                    w.l.push(L { kind: *k, s, target, q: VecDeque::new(), acc: None, inc: None, backlog: None });
                }
                NOp::Connect(i, unwatched) => {
                    let i = at(*i);
                    let waiting = w.l[i].q.len();
                    if waiting >= 6 && w.l[i].backlog.is_none() || w.c.len() >= 40 {
                        continue;
                    }
                    if let (Lis::Tcp(l), Some(b)) = (&w.l[i].s, w.l[i].backlog) {
                        if waiting > b {
                            sim::settle();
                            // Only if the OS agrees that there is no room.
                            let mut t = [0u8; 256];
                            let mut n = t.len() as u32;
                            let r = unsafe { libc::getsockopt(l.as_fd().as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_INFO, t.as_mut_ptr() as *mut _, &mut n) };
                            let f = |o: usize| u32::from_ne_bytes([t[o], t[o + 1], t[o + 2], t[o + 3]]);
                            if r != 0 || f(24) <= f(28) {
                                continue;
                            }
                            tag(20);
                        }
                    }
                    let id = w.serial;
                    w.serial += 1;
                    let mut r = Run::new(connect_fut(w.l[i].target.clone()));
                    // The OS may refuse to tell when it is connected.
                    let full = w.l[i].backlog.map_or(false, |b| waiting > b);
                    let n = sim::refused();
                    sim::refuse(-1, (full && *unwatched) as i32);
                    let x = r.poll();
                    sim::refuse(-1, 0);
                    if sim::refused() != n {
                        tag(21);
                        match &x {
                            Some(Err(e)) if e.raw_os_error() == Some(libc::ENOMEM) => {}
                            Some(Err(e)) => run::fail(format!("connect failed with {} instead of the refusal to watch its socket", errno(e))),
                            Some(Ok(_)) => {}
                            None => run::fail("connect is pending although the OS refuses to watch its socket"),
                        }
                    }
                    if w.l[i].backlog.map_or(false, |b| waiting > b) {
                        // The backlog is full: an error, or waiting; but no stream that is not connected.
                        tag(16);
                        let x = x.or_else(|| r.stays("connect to a full backlog"));
                        if let Some(Ok(s)) = x {
                            let mut a: libc::sockaddr_storage = unsafe { std::mem::zeroed() };
                            let mut l = std::mem::size_of_val(&a) as u32;
                            let ok = unsafe { libc::getpeername(s.fd(), &mut a as *mut _ as *mut _, &mut l) } == 0;
                            run::fail(format!("connecting to a listener whose backlog is full succeeded (connected: {ok})"));
                        }
                        drop(r);
                        w.c.push(Client { id, l: i, st: CState::Failed, addr: None });
                        continue;
                    }
                    w.c.push(Client { id, l: i, st: CState::Cancelled, addr: None });
                    w.l[i].q.push_back(id);
                    let k = w.c.len() - 1;
                    match x {
                        Some(x) => w.connected(k, x),
                        None => {
                            tag(5);
                            w.c[k].st = CState::Connecting(r);
                        }
                    }
                    w.serve(i);
                }
                NOp::ConnectBad(b) => w.bad(*b),
                NOp::CancelConnect(i) => {
                    let n = w.c.len();
                    if n > 0 {
                        let c = &mut w.c[*i as usize % n];
                        if matches!(c.st, CState::Connecting(_)) {
                            tag(6);
                            c.st = CState::Cancelled;
                        }
                    }
                }
                NOp::Accept(i, s) => w.accept(at(*i), *s),
                NOp::Reset(i) => {
                    // Those that have not been accepted yet, if there are any.
                    let mut ids: Vec<u32> = w.l.iter().filter(|l| matches!(l.s, Lis::Tcp(_))).flat_map(|l| l.q.iter().copied()).collect();
                    if ids.is_empty() {
                        ids = w.c.iter().map(|c| c.id).collect();
                    }
                    let n = ids.len();
                    if n > 0 {
                        let id = ids[*i as usize % n];
                        if w.l.iter().any(|l| l.q.contains(&id)) {
                            w.poll_one(id);
                        }
                        let c = w.client(id);
                        let l = c.l;
                        if let CState::Done(Str::Tcp(s)) = &c.st {
                            let v = libc::linger { l_onoff: 1, l_linger: 0 };
                            unsafe { libc::setsockopt(s.as_fd().as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &v as *const _ as *const _, std::mem::size_of_val(&v) as u32) };
                            c.st = CState::Cancelled;
                            if w.l[l].q.contains(&id) {
                                tag(19);
                            }
                            sim::settle();
                        }
                    }
                }
                NOp::DropIncoming(i) => {
                    // An operation on it ends as well.
                    let i = at(*i);
                    w.l[i].acc = None;
                    w.l[i].inc = None;
                }
                NOp::CancelAccept(i) => {
                    if w.l[at(*i)].acc.take().is_some() {
                        tag(10);
                    }
                }
                NOp::AcceptNoFds(i, stream) => {
                    let i = at(*i);
                    if w.l[i].q.is_empty() || w.l[i].acc.is_some() {
                        continue;
                    }
                    tag(11);
                    sim::settle();
                    let mut r = Run::new(w.accept_fut(i, *stream));
                    let lim = NoFds::new();
                    let x = r.poll();
                    drop(lim);
                    match x {
                        Some(Err(e)) if e.raw_os_error() == Some(libc::EMFILE) => {}
                        Some(Err(e)) => run::fail(format!("accept without descriptors failed with {}", errno(&e))),
                        Some(Ok(_)) => run::abort_case("descriptors were left"),
                        None => run::fail("accept without descriptors is pending although a connection waits"),
                    }
                    // The connection is still there.
                    drop(r);
                    w.accept(i, *stream);
                }
                NOp::AcceptUnwatched(i, stream) => {
                    let i = at(*i);
                    if !w.l[i].q.is_empty() || w.l[i].acc.is_some() {
                        continue;
                    }
                    sim::settle();
                    let mut r = Run::new(w.accept_fut(i, *stream));
                    let n = sim::refused();
                    sim::refuse(-1, 1);
                    let x = r.poll();
                    sim::refuse(-1, 0);
                    // (A stream whose last operation was cancelled is watched already.)
                    if sim::refused() != n {
                        tag(22);
                        match x {
                            Some(Err(e)) if e.raw_os_error() == Some(libc::ENOMEM) => {}
                            Some(Err(e)) => run::fail(format!("accept failed with {} instead of the refusal to watch the listener", errno(&e))),
                            Some(Ok(_)) => run::fail("accept returned although nobody connected"),
                            None => run::fail("accept is pending although the OS refuses to watch the listener"),
                        }
                        run::nontrivial();
                        // It goes on working.
                        drop(r);
                        w.accept(i, *stream);
                    } else if x.is_none() {
                        w.l[i].acc = Some(r);
                    } else {
                        run::fail("accept returned although nobody connected");
                    }
                }
                NOp::Backlog(i) => {
                    let i = at(*i);
                    if let Lis::Unix(l) = &w.l[i].s {
                        unsafe { libc::listen(l.as_fd().as_raw_fd(), 2) };
                        w.l[i].backlog = Some(2);
                    } else if let Lis::Tcp(l) = &w.l[i].s {
                        unsafe { libc::listen(l.as_fd().as_raw_fd(), 1) };
                        w.l[i].backlog = Some(1);
                    }
                }
                NOp::PollWoken => w.poll_clients(false),
                NOp::Settle => sim::settle(),
                NOp::RunSteps(k) => sim::run_steps(*k as u64),
            }
        }
        note("final");
        w.poll_clients(true);
        for i in 0..w.l.len() {
            let mut k = 0;
            while !w.l[i].q.is_empty() && k < 50 {
                k += 1;
                w.accept(i, k % 2 == 0);
            }
            w.l[i].acc = None;
            w.accept(i, false);
        }
        w.l.clear();
        w.c.clear();
        w.servers.clear();
        sim::settle();
        if open_fds() != fds0 || registered().len() != regs0 {
            run::fail(format!("descriptors {fds0} -> {}, registrations {regs0} -> {} after dropping everything", open_fds(), registered().len()));
        }
        run::clean_scratch();
    }
}

// ---------------------------------------------------------------- D04

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Name {
    /// path below the scratch directory
    Path(Vec<u8>),
    Abstract(Vec<u8>),
    /// a path of that total length
    Long(u8),
    LongAbstract(u8),
    Raw(Vec<u8>),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    Same,
    Truncate,
    Append(u8),
    Flip(u8),
    PrependNul,
    StripNul,
    InsertNul(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ACase {
    sched: sim::Sched,
    listen: Vec<Name>,
    ask: Vec<(u8, Edit)>,
    raw: Vec<Name>,
}
pub const ATAGS: &[&str] = &["connected", "failed", "abstract", "path", "long", "interior_nul", "empty", "invalid", "bind", "send_to"];

fn bytes(n: &Name, dir: &Path) -> Vec<u8> {
    use std::os::unix::ffi::OsStrExt;
    let d = |rest: &[u8]| {
        let mut v = dir.as_os_str().as_bytes().to_vec();
        v.push(b'/');
        // one component
        v.extend(rest.iter().map(|b| if *b == b'/' { b'_' } else { *b }));
        v
    };
    match n {
        Name::Path(p) => d(p),
        Name::Abstract(p) => {
            let mut v = vec![0];
            // names of this case do not clash with those of others
            v.extend(format!("v{}", std::process::id()).as_bytes());
            v.extend(p);
            v
        }
        Name::Long(n) => {
            let mut v = d(b"");
            while v.len() < *n as usize {
                v.push(b'a');
            }
            v
        }
        Name::LongAbstract(n) => {
            let mut v = vec![0];
            v.extend(format!("v{}", std::process::id()).as_bytes());
            while v.len() < *n as usize {
                v.push(b'b');
            }
            v
        }
        Name::Raw(v) => v.clone(),
    }
}
fn edit(mut v: Vec<u8>, e: Edit) -> Vec<u8> {
    match e {
        Edit::Same => {}
        Edit::Truncate => {
            v.pop();
        }
        Edit::Append(b) => v.push(if b == b'/' { 0 } else { b }),
        Edit::Flip(i) => {
            if let Some(l) = v.last_mut() {
                *l ^= 1 << (i % 8);
                if *l == b'/' {
                    *l = 1;
                }
            }
        }
        Edit::PrependNul => v.insert(0, 0),
        Edit::StripNul => {
            if v.first() == Some(&0) {
                v.remove(0);
            }
        }
        Edit::InsertNul(i) => {
            let n = v.len();
            v.insert(n - (i as usize % (n + 1)).min(4), 0);
        }
    }
    v
}
/// Only names that cannot touch anything outside of the scratch directory are bound.
fn bindable(v: &[u8], dir: &Path) -> bool {
    use std::os::unix::ffi::OsStrExt;
    let d = dir.as_os_str().as_bytes();
    v.first() == Some(&0) || v.len() > d.len() + 1 && v.starts_with(d) && v[d.len()] == b'/' && !v[d.len() + 1..].contains(&b'/') && &v[d.len() + 1..] != b"." && &v[d.len() + 1..] != b".."
}
/// What the OS says, through std.
fn std_addr(v: &[u8]) -> io::Result<std::os::unix::net::SocketAddr> {
    use std::os::linux::net::SocketAddrExt;
    use std::os::unix::ffi::OsStrExt;
    if v.first() == Some(&0) {
        std::os::unix::net::SocketAddr::from_abstract_name(&v[1..])
    } else {
        std::os::unix::net::SocketAddr::from_pathname(Path::new(std::ffi::OsStr::from_bytes(v)))
    }
}

pub struct D4;
impl Prop for D4 {
    type Case = ACase;
    fn sched(&self, c: &ACase) -> sim::Sched {
        c.sched.clone()
    }
    fn strategy(&self, _: bool) -> BoxedStrategy<ACase> {
        let part = || vec(prop_oneof![4 => b'a'..b'e', 2 => any::<u8>(), 1 => Just(0u8)], 0..12);
        let clean = || vec(prop_oneof![4 => b'a'..b'e', 2 => 1u8..255], 1..12);
        let name = move || {
            prop_oneof![
                4 => clean().prop_map(Name::Path),
                4 => part().prop_map(Name::Abstract),
                2 => (98u8..112).prop_map(Name::Long),
                2 => (98u8..112).prop_map(Name::LongAbstract),
            ]
        };
        let raw = move || prop_oneof![1 => Just(Name::Raw(vec![])), 2 => part().prop_map(|mut v| { if v.first() != Some(&0) { v.insert(0, b'x') } Name::Raw(v) }), 3 => part().prop_map(Name::Path), 2 => name()];
        let edit = prop_oneof![
            6 => Just(Edit::Same), 2 => Just(Edit::Truncate), 2 => any::<u8>().prop_map(Edit::Append), 1 => (0u8..8).prop_map(Edit::Flip), 1 => Just(Edit::PrependNul), 1 => Just(Edit::StripNul),
            2 => (0u8..5).prop_map(Edit::InsertNul)
        ];
        (vec(name(), 1..4), vec((any::<u8>(), edit), 1..8), vec(raw(), 0..3)).prop_map(|(listen, ask, raw)| ACase { sched: sim::Sched::calm(), listen, ask, raw }).boxed()
    }
    fn exec(&self, c: &ACase) {
        use std::os::unix::ffi::OsStrExt;
        let dir = scratch();
        let path = |v: &[u8]| -> PathBuf { Path::new(std::ffi::OsStr::from_bytes(v)).into() };
        let mut ls: Vec<(Vec<u8>, Async<UnixListener>)> = vec![];
        let mut ds: Vec<(Vec<u8>, Async<UnixDatagram>)> = vec![];
        for (k, n) in c.listen.iter().enumerate() {
            let v = bytes(n, &dir);
            if !bindable(&v, &dir) {
                continue;
            }
            if k == 2 {
                // a datagram socket
                let r = std_addr(&v).and_then(|a| UnixDatagram::bind_addr(&a)).and_then(Async::new);
                if let Ok(s) = r {
                    ds.push((v, s));
                }
                continue;
            }
            if let Ok(l) = std_addr(&v).and_then(|a| UnixListener::bind_addr(&a)).and_then(Async::new) {
                ls.push((v, l));
            }
        }
        let mut asks: Vec<Vec<u8>> = c.raw.iter().map(|n| bytes(n, &dir)).collect();
        let all: Vec<Vec<u8>> = ls.iter().map(|x| x.0.clone()).chain(ds.iter().map(|x| x.0.clone())).collect();
        for (i, e) in &c.ask {
            if !all.is_empty() {
                asks.push(edit(all[*i as usize % all.len()].clone(), *e));
            }
        }
        for v in asks {
            if v.first() != Some(&0) && v.contains(&0) {
                tag(5);
            }
            tag(if v.first() == Some(&0) { 2 } else { 3 });
            if v.len() > 100 {
                tag(4);
            }
            if v.is_empty() {
                tag(6);
            }
            note(&format!("connect to {v:?}"));
            // Through std: which listener is reached, or what goes wrong.
            let std_r = std_addr(&v).and_then(|a| UnixStream::connect_addr(&a));
            let reach = |ls: &Vec<(Vec<u8>, Async<UnixListener>)>| ls.iter().position(|(_, l)| l.get_ref().accept().is_ok());
            let want = match &std_r {
                Ok(_) => Ok(reach(&ls)),
                Err(e) => Err(e),
            };
            let r = async_io::block_on(Async::<UnixStream>::connect(path(&v)));
            match (&r, want) {
                (Ok(_), Ok(w)) => {
                    let g = reach(&ls);
                    if g != w {
                        run::fail(format!("connect to {v:?} reached listener {g:?} instead of {w:?}"));
                    }
                    tag(0);
                    run::nontrivial();
                }
                (Err(e), Err(w)) => {
                    tag(if e.raw_os_error().is_some() { 1 } else { 7 });
                    if v.len() > 90 || v.contains(&0) {
                        run::nontrivial();
                    }
                    // For addresses that are not valid, std has its own error without a number.
                    let same = match w.raw_os_error() {
                        Some(x) => e.raw_os_error() == Some(x),
                        None => true,
                    };
                    if !same {
                        run::fail(format!("connect to {v:?} failed with {} instead of {}", errno(e), errno(w)));
                    }
                }
                (x, w) => run::fail(format!("connect to {v:?} gave {:?}, but the OS says {:?}", x.as_ref().map(drop).map_err(errno), w.map_err(errno))),
            }
            // Sending a datagram and binding behave as in std, which takes only paths.
            if let Ok(s) = Async::<UnixDatagram>::unbound() {
                tag(9);
                let plain = UnixDatagram::unbound().ok();
                let _ = plain.as_ref().map(|p| p.set_nonblocking(true));
                let a = plain.map(|p| p.send_to(b"abc", path(&v)));
                let got = |ds: &Vec<(Vec<u8>, Async<UnixDatagram>)>| {
                    let mut b = [0u8; 8];
                    ds.iter().position(|(_, d)| d.get_ref().recv(&mut b).is_ok())
                };
                let ga = got(&ds);
                let b = async_io::block_on(s.send_to(b"abc", path(&v)));
                let gb = got(&ds);
                if let Some(a) = a {
                    let same = match (&a, &b) {
                        (Ok(x), Ok(y)) => x == y && ga == gb,
                        (Err(x), Err(y)) => errno(x) == errno(y),
                        _ => false,
                    };
                    if !same {
                        run::fail(format!("send_to {v:?} gave {:?} (to {gb:?}) instead of {:?} (to {ga:?})", b.map_err(|e| errno(&e)), a.map_err(|e| errno(&e))));
                    }
                }
            }
            if bindable(&v, &dir) {
                tag(8);
                note(&format!("bind {v:?}"));
                let p = path(&v);
                let exists = p.as_os_str().as_bytes().first() != Some(&0) && std::fs::symlink_metadata(&p).is_ok();
                let a = UnixListener::bind(&p).map(drop);
                if a.is_ok() && !exists {
                    std::fs::remove_file(&p).ok();
                }
                let b = Async::<UnixListener>::bind(&p).map(drop);
                if b.is_ok() && !exists {
                    std::fs::remove_file(&p).ok();
                }
                let d = Async::<UnixDatagram>::bind(&p).map(drop);
                if d.is_ok() && !exists {
                    std::fs::remove_file(&p).ok();
                }
                for (what, x) in [("UnixListener", b), ("UnixDatagram", d)] {
                    let same = match (&a, &x) {
                        (Ok(_), Ok(_)) => true,
                        (Err(y), Err(x)) => errno(x) == errno(y),
                        _ => false,
                    };
                    if !same {
                        run::fail(format!("{what}::bind({v:?}) gave {:?} instead of {:?}", x.map_err(|e| errno(&e)), a.as_ref().map_err(errno)));
                    }
                }
            }
        }
        drop(ls);
        let _ = Fd;
        run::clean_scratch();
    }
}

pub fn defs() -> Vec<Def> {
    vec![
        Def {
            id: "D02",
            title: "datagrams",
            tags: DTAGS,
            rule: "histories of send/send_to/recv/recv_from/peek/peek_from over up to four UDP and Unix sockets against a model of queues; non-trivial: a datagram was received",
            quick: 10_000,
            stuck_violates: true,
            run: |d, o| run::run_prop(d, &D2, o),
            assumptions: &["loopback delivers datagrams in order and without loss while receive buffers have room"],
        },
        Def {
            id: "D03",
            title: "connecting and accepting",
            tags: NTAGS,
            rule: "histories of binding, connecting, accepting and cancelling, with refused and impossible targets, full backlogs and no descriptors; non-trivial: a connection was made or failed as it should",
            quick: 8_000,
            stuck_violates: true,
            run: |d, o| run::run_prop(d, &D3, o),
            assumptions: &["loopback connections are established in the order in which they were started"],
        },
        Def {
            id: "D04",
            title: "Unix socket addresses",
            tags: ATAGS,
            rule: "addresses derived from those of live sockets, compared with std; non-trivial: a connection was made, or the address was long or contained a NUL",
            quick: 20_000,
            stuck_violates: true,
            run: |d, o| run::run_prop(d, &D4, o),
            assumptions: &["std::os::unix::net is right"],
        },
    ]
}
