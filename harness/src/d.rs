//! Data integrity of streams: every byte written arrives once, in order, until the end of the stream.
use crate::cells::Racy;
use crate::run::{self, note, tag, weighted, Def, Prop};
use crate::sim;
use async_io::{Async, IoSafe};
use futures_io::{AsyncRead, AsyncWrite};
use futures_lite::future::poll_fn;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::io::{self, ErrorKind, IoSlice, IoSliceMut, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::{AsFd, AsRawFd, RawFd};
use std::os::unix::net::UnixStream;
use std::pin::Pin;
use std::sync::Arc;
use std::task::Poll;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Uds,
    Tcp,
    Tcp6,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    /// AsyncRead/AsyncWrite on &Async<T> (shared ends) or Async<T> (exclusive ends)
    Plain,
    Vectored,
    /// read_with/write_with or their _mut versions
    With,
    /// a plain attempt, then readable()/writable()
    Wait,
    /// TcpStream peek before reading
    Peek,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    how: How,
    len: u16,
    /// give up after that many polls
    cancel: Option<u8>,
    flush: bool,
    close: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dir {
    writes: Vec<Step>,
    reads: Vec<Step>,
    /// which executor runs the two sides: the library's block_on or a plain one
    lib: (bool, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Conn {
    kind: Kind,
    small: bool,
    shared: bool,
    dirs: (Dir, Dir),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    sched: sim::Sched,
    conns: Vec<Conn>,
}

pub const TAGS: &[&str] = &[
    "uds", "tcp", "tcp6", "shared", "exclusive", "write_pending", "read_pending", "write_cancelled", "read_cancelled", "partial_write", "partial_read", "vectored", "peeked", "closed_midway",
    "end_of_stream", "zero_length", "connected_through_library",
];

pub trait Sock: AsFd + IoSafe + Send + Sync + 'static + Read + Write {
    fn peek_(a: &Async<Self>, b: &mut [u8]) -> Option<impl Future<Output = io::Result<usize>>>
    where
        Self: Sized;
    fn rd(&self, b: &mut [u8]) -> io::Result<usize>;
    fn wr(&self, b: &[u8]) -> io::Result<usize>;
    fn shut(&self) -> io::Result<()>;
}
impl Sock for TcpStream {
    fn peek_(a: &Async<Self>, b: &mut [u8]) -> Option<impl Future<Output = io::Result<usize>>> {
        Some(a.peek(b))
    }
    fn rd(&self, b: &mut [u8]) -> io::Result<usize> {
        (&*self).read(b)
    }
    fn wr(&self, b: &[u8]) -> io::Result<usize> {
        (&*self).write(b)
    }
    fn shut(&self) -> io::Result<()> {
        self.shutdown(std::net::Shutdown::Write)
    }
}
impl Sock for UnixStream {
    fn peek_(_: &Async<Self>, _: &mut [u8]) -> Option<impl Future<Output = io::Result<usize>>> {
        None::<std::future::Ready<_>>
    }
    fn rd(&self, b: &mut [u8]) -> io::Result<usize> {
        (&*self).read(b)
    }
    fn wr(&self, b: &[u8]) -> io::Result<usize> {
        (&*self).write(b)
    }
    fn shut(&self) -> io::Result<()> {
        self.shutdown(std::net::Shutdown::Write)
    }
}

fn byte(dir: u8, i: u64) -> u8 {
    let x = (i.wrapping_mul(0x9E3779B97F4A7C15) >> 29) ^ (i >> 3);
    (x as u8) ^ dir.wrapping_mul(0x5b)
}

/// Polls at most `n` times, then gives up.
async fn limited<R>(n: Option<u8>, wr: bool, f: impl Future<Output = R>) -> Option<R> {
    let mut f = std::pin::pin!(f);
    let mut left = n;
    poll_fn(move |cx| match f.as_mut().poll(cx) {
        Poll::Ready(r) => Poll::Ready(Some(r)),
        Poll::Pending => {
            tag(if wr { 5 } else { 6 });
            run::nontrivial();
            match &mut left {
                Some(0) => {
                    tag(if wr { 7 } else { 8 });
                    Poll::Ready(None)
                }
                Some(k) => {
                    *k -= 1;
                    Poll::Pending
                }
                None => Poll::Pending,
            }
        }
    })
    .await
}

struct Chan {
    id: u8,
    written: Racy<u64>,
    done: Racy<bool>,
}

enum End<'a, S> {
    Shared(&'a Async<S>),
    Own(&'a mut Async<S>),
}

impl<S: Sock> End<'_, S>
where
    for<'a> &'a S: Read + Write,
{
    async fn read(&mut self, how: How, buf: &mut [u8]) -> io::Result<usize> {
        let k = buf.len() / 3;
        match (self, how) {
            (End::Shared(a), How::Plain | How::Peek) => {
                let mut r: &Async<S> = a;
                poll_fn(|cx| Pin::new(&mut r).poll_read(cx, buf)).await
            }
            (End::Own(a), How::Plain | How::Peek) => poll_fn(|cx| Pin::new(&mut **a).poll_read(cx, buf)).await,
            (e, How::Vectored) => {
                tag(11);
                let (x, y) = buf.split_at_mut(k);
                let mut v = [IoSliceMut::new(x), IoSliceMut::new(&mut []), IoSliceMut::new(y)];
                match e {
                    End::Shared(a) => {
                        let mut r: &Async<S> = a;
                        poll_fn(|cx| Pin::new(&mut r).poll_read_vectored(cx, &mut v)).await
                    }
                    End::Own(a) => poll_fn(|cx| Pin::new(&mut **a).poll_read_vectored(cx, &mut v)).await,
                }
            }
            (End::Shared(a), How::With) => a.read_with(|s| s.rd(buf)).await,
            // SAFETY: the handle is neither replaced nor dropped
            (End::Own(a), How::With) => unsafe { a.read_with_mut(|s| s.read(buf)).await },
            (e, How::Wait) => {
                let a: &Async<S> = match e {
                    End::Shared(a) => a,
                    End::Own(a) => a,
                };
                loop {
                    match a.get_ref().rd(buf) {
                        Err(e) if e.kind() == ErrorKind::WouldBlock => a.readable().await?,
                        r => return r,
                    }
                }
            }
        }
    }
    async fn write(&mut self, how: How, buf: &[u8]) -> io::Result<usize> {
        let k = buf.len() / 3;
        match (self, how) {
            (End::Shared(a), How::Plain | How::Peek) => {
                let mut r: &Async<S> = a;
                poll_fn(|cx| Pin::new(&mut r).poll_write(cx, buf)).await
            }
            (End::Own(a), How::Plain | How::Peek) => poll_fn(|cx| Pin::new(&mut **a).poll_write(cx, buf)).await,
            (e, How::Vectored) => {
                tag(11);
                let (x, y) = buf.split_at(k);
                let v = [IoSlice::new(x), IoSlice::new(&[]), IoSlice::new(y)];
                match e {
                    End::Shared(a) => {
                        let mut r: &Async<S> = a;
                        poll_fn(|cx| Pin::new(&mut r).poll_write_vectored(cx, &v)).await
                    }
                    End::Own(a) => poll_fn(|cx| Pin::new(&mut **a).poll_write_vectored(cx, &v)).await,
                }
            }
            (End::Shared(a), How::With) => a.write_with(|s| s.wr(buf)).await,
            // SAFETY: as above
            (End::Own(a), How::With) => unsafe { a.write_with_mut(|s| s.write(buf)).await },
            (e, How::Wait) => {
                let a: &Async<S> = match e {
                    End::Shared(a) => a,
                    End::Own(a) => a,
                };
                loop {
                    match a.get_ref().wr(buf) {
                        Err(e) if e.kind() == ErrorKind::WouldBlock => a.writable().await?,
                        r => return r,
                    }
                }
            }
        }
    }
    async fn flush_or_close(&mut self, close: bool) -> io::Result<()> {
        match self {
            End::Shared(a) => {
                let mut r: &Async<S> = a;
                if close {
                    poll_fn(|cx| Pin::new(&mut r).poll_close(cx)).await
                } else {
                    poll_fn(|cx| Pin::new(&mut r).poll_flush(cx)).await
                }
            }
            End::Own(a) => {
                if close {
                    poll_fn(|cx| Pin::new(&mut **a).poll_close(cx)).await
                } else {
                    poll_fn(|cx| Pin::new(&mut **a).poll_flush(cx)).await
                }
            }
        }
    }
    fn handle(&self) -> &Async<S> {
        match self {
            End::Shared(a) => a,
            End::Own(a) => a,
        }
    }

    async fn write_step(&mut self, st: &Step, ch: &Chan, cancellable: bool) -> u64 {
        let at = *ch.written.get();
        let buf: Vec<u8> = (0..st.len as u64).map(|i| byte(ch.id, at + i)).collect();
        let lim = if cancellable { st.cancel } else { None };
        let r = limited(lim, true, self.write(st.how, &buf)).await;
        let n = match r {
            None => 0,
            Some(Err(e)) => run::fail(format!("channel {}: write failed: {e}", ch.id)),
            Some(Ok(n)) => {
                if n > buf.len() || n == 0 && !buf.is_empty() {
                    run::fail(format!("channel {}: a write of {} bytes reported {n}", ch.id, buf.len()));
                }
                if n < buf.len() {
                    tag(9);
                }
                if buf.is_empty() {
                    tag(15);
                }
                *ch.written.get() += n as u64;
                n as u64
            }
        };
        if st.flush || st.close {
            if st.close {
                tag(13);
            }
            if let Err(e) = self.flush_or_close(st.close).await {
                run::fail(format!("channel {}: flush or close failed: {e}", ch.id));
            }
        }
        n
    }

    fn judge(ch: &Chan, at: u64, what: &str, got: &[u8]) {
        for (i, x) in got.iter().enumerate() {
            let want = byte(ch.id, at + i as u64);
            if *x != want {
                let find = (0..*ch.written.get()).find(|k| got[i..].iter().take(8).enumerate().all(|(j, y)| *y == byte(ch.id, k + j as u64)));
                run::fail(format!("channel {}: {what}: byte {} of the stream is {x:#x} instead of {want:#x} (the data is that of position {find:?})", ch.id, at + i as u64));
            }
        }
    }

    /// Returns the number of bytes read, None at the end of the stream.
    async fn read_step(&mut self, st: &Step, ch: &Chan, at: u64, cancellable: bool, max: usize) -> Option<u64> {
        let len = (st.len as usize).min(max);
        let lim = if cancellable { st.cancel } else { None };
        if st.how == How::Peek {
            let mut b = vec![0xA5; len];
            let r = match S::peek_(self.handle(), &mut b) {
                Some(f) => limited(lim, false, f).await,
                None => None,
            };
            match r {
                None => {}
                Some(Err(e)) => run::fail(format!("channel {}: peek failed: {e}", ch.id)),
                Some(Ok(n)) => {
                    tag(12);
                    if n > len {
                        run::fail("peek returned more than fits");
                    }
                    Self::judge(ch, at, "peek", &b[..n]);
                    if n == 0 && len > 0 && !(*ch.done.get() && at == *ch.written.get()) {
                        run::fail(format!("channel {}: peek reported the end of the stream at {at} of {}", ch.id, *ch.written.get()));
                    }
                }
            }
        }
        let mut b = vec![0xA5; len];
        let r = limited(lim, false, self.read(st.how, &mut b)).await;
        match r {
            None => Some(0),
            Some(Err(e)) => run::fail(format!("channel {}: read failed: {e}", ch.id)),
            Some(Ok(n)) => {
                if n > len {
                    run::fail("a read returned more than fits");
                }
                if n > 0 && n < len {
                    tag(10);
                }
                Self::judge(ch, at, "read", &b[..n]);
                if b[n..].iter().any(|x| *x != 0xA5) {
                    run::fail(format!("channel {}: a read of {n} bytes changed the rest of the buffer", ch.id));
                }
                if n == 0 && len > 0 {
                    if !*ch.done.get() || at != *ch.written.get() {
                        run::fail(format!("channel {}: end of stream after {at} of {} bytes (writer done: {})", ch.id, *ch.written.get(), *ch.done.get()));
                    }
                    tag(14);
                    return None;
                }
                Some(n as u64)
            }
        }
    }

    async fn writer(mut self, d: &Dir, ch: &Chan) {
        let mut may = true;
        for st in &d.writes {
            let before = *ch.written.get();
            self.write_step(st, ch, may).await;
            may = *ch.written.get() > before;
        }
        *ch.done.get() = true;
        if let Err(e) = self.handle().get_ref().shut() {
            run::fail(format!("channel {}: shutdown failed: {e}", ch.id));
        }
    }
    async fn reader(mut self, d: &Dir, ch: &Chan) {
        let mut at = 0;
        let mut may = true;
        for st in d.reads.iter().cycle() {
            match self.read_step(st, ch, at, may, usize::MAX).await {
                None => break,
                Some(n) => {
                    may = n > 0;
                    at += n;
                }
            }
        }
    }
    /// Strict alternation: the whole message in one direction, then the other one.
    async fn pingpong(mut self, mine: &Dir, theirs: &Dir, chs: [&Chan; 2], first: bool) {
        let rounds = mine.writes.len().max(theirs.writes.len());
        let mut at = 0u64;
        for r in 0..rounds {
            for turn in [first, !first] {
                if turn {
                    let Some(st) = mine.writes.get(r) else { continue };
                    let mut left = st.len;
                    let mut may = true;
                    while left > 0 {
                        let st = Step { len: left, ..st.clone() };
                        let n = self.write_step(&st, chs[0], may).await;
                        may = n > 0;
                        left -= n as u16;
                    }
                } else {
                    let Some(st) = theirs.writes.get(r) else { continue };
                    let end = at + st.len as u64;
                    let mut may = true;
                    let mut k = 0;
                    while at < end {
                        let rs = &mine.reads[k % mine.reads.len()];
                        k += 1;
                        match self.read_step(rs, chs[1], at, may, (end - at) as usize).await {
                            None => run::fail("unexpected end of stream"),
                            Some(n) => {
                                may = n > 0;
                                at += n;
                            }
                        }
                    }
                }
            }
        }
        *chs[0].done.get() = true;
        let _ = self.handle().get_ref().shut();
        let mut b = [0u8; 8];
        match self.read(How::Plain, &mut b).await {
            Ok(0) => tag(14),
            r => run::fail(format!("expected the end of the stream, got {r:?} {b:?}")),
        }
    }
}

fn exec<R>(lib: bool, f: impl Future<Output = R>) -> R {
    if lib {
        async_io::block_on(f)
    } else {
        futures_lite::future::block_on(f)
    }
}

struct Join {
    left: Racy<usize>,
    u: parking::Unparker,
}
struct Done(Arc<Join>);
impl Drop for Done {
    fn drop(&mut self) {
        *self.0.left.get() -= 1;
        if *self.0.left.get() == 0 {
            self.0.u.unpark();
        }
    }
}

fn small_bufs(fd: RawFd) {
    let v: libc::c_int = 4608;
    unsafe { libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &v as *const _ as *const _, 4) };
}

fn go<S: Sock>(x: Async<S>, y: Async<S>, c: &Conn, n: usize, j: &Arc<Join>)
where
    for<'a> &'a S: Read + Write,
{
    if c.small {
        small_bufs(x.get_ref().as_fd().as_raw_fd());
        small_bufs(y.get_ref().as_fd().as_raw_fd());
    }
    let ch = |k: u8| Arc::new(Chan { id: n as u8 * 2 + k, written: Racy::new(0), done: Racy::new(false) });
    let (c0, c1) = (ch(0), ch(1));
    let (d0, d1) = (c.dirs.0.clone(), c.dirs.1.clone());
    if c.shared {
        tag(3);
        *j.left.get() += 4;
        let (x, y) = (Arc::new(x), Arc::new(y));
        for (a, d, ch, rd) in [
            (x.clone(), d0.clone(), c0.clone(), false),
            (y.clone(), d0, c0, true),
            (y.clone(), d1.clone(), c1.clone(), false),
            (x.clone(), d1, c1, true),
        ] {
            let done = Done(j.clone());
            sim::spawn(move || {
                let _done = done;
                let e = End::Shared(&*a);
                if rd {
                    exec(d.lib.1, e.reader(&d, &ch));
                } else {
                    exec(d.lib.0, e.writer(&d, &ch));
                }
                // The handle may go away before `_done`.
                drop(a);
            });
        }
    } else {
        tag(4);
        *j.left.get() += 2;
        for (mut a, mine, theirs, chs, first) in [(x, d0.clone(), d1.clone(), (c0.clone(), c1.clone()), true), (y, d1, d0, (c1, c0), false)] {
            let done = Done(j.clone());
            sim::spawn(move || {
                let _done = done;
                exec(mine.lib.0, End::Own(&mut a).pingpong(&mine, &theirs, [&chs.0, &chs.1], first));
                drop(a);
            });
        }
    }
}

pub struct D1;

impl Prop for D1 {
    type Case = Case;
    fn sched(&self, c: &Case) -> sim::Sched {
        c.sched.clone()
    }
    fn net_ms(&self) -> u32 {
        2
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<Case> {
        let how = prop_oneof![3 => Just(How::Plain), 2 => Just(How::Vectored), 2 => Just(How::With), 2 => Just(How::Wait), 1 => Just(How::Peek)];
        let len = || weighted(vec![(1, Just(0u16).boxed()), (4, (1u16..64).boxed()), (3, (64u16..2000).boxed()), (2, (2000u16..12000).boxed())]);
        let step = move |l: BoxedStrategy<u16>, wr: bool| {
            (how.clone(), l, prop_oneof![3 => Just(None), 1 => (0u8..3).prop_map(Some)], any::<[bool; 2]>(), any::<bool>()).prop_map(move |(how, len, cancel, [f, c1], c2)| Step {
                how,
                len,
                cancel,
                flush: wr && f,
                close: wr && c1 && c2,
            })
        };
        let max = if thorough { 12 } else { 8 };
        let dir = move || {
            (
                vec(step(len(), true), 0..max),
                // at least one step that makes progress
                (vec(step(len(), false), 0..5), step((1u16..4000).boxed(), false)).prop_map(|(mut v, s)| {
                    v.push(s);
                    v
                }),
                any::<(bool, bool)>(),
            )
                .prop_map(|(writes, reads, lib)| Dir { writes, reads, lib })
        };
        let conn = (prop_oneof![4 => Just(Kind::Uds), 1 => Just(Kind::Tcp), 1 => Just(Kind::Tcp6)], any::<bool>(), any::<bool>(), (dir(), dir()))
            .prop_map(|(kind, small, shared, dirs)| Conn { kind, small, shared, dirs });
        (run::sched_strategy(false, false), vec(conn, 1..if thorough { 4 } else { 3 })).prop_map(|(sched, conns)| Case { sched, conns }).boxed()
    }
    fn exec(&self, c: &Case) {
        note("setup");
        let p = parking::Parker::new();
        let j = Arc::new(Join { left: Racy::new(1), u: p.unparker() });
        macro_rules! ok {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(e) => run::abort_case(format!("setup: {e}")),
                }
            };
        }
        for (n, cn) in c.conns.iter().enumerate() {
            tag(cn.kind as usize);
            match cn.kind {
                Kind::Uds => {
                    let (x, y) = ok!(Async::<UnixStream>::pair());
                    for s in [&x, &y] {
                        crate::n::good_fd(s.as_fd().as_raw_fd(), "pair");
                    }
                    go(x, y, cn, n, &j);
                }
                k => {
                    let ip: std::net::IpAddr = if k == Kind::Tcp { [127, 0, 0, 1].into() } else { [0, 0, 0, 0, 0, 0, 0, 1u16].into() };
                    let l = match Async::<TcpListener>::bind((ip, 0)) {
                        Ok(l) => l,
                        Err(e) => run::abort_case(format!("bind: {e}")),
                    };
                    tag(16);
                    let a = ok!(l.get_ref().local_addr());
                    let (x, y) = async_io::block_on(futures_lite::future::zip(Async::<TcpStream>::connect(a), l.accept()));
                    let x = match x {
                        Ok(x) => x,
                        Err(e) => run::fail(format!("connecting failed: {e}")),
                    };
                    let y = match y {
                        Ok(y) => y.0,
                        Err(e) => run::fail(format!("accepting failed: {e}")),
                    };
                    go(x, y, cn, n, &j);
                }
            }
        }
        drop(Done(j.clone()));
        note("transfer");
        p.park();
    }
}

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "D01",
        title: "stream data integrity",
        tags: TAGS,
        rule: "1-3 connections with concurrent readers and writers over every kind of read and write operation, with cancellation; non-trivial: an operation was pending",
        quick: 10_000,
        stuck_violates: true,
        run: |d, o| run::run_prop(d, &D1, o),
        assumptions: &["loopback sockets deliver data within 3 s of real time"],
    }]
}
