//! Bindings to the simulation runtime (csrc/simrt.c).
use serde::{Deserialize, Serialize};
use std::os::raw::{c_char, c_int};

#[repr(C)]
struct Conf {
    seed: u64,
    preempt_inv: u32,
    hot_inv: u32,
    tick_ns: u64,
    step_limit: u64,
    horizon_ns: u64,
    stall_inv: u32,
    stall_ns: u64,
    npreempt: u32,
    net: u32,
}

extern "C" {
    fn sim_start(c: *const Conf, pre: *const u32, fin: extern "C" fn(c_int));
    fn sim_stop();
    fn sim_active() -> c_int;
    fn sim_now() -> u64;
    fn sim_seq() -> u64;
    fn sim_steps() -> u64;
    fn sim_stalled() -> u64;
    fn sim_stalled_now() -> c_int;
    fn sim_stall_left() -> u64;
    fn sim_no_stalls();
    fn sim_self() -> c_int;
    fn sim_quiet(d: c_int);
    fn sim_busy(fd: c_int, n: c_int);
    fn sim_refuse(fd: c_int, n: c_int, err: c_int);
    fn sim_refused(mine: c_int) -> c_int;
    fn sim_harness_spawn(v: c_int);
    fn sim_counter(k: c_int) -> u64;
    fn sim_faults_hit() -> u64;
    fn sim_bad_closes() -> u64;
    fn sim_steps_after_close(k: u64);
    fn sim_lib_wakeups() -> u64;
    fn sim_all_wakeups() -> u64;
    fn sim_add_fault(kind: c_int, index: u64, err: c_int);
    fn sim_advance(d: u64);
    fn sim_run_steps(k: u64);
    fn sim_jump(d: u64);
    fn sim_describe(buf: *mut c_char, n: c_int) -> c_int;
    fn sim_yield();
}

/// How the scheduler behaves in one case.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Sched {
    pub seed: u64,
    /// Preempt with probability 1/n at every yield point (0: never).
    pub preempt_inv: u32,
    /// Preempt with probability 1/n right after the OS has handed out I/O events (0: never).
    pub hot_inv: u32,
    /// The clock advances by this much on each read.
    pub tick_ns: u64,
    /// Preemption points, as absolute yield-point indices.
    pub points: Vec<u32>,
    /// With probability 1/n a preempted thread stalls for up to `stall_ns` of virtual time (0: never).
    pub stall_inv: u32,
    pub stall_ns: u64,
}

impl Sched {
    pub fn calm() -> Sched {
        Sched { seed: 1, preempt_inv: 0, hot_inv: 0, tick_ns: 0, points: vec![], stall_inv: 0, stall_ns: 0 }
    }
}

pub fn start(s: &Sched, net_ms: u32, fin: extern "C" fn(c_int)) {
    let mut p = s.points.clone();
    p.sort();
    p.truncate(256);
    let c = Conf {
        seed: s.seed,
        preempt_inv: s.preempt_inv,
        hot_inv: s.hot_inv,
        tick_ns: s.tick_ns,
        step_limit: 3_000_000,
        horizon_ns: 30 * 86400 * 1_000_000_000,
        stall_inv: s.stall_inv,
        stall_ns: s.stall_ns.max(1),
        npreempt: p.len() as u32,
        net: net_ms,
    };
    unsafe { sim_start(&c, p.as_ptr(), fin) }
}
pub fn stop() {
    unsafe { sim_stop() }
}
pub fn active() -> bool {
    unsafe { sim_active() != 0 }
}
/// Virtual time since the start of the case, in nanoseconds.
pub fn now() -> u64 {
    unsafe { sim_now() }
}
/// A fresh sequence number (history order).
pub fn seq() -> u64 {
    unsafe { sim_seq() }
}
pub fn steps() -> u64 {
    unsafe { sim_steps() }
}
/// Total virtual time for which threads have been stalled by the scheduler.
pub fn stalled() -> u64 {
    unsafe { sim_stalled() }
}
/// How long (virtual time) the stalls that are under way will last.
pub fn stall_left() -> u64 {
    unsafe { sim_stall_left() }
}
/// Whether some thread is being stalled by the scheduler.
pub fn stalled_now() -> bool {
    unsafe { sim_stalled_now() != 0 }
}
/// No more stalls from now on (those under way still end when they were meant to).
pub fn no_stalls() {
    unsafe { sim_no_stalls() }
}
pub fn me() -> i32 {
    unsafe { sim_self() }
}
pub fn epoll_creates() -> u64 {
    unsafe { sim_counter(0) }
}
pub fn lib_threads() -> u64 {
    unsafe { sim_counter(1) }
}
pub fn epoll_waits() -> u64 {
    unsafe { sim_counter(3) }
}
pub fn epoll_adds() -> u64 {
    unsafe { sim_counter(4) }
}
pub fn faults_hit() -> u64 {
    unsafe { sim_faults_hit() }
}
/// Attempts to close a descriptor that was not open.
pub fn bad_closes() -> u64 {
    unsafe { sim_bad_closes() }
}
/// The next close() is followed by `k` steps of the other threads.
pub fn steps_after_close(k: u64) {
    unsafe { sim_steps_after_close(k) }
}
pub fn lib_wakeups() -> u64 {
    unsafe { sim_lib_wakeups() }
}
pub fn all_wakeups() -> u64 {
    unsafe { sim_all_wakeups() }
}
pub fn fault_wait(index: u64, err: i32) {
    unsafe { sim_add_fault(0, index, err) }
}
pub fn fault_add(index: u64, err: i32) {
    unsafe { sim_add_fault(1, index, err) }
}
pub fn fault_create(index: u64, err: i32) {
    unsafe { sim_add_fault(2, index, err) }
}
pub fn fault_thread(index: u64, err: i32) {
    unsafe { sim_add_fault(3, index, err) }
}
/// The next `n` send and receive calls on `fd` report that they would block.
pub fn busy(fd: i32, n: i32) {
    unsafe { sim_busy(fd, n) }
}
/// The next `n` attempts to re-arm `fd` fail with ENOMEM; if `fd` is negative, those of this thread do.
pub fn refuse(fd: i32, n: i32) {
    unsafe { sim_refuse(fd, n, libc::ENOMEM) }
}
/// How many attempts of this thread have been refused.
pub fn refused() -> i32 {
    unsafe { sim_refused(1) }
}
/// Lets everything else run to quiescence, advancing the virtual clock by at most `d`.
pub fn advance(d: u64) {
    unsafe { sim_advance(d) }
}
pub fn settle() {
    advance(0)
}
pub fn run_steps(k: u64) {
    unsafe { sim_run_steps(k) }
}
/// Moves the clock without letting anybody run.
pub fn jump(d: u64) {
    unsafe { sim_jump(d) }
}
pub fn yield_now() {
    unsafe { sim_yield() }
}
pub fn describe() -> String {
    let mut b = vec![0u8; 4096];
    let n = unsafe { sim_describe(b.as_mut_ptr() as *mut c_char, 4096) };
    b.truncate(n.max(0) as usize);
    String::from_utf8_lossy(&b).into_owned()
}

/// Runs `f` without preemption.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { sim_quiet(-1) }
        }
    }
    unsafe { sim_quiet(1) };
    let _g = G;
    f()
}

/// Spawns a thread that belongs to the harness (not counted as the library's).
pub fn spawn(f: impl FnOnce() + Send + 'static) {
    unsafe { sim_harness_spawn(1) };
    let h = std::thread::Builder::new().stack_size(512 * 1024).spawn(f).expect("spawn");
    unsafe { sim_harness_spawn(0) };
    std::mem::forget(h);
}
