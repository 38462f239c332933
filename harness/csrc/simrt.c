// Deterministic simulation runtime.
//
// While a simulation is active in this process, exactly one registered thread runs at a time. The
// runtime owns
//   * the clock            (clock_gettime, nanosleep, clock_nanosleep, timerfd_settime),
//   * every blocking point (futex through syscall(2), epoll_wait, sleeping),
//   * thread creation      (pthread_create),
//   * the schedule: every atomic operation of the instrumented Rust code calls one of the __tsan_*
//     entry points below, and each of them is a potential preemption point.
// File descriptors, epoll, eventfd and sockets are real.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;

#define MAXT 64
#define NEVER UINT64_MAX
// Virtual CLOCK_MONOTONIC starts here, so that instants in the past can be represented.
#define BASE_NS (1000000ull * 1000000000ull)

enum { S_FREE, S_RUN, S_FUTEX, S_EPOLL, S_SLEEP, S_QUIESCE, S_STEPS, S_HOLD, S_DONE };

struct thr {
    int state;
    u32 baton;
    u64 deadline;
    u32 *faddr;
    int woken;      // futex: woken by a FUTEX_WAKE
    int epfd;
    u64 tfd;        // deadline programmed into the poller's timerfd by this thread
    void *(*start)(void *);
    void *arg;
    int harness;    // created by the harness, not by the code under test
    u64 steps;
    u64 epwaits;
    u64 switches;
    int stalled;    // sleeping because the scheduler stalled it
    char what[24];
};

struct sim_conf {
    u64 seed;
    u32 preempt_inv;   // preempt with probability 1/preempt_inv at each yield point (0: never)
    u32 hot_inv;       // same, right after epoll_wait returned events (0: never)
    u64 tick_ns;       // the clock advances this much on every read
    u64 step_limit;
    u64 horizon_ns;    // virtual-time limit
    u32 stall_inv;     // on a preemption: 1/stall_inv chance that the thread is stalled for a while
    u64 stall_ns;
    u32 npreempt;
    u32 net;           // real network sockets in play: wait a little real time before concluding
};

static struct thr T[MAXT];
static int NT;
static int active;
static u64 now_ns;
static u64 steps;
static u64 run_streak;
static u64 quota;           // S_STEPS driver: yield points left for the others
static int quota_tid = -1;
static u64 rng;
static u64 seqno;
static u64 stalled_total;
static u64 since_block;
static struct sim_conf C;
static u32 preempts[256];
static u32 next_preempt;
static void (*on_finish)(int);
static u64 cnt_epoll_create, cnt_threads, cnt_epoll_ctl_add;
// injected faults: (kind, index, errno)
struct fault { int kind; u64 index; int err; };
static struct fault faults[2048];
static int nfaults;
static u64 faults_hit;
static u64 idx_epwait, idx_add, idx_create, idx_thread;
static __thread int self = -1;
static __thread int quiet = 0;   // >0: no yields on this thread
static __thread int spawning_harness = 0;

static long raw_futex(u32 *a, int op, u32 v) {
    register long r10 __asm__("r10") = 0;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_futex), "D"(a), "S"((long)op), "d"((long)v), "r"(r10)
                     : "rcx", "r11", "memory");
    return ret;
}
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
static long ret_errno(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

static u64 rnd(void) {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1Dull >> 16;
}

static void finish(int code) {
    active = 0;
    if (on_finish) on_finish(code);
    raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

enum { FIN_DEADLOCK = 1, FIN_LIVELOCK = 2, FIN_HORIZON = 3, FIN_ABORT = 4 };

static int epoll_ready(int epfd) {
    struct pollfd p = { .fd = epfd, .events = POLLIN };
    struct timespec z = {0, 0};
    long r = raw6(SYS_ppoll, (long)&p, 1, (long)&z, 0, 8, 0);
    return r > 0;
}

static int can_run(int i) {
    struct thr *t = &T[i];
    switch (t->state) {
    case S_RUN: return 1;
    case S_FUTEX: return t->woken || t->deadline <= now_ns;
    case S_SLEEP: return t->deadline <= now_ns;
    case S_EPOLL: return t->deadline <= now_ns || epoll_ready(t->epfd);
    default: return 0;
    }
}

static void pass_baton(int to) {
    T[to].switches++;
    __atomic_store_n(&T[to].baton, 1, __ATOMIC_SEQ_CST);
    raw_futex(&T[to].baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
static void wait_baton(int me) {
    while (!__atomic_exchange_n(&T[me].baton, 0, __ATOMIC_SEQ_CST))
        raw_futex(&T[me].baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
}

static int driver_of(int st) {
    for (int i = 0; i < NT; i++) if (T[i].state == st) return i;
    return -1;
}

static int net_wait(u32 ms) {
    // Real network traffic may still be in flight inside the kernel: give it some real time.
    struct pollfd p[MAXT];
    int n = 0;
    for (int i = 0; i < NT; i++) if (T[i].state == S_EPOLL) { p[n].fd = T[i].epfd; p[n].events = POLLIN; n++; }
    if (!n) return 0;
    struct timespec ts = { ms / 1000, (ms % 1000) * 1000000l };
    long r = raw6(SYS_ppoll, (long)p, n, (long)&ts, 0, 8, 0);
    return r > 0;
}

// Chooses the next thread to run; `me` may be chosen when it can run and allow_self.
static int choose(int me, int allow_self) {
    int netted = 0;
    for (;;) {
        int c[MAXT], n = 0;
        for (int i = 0; i < NT; i++) {
            if (i == me && !allow_self) continue;
            if (can_run(i)) c[n++] = i;
        }
        if (n) {
            int k = n == 1 ? c[0] : c[rnd() % n];
            return k;
        }
        if (!allow_self) return -1;
        // Nothing can run at this instant.
        int q = driver_of(S_STEPS);
        if (q >= 0) { quota_tid = -1; T[q].state = S_RUN; continue; }
        if (C.net && !netted) { netted = 1; if (net_wait(C.net)) continue; }
        for (int i = 0; i < NT; i++)
            if (T[i].state == S_QUIESCE && T[i].deadline <= now_ns) { T[i].state = S_RUN; return i; }
        u64 m = NEVER;
        for (int i = 0; i < NT; i++) {
            int s = T[i].state;
            if ((s == S_FUTEX || s == S_EPOLL || s == S_SLEEP || s == S_QUIESCE) && T[i].deadline < m) m = T[i].deadline;
        }
        if (m == NEVER && C.net && net_wait(3000)) continue;
        if (m == NEVER) finish(FIN_DEADLOCK);
        if (m > C.horizon_ns && driver_of(S_QUIESCE) < 0) finish(FIN_HORIZON);
        if (m > now_ns) now_ns = m;
    }
}

static void make_running(int i) {
    // fixes up the state of a thread that was blocked and may now run
    if (T[i].state != S_DONE) T[i].state = S_RUN;
}

static void switch_to(int me, int to) {
    run_streak = 0;
    if (to == me) { return; }
    pass_baton(to);
    wait_baton(me);
}

// Blocks the calling thread, whose state has been set; returns when it has been chosen to run.
static void block_here(void) {
    int me = self;
    since_block = 0;
    int to = choose(me, 1);
    switch_to(me, to);
    make_running(me);
}

static void count_step(void) {
    steps++;
    T[self].steps++;
    if (steps > C.step_limit) finish(FIN_LIVELOCK);
}

static void maybe_switch(int force, int hot) {
    int me = self;
    if (quota_tid >= 0 && quota_tid != me) {
        if (quota == 0) {
            int d = quota_tid;
            quota_tid = -1;
            T[d].state = S_RUN;
            switch_to(me, d);
            return;
        }
        quota--;
    }
    int sw = force;
    if (next_preempt < C.npreempt && steps >= preempts[next_preempt]) { next_preempt++; sw = 1; }
    if (C.preempt_inv && rnd() % C.preempt_inv == 0) sw = 1;
    if (hot && C.hot_inv && rnd() % C.hot_inv == 0) sw = 1;
    if (++run_streak > 20000) sw = 1;
    since_block++;
    if (since_block % 50000 == 0) {
        // Everybody who can run has been spinning for long: time passes for the stalled threads.
        int k = -1;
        for (int i = 0; i < NT; i++)
            if (T[i].state == S_SLEEP && T[i].stalled && (k < 0 || T[i].deadline < T[k].deadline)) k = i;
        if (k >= 0) {
            if (T[k].deadline > now_ns) now_ns = T[k].deadline;
            sw = 1;
        }
    }
    if (since_block % 4000 == 0) {
        // Running takes time as well.
        now_ns += 4000;
        stalled_total += 4000;
    }
    if (!sw) return;
    run_streak = 0;
    if (C.stall_inv && rnd() % C.stall_inv == 0 && me != 0) {
        T[me].state = S_SLEEP;
        u64 d = 1 + rnd() % C.stall_ns;
        stalled_total += d;
        T[me].deadline = now_ns + d;
        T[me].stalled = 1;
        u64 sb = since_block;
        block_here();
        since_block = sb;
        T[me].stalled = 0;
        return;
    }
    int to = choose(me, 0);
    if (to < 0) return;
    switch_to(me, to);
}

void sim_yield(void) {
    if (!active || self < 0 || quiet) return;
    int e = errno;
    count_step();
    maybe_switch(0, 0);
    errno = e;
}

// ---------------------------------------------------------------- harness API

void sim_start(const struct sim_conf *c, const u32 *pre, void (*fin)(int)) {
    memset(T, 0, sizeof T);
    C = *c;
    if (C.npreempt > 256) C.npreempt = 256;
    memcpy(preempts, pre, C.npreempt * sizeof(u32));
    rng = C.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    if (!rng) rng = 88172645463325252ull;
    for (int i = 0; i < 4; i++) rnd();
    NT = 1;
    self = 0;
    T[0].state = S_RUN;
    T[0].harness = 1;
    T[0].tfd = NEVER;
    now_ns = 0;
    steps = 0;
    on_finish = fin;
    active = 1;
}
void sim_stop(void) { active = 0; }
int sim_active(void) { return active; }
u64 sim_now(void) { return now_ns; }
u64 sim_seq(void) { return ++seqno; }
u64 sim_steps(void) { return steps; }
u64 sim_stalled(void) { return stalled_total; }
// Number of threads that the scheduler is stalling right now.
// How long the stalls that are under way will last.
u64 sim_stall_left(void) {
    u64 m = 0;
    for (int i = 0; i < NT; i++)
        if (T[i].state == S_SLEEP && T[i].stalled && T[i].deadline > now_ns && T[i].deadline - now_ns > m) m = T[i].deadline - now_ns;
    return m;
}

int sim_stalled_now(void) {
    int n = 0;
    for (int i = 0; i < NT; i++) n += T[i].state == S_SLEEP && T[i].stalled;
    return n;
}
void sim_no_stalls(void) { C.stall_inv = 0; }
int sim_self(void) { return self; }
void sim_quiet(int d) { quiet += d; }
void sim_harness_spawn(int v) { spawning_harness = v; }
u64 sim_faults_hit(void) { return faults_hit; }
u64 sim_counter(int k) {
    switch (k) {
    case 0: return cnt_epoll_create;
    case 1: return cnt_threads;
    case 2: return cnt_epoll_ctl_add;
    case 3: return idx_epwait;
    case 4: return idx_add;
    }
    return 0;
}
// Total epoll_wait calls / scheduler hand-overs of threads not created by the harness.
u64 sim_lib_wakeups(void) {
    u64 s = 0;
    for (int i = 0; i < NT; i++) if (!T[i].harness) s += T[i].switches;
    return s;
}
u64 sim_all_wakeups(void) {
    u64 s = 0;
    for (int i = 0; i < NT; i++) if (i) s += T[i].switches;
    return s;
}
void sim_add_fault(int kind, u64 index, int err) {
    if (nfaults < 2048) { faults[nfaults].kind = kind; faults[nfaults].index = index; faults[nfaults].err = err; nfaults++; }
}
static int fault_for(int kind, u64 index) {
    for (int i = 0; i < nfaults; i++)
        if (faults[i].kind == kind && faults[i].index == index) { faults_hit++; return faults[i].err; }
    return 0;
}
// Lets every other thread run until nothing can run any more, advancing the clock up to now + d.
void sim_advance(u64 d) {
    T[self].state = S_QUIESCE;
    T[self].deadline = now_ns + d < now_ns ? NEVER - 1 : now_ns + d;
    block_here();
}
// Lets the other threads run for at most k yield points (or until they are all blocked).
void sim_run_steps(u64 k) {
    quota = k;
    quota_tid = self;
    T[self].state = S_STEPS;
    block_here();
    quota_tid = -1;
}
void sim_jump(u64 d) { now_ns += d; }
int sim_thread_state(int i) { return i < NT ? T[i].state : 0; }
int sim_threads(void) { return NT; }
int sim_thread_harness(int i) { return T[i].harness; }
u64 sim_thread_deadline(int i) { return T[i].deadline; }
int sim_describe(char *buf, int n) {
    static const char *N[] = {"free", "runnable", "futex", "epoll", "sleep", "quiesce", "steps", "hold", "done"};
    int o = 0;
    for (int i = 0; i < NT && o < n - 80; i++)
        o += snprintf(buf + o, n - o, "t%d%s:%s%s ", i, T[i].harness ? "" : "(lib)", N[T[i].state],
                      (T[i].state == S_FUTEX || T[i].state == S_EPOLL || T[i].state == S_SLEEP) && T[i].deadline == NEVER ? "(forever)" : "");
    o += snprintf(buf + o, n - o, "now=%lluns steps=%llu", (unsigned long long)now_ns, (unsigned long long)steps);
    return o;
}

// ---------------------------------------------------------------- threads

static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

static void *trampoline(void *p) {
    struct thr *t = p;
    int me = (int)(t - T);
    self = me;
    wait_baton(me);
    void *r = t->start(t->arg);
    quiet = 0;
    t->state = S_DONE;
    int d = -1;
    (void)d;
    if (active) {
        int to = choose(me, 1);
        run_streak = 0;
        self = -1;
        pass_baton(to);
    }
    self = -1;
    return r;
}

int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*start)(void *), void *arg) {
    if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!active || self < 0) return real_pthread_create(th, at, start, arg);
    if (!spawning_harness) {
        int e = fault_for(3, idx_thread++);
        if (e) return e;
    }
    if (NT >= MAXT) finish(FIN_ABORT);
    int i = NT;
    T[i].start = start;
    T[i].arg = arg;
    T[i].harness = spawning_harness;
    T[i].tfd = NEVER;
    T[i].baton = 0;
    if (!spawning_harness) cnt_threads++;
    int r = real_pthread_create(th, at, trampoline, &T[i]);
    if (r == 0) { T[i].state = S_RUN; NT++; }
    sim_yield();
    return r;
}

// ---------------------------------------------------------------- time

static void put_ts(u64 ns, struct timespec *ts) {
    ns += BASE_NS;
    ts->tv_sec = ns / 1000000000ull;
    ts->tv_nsec = ns % 1000000000ull;
}

int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!active || self < 0) return (int)ret_errno(raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0));
    sim_yield();
    now_ns += C.tick_ns;
    put_ts(now_ns, ts);
    return 0;
}

static void sim_sleep_until(u64 dl) {
    T[self].state = S_SLEEP;
    T[self].deadline = dl;
    block_here();
}
static u64 ts_ns(const struct timespec *t) { return (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; }

int nanosleep(const struct timespec *rq, struct timespec *rm) {
    if (!active || self < 0) return (int)ret_errno(raw6(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0));
    sim_sleep_until(now_ns + ts_ns(rq));
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rm) {
    if (!active || self < 0) {
        long r = raw6(SYS_clock_nanosleep, c, fl, (long)rq, (long)rm, 0, 0);
        return r < 0 ? (int)-r : 0;
    }
    u64 d = ts_ns(rq);
    sim_sleep_until((fl & TIMER_ABSTIME) ? (d > BASE_NS ? d - BASE_NS : 0) : now_ns + d);
    return 0;
}
int usleep(useconds_t us) {
    struct timespec ts = { us / 1000000, (us % 1000000) * 1000l };
    return nanosleep(&ts, 0);
}

int timerfd_settime(int fd, int fl, const struct itimerspec *nv, struct itimerspec *ov) {
    if (!active || self < 0) return (int)ret_errno(raw6(SYS_timerfd_settime, fd, fl, (long)nv, (long)ov, 0, 0));
    u64 v = ts_ns(&nv->it_value);
    if (nv->it_value.tv_sec > 9000000000ll) v = NEVER; else
    if (v == 0) v = NEVER;
    else if (fl & TFD_TIMER_ABSTIME) v = v > BASE_NS ? v - BASE_NS : 0;
    else v = now_ns + v;
    T[self].tfd = v;
    sim_yield();
    return 0;
}

int sched_yield(void) {
    if (!active || self < 0 || quiet) return (int)ret_errno(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
    count_step();
    maybe_switch(1, 0);
    return 0;
}

// ---------------------------------------------------------------- futex

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    if (n != SYS_futex || !active || self < 0) return ret_errno(raw6(n, a, b, c, d, e, f));
    int op = (int)b & FUTEX_CMD_MASK;
    u32 *addr = (u32 *)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        if (!quiet) { count_step(); maybe_switch(0, 0); }
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (u32)c) { errno = EAGAIN; return -1; }
        u64 dl = NEVER;
        if (d) {
            u64 v = ts_ns((struct timespec *)d);
            if (op == FUTEX_WAIT) dl = now_ns + v;
            else dl = v > BASE_NS ? v - BASE_NS : 0;
        }
        T[self].state = S_FUTEX;
        T[self].faddr = addr;
        T[self].woken = 0;
        T[self].deadline = dl;
        block_here();
        int w = T[self].woken;
        T[self].faddr = 0;
        T[self].woken = 0;
        if (w) return 0;
        errno = ETIMEDOUT;
        return -1;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        int left = (int)c, woke = 0;
        while (woke < left) {
            int cand[MAXT], k = 0;
            for (int i = 0; i < NT; i++)
                if (T[i].state == S_FUTEX && T[i].faddr == addr && !T[i].woken) cand[k++] = i;
            if (!k) break;
            T[cand[k == 1 ? 0 : rnd() % k]].woken = 1;
            woke++;
        }
        // A thread that has already left the simulation (running its TLS destructors) may be waiting for real.
        if (!woke) raw6(n, a, b, c, d, e, f);
        if (!quiet) { count_step(); maybe_switch(0, 0); }
        return woke;
    }
    return ret_errno(raw6(n, a, b, c, d, e, f));
}

static u64 close_steps;
// The next close() by this thread is followed by `k` steps of the other threads.
void sim_steps_after_close(u64 k) { close_steps = k; }
static u64 bad_closes;
u64 sim_bad_closes(void) { return bad_closes; }
int close(int fd) {
    long r = raw6(SYS_close, fd, 0, 0, 0, 0, 0);
    if (r == -EBADF && active) bad_closes++;
    // The number can be taken by somebody else from here on.
    if (active && self >= 0 && !quiet) {
        count_step();
        if (close_steps) {
            u64 k = close_steps;
            close_steps = 0;
            sim_run_steps(k);
        } else maybe_switch(0, 1);
    }
    return (int)ret_errno(r);
}

// ---------------------------------------------------------------- sockets that are busy

static int busy_fd = -1, busy_n;
// The next `n` send and receive calls on `fd` report that they would block.
void sim_busy(int fd, int n) { busy_fd = fd; busy_n = n; }
static int busy(int fd) {
    if (!active || self < 0 || busy_n <= 0 || fd != busy_fd) return 0;
    busy_n--;
    errno = EAGAIN;
    return 1;
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
    return busy(fd) ? -1 : ret_errno(raw6(SYS_sendto, fd, (long)b, n, fl, 0, 0));
}
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
    return busy(fd) ? -1 : ret_errno(raw6(SYS_sendto, fd, (long)b, n, fl, (long)a, l));
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
    return busy(fd) ? -1 : ret_errno(raw6(SYS_recvfrom, fd, (long)b, n, fl, 0, 0));
}
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
    return busy(fd) ? -1 : ret_errno(raw6(SYS_recvfrom, fd, (long)b, n, fl, (long)a, (long)l));
}

// ---------------------------------------------------------------- epoll

static int ref_fd = -1, ref_n, ref_err, ref_any, ref_mine;
// The next `n` attempts to re-arm `fd` (or those of thread 0, whatever the descriptor, if `fd` is negative) fail.
void sim_refuse(int fd, int n, int err) { ref_fd = fd; ref_n = n; ref_err = err; }
int sim_refused(int mine) { return mine ? ref_mine : ref_any; }

int epoll_create1(int fl) {
    if (active && self >= 0) {
        sim_yield();
        int e = fault_for(2, idx_create++);
        if (e) { errno = e; return -1; }
        cnt_epoll_create++;
    }
    return (int)ret_errno(raw6(SYS_epoll_create1, fl, 0, 0, 0, 0, 0));
}

int epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev) {
    if (active && self >= 0) {
        sim_yield();
        if (op == EPOLL_CTL_ADD) {
            cnt_epoll_ctl_add++;
            int e = fault_for(1, idx_add++);
            if (e) { errno = e; return -1; }
        }
        if (op == EPOLL_CTL_MOD && ref_n > 0 && (ref_fd < 0 ? self == 0 : fd == ref_fd)) {
            ref_n--;
            ref_any++;
            if (self == 0) ref_mine++;
            errno = ref_err;
            return -1;
        }
    }
    return (int)ret_errno(raw6(SYS_epoll_ctl, epfd, op, fd, (long)ev, 0, 0));
}

static int ep_wait(int epfd, struct epoll_event *ev, int max, u64 rel) {
    // rel: relative timeout in ns, NEVER for none
    count_step();
    maybe_switch(0, 0);
    int e = fault_for(0, idx_epwait++);
    if (e) { errno = e; return -1; }
    T[self].epwaits++;
    u64 dl = rel == NEVER ? NEVER : now_ns + rel;
    u64 tdl = rel == 0 ? NEVER : T[self].tfd;
    if (tdl < dl) dl = tdl;
    for (;;) {
        long r = raw6(SYS_epoll_pwait, epfd, (long)ev, max, 0, 0, 8);
        if (r > 0) {
            count_step();
            maybe_switch(0, 1);
            return (int)r;
        }
        if (r < 0) return (int)ret_errno(r);
        // A poll that finds nothing takes time: code that spins on the clock makes progress.
        if (rel == 0) { now_ns += 1000; stalled_total += 1000; return 0; }
        if (dl <= now_ns) {
            count_step();
            maybe_switch(0, 0);
            return 0;
        }
        T[self].state = S_EPOLL;
        T[self].epfd = epfd;
        T[self].deadline = dl;
        block_here();
    }
}

int epoll_wait(int epfd, struct epoll_event *ev, int max, int to) {
    if (!active || self < 0) return (int)ret_errno(raw6(SYS_epoll_wait, epfd, (long)ev, max, to, 0, 0));
    return ep_wait(epfd, ev, max, to < 0 ? NEVER : (u64)to * 1000000ull);
}
int epoll_pwait2(int epfd, struct epoll_event *ev, int max, const struct timespec *to, const sigset_t *ss) {
    if (!active || self < 0) return (int)ret_errno(raw6(SYS_epoll_pwait2, epfd, (long)ev, max, (long)to, (long)ss, 8));
    return ep_wait(epfd, ev, max, to ? ts_ns(to) : NEVER);
}

// ---------------------------------------------------------------- atomics

#define ATOMICS(N, TY) \
    TY __tsan_atomic##N##_load(const volatile TY *a, int mo) { (void)mo; sim_yield(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile TY *a, TY v, int mo) { (void)mo; sim_yield(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, int mo) { (void)mo; sim_yield(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, int mo) { (void)mo; sim_yield(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, int mo) { (void)mo; sim_yield(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, int mo) { (void)mo; sim_yield(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, int mo) { (void)mo; sim_yield(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, int mo) { (void)mo; sim_yield(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, int mo) { (void)mo; sim_yield(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) { (void)mo; (void)fmo; sim_yield(); \
        __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) { (void)mo; (void)fmo; sim_yield(); \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) { (void)mo; (void)fmo; sim_yield(); \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }

ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; sim_yield(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
