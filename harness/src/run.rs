//! Case generation, isolation (one forked child per case), shrinking, replay and evidence.
use crate::sim;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::HashSet;
use std::fmt::Debug;
use std::io::Write;
use std::os::raw::c_int;
use std::time::{Duration, Instant};

pub const MAX_TAGS: usize = 48;
const MSG: usize = 16384;

#[repr(C)]
struct Shm {
    verdict: u32,
    stuck: u32,
    nontrivial: u32,
    allow_panic: u32,
    tags: [u32; MAX_TAGS],
    steps: u64,
    msg_len: u32,
    msg: [u8; MSG],
    note_len: u32,
    note: [u8; 256],
}

const V_NONE: u32 = 0;
const V_OK: u32 = 1;
const V_FAIL: u32 = 2;
const V_STUCK: u32 = 3;
const V_ABORT: u32 = 4;

static mut SHM: *mut Shm = std::ptr::null_mut();

fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}

fn put_msg(s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(MSG);
    shm().msg[..n].copy_from_slice(&b[..n]);
    shm().msg_len = n as u32;
}

static mut SCRATCH: Option<std::path::PathBuf> = None;
/// A scratch directory (with files only) that is removed when the case ends early.
pub fn at_exit_remove(p: &std::path::Path) {
    unsafe { SCRATCH = Some(p.to_owned()) };
}
pub fn clean_scratch() {
    #[allow(static_mut_refs)]
    if let Some(p) = unsafe { SCRATCH.take() } {
        // Only ever files directly inside a directory that this case created.
        if let Ok(d) = std::fs::read_dir(&p) {
            for f in d.flatten() {
                let _ = std::fs::remove_file(f.path());
            }
        }
        let _ = std::fs::remove_dir(&p);
    }
}

fn exit_now() -> ! {
    clean_scratch();
    unsafe { libc::_exit(0) }
}

/// Reports a violation of the property under check and ends the case.
pub fn fail(msg: impl AsRef<str>) -> ! {
    sim::stop();
    if shm().verdict == V_NONE {
        put_msg(msg.as_ref());
        shm().steps = sim::steps();
        shm().verdict = V_FAIL;
    }
    exit_now()
}

/// Ends the case without a verdict (the case could not be set up).
pub fn abort_case(msg: impl AsRef<str>) -> ! {
    sim::stop();
    if shm().verdict == V_NONE {
        put_msg(msg.as_ref());
        shm().verdict = V_ABORT;
    }
    exit_now()
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::run::fail(format!($($t)*)); } };
}

/// Records that the case ended without violation (used before an early exit).
pub fn mark_ok() {
    if shm().verdict == V_NONE {
        shm().verdict = V_OK;
    }
}

pub fn tag(i: usize) {
    shm().tags[i] += 1;
}
pub fn nontrivial() {
    shm().nontrivial = 1;
}
/// What the driver is doing: part of the report when the case gets stuck.
pub fn note(s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(256);
    shm().note[..n].copy_from_slice(&b[..n]);
    shm().note_len = n as u32;
}
/// Panics are expected from now on (they are raised on purpose, or caught and judged by the case).
pub fn allow_panics(v: bool) {
    shm().allow_panic = v as u32;
}

extern "C" fn on_finish(code: c_int) {
    let what = match code {
        1 => "deadlock: no thread can ever run again",
        2 => "livelock: step limit reached without the history making progress",
        3 => "no progress within 30 days of virtual time",
        _ => "harness resource limit",
    };
    let s = shm();
    if s.verdict == V_NONE {
        let note = String::from_utf8_lossy(&s.note[..s.note_len as usize]).into_owned();
        put_msg(&format!("{what} [while: {note}] [{}]", sim::describe()));
        s.steps = sim::steps();
        s.verdict = if code == 4 { V_ABORT } else { V_STUCK };
    }
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Debug + Clone;
    fn strategy(&self, thorough: bool) -> BoxedStrategy<Self::Case>;
    fn exec(&self, c: &Self::Case);
    fn sched(&self, c: &Self::Case) -> sim::Sched;
    /// Real time (ms) to wait for in-flight network traffic before concluding anything.
    fn net_ms(&self) -> u32 {
        0
    }
}

/// The type-independent face of a property.
pub struct Def {
    pub id: &'static str,
    pub title: &'static str,
    pub tags: &'static [&'static str],
    pub rule: &'static str,
    pub quick: u32,
    /// A case that gets stuck (deadlock/livelock) violates this property.
    pub stuck_violates: bool,
    pub run: fn(&Def, &Opts) -> i32,
    pub assumptions: &'static [&'static str],
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<String>,
    pub cases: Option<u32>,
    pub seconds: Option<u64>,
    pub workers: usize,
    pub out: String,
    pub replay_dir: String,
    pub verbose: bool,
}

#[derive(Debug, Clone, PartialEq)]
enum Verdict {
    Ok,
    Fail(String),
    Stuck(String),
    Abort(String),
    Inconclusive(String),
}

struct Outcome {
    v: Verdict,
    nontrivial: bool,
    tags: [u32; MAX_TAGS],
    steps: u64,
}

fn map_shared(len: usize) -> *mut u8 {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

fn init_shm() {
    unsafe {
        SHM = map_shared(std::mem::size_of::<Shm>()) as *mut Shm;
    }
}

/// Runs one case in a forked child of this (single-threaded) process.
fn run_case<P: Prop>(p: &P, c: &P::Case, watchdog: Duration) -> Outcome {
    unsafe { std::ptr::write_bytes(SHM as *mut u8, 0, std::mem::size_of::<Shm>()) };
    let _ = std::io::stdout().flush();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        }
        std::panic::set_hook(Box::new(|info| {
            let p = info.payload();
            let text = p.downcast_ref::<&str>().copied().or(p.downcast_ref::<String>().map(|s| s.as_str())).unwrap_or("");
            if shm().allow_panic != 0 || text.ends_with("on purpose") {
                return;
            }
            let bt = if std::env::var_os("VERIF_BT").is_some() {
                format!("\n{}", std::backtrace::Backtrace::force_capture())
            } else {
                String::new()
            };
            fail(format!("unexpected panic: {info}{bt}"));
        }));
        sim::start(&p.sched(c), p.net_ms(), on_finish);
        p.exec(c);
        let st = sim::steps();
        sim::stop();
        if shm().verdict == V_NONE {
            shm().steps = st;
            shm().verdict = V_OK;
        }
        exit_now();
    }
    // Wait for the child, with a watchdog.
    let start = Instant::now();
    let mut status = 0;
    let pfd = unsafe { libc::syscall(libc::SYS_pidfd_open, pid as libc::c_long, 0 as libc::c_long, 0 as libc::c_long, 0 as libc::c_long, 0 as libc::c_long, 0 as libc::c_long) } as i32;
    let timed_out;
    if pfd >= 0 {
        let mut f = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut f, 1, watchdog.as_millis() as i32) };
        timed_out = r == 0;
        unsafe { libc::close(pfd) };
    } else {
        loop {
            let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG | libc::WNOWAIT) };
            if r == pid || start.elapsed() > watchdog {
                timed_out = r != pid;
                break;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    if timed_out {
        unsafe { libc::kill(pid, libc::SIGKILL) };
    }
    unsafe { libc::waitpid(pid, &mut status, 0) };
    let s = shm();
    let msg = String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned();
    let v = match s.verdict {
        V_OK => Verdict::Ok,
        V_FAIL => Verdict::Fail(msg),
        V_STUCK => Verdict::Stuck(msg),
        V_ABORT => Verdict::Abort(msg),
        _ => {
            if timed_out {
                Verdict::Inconclusive("watchdog".into())
            } else if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) != libc::SIGKILL {
                Verdict::Fail(format!("the process was killed by signal {}", libc::WTERMSIG(status)))
            } else {
                Verdict::Inconclusive(format!("child ended with status {status:#x}"))
            }
        }
    };
    Outcome { v, nontrivial: s.nontrivial != 0, tags: s.tags, steps: s.steps }
}

fn seed_bytes(seed: u64, id: &str, worker: usize) -> [u8; 32] {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in id.bytes().chain((worker as u64).to_le_bytes()) {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        h ^= h << 13;
        h ^= h >> 7;
        h ^= h << 17;
        out[i * 8..i * 8 + 8].copy_from_slice(&h.wrapping_mul(0x2545F4914F6CDD1D).to_le_bytes());
    }
    out
}

fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(serde::Serialize, serde::Deserialize, Default)]
struct WorkerReport {
    evaluations: u64,
    nontrivial_hashes: Vec<u64>,
    tags: Vec<u64>,
    tag_cases: Vec<u64>,
    aborted: u64,
    abort_msg: String,
    inconclusive: u64,
    stuck_other: u64,
    unreproduced: u64,
    unreproduced_msg: String,
    steps: u64,
    samples: Vec<serde_json::Value>,
    violation: Option<(String, serde_json::Value, u64, u64)>,
}

const WATCHDOG: Duration = Duration::from_secs(20);
/// A case takes milliseconds.
const SHORT: Duration = Duration::from_secs(5);

fn is_bad(d: &Def, v: &Verdict) -> Option<String> {
    match v {
        Verdict::Fail(m) => Some(m.clone()),
        Verdict::Stuck(m) if d.stuck_violates => Some(m.clone()),
        _ => None,
    }
}

const HANGS: &str = "a thread blocks in a system call or loops for good";
/// For cases that have exceeded the time limit: whether they do so again and again.
fn hangs<P: Prop>(d: &Def, p: &P, c: &P::Case) -> bool {
    d.stuck_violates && (0..2).all(|_| matches!(run_case(p, c, WATCHDOG).v, Verdict::Inconclusive(m) if m == "watchdog"))
}

fn worker<P: Prop>(d: &Def, p: &P, o: &Opts, w: usize, cases: u32, stop: &std::sync::atomic::AtomicU32) -> WorkerReport {
    use std::sync::atomic::Ordering::SeqCst;
    let mut r = WorkerReport { tags: vec![0; MAX_TAGS], tag_cases: vec![0; MAX_TAGS], ..Default::default() };
    let config = Config { failure_persistence: None, cases, ..Config::default() };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(o.seed, d.id, w));
    let mut runner = TestRunner::new_with_rng(config, rng);
    let strat = p.strategy(o.thorough);
    let mut seen: HashSet<u64> = HashSet::new();
    let start = Instant::now();
    let limit = Duration::from_secs(o.seconds.unwrap_or(if o.thorough { 780 } else { 400 }));
    for n in 0..cases {
        if stop.load(SeqCst) != 0 || start.elapsed() > limit {
            break;
        }
        let mut tree = strat.new_tree(&mut runner).expect("strategy");
        let case = tree.current();
        let out = run_case(p, &case, WATCHDOG);
        r.evaluations += 1;
        r.steps += out.steps;
        match &out.v {
            Verdict::Abort(m) => {
                r.aborted += 1;
                r.abort_msg = m.clone();
                continue;
            }
            Verdict::Inconclusive(m) if m == "watchdog" && stop.load(SeqCst) == 0 && hangs(d, p, &case) => {
                if stop.swap(1, SeqCst) != 0 {
                    break;
                }
                let t0 = Instant::now();
                let (mut best, mut shrinks, mut tries) = (case, 0, 0);
                if tree.simplify() {
                    while t0.elapsed() < Duration::from_secs(60) {
                        tries += 1;
                        let c = tree.current();
                        if matches!(run_case(p, &c, SHORT).v, Verdict::Inconclusive(m) if m == "watchdog") {
                            best = c;
                            shrinks += 1;
                            if !tree.simplify() {
                                break;
                            }
                        } else if !tree.complicate() {
                            break;
                        }
                    }
                }
                r.violation = Some((HANGS.into(), serde_json::to_value(&best).unwrap(), shrinks, tries));
                break;
            }
            Verdict::Inconclusive(m) => {
                r.inconclusive += 1;
                r.unreproduced_msg = format!("{m}: {}", serde_json::to_string(&case).unwrap());
                if r.inconclusive > 3 {
                    break;
                }
                continue;
            }
            Verdict::Stuck(m) if !d.stuck_violates => {
                r.stuck_other += 1;
                r.abort_msg = m.clone();
                if r.stuck_other > 200 {
                    break;
                }
                continue;
            }
            _ => {}
        }
        for i in 0..MAX_TAGS {
            r.tags[i] += out.tags[i] as u64;
            r.tag_cases[i] += (out.tags[i] > 0) as u64;
        }
        if out.nontrivial {
            let js = serde_json::to_string(&case).unwrap();
            seen.insert(hash_str(&js));
            if r.samples.len() < 1 && n >= 3 && js.len() < 3000 {
                r.samples.push(serde_json::to_value(&case).unwrap());
            }
        }
        if is_bad(d, &out.v).is_some() {
            // Reproduce before believing it.
            let mut again = 0;
            for _ in 0..3 {
                if is_bad(d, &run_case(p, &case, WATCHDOG).v).is_some() {
                    again += 1;
                }
            }
            if again < 2 {
                r.unreproduced += 1;
                r.unreproduced_msg = format!("{:?}: {}", out.v, serde_json::to_string(&case).unwrap());
                continue;
            }
            stop.store(1, SeqCst);
            // Shrink.
            let t0 = Instant::now();
            let mut best = case;
            let mut msg = is_bad(d, &out.v).unwrap();
            let mut shrinks = 0u64;
            let mut tries = 0u64;
            if tree.simplify() {
                loop {
                    if t0.elapsed() > Duration::from_secs(60) || tries > 4000 {
                        break;
                    }
                    tries += 1;
                    let c = tree.current();
                    if let Some(m) = is_bad(d, &run_case(p, &c, WATCHDOG).v) {
                        best = c;
                        msg = m;
                        shrinks += 1;
                        if !tree.simplify() {
                            break;
                        }
                    } else if !tree.complicate() {
                        break;
                    }
                }
            }
            r.violation = Some((msg, serde_json::to_value(&best).unwrap(), shrinks, tries));
            break;
        }
    }
    r.nontrivial_hashes = seen.into_iter().collect();
    r
}

pub fn run_prop<P: Prop>(d: &Def, p: &P, o: &Opts) -> i32 {
    let t0 = Instant::now();
    init_shm();
    if let Some(path) = &o.replay {
        let text = std::fs::read_to_string(path).expect("cannot read replay file");
        let v: serde_json::Value = serde_json::from_str(&text).expect("bad replay file");
        let case: P::Case = serde_json::from_value(v["case"].clone()).expect("bad case");
        let out = run_case(p, &case, WATCHDOG);
        println!("case: {}", serde_json::to_string(&case).unwrap());
        println!("verdict: {:?} nontrivial={} steps={}", out.v, out.nontrivial, out.steps);
        let hang = matches!(&out.v, Verdict::Inconclusive(m) if m == "watchdog") && d.stuck_violates;
        if hang || is_bad(d, &out.v).is_some() {
            println!("VIOLATION property={} replay={}", d.id, path);
            return 1;
        }
        return 0;
    }
    // The thorough tier goes on until its time is over.
    let total = o.cases.unwrap_or(if o.thorough { u32::MAX / 2 } else { d.quick });
    let nw = o.workers.max(1);
    let stop_page = map_shared(4096);
    let stop = unsafe { &*(stop_page as *const std::sync::atomic::AtomicU32) };
    let tmp = std::env::temp_dir().join(format!("verif-{}-{}", d.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let mut pids = vec![];
    for w in 0..nw {
        let per = total / nw as u32 + ((w as u32) < total % nw as u32) as u32;
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            init_shm();
            let r = worker(d, p, o, w, per, stop);
            let f = tmp.join(format!("{w}.json"));
            std::fs::write(&f, serde_json::to_vec(&r).unwrap()).unwrap();
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut bad_worker = false;
    for pid in pids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if st != 0 {
            bad_worker = true;
        }
    }
    let mut all = WorkerReport { tags: vec![0; MAX_TAGS], tag_cases: vec![0; MAX_TAGS], ..Default::default() };
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut viol: Vec<(String, serde_json::Value, u64, u64)> = vec![];
    for w in 0..nw {
        let Ok(b) = std::fs::read(tmp.join(format!("{w}.json"))) else {
            bad_worker = true;
            continue;
        };
        let r: WorkerReport = serde_json::from_slice(&b).unwrap();
        all.evaluations += r.evaluations;
        all.aborted += r.aborted;
        all.inconclusive += r.inconclusive;
        all.stuck_other += r.stuck_other;
        all.unreproduced += r.unreproduced;
        all.steps += r.steps;
        if !r.abort_msg.is_empty() {
            all.abort_msg = r.abort_msg;
        }
        if !r.unreproduced_msg.is_empty() {
            all.unreproduced_msg = r.unreproduced_msg;
        }
        for i in 0..MAX_TAGS {
            all.tags[i] += r.tags[i];
            all.tag_cases[i] += r.tag_cases[i];
        }
        hashes.extend(r.nontrivial_hashes);
        if all.samples.len() < 4 {
            all.samples.extend(r.samples);
        }
        if let Some(v) = r.violation {
            viol.push(v);
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    viol.sort_by_key(|v| v.1.to_string().len());

    let mut classes = serde_json::Map::new();
    for (i, n) in d.tags.iter().enumerate() {
        classes.insert(n.to_string(), serde_json::json!({"cases": all.tag_cases[i], "occurrences": all.tags[i]}));
    }
    let mut code = 0;
    let mut replay_path = String::new();
    if let Some((msg, case, shrinks, tries)) = viol.first() {
        let _ = std::fs::create_dir_all(&o.replay_dir);
        replay_path = format!("{}/{}-{:016x}.json", o.replay_dir, d.id, hash_str(&case.to_string()));
        let j = serde_json::json!({"property": d.id, "message": msg, "case": case, "shrinks": shrinks, "shrink_tries": tries, "seed": o.seed});
        std::fs::write(&replay_path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        println!("{}: {}", d.id, msg);
        println!("minimal case: {case}");
        println!("VIOLATION property={} replay={}", d.id, replay_path);
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": d.id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.evaluations,
            "distinct_nontrivial": hashes.len(),
            "rule": d.rule,
            "samples": all.samples,
            "classes": classes,
            "yield_points": all.steps,
            "cases_without_verdict": {"aborted": all.aborted, "abort_example": all.abort_msg, "watchdog": all.inconclusive,
                 "stuck_judged_by_other_checks": all.stuck_other, "unreproduced": all.unreproduced, "unreproduced_example": all.unreproduced_msg},
        },
        "assumptions": d.assumptions,
        "wall_s": wall,
        "violations": viol.len(),
    });
    if let Some(dir) = std::path::Path::new(&o.out).parent() {
        let _ = std::fs::create_dir_all(dir);
    }
    std::fs::write(&o.out, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {} aborted, {} watchdog, {} stuck(other), {} unreproduced, {:.1}s{}",
        d.id, all.evaluations, hashes.len(), all.aborted, all.inconclusive, all.stuck_other, all.unreproduced, wall,
        if replay_path.is_empty() { "" } else { " VIOLATED" }
    );
    if o.verbose || code == 0 && (all.aborted > 0 || all.stuck_other > 0 || all.inconclusive > 0 || all.unreproduced > 0) {
        println!("  abort/stuck: {}", all.abort_msg);
        println!("  inconclusive: {}", all.unreproduced_msg);
    }
    if o.verbose {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["classes"]).unwrap());
    }
    if code == 0 {
        let bad = all.inconclusive + all.aborted;
        if bad_worker || bad * 50 > all.evaluations || all.evaluations == 0 {
            eprintln!("{}: too many cases without a verdict", d.id);
            return 2;
        }
    }
    code
}

/// Drops `x`, possibly while the thread unwinds.
pub fn drop_in<T>(x: T, unwinding: bool) {
    if unwinding {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _x = x;
            std::panic::resume_unwind(Box::new("drop"));
        }));
        assert!(r.is_err());
    }
}

/// True once in `n` cases (0: never).
pub fn rarely(n: u32) -> BoxedStrategy<bool> {
    if n == 0 {
        return Just(false).boxed();
    }
    prop_oneof![n - 1 => Just(false), 1 => Just(true)].boxed()
}

/// The scheduler part of a case.
pub fn sched_strategy(ticks: bool, stalls: bool) -> BoxedStrategy<sim::Sched> {
    let tick = if ticks {
        prop_oneof![6 => Just(0u64), 1 => Just(1u64), 1 => Just(137u64), 1 => Just(20_000u64)].boxed()
    } else {
        Just(0u64).boxed()
    };
    let stall = if stalls {
        prop_oneof![3 => Just((0u32, 0u64)), 1 => (2u32..20, prop_oneof![Just(100_000u64), Just(5_000_000u64)])].boxed()
    } else {
        Just((0u32, 0u64)).boxed()
    };
    (
        any::<u64>(),
        prop_oneof![4 => Just(0u32), 2 => Just(3u32), 3 => Just(11u32), 3 => Just(40u32), 2 => Just(150u32)],
        prop_oneof![2 => Just(0u32), 1 => Just(1u32), 2 => Just(2u32)],
        tick,
        prop_oneof![
            3 => Just(vec![]),
            2 => proptest::collection::vec(0u32..400, 1..6),
            2 => proptest::collection::vec(0u32..3000, 1..12)
        ],
        stall,
    )
        .prop_map(|(seed, preempt_inv, hot_inv, tick_ns, points, (stall_inv, stall_ns))| sim::Sched {
            seed,
            preempt_inv,
            hot_inv,
            tick_ns,
            points,
            stall_inv,
            stall_ns,
        })
        .boxed()
}

/// A weighted choice in which zero weights are allowed.
pub fn weighted<T: Debug + 'static>(v: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
    proptest::strategy::Union::new_weighted(v.into_iter().filter(|x| x.0 > 0).collect()).boxed()
}
