mod b;
mod cells;
mod d;
mod e;
mod f;
mod g;
mod l;
mod n;
mod s;
#[macro_use]
mod run;
mod sim;
mod r;
mod t;

mod alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    /// Counts live allocations. Deliberately not atomic: only one thread runs at a time during a case.
    pub struct Counting;
    pub static mut LIVE: i64 = 0;
    pub static mut BYTES: i64 = 0;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE += 1;
            BYTES += l.size() as i64;
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE -= 1;
            BYTES -= l.size() as i64;
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            BYTES += n as i64 - l.size() as i64;
            System.realloc(p, l, n)
        }
    }
    pub fn live() -> i64 {
        unsafe { LIVE }
    }
    pub fn bytes() -> i64 {
        unsafe { BYTES }
    }
}
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let mut args = std::env::args().skip(1);
    let cmd = args.next().unwrap_or_default();
    let mut o = run::Opts {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        replay: None,
        cases: None,
        seconds: None,
        workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16),
        out: String::new(),
        replay_dir: "/verif/replays".into(),
        verbose: false,
    };
    let mut id = String::new();
    while let Some(a) = args.next() {
        match a.as_str() {
            "--cases" => o.cases = args.next().and_then(|s| s.parse().ok()),
            "--workers" => o.workers = args.next().and_then(|s| s.parse().ok()).unwrap(),
            "--seed" => o.seed = args.next().and_then(|s| s.parse().ok()).unwrap(),
            "--replay" => o.replay = args.next(),
            "--out" => o.out = args.next().unwrap(),
            "--replay-dir" => o.replay_dir = args.next().unwrap(),
            "--thorough" => o.thorough = true,
            "--seconds" => o.seconds = args.next().and_then(|s| s.parse().ok()),
            "-v" => o.verbose = true,
            _ => id = a,
        }
    }
    let mut defs = vec![];
    defs.extend(t::defs());
    defs.extend(r::defs());
    defs.extend(b::defs());
    defs.extend(e::defs());
    defs.extend(f::defs());
    defs.extend(g::defs());
    defs.extend(l::defs());
    defs.extend(n::defs());
    defs.extend(d::defs());
    defs.extend(s::defs());
    match cmd.as_str() {
        "list" => {
            for d in &defs {
                println!("{} {}", d.id, d.title);
            }
        }
        "run" => {
            let Some(d) = defs.iter().find(|d| d.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            if o.out.is_empty() {
                o.out = format!("/verif/evidence/{}.json", d.id);
            }
            std::process::exit((d.run)(d, &o));
        }
        _ => {
            eprintln!("usage: verif run ID [--cases N] [--seed N] [--workers N] [--replay FILE] [-v] | verif list");
            std::process::exit(2);
        }
    }
}
