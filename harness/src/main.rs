//! Runs programs (one JSON session per line) against the real library and
//! records what happened, one JSON line per call.
//!
//!   hdrive PROGRAM.ndjson TRACE.ndjson [THREADS]
//!
//! With THREADS, that many threads run all sessions at the same time, each in
//! another order, and thread k writes TRACE.ndjson.k.
//!
//! The trace is written call by call (unbuffered), so that a call that kills
//! or hangs the process is the first one missing from it.

use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

pub const NAN: i64 = 2_000_000_001;
pub const PINF: i64 = 2_000_000_002;
pub const NINF: i64 = 2_000_000_003;
pub const NZ: i64 = 2_000_000_004;
pub const FRAC: i64 = 2_000_000_005;
pub const BIG: i64 = 2_000_000_006;
pub const DRAW: i64 = 1_000_000;

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// The driver was asked for something it cannot do: a bug of the driver or
/// of the program, not of the library.
pub fn bad(what: &str) -> ! {
    eprintln!("BADDRIVER {}", what);
    std::process::exit(3)
}

pub struct Out(pub std::fs::File);
impl Out {
    pub fn line(&mut self, v: &Value) {
        let mut s = v.to_string();
        s.push('\n');
        self.0.write_all(s.as_bytes()).unwrap();
        PROGRESS.fetch_add(1, Ordering::SeqCst);
    }
}

pub type Ev = Map<String, Value>;

pub fn us(v: &Value) -> usize {
    // negative numbers stand for huge indices
    match v.as_i64() {
        Some(n) if n >= 0 => n as usize,
        Some(-1) => usize::MAX,
        Some(-2) => usize::MAX - 1,
        Some(-3) => usize::MAX / 2 + 1,
        Some(-4) => usize::MAX / 2,
        Some(-5) => 1usize << 32,
        Some(-6) => (1usize << 32) + 1,
        Some(-7) => usize::MAX - 2,
        Some(-8) => 1usize << 62,
        _ => bad(&format!("index {}", v)),
    }
}
pub fn pair(v: &Value) -> (usize, usize) {
    (us(&v[0]), us(&v[1]))
}
pub fn st<'a>(v: &'a Value, f: &str) -> &'a str {
    v[f].as_str().unwrap_or_else(|| bad(f))
}
/// indices as TLC can hold them
pub fn num(n: usize) -> Value {
    if n < 2_000_000_000 {
        json!(n)
    } else {
        json!(-9)
    }
}
pub fn nums(p: (usize, usize)) -> Value {
    json!([num(p.0), num(p.1)])
}

macro_rules! session {
    ($m:ident, $T:ty, $R:ty, $name:expr, $cx:tt, $dot:tt, $zoo:tt) => {
        pub mod $m {
            pub type T = $T;
            pub type R = $R;
            macro_rules! if_cx { ({$a:expr} {$b:expr}) => { choose!($cx {$a} {$b}) }; }
            macro_rules! if_dot { ({$a:expr} {$b:expr}) => { choose!($dot {$a} {$b}) }; }
            macro_rules! if_zoo { ({$a:expr} {$b:expr}) => { choose!($zoo {$a} {$b}) }; }
            include!("session.rs");
        }
    };
}
macro_rules! choose {
    (1 {$a:expr} {$b:expr}) => { $a };
    (0 {$a:expr} {$b:expr}) => { $b };
}

mod big;

session!(s_f64, f64, f64, "f64", 0, 1, 1);
session!(s_f32, f32, f32, "f32", 0, 0, 0);
session!(s_c64, householder::types::c64, f64, "c64", 1, 0, 1);
session!(s_c32, householder::types::c32, f32, "c32", 1, 0, 0);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let prog = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let create = |name: &str| Out(std::fs::File::create(name).unwrap());

    std::thread::spawn(|| {
        let mut last = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let p = PROGRESS.load(Ordering::SeqCst);
            if p == last.0 {
                last.1 += 1;
            } else {
                last = (p, 0);
            }
            if last.1 > 30 {
                std::process::exit(4); // a call does not return
            }
        }
    });

    let lines = prog.lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty());
    let parse = |l: String| serde_json::from_str::<Value>(&l).unwrap_or_else(|_| bad("json"));
    let threads: usize = args.get(3).map_or(1, |n| n.parse().unwrap());
    if threads == 1 {
        let mut out = create(&args[2]);
        for line in lines {
            run(&parse(line), &mut out);
        }
        out.line(&json!({"op": "end"}));
    } else {
        let all: std::sync::Arc<Vec<Value>> = std::sync::Arc::new(lines.map(parse).collect());
        let start = std::sync::Arc::new(std::sync::Barrier::new(threads));
        let each: Vec<_> = (0..threads)
            .map(|k| {
                let (all, start) = (all.clone(), start.clone());
                let mut out = create(&format!("{}.{}", args[2], k));
                let body = move || {
                    start.wait();
                    for i in 0..all.len() {
                        run(&all[(i + k * all.len() / threads) % all.len()], &mut out);
                    }
                    out.line(&json!({"op": "end"}));
                };
                std::thread::Builder::new().stack_size(8 << 20).spawn(body).unwrap()
            })
            .collect();
        for t in each {
            if t.join().is_err() {
                bad("thread");
            }
        }
    }
    std::process::exit(0); // skip destructors of leaked views
}

fn run(s: &Value, out: &mut Out) {
    match st(s, "t") {
        "f64" => s_f64::run(s, out),
        "f32" => s_f32::run(s, out),
        "c64" => s_c64::run(s, out),
        "c32" => s_c32::run(s, out),
        "big" => big::run(s, out),
        _ => bad("scalar type"),
    }
}

/// Fresh memory is not zero and released memory is overwritten, so that a
/// value read from either shows.
struct Dirty;
unsafe impl std::alloc::GlobalAlloc for Dirty {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0x41, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::ptr::write_bytes(p, 0x42, l.size());
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Dirty = Dirty;
