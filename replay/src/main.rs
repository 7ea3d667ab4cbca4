//! replay search PROP OUT SECONDS SEED [--keys a,b] [--ns 1,2] [--ints 17,..] [--big]
//! replay run FILE
mod api;
mod case;
mod check;
mod genr;
mod oracle;
mod q;

use case::{Case, convert};
use check::{Verdict, check_f, check_q};
use genr::{Cfg, Rng};
use q::Q;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    pub static PANICKED: Cell<bool> = const { Cell::new(false) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static A: Counting = Counting;
pub fn allocs() -> u64 {
    COUNT.with(|c| c.get())
}

const EXACT: [&str; 15] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C20"];

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    // deep recursion in interpolators is bounded; give the worker a large stack anyway
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(a)).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

fn run(a: Vec<String>) -> i32 {
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let v = if v.get("case").is_some() { v["case"].clone() } else { v };
            let r = match v["number"].as_str() {
                Some("rational") => check_q(&Case::<Q>::parse(&v)),
                Some("f32") => check_f(&Case::<f32>::parse(&v)),
                _ => check_f(&Case::<f64>::parse(&v)),
            };
            match r {
                Verdict::Ok => {
                    println!("PASS");
                    0
                }
                Verdict::Skip => {
                    println!("SKIP");
                    2
                }
                Verdict::Fail(m) => {
                    println!("FAIL {m}");
                    1
                }
            }
        }
        Some("search") => search(&a[2..]),
        _ => 3,
    }
}

fn search(a: &[String]) -> i32 {
    let prop = a[0].as_str();
    let out = &a[1];
    let secs: f64 = a[2].parse().unwrap();
    let seed: u64 = a[3].parse().unwrap();
    let mut cfg = Cfg { ints: vec![], keys: vec![], ns: vec![], big: false };
    let mut i = 4;
    while i < a.len() {
        match a[i].as_str() {
            "--keys" => cfg.keys = a[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--ns" => cfg.ns = a[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--ints" => cfg.ints = a[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--big" => {
                cfg.big = true;
                i += 1;
                continue;
            }
            _ => return 3,
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let exact = EXACT.contains(&prop);
    let (mut n, mut skip) = (0u64, 0u64);
    let mut r = Rng(seed.wrapping_mul(0x1234567) ^ 0xABCDEF);
    let max: u64 = std::env::var("REPLAY_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    while t0.elapsed().as_secs_f64() < secs && n < max {
        n += 1;
        let (v, js): (Verdict, Box<dyn Fn() -> serde_json::Value>) = if exact {
            let c = genr::exact(&mut r, &cfg, prop);
            (check_q(&c), Box::new(move || c.json()))
        } else {
            let c = genr::float(&mut r, &cfg, prop);
            if n % 4 == 3 && prop != "C18" {
                let c = convert(&c, &|x: f64| x as f32);
                (check_f(&c), Box::new(move || c.json()))
            } else {
                (check_f(&c), Box::new(move || c.json()))
            }
        };
        match v {
            Verdict::Ok => {}
            Verdict::Skip => skip += 1,
            Verdict::Fail(m) => {
                let js = js();
                std::fs::write(out, serde_json::to_string_pretty(&serde_json::json!({"case": js, "failure": m})).unwrap()).unwrap();
                println!("FAIL cases={n} skipped={skip} {m}");
                return 1;
            }
        }
    }
    println!("PASS cases={n} skipped={skip}");
    0
}
