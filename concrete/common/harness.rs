//! Case runner shared by the probes.  A case is identified by (group, seed, index); everything random in it
//! derives from that triple, so a replay file only has to name it.
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub enum Out {
    /// the property held; the flag says whether the case was non-trivial, the text describes it
    Held(bool, String),
    /// the property is broken on this case
    Broken(String),
}
pub use Out::*;
pub type CaseFn = fn(u64, &mut Rng) -> Out;
/// name, number of cases in a quick run, the case
pub type Group = (&'static str, u64, CaseFn);

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BIG: AtomicBool = AtomicBool::new(false);
const REFUSE: usize = 1 << 31;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE { BIG.store(true, SeqCst); return std::ptr::null_mut(); }
        let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(n, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE { BIG.store(true, SeqCst); return std::ptr::null_mut(); }
        let live = LIVE.fetch_add(n, SeqCst) + n;
        PEAK.fetch_max(live, SeqCst);
        LIVE.fetch_sub(l.size(), SeqCst);
        System.realloc(p, l, n)
    }
}
/// peak number of bytes allocated on top of what was live when f started
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.load(SeqCst);
    PEAK.store(base, SeqCst);
    let r = f();
    (r, PEAK.load(SeqCst).saturating_sub(base))
}

pub fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h }
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(96).map(|x| format!("{x:02x}")).collect();
    if b.len() > 96 { s.push_str(&format!("..({} bytes)", b.len())); }
    s
}
fn case_rng(group: &str, seed: u64, idx: u64) -> Rng {
    let mut r = Rng(seed ^ hash(group) ^ idx.wrapping_mul(0xD1B54A32D192ED03));
    r.next();
    r
}
static STARTED: AtomicU64 = AtomicU64::new(0);
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
    })
}
fn run_case(f: CaseFn, group: &str, seed: u64, idx: u64) -> Out {
    let mut r = case_rng(group, seed, idx);
    match caught(|| f(idx, &mut r)) { Ok(o) => o, Err(m) => Broken(format!("panicked: {m}")) }
}

/// usage: probe run PROP SEED SCALE_PERMILLE CAP_MS OUTDIR | probe replay PROP GROUP SEED IDX
pub fn main_with(groups: fn(&str) -> Vec<Group>) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let th = std::thread::Builder::new().stack_size(64 << 20).spawn(move || go(groups)).unwrap();
    let rc = th.join().unwrap_or(3);
    std::process::exit(rc)
}
fn go(groups: fn(&str) -> Vec<Group>) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("replay") {
        let (prop, g, seed, idx) = (&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap());
        for (name, _, f) in groups(prop) {
            if name == g {
                match run_case(f, name, seed, idx) {
                    Held(_, s) => { println!("HELD {prop} {g} {idx}: {s}"); return 0 }
                    Broken(s) => { println!("BROKEN {prop} {g} {idx}: {s}"); return 1 }
                }
            }
        }
        println!("no such group");
        return 2;
    }
    let (prop, seed, scale, cap, out) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), a[6].clone());
    let cur = format!("{out}/current.json");
    let t0 = Instant::now();
    // a case that does not end is itself a finding: the driver reads current.json
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        let s = STARTED.load(SeqCst);
        if s != 0 && now_ms().saturating_sub(s) > 90_000 { eprintln!("case does not terminate"); std::process::exit(97); }
    });
    let (mut evals, mut nontriv, mut samples, mut gs) = (0u64, 0u64, vec![], vec![]);
    let mut seen = std::collections::HashSet::new();
    let gl = groups(&prop);
    let n_groups = gl.len() as u64;
    for (gi, (name, n, f)) in gl.into_iter().enumerate() {
        let n = (n * scale / 1000).max(1);
        let deadline = t0 + Duration::from_millis(cap * (gi as u64 + 1) / n_groups);
        let mut done = 0;
        for idx in 0..n {
            if idx > 0 && Instant::now() > deadline { break; }
            fs::write(&cur, format!("{{\"property\":{},\"group\":{},\"seed\":{seed},\"idx\":{idx}}}", jstr(&prop), jstr(name))).ok();
            STARTED.store(now_ms(), SeqCst);
            let o = run_case(f, name, seed, idx);
            STARTED.store(0, SeqCst);
            done += 1;
            match o {
                Held(nt, s) => {
                    evals += 1;
                    if nt && seen.insert(hash(&s) ^ hash(name)) { nontriv += 1; }
                    if idx == n / 2 || idx == 3 { samples.push(format!("{name}#{idx}: {}", s.chars().take(300).collect::<String>())); }
                }
                Broken(m) => {
                    fs::write(format!("{out}/fail.json"), format!("{{\"property\":{},\"group\":{},\"seed\":{seed},\"idx\":{idx},\"what\":{}}}", jstr(&prop), jstr(name), jstr(&m))).unwrap();
                    println!("BROKEN {prop} {name} {idx}: {m}");
                    return 1;
                }
            }
        }
        gs.push(format!("{}:{done}", jstr(name)));
    }
    let samples: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    fs::write(format!("{out}/stats.json"), format!("{{\"evaluations\":{evals},\"distinct_nontrivial\":{nontriv},\"groups\":{{{}}},\"samples\":[{}],\"ms\":{}}}", gs.join(","), samples.join(","), t0.elapsed().as_millis())).unwrap();
    fs::remove_file(&cur).ok();
    0
}
fn now_ms() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64 }
