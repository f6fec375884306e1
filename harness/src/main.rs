//! Runs the real library on generated inputs, schedules and faults: replays what failed obligations claim, cross-checks the assumed
//! contracts, and stands in (bounded) where an obligation cannot be decided.
//!   harness PROPERTY --seed N --tier quick|thorough
//! prints a line FAIL {json} per failing scenario and one line STAT {json}.
#[path = "../../mirver/roots/src/conform.rs"]
#[allow(unused, clippy::all)]
mod conform;
mod log;
mod mem;
mod rng;
mod s_codec;
mod s_enc;
mod s_ipc;
mod s_payload;
mod wire;

use rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Allocations beyond what any scenario needs fail, as they do when memory is short: an allocation of a claimed length aborts.
struct Limited;
unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > 1 << 30 {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Limited = Limited;

pub type R = Result<(), String>;
pub type Scenario = (&'static str, usize, fn(&mut Rng) -> R);

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// runs a scenario with paused time; one that can make no progress is reported
pub fn run<F: std::future::Future<Output = R>>(f: F) -> R {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let r = rt.block_on(async {
        match tokio::time::timeout(Duration::from_secs(50_000_000), f).await {
            Ok(r) => r,
            Err(_) => Err("no progress: nothing is ready and nothing will be woken".into()),
        }
    });
    drop(rt);
    mem::clear();
    r
}

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static DONE: AtomicUsize = AtomicUsize::new(0);

fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.iter().any(|x| x == "--conform") {
        for (n, f) in conform::ALL {
            println!("{} {}", n, f().iter().map(|x| format!("{:02x}", x)).collect::<String>());
        }
        return;
    }
    let prop = a.get(1).cloned().unwrap_or_default();
    let val = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
    let seed: u64 = val("--seed", "1").parse().unwrap_or(1);
    let thorough = val("--tier", "quick") == "thorough";
    if !a.iter().any(|x| x == "--child") {
        // an abort must not take the verdict along
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.args(&a[1..]).arg("--child").stdout(std::process::Stdio::piped());
        let out = c.spawn().unwrap().wait_with_output().unwrap();
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let mut last = "?".to_string();
        let mut ended = false;
        for l in text.lines() {
            if let Some(n) = l.strip_prefix("AT ") {
                last = n.to_string();
            } else {
                ended |= l.starts_with("STAT ");
                println!("{}", l);
            }
        }
        if !ended && out.status.code().is_none() {
            println!("FAIL {{\"scenario\": {}, \"what\": \"the process aborted\"}}", esc(&last));
        }
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        PANICS.lock().unwrap().push(format!("panic at {}: {}", at, m));
    }));
    let _ = tracing::subscriber::set_global_default(log::Log);
    let all: Vec<(&str, Vec<Scenario>)> = [s_codec::all(), s_payload::all(), s_ipc::all(), s_enc::all()].into_iter().flatten().collect();
    let l: Vec<Scenario> = all.into_iter().filter(|(p, _)| *p == prop).flat_map(|(_, l)| l).collect();
    let t0 = Instant::now();
    let budget = Duration::from_secs(if thorough { 600 } else { 90 });
    let mut stats = vec![];
    let mut fails = 0;
    for (name, n, f) in l {
        let n = if thorough { n * 20 } else { n };
        let mut ran = 0;
        for i in 0..n {
            if t0.elapsed() > budget {
                break;
            }
            // every run is its own: a failing one can be repeated alone
            let s = seed.wrapping_mul(0x1000003).wrapping_add(i as u64).wrapping_mul(0x9E3779B97F4A7C15);
            // with logging in every third run
            log::ON.store(i % 3 == 1, Ordering::Relaxed);
            if i == 0 || i % 64 == 0 {
                println!("AT {} #{}", name, i);
                std::io::stdout().flush().unwrap();
            }
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut rng = Rng(s);
                    let r = std::panic::catch_unwind(move || f(&mut rng));
                    let _ = tx.send(r.unwrap_or_else(|_| Err("panicked".into())));
                })
                .unwrap();
            let mut r = rx.recv_timeout(Duration::from_secs(100)).unwrap_or_else(|_| Err("does not end (100 s)".into()));
            DONE.fetch_add(1, Ordering::Relaxed);
            ran += 1;
            let p: Vec<String> = std::mem::take(&mut *PANICS.lock().unwrap());
            if !p.is_empty() {
                r = Err(format!("{} [{}]", p.join("; "), r.err().unwrap_or_default()));
            }
            if let Err(e) = r {
                fails += 1;
                println!("FAIL {{\"scenario\": {}, \"run\": {}, \"seed\": {}, \"what\": {}}}", esc(name), i, seed, esc(&e.chars().take(1500).collect::<String>()));
                std::io::stdout().flush().unwrap();
                break;
            }
        }
        stats.push(format!("{{\"scenario\": {}, \"runs\": {}}}", esc(name), ran));
    }
    println!("STAT {{\"scenarios\": [{}], \"runs\": {}, \"failures\": {}}}", stats.join(", "), DONE.load(Ordering::Relaxed), fails);
    std::io::stdout().flush().unwrap();
    std::process::exit(0);
}
