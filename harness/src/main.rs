mod gen;
mod oracle;
mod props;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
    static IDX: Cell<u64> = const { Cell::new(0) };
}
struct A;
fn note(n: usize) {
    let _ = MAX.try_with(|m| m.set(m.get().max(n)));
    if n > 4 << 30 {
        // cannot be served: say which case asked for it
        let i = IDX.try_with(|i| i.get()).unwrap_or(0);
        let mut b = *b"\nFAIL 00000000000000000000 asked for more than 4 GiB of memory at once\n";
        let mut v = i;
        for k in (6..26).rev() {
            b[k] = b'0' + (v % 10) as u8;
            v /= 10;
        }
        use std::io::Write;
        let _ = std::io::stderr().write_all(&b);
        std::process::abort();
    }
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: A = A;
pub fn mem_reset() {
    MAX.with(|m| m.set(0))
}
pub fn mem_max() -> usize {
    MAX.with(|m| m.get())
}

pub struct Info {
    pub nontrivial: bool,
    pub key: u64,
    pub sample: String,
}

fn one(prop: &str, seed: u64, idx: u64) -> Result<Info, String> {
    IDX.with(|i| i.set(idx));
    match std::panic::catch_unwind(|| props::case(prop, seed, idx)) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let input = props::LAST.with(|l| l.borrow().clone());
            Err(format!("panicked: {} on input {}", m, input))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let (prop, seed): (&str, u64) = (&a[2], a[3].parse().unwrap());
    if a[1] == "replay" {
        let idx = a[4].parse().unwrap();
        let h = std::thread::Builder::new().stack_size(512 << 20).spawn({
            let prop = prop.to_string();
            move || one(&prop, seed, idx)
        });
        match h.unwrap().join().unwrap() {
            Ok(i) => println!("case {} of {} with seed {} holds: {}", idx, prop, seed, i.sample),
            Err(e) => {
                println!("case {} of {} with seed {} FAILS: {}", idx, prop, seed, e);
                std::process::exit(1)
            }
        }
        return;
    }
    // run PROP SEED FROM TO SECONDS WORKERS
    let (from, to): (u64, u64) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let secs: u64 = a[6].parse().unwrap();
    let workers: usize = a[7].parse().unwrap();
    let next = AtomicU64::new(from);
    let done = AtomicU64::new(0);
    let nontriv = AtomicU64::new(0);
    let busy: Vec<(AtomicU64, AtomicU64)> = (0..workers).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let keys: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let fail: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let left = AtomicU64::new(workers as u64);
    let t0 = Instant::now();
    let serial = workers == 1;
    std::thread::scope(|s| {
        for w in 0..workers {
            let (next, done, nontriv, busy, keys, samples, fail, left) = (&next, &done, &nontriv, &busy, &keys, &samples, &fail, &left);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= to || t0.elapsed() > Duration::from_secs(secs) || fail.lock().unwrap().is_some() {
                            break;
                        }
                        if serial {
                            eprintln!("AT {}", i);
                        }
                        busy[w].0.store(i, SeqCst);
                        busy[w].1.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                        match one(prop, seed, i) {
                            Ok(info) => {
                                done.fetch_add(1, SeqCst);
                                if info.nontrivial {
                                    nontriv.fetch_add(1, SeqCst);
                                    keys.lock().unwrap().insert(info.key);
                                    let mut s = samples.lock().unwrap();
                                    if s.len() < 6 && info.sample.len() < 600 {
                                        s.push(info.sample)
                                    }
                                }
                            }
                            Err(e) => {
                                let mut f = fail.lock().unwrap();
                                if f.as_ref().map_or(true, |x| x.0 > i) {
                                    *f = Some((i, e))
                                }
                            }
                        }
                        busy[w].1.store(0, SeqCst);
                    }
                    left.fetch_sub(1, SeqCst);
                })
                .unwrap();
        }
        // a case that does not come back
        while left.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(5));
            let now = t0.elapsed().as_millis() as u64;
            for b in &busy {
                let at = b.1.load(SeqCst);
                if at > 0 && now > at + 30_000 {
                    println!("{}", serde_json::json!({"fail": {"idx": b.0.load(SeqCst), "what": "did not return within 30 s"}}));
                    std::process::exit(0)
                }
            }
        }
    });
    let f = fail.into_inner().unwrap();
    println!(
        "{}",
        serde_json::json!({
            "evaluations": done.load(SeqCst),
            "nontrivial": nontriv.load(SeqCst),
            "distinct_nontrivial": keys.into_inner().unwrap().len(),
            "samples": samples.into_inner().unwrap(),
            "fail": f.map(|(i, e)| serde_json::json!({"idx": i, "what": e})),
            "secs": t0.elapsed().as_secs_f64(),
        })
    );
}
