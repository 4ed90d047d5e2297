use serde_json::{Value as J, json};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| panic_msg(&e))
}

/// Collects mismatches (bounded) and counters, thread-safe.
#[derive(Default)]
pub struct Report {
    pub mismatches: Mutex<Vec<J>>,
    pub total_mismatch: AtomicU64,
    pub counters: Mutex<std::collections::BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<J>>,
}

impl Report {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn mismatch(&self, j: J) {
        self.total_mismatch.fetch_add(1, Ordering::Relaxed);
        let mut m = self.mismatches.lock().unwrap();
        if m.len() < 2000 {
            m.push(j);
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, j: J) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            s.push(j);
        }
    }
    pub fn finish(&self) {
        for m in self.mismatches.lock().unwrap().iter() {
            println!("VH-MISMATCH {m}");
        }
        println!(
            "VH-SUMMARY {}",
            json!({"mismatches": self.total_mismatch.load(Ordering::Relaxed),
                   "counters": *self.counters.lock().unwrap(),
                   "samples": *self.samples.lock().unwrap()})
        );
    }
}

/// Small deterministic PRNG (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

/// A seed for the i-th independent stream.
pub fn mix(seed: u64, i: u64) -> u64 {
    let mut r = Rng(seed ^ 0xD1B54A32D192ED03);
    let a = r.next();
    let mut r = Rng(a ^ i.wrapping_mul(0xA24BAED4963EE407));
    r.next();
    r.next()
}

/// Parses the payload of TLC `PrintT("TAG {json}")` lines.
pub fn tlc_lines(path: &str, tag: &str) -> Vec<J> {
    use std::io::BufRead;
    let f = std::io::BufReader::new(std::fs::File::open(path).unwrap_or_else(|e| panic!("{path}: {e}")));
    let prefix = format!("\"{tag} ");
    let mut out = Vec::new();
    for line in f.lines() {
        let line = line.unwrap();
        if let Some(rest) = line.strip_prefix(&prefix) {
            let rest = rest.strip_suffix('"').unwrap_or(rest);
            let un = unescape(rest);
            out.push(serde_json::from_str(&un).unwrap_or_else(|e| panic!("bad json from TLC ({e}): {un}")));
        }
    }
    out
}

pub fn unescape(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => o.push('\\'),
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub fn opt<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}
pub fn opt_u64(args: &[String], name: &str, d: u64) -> u64 {
    opt(args, name).map(|s| s.parse().unwrap()).unwrap_or(d)
}

/// Splits work over the available cores.
pub fn parallel(n: usize, f: impl Fn(usize) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        f(i);
                    }
                })
                .unwrap();
        }
    });
}

/// What each worker is doing, so that a hang or a crash can be reported with its cause.
pub struct Watch {
    slots: Vec<Mutex<Option<(std::time::Instant, J)>>>,
    dir: Option<String>,
}
impl Watch {
    pub fn new(n: usize, dir: Option<&str>) -> Self {
        Watch { slots: (0..n).map(|_| Mutex::new(None)).collect(), dir: dir.map(|s| s.to_string()) }
    }
    pub fn enter(&self, slot: usize, what: J) {
        if let Some(d) = &self.dir {
            let _ = std::fs::write(format!("{d}/cur-{slot}.json"), what.to_string());
        }
        *self.slots[slot].lock().unwrap() = Some((std::time::Instant::now(), what));
    }
    pub fn phase(&self, slot: usize, p: &str) {
        if let Some((t, w)) = &mut *self.slots[slot].lock().unwrap() {
            *t = std::time::Instant::now();
            w["phase"] = json!(p);
        }
    }
    pub fn leave(&self, slot: usize) {
        *self.slots[slot].lock().unwrap() = None;
    }
    pub fn idle(&self) -> bool {
        self.slots.iter().all(|s| s.lock().unwrap().is_none())
    }
    /// Anything running for longer than `secs`.
    pub fn stuck(&self, secs: u64) -> Option<(usize, J)> {
        for (k, s) in self.slots.iter().enumerate() {
            if let Some((t, w)) = &*s.lock().unwrap() {
                if t.elapsed().as_secs() >= secs {
                    return Some((k, w.clone()));
                }
            }
        }
        None
    }
}

/// Runs `f(worker, i)` for i < n on all cores.  A call that does not return within `secs` is reported as a
/// hang of the code under test, except in a phase marked "compile": look-ahead construction may take time
/// exponential in the format, so up to ten such calls are abandoned and only counted.
/// `done` runs when everything else has finished, before the process exits because of an abandoned call.
pub fn parallel_watched(
    n: usize,
    secs: u64,
    rep: &Report,
    dir: Option<&str>,
    f: impl Fn(&Watch, usize, usize) + Sync,
    done: impl Fn(),
) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    const SPARE: usize = 10;
    let watch = Watch::new(threads + SPARE, dir);
    let live = std::sync::atomic::AtomicUsize::new(threads);
    std::thread::scope(|s| {
        let (next, watch, live, f) = (&next, &watch, &live, &f);
        let spawn = |k: usize| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        f(watch, k, i);
                        watch.leave(k);
                    }
                    live.fetch_sub(1, Ordering::Relaxed);
                })
                .unwrap();
        };
        (0..threads).for_each(spawn);
        let mut abandoned = 0;
        while live.load(Ordering::Relaxed) > 0 {
            std::thread::sleep(std::time::Duration::from_millis(20));
            if let Some((k, mut w)) = watch.stuck(secs) {
                if w["phase"] == "compile" && abandoned < SPARE {
                    rep.count("abandoned_compilations", 1);
                    if std::env::var("VH_SHOW").is_ok() {
                        eprintln!("ABANDONED {w}");
                    }
                    watch.leave(k);
                    spawn(threads + abandoned);
                    abandoned += 1;
                } else {
                    w["kind"] = json!("hang");
                    rep.mismatch(w);
                    done();
                    rep.finish();
                    std::process::exit(0);
                }
            }
            // an abandoned worker never counts itself out
            if abandoned > 0 && next.load(Ordering::Relaxed) >= n && watch.idle() {
                done();
                rep.finish();
                std::process::exit(0);
            }
        }
    });
    done();
    rep.finish();
}
