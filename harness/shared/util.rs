use serde_json::Value;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};

/// xorshift-style generator: harness randomness depends on the seed only.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

/// Content digest small enough for TLC's integers.
pub fn dig(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    (h ^ (h >> 29)) & 0x3fff_ffff
}

/// Runs code under test; a panic is an observation, not a failure.
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    RUNS.fetch_add(1, Ordering::Relaxed);
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn read_scenarios(path: &str) -> Vec<Value> {
    if path == "-" {
        return vec![];
    }
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    s.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).unwrap_or_else(|e| die(&format!("{e}: {l}"))))
        .collect()
}

pub fn die(m: &str) -> ! {
    eprintln!("{m}");
    std::process::exit(3)
}

static RUNS: AtomicU64 = AtomicU64::new(0);
/// Code under test that never comes back is a failure of that code: after 90 s
/// without a finished run or call the harness gives up with status 4.
fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut still) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let n = RUNS.load(Ordering::Relaxed);
            still = if n == last { still + 1 } else { 0 };
            last = n;
            if still >= 90 {
                eprintln!("run {} does not end", n + 1);
                std::process::exit(4);
            }
        }
    });
}

pub struct Out(std::io::BufWriter<std::fs::File>);
impl Out {
    pub fn new(path: &str) -> Self {
        watchdog();
        Out(std::io::BufWriter::new(
            std::fs::File::create(path).unwrap_or_else(|e| die(&format!("{path}: {e}"))),
        ))
    }
    pub fn run(&mut self, events: &[Value]) {
        serde_json::to_writer(&mut self.0, events).unwrap();
        self.0.write_all(b"\n").unwrap();
        RUNS.fetch_add(1, Ordering::Relaxed);
    }
}

pub fn u(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or_else(|| die(&format!("missing {k} in {v}"))) as usize
}
pub fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}
