//! Executor runtime: event log, crash journal, watchdog, random numbers.
//! Nothing in this crate decides whether a result is right: it runs scenarios against the real
//! library and records what happened; the TLA+ trace specifications judge the record.
use serde_json::Value;
use std::fs::File;
use std::io::{BufWriter, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, pct: i64) -> bool {
        self.int(0, 99) < pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.int(0, xs.len() as i64 - 1) as usize]
    }
}

struct Log {
    out: BufWriter<File>,
    journal: File,
    count: u64,
}
static LOG: Mutex<Option<Log>> = Mutex::new(None);
static TICK: AtomicU64 = AtomicU64::new(0);

pub fn open(path: &str) {
    let out = BufWriter::with_capacity(1 << 20, File::create(path).expect("create log"));
    let journal = File::create(format!("{}.journal", path)).expect("create journal");
    *LOG.lock().unwrap() = Some(Log { out, journal, count: 0 });
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        // Watchdog: a library call that makes no progress for this long is recorded as a hang.
        // (CPU-bound calls in this library take microseconds.)
        let limit: u64 = std::env::var("KAMI_EXEC_HANG_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(20);
        let mut last = TICK.load(Ordering::SeqCst);
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = TICK.load(Ordering::SeqCst);
            if now != last {
                last = now;
                same = 0;
                continue;
            }
            same += 1;
            if same > 2 * limit {
                let mut g = match LOG.lock() {
                    Ok(g) => g,
                    Err(e) => e.into_inner(),
                };
                if let Some(l) = g.as_mut() {
                    let _ = l.out.flush();
                }
                std::process::exit(97); // the journal holds the call that never returned
            }
        }
    });
}

pub fn close() -> u64 {
    let mut g = LOG.lock().unwrap();
    let l = g.as_mut().unwrap();
    l.out.flush().unwrap();
    l.journal.set_len(0).unwrap();
    l.count
}

pub fn emit(v: &Value) {
    let mut g = LOG.lock().unwrap();
    let l = g.as_mut().unwrap();
    serde_json::to_writer(&mut l.out, v).unwrap();
    l.out.write_all(b"\n").unwrap();
    l.count += 1;
    TICK.fetch_add(1, Ordering::SeqCst);
}

/// Announces the event that is about to run (kept if the process dies or never returns).
pub fn begin(v: &Value) {
    let s = serde_json::to_vec(v).unwrap();
    let mut g = LOG.lock().unwrap();
    let l = g.as_mut().unwrap();
    l.out.flush().unwrap();
    l.journal.seek(SeekFrom::Start(0)).unwrap();
    l.journal.write_all(&s).unwrap();
    l.journal.set_len(s.len() as u64).unwrap();
    TICK.fetch_add(1, Ordering::SeqCst);
}

/// Runs a library call; a panic is data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    TICK.fetch_add(1, Ordering::SeqCst);
    r
}

/// Clamps a value into what TLC's 32-bit integers hold, away from the extremes.
pub const BIG: i64 = 1_000_000_000;
pub fn clamp_i(x: i64) -> i64 {
    x.max(-BIG).min(BIG)
}
pub fn clamp_u(x: usize) -> i64 {
    x.min(BIG as usize) as i64
}
/// A float known to carry an integer: the integer, or BIG if it does not.
pub fn int_of(x: f64) -> i64 {
    if x.is_finite() && x == x.round() && x.abs() < BIG as f64 {
        x as i64
    } else {
        BIG
    }
}
/// Fixed point: round(x * scale), BIG if it is not a reasonable finite number.
pub fn fix(x: f64, scale: f64) -> i64 {
    let y = (x * scale).round();
    if y.is_finite() && y.abs() < BIG as f64 {
        y as i64
    } else {
        BIG
    }
}

/// A number of any size as limbs of base 4096, least significant first (see Wide.tla).
pub fn wide(mut x: i128) -> Vec<i64> {
    let mut w = vec![];
    while !(-4096 <= x && x < 4096) {
        w.push(x.rem_euclid(4096) as i64);
        x = x.div_euclid(4096);
    }
    w.push(x as i64);
    // normal form: the last limb is neither 0 nor -1
    while w.len() > 1 && (w[w.len() - 1] == 0 || w[w.len() - 1] == -1) {
        let top = w.pop().unwrap();
        let k = w.len() - 1;
        w[k] += 4096 * top;
    }
    w
}
/// round(x * 2^bits) as limbs; a huge number if x is not a reasonable finite number.
pub fn fine(x: f64, bits: i32) -> Vec<i64> {
    let y = (x * 2f64.powi(bits)).round();
    wide(if y.is_finite() && y.abs() < 1e36 { y as i128 } else { 1 << 125 })
}
