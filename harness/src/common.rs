//! Shared by the harness binaries: trace writer, random source, guarded calls.
#![allow(dead_code)]
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    /// a number in a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 32) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// The arguments every command shares.
pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub scen: Option<String>,
    pub args: Vec<String>,
}

impl Ctx {
    pub fn from_env() -> (String, Ctx) {
        let mut args: Vec<String> = std::env::args().skip(1).collect();
        let cmd = args.remove(0);
        let out = args.remove(0);
        let scen = if !args.is_empty() && args[0] != "-" { Some(args.remove(0)) } else { if !args.is_empty() { args.remove(0); } None };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        silence();
        (cmd, Ctx { rng: Rng::new(seed), seed, thorough, out, scen, args })
    }
    /// the scenarios TLC wrote (one JSON object per line)
    pub fn scenarios(&self) -> Vec<Value> {
        match &self.scen {
            None => vec![],
            Some(p) => BufReader::new(File::open(p).expect("scenario file"))
                .lines()
                .map(|l| serde_json::from_str(&l.unwrap()).expect("scenario"))
                .collect(),
        }
    }
}

pub fn silence() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Calls into the code under test: a panic is an observation ("refused"), not an error of the harness.
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// A trace split over several files, so that TLC can check the parts in parallel.
pub struct Trace {
    files: Vec<BufWriter<File>>,
    next: usize,
    pub events: usize,
}

impl Trace {
    pub fn new(base: &str, parts: usize) -> Trace {
        Trace {
            files: (0..parts)
                .map(|i| BufWriter::new(File::create(format!("{}.{}", base, i)).expect("trace file")))
                .collect(),
            next: 0,
            events: 0,
        }
    }
    /// events that belong together (one history) stay in one part
    pub fn history(&mut self, events: Vec<Value>) {
        let i = self.next;
        self.next = (self.next + 1) % self.files.len();
        for e in events {
            self.to(i, e);
        }
    }
    pub fn to(&mut self, i: usize, e: Value) {
        writeln!(self.files[i], "{}", e).unwrap();
        self.events += 1;
    }
    pub fn one(&mut self, e: Value) {
        self.history(vec![e]);
    }
    pub fn finish(mut self) {
        for f in self.files.iter_mut() {
            f.flush().unwrap();
        }
    }
}

/// TLC integers have 32 bits; anything larger is shown as a saturated (hence wrong) number.
pub fn ti(v: i64) -> Value {
    json!(v.clamp(-2_000_000_000, 2_000_000_000))
}

pub fn bytes_json(v: &[u8]) -> Value {
    Value::Array(v.iter().map(|b| json!(*b)).collect())
}

pub fn hash(bytes: &[u8]) -> String {
    let mut a: u64 = 0xcbf29ce484222325;
    let mut b: u64 = 0x9E3779B97F4A7C15 ^ bytes.len() as u64;
    for &x in bytes {
        a = (a ^ x as u64).wrapping_mul(0x100000001b3);
        b = (b ^ x as u64).wrapping_mul(0xff51afd7ed558ccd).rotate_left(23);
    }
    format!("{:016x}{:016x}", a, b)
}
