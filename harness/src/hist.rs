//! C18: the same calls alone, in sequence, and from many threads, each session in a process of its own.
use crate::chan::{compose, digest};
use crate::common::*;
use crate::life::texture;
use crate::sigx::{hex, key_pair, PRIVATE_KEY, PUBLIC_KEY};
use bitvec::prelude::*;
use image::GrayImage;
use image_features::{calculate_features, feature_types::FeaturesType};
use ndarray::Array2;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::{Barrier, Mutex};
use three_bit_quantization::{three_bit_dequantization, three_bit_quantization};
use watermarking::verif::{authenticate_channel, deserialize, watermark_channel, Watermark};

type Call = Box<dyn Fn() -> String + Sync + Send>;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
}

fn floats(v: &[f64]) -> String {
    hash(&v.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect::<Vec<_>>())
}

/// What some calls take as input was made by others (a code word, a marked image): a process of its own makes
/// these, so that setting the calls up makes no call.
pub struct Prepared {
    made: BTreeMap<String, Option<Vec<u8>>>,
    making: bool,
}

impl Prepared {
    fn get(&mut self, name: &str, f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
        if self.making && !self.made.contains_key(name) {
            self.made.insert(name.into(), guard(f));
        }
        self.made.get(name).cloned().flatten().unwrap_or_default()
    }
    fn load(path: &str) -> Prepared {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
        let made = v.as_object().unwrap().iter().map(|(k, v)| {
            (k.clone(), v.as_array().map(|a| a.iter().map(|b| b.as_u64().unwrap() as u8).collect()))
        }).collect();
        Prepared { made, making: false }
    }
    fn save(&self, path: &str) {
        let m: serde_json::Map<String, Value> = self.made.iter().map(|(k, v)| (k.clone(), v.as_ref().map(|b| bytes_json(b)).unwrap_or(Value::Null))).collect();
        std::fs::write(path, Value::Object(m).to_string()).unwrap();
    }
}

fn show(w: &Watermark) -> String {
    let bits: Vec<u8> = w.perturbation_vector.iter().map(|b| *b as u8).collect();
    format!("{} {:?} {} {} {}", bits.len(), bits, hash(&w.signature), w.signature.len(), w.text)
}

/// variant n of a list: one element changed, two exchanged, reversed, shorter, longer
fn vary<T: Clone>(base: &[T], n: usize, change: impl Fn(&T) -> T, extra: T) -> Vec<T> {
    let mut v = base.to_vec();
    let l = v.len();
    match n {
        0 => {}
        1 => v[0] = change(&v[0]),
        2 => v[l - 1] = change(&v[l - 1]),
        3 => v[l / 2] = change(&v[l / 2]),
        4 => v.swap(1, l / 3 + 1),
        5 => v.reverse(),
        6 => { v.pop(); }
        7 => v.push(extra),
        _ => v.clear(),
    }
    v
}

fn bytes(base: &[u8], n: usize) -> Vec<u8> {
    vary(base, n, |b| b ^ 1, 0)
}

fn pixels(base: &[u8], n: usize) -> Vec<u8> {
    match n {
        6 => base.iter().map(|x| x.wrapping_add(1)).collect(),
        n => vary(base, n, |b| b ^ 64, 0),
    }
}

fn gray(rows: usize, cols: usize, n: usize, seed: u64) -> Array2<u8> {
    let mut r = Rng::new(seed ^ 77);
    let base: Vec<u8> = (0..rows * cols).map(|_| 40 + r.below(170) as u8).collect();
    Array2::from_shape_vec((rows, cols), pixels(&base, n)).unwrap()
}

/// the call of operation op with variant v[i] of its i-th argument
fn call(seed: u64, op: &str, v: &[usize], prepared: &mut Prepared) -> Call {
    let r = &mut Rng::new(seed.wrapping_mul(31) ^ 5);
    let own = (PRIVATE_KEY.to_string(), PUBLIC_KEY.to_string());
    let other = key_pair(&r.bytes(32));
    const STEPS: [f64; 6] = [1., 0.5, 2., 1.25, 1.0000001, 0.];
    let f: Call = match op {
        "features" => {
            let (rows, cols) = [(12, 12), (13, 13), (14, 14), (15, 15), (16, 16), (11, 11), (24, 24), (12, 10), (10, 12), (9, 16), (16, 9), (8, 18), (1, 144)][v[0]];
            let k = [3, 2, 4, 1][v[1]];
            let a = gray(rows, cols, v[2], seed);
            Box::new(move || floats(&calculate_features(&a, FeaturesType::MomentsZernike, k)))
        }
        "features other type" => {
            let a = gray(12, 12, 0, seed);
            Box::new(move || format!("{:?}", calculate_features(&a, FeaturesType::MomentsPseudoZernike, 3)))
        }
        "quantise" | "restore" => {
            let fs: Vec<f64> = (0..9).map(|_| (r.below(4000) as f64) / 200. - 10.).collect();
            let f = vary(&fs, v[1], |x| x + 0.8125, 0.);
            let step = STEPS[v[0]];
            if op == "quantise" {
                Box::new(move || {
                    let (q, p) = three_bit_quantization(&f, step);
                    format!("{:?} {:?}", q, p.iter().map(|b| *b as u8).collect::<Vec<_>>())
                })
            } else {
                let bits: Vec<bool> = (0..3 * f.len()).map(|_| r.below(2) == 1).collect();
                let bits = if bits.is_empty() { bits } else { vary(&bits, [0, 1, 2, 3, 6][v[2]], |b| !b, false) };
                let p: BitVec<u8> = bits.into_iter().collect();
                Box::new(move || format!("{:?}", three_bit_dequantization(&f, &p, step)))
            }
        }
        "encode" => {
            let d = [64, 16, 32, 128, 256, 512, 1024, 100, 12, 63, 65, 1025, 40, 255, 4096, 2048][v[0]];
            let base = r.bytes(40);
            let m = bytes(&base, v[1]);
            Box::new(move || hash(&encoding::encode(m.clone(), d)))
        }
        "encode long" => {
            let m = vec![1; 70000];
            Box::new(move || hash(&encoding::encode(m.clone(), 1024)))
        }
        "decode" => {
            let d = [64, 16, 32, 128, 256, 512, 1024, 100, 12, 63, 65, 1025][v[0]];
            let base = r.bytes(40);
            let mut c = prepared.get(&format!("code {} {}", d, if v[1] < 4 { v[1] } else { 0 }), || encoding::encode(bytes(&base, if v[1] < 4 { v[1] } else { 0 }), d));
            match v[1] {
                4 if c.len() > 9 => c[9] ^= 16,
                5 if c.len() > 9 => { c[3] ^= 1; c[5] ^= 16; }
                6 => c.extend([0; 70]),
                7 => c.truncate(1),
                _ => {}
            }
            Box::new(move || hash(&encoding::decode(c.clone(), d)))
        }
        "embed" => {
            let (rows, cols) = [(64, 64), (64, 66), (66, 64), (32, 128), (128, 32), (72, 64), (32, 32), (63, 64)][v[0]];
            let l = [1, 2, 0][v[1]];
            let depth = [20., 30., 20.25, 20.75, 10., 19.9][v[2]];
            let m = bytes(&r.bytes(5), v[3]);
            let a = gray(rows, cols, if v[4] == 5 { 6 } else { v[4] }, seed);
            Box::new(move || {
                let y = embedding::embed(a.clone(), m.clone(), depth, l);
                format!("{:?} {}", y.dim(), hash(&y.into_raw_vec()))
            })
        }
        "extract" => {
            let l = [1, 2, 0][v[0]];
            let depth = [20., 30., 20.25, 20.75, 10., 19.9][v[1]];
            let m = r.bytes(5);
            let a = gray(64, 64, 0, seed);
            let y = match v[2] {
                0..=3 => prepared.get(&format!("marked {}", v[2]), || embedding::embed(a, bytes(&m, v[2]), 20., 1).into_raw_vec()),
                4 => prepared.get("marked deep", || embedding::embed(a, m, 30., 2).into_raw_vec()),
                5 => { let mut y = prepared.get("marked 0", || vec![]); if y.len() > 130 { y[1] ^= 128; y[70] ^= 128 } y }
                _ => a.into_raw_vec(),
            };
            let y = Array2::from_shape_vec((y.len() / 64, 64), y).unwrap();
            Box::new(move || hash(&embedding::extract(y.clone(), depth, l)))
        }
        "sign" | "verify" => {
            let data = r.bytes(300);
            let d = vary(&data, v[1], |b| b ^ 1, 0);
            if op == "sign" {
                let k = [own.clone(), other.clone(), (own.0.clone(), other.1.clone()), (other.0.clone(), own.1.clone()), ("zz".into(), own.1.clone()), (own.0.to_uppercase(), own.1.clone())][v[0]].clone();
                Box::new(move || hash(&signature::sign(&d, &k.0, &k.1)))
            } else {
                let k = [own.1.clone(), other.1.clone(), own.1.to_uppercase(), "zz".into()][v[0]].clone();
                let s = prepared.get("signature", || signature::sign(&data, &own.0, &own.1));
                let s2 = prepared.get("signature 2", || signature::sign(&data, &other.0, &other.1));
                let s3 = prepared.get("signature 3", || signature::sign(&bytes(&data, 1), &own.0, &own.1));
                let s = match v[2] { 0 => s, 1 => bytes(&s, 1), 2 => bytes(&s, 6), 3 => s2, 4 => s3, _ => vec![] };
                Box::new(move || format!("{}", signature::verify(&d, &s, &k)))
            }
        }
        "serialise" => {
            let bits: Vec<bool> = (0..33).map(|_| r.below(2) == 1).collect();
            let bits = if v[0] == 5 { vec![true; 256] } else { vary(&bits, [0, 1, 2, 3, 6][v[0]], |b| !b, false) };
            let s = bytes(&r.bytes(64), v[1]);
            let text = ["text", "tex", "Text", "texts", ""][v[2]].to_string();
            Box::new(move || hash(&Watermark::new(bits.iter().cloned().collect(), s.clone(), text.clone()).serialize()))
        }
        "deserialise" => {
            let bits: Vec<bool> = (0..33).map(|_| r.below(2) == 1).collect();
            let b = prepared.get("record", || Watermark::new(bits.iter().cloned().collect(), r.bytes(64), "text".into()).serialize());
            let b = if b.is_empty() { b } else { bytes(&b, v[0]) };
            Box::new(move || show(&deserialize(&b)))
        }
        "mark" | "authenticate" => {
            let depth = [10., 12., 10.25, 9.][v[3]];
            let step = [1., 0.5, 1.25, 2., 1.0000001, 3.][v[1]];
            let k = [2, 3, 1, 4, 5][v[2]];
            let l = [1, 2, 0][v[4]];
            let base = texture(r, 56, 56, 60, 190, 0);
            let turn = |n: usize| GrayImage::from_raw(56, 56, pixels(base.as_raw(), n)).unwrap();
            if op == "mark" {
                let (depth, g) = ([10., 12., 10.25, 9.][v[0]], match v[3] { 0 => base, 1 => turn(3), 2 => texture(r, 54, 58, 60, 190, 0), _ => texture(r, 58, 54, 60, 190, 0) });
                Box::new(move || digest(&watermark_channel(&g, depth, step, k, l)))
            } else {
                let names = ["channel 0", "channel 1"];
                let y = match v[0] {
                    0 | 1 => prepared.get(names[v[0]], || watermark_channel(&turn([0, 3][v[0]]), 10., 1., 2, 1).into_raw()),
                    2 => prepared.get("channel step", || watermark_channel(&base, 10., 2., 2, 1).into_raw()),
                    3 => prepared.get("channel three", || watermark_channel(&base, 10., 1., 3, 1).into_raw()),
                    4 => { let mut y = prepared.get("channel 0", || vec![]); for x in y.iter_mut().skip(56 * 28) { *x = x.wrapping_add(77) } y }
                    5 => { let mut y = prepared.get("channel 0", || vec![]); if y.len() > 9 { y[0] ^= 128 } y }
                    _ => base.into_raw(),
                };
                let y = GrayImage::from_raw(56, y.len() as u32 / 56, y).unwrap();
                Box::new(move || format!("{}", authenticate_channel(&y, depth, step, k, l)))
            }
        }
        "to16" | "from16" | "to64" | "from64" | "hex" => {
            let b = vary(&r.bytes(24), v[0], |b| b ^ 1, 0);
            let b = if v[0] == 6 && op.starts_with("to") { b[..16].to_vec() } else { b };
            match op {
                "to16" => Box::new(move || hash(&utils::bytes::vec_u16_to_bytes(&b.iter().map(|x| *x as u16 * 250).collect()))),
                "to64" => Box::new(move || hash(&utils::bytes::vec_i64_to_bytes(&b.iter().map(|x| (*x as i64 - 100) << 40).collect()))),
                "from16" => Box::new(move || format!("{:?}", utils::bytes::vec_u16_from_bytes(&b))),
                "from64" => Box::new(move || format!("{:?}", utils::bytes::vec_i64_from_bytes(&b))),
                _ => Box::new(move || utils::format::encode_hex(&b)),
            }
        }
        "unhex" => {
            let b = r.bytes(24);
            let t = match v[0] { 7 => hex(&b).to_uppercase(), 8 => "0g".into(), n => hex(&bytes(&b, n)) };
            Box::new(move || format!("{:?}", utils::format::decode_hex(&t)))
        }
        "watermark" => {
            let p: Vec<GrayImage> = (0..4).map(|i| texture(r, if v[2] == 1 { 216 } else { 208 }, 208, 10 * i, 150 + 30 * i, i as usize)).collect();
            let kind = ["L8", "La8", "Rgb8", "Rgba8"][v[0]];
            let q: Vec<&GrayImage> = match v[0] { 0 => vec![&p[1]], 1 => vec![&p[1], &p[0]], 2 => vec![&p[0], &p[1], &p[2]], _ => vec![&p[0], &p[1], &p[2], &p[3]] };
            let (depth, step) = [(20., 1.), (24., 1.), (20., 2.)][v[1]];
            let d = if v[2] == 2 { compose("L8", &[&texture(r, 64, 64, 0, 255, 0)]) } else { compose(kind, &q) };
            Box::new(move || {
                let o = watermarking::watermark(d.clone(), depth, step, 1);
                format!("{:?} {}x{} {}", o.color(), o.width(), o.height(), hash(o.as_bytes()))
            })
        }
        other => panic!("operation {}", other),
    };
    Box::new(move || {
        let s = guard(|| f()).unwrap_or("refused".into());
        if s.len() > 60 { hash(s.as_bytes()) } else { s }
    })
}

type Id = (String, Vec<usize>);

fn id(v: &Value) -> Id {
    let a = v.as_array().unwrap();
    (a[0].as_str().unwrap().into(), a[1..].iter().map(|x| x.as_u64().unwrap() as usize).collect())
}

/// the calls the sessions are made of, each once, and the slow ones
fn ids(scenarios: &[Value]) -> Vec<Id> {
    let mut all: Vec<Id> = vec![];
    for s in scenarios {
        all.push(id(&s["a"]));
        all.push(id(&s["b"]));
    }
    all.push(("features other type".into(), vec![]));
    all.push(("encode long".into(), vec![]));
    for v in [[0, 0, 0], [1, 0, 0], [2, 0, 0], [3, 0, 0], [0, 1, 0], [0, 2, 0], [0, 0, 1], [0, 0, 2]] {
        all.push(("watermark".into(), v.to_vec()));
    }
    all.sort();
    all.dedup();
    all
}

fn slow(i: &Id) -> bool {
    i.0 == "watermark"
}

fn calls(ctx: &Ctx, ids: &[Id], prepared: &mut Prepared) -> Vec<Call> {
    ids.iter().map(|(op, v)| call(ctx.seed, op, v, prepared)).collect()
}

/// one call, alone in this process
pub fn one(ctx: Ctx) {
    let i: Vec<usize> = ctx.args[0].split(',').map(|x| x.parse().unwrap()).collect();
    let all = ids(&ctx.scenarios());
    let mut p = Prepared::load(&ctx.args[1]);
    let out: Vec<Value> = i.iter().map(|&i| {
        let c = call(ctx.seed, &all[i].0, &all[i].1, &mut p);
        in_child(&ctx.out, 120, || json!(c()).to_string()).and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(json!("ended"))
    }).collect();
    std::fs::write(&ctx.out, Value::Array(out).to_string()).unwrap();
}

pub fn prepare(ctx: Ctx) {
    let mut p = Prepared { made: BTreeMap::new(), making: true };
    let all = ids(&ctx.scenarios());
    calls(&ctx, &all, &mut p);
    p.save(&ctx.out);
}

/// runs f in a copy of this process (which has one thread); what f returns, or None if the copy ended early
fn in_child(path: &str, seconds: u32, f: impl FnOnce() -> String) -> Option<String> {
    let path = format!("{}-child", path);
    let _ = std::fs::remove_file(&path);
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            alarm(seconds);
            let s = f();
            std::fs::write(&path, s).unwrap();
            _exit(0);
        }
        let mut status = 0;
        assert!(waitpid(pid, &mut status, 0) == pid);
        let r = if status == 0 { std::fs::read_to_string(&path).ok() } else { None };
        let _ = std::fs::remove_file(&path);
        r
    }
}

/// one session: the calls of each thread, in order; the events in the order in which they happened
fn session(v: &[Call], plan: &[Vec<usize>]) -> String {
    let log: Mutex<Vec<String>> = Mutex::new(vec!["{\"ev\":\"session\"}".into()]);
    let barrier = Barrier::new(plan.len());
    let run = |th: usize, p: &[usize]| {
        barrier.wait();
        for &c in p {
            log.lock().unwrap().push(json!({"ev":"begin","t":th + 1,"c":c + 1}).to_string());
            let r = (v[c])();
            log.lock().unwrap().push(json!({"ev":"end","t":th + 1,"c":c + 1,"r":r}).to_string());
        }
    };
    if plan.len() == 1 {
        run(0, &plan[0]);
    } else {
        std::thread::scope(|s| {
            for (th, p) in plan.iter().enumerate() {
                let run = &run;
                s.spawn(move || run(th, p));
            }
        });
    }
    let mut s = log.into_inner().unwrap().join("\n");
    s.push('\n');
    s
}

/// one share of the sessions, each in a copy of this process
pub fn share(ctx: Ctx) {
    let (k, n): (usize, usize) = (ctx.args[0].parse().unwrap(), ctx.args[1].parse().unwrap());
    let scenarios = ctx.scenarios();
    let all = ids(&scenarios);
    let v = calls(&ctx, &all, &mut Prepared::load(&ctx.args[2]));
    let number: BTreeMap<Id, usize> = all.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
    let mut r = Rng::new(ctx.seed ^ (k as u64) << 20);
    let mut out = std::io::BufWriter::new(std::fs::OpenOptions::new().append(true).open(&ctx.out).unwrap());
    let mut make = |plan: Vec<Vec<usize>>| {
        match in_child(&ctx.out, 100, || session(&v, &plan)) {
            Some(s) => out.write_all(s.as_bytes()).unwrap(),
            None => {
                let names: Vec<Vec<&Id>> = plan.iter().map(|p| p.iter().map(|c| &all[*c]).collect()).collect();
                writeln!(out, "{}", json!({"ev":"died","calls":names})).unwrap()
            }
        }
    };
    // pairs of calls, the first one once more afterwards
    for (_, s) in scenarios.iter().enumerate().filter(|(i, _)| i % n == k) {
        let (a, b) = (number[&id(&s["a"])], number[&id(&s["b"])]);
        make(vec![vec![a, b, a]]);
    }
    let quick: Vec<usize> = (0..all.len()).filter(|i| !slow(&all[*i])).collect();
    let slower: Vec<usize> = (0..all.len()).filter(|i| slow(&all[*i])).collect();
    let any = |r: &mut Rng| quick[r.below(quick.len())];
    // long sessions of any calls
    for _ in 0..if ctx.thorough { 12 } else { 2 } {
        let plan = vec![(0..if ctx.thorough { 3000 } else { 700 }).map(|_| any(&mut r)).collect()];
        make(plan);
    }
    for i in 0..if ctx.thorough { 6 } else { 1 } {
        let (a, b) = (slower[(k + i) % slower.len()], slower[r.below(slower.len())]);
        make(vec![vec![a, any(&mut r), b, a]]);
        make(vec![vec![b], vec![a], vec![a], vec![any(&mut r)]]);
    }
    // eight threads at once: the same call, neighbouring calls, any calls
    for round in 0..if ctx.thorough { 2500 } else { 60 } {
        let base = r.below(quick.len());
        let plan: Vec<Vec<usize>> = (0..8)
            .map(|_| (0..4).map(|_| match round % 3 {
                0 => quick[base],
                1 => quick[(base + r.below(6)) % quick.len()],
                _ => any(&mut r),
            }).collect())
            .collect();
        make(plan);
    }
}

pub fn run(ctx: Ctx) {
    let parts = if ctx.thorough { 24 } else { 8 };
    let exe = std::env::current_exe().unwrap();
    let scen = ctx.scen.clone().unwrap();
    let prepared = format!("{}-prepared", ctx.out);
    let child = |args: &[String]| {
        std::process::Command::new(&exe).args(args).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status()
    };
    assert!(child(&["prepare".into(), prepared.clone(), scen.clone()]).expect("prepare").success());
    let all = ids(&ctx.scenarios());
    // each call alone, in a process of its own
    let alone: Mutex<Vec<Value>> = Mutex::new(vec![Value::Null; all.len()]);
    std::thread::scope(|s| {
        for k in 0..8 {
            let (alone, all, child, out, scen, prepared) = (&alone, &all, &child, &ctx.out, &scen, &prepared);
            s.spawn(move || {
                let mine: Vec<usize> = (0..all.len()).filter(|i| i % 8 == k).collect();
                let f = format!("{}-one-{}", out, k);
                let list = mine.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",");
                assert!(child(&["one".into(), f.clone(), scen.clone(), list, prepared.clone()]).expect("one").success());
                let got: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
                let _ = std::fs::remove_file(&f);
                for (i, r) in mine.iter().zip(got) {
                    alone.lock().unwrap()[*i] = r;
                }
            });
        }
    });
    let alone = alone.into_inner().unwrap();
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            let (next, alone, child, out, scen, prepared) = (&next, &alone, &child, &ctx.out, &scen, &prepared);
            s.spawn(move || loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= parts {
                    break;
                }
                let f = format!("{}.{}", out, k);
                std::fs::write(&f, json!({"ev":"alone","r":alone,"threads":8}).to_string() + "\n").unwrap();
                assert!(child(&["share".into(), f, scen.clone(), k.to_string(), parts.to_string(), prepared.clone()]).expect("share").success());
            });
        }
    });
    let _ = std::fs::remove_file(&prepared);
}
