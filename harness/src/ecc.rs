//! C05, C06: replays the histories of MCEcc (framing, filler, flips) and sweeps pairs of flips.
use crate::common::*;
use encoding::{decode, encode, get_code_by_codeword_length};
use labrador_ldpc::LDPCCode;
use serde_json::{json, Value};
use std::sync::Mutex;

/// The punctured bits of a codeword, as bytes; only a witness, the specification checks it.
pub fn punctured(code: LDPCCode, word: &[u8]) -> Vec<u8> {
    let (n, p) = (code.n(), code.punctured_bits());
    if p == 0 {
        return vec![];
    }
    let words = p / 64 + 1;
    let checks = code.iter_paritychecks().map(|(c, _)| c).max().unwrap() + 1;
    let mut rows = vec![vec![0u64; words]; checks];
    for (c, v) in code.iter_paritychecks() {
        if v >= n {
            rows[c][(v - n) / 64] ^= 1 << ((v - n) % 64);
        } else if word[v / 8] >> (7 - v % 8) & 1 == 1 {
            rows[c][words - 1] ^= 1;
        }
    }
    let mut solution = vec![0u8; p / 8];
    let mut used = 0;
    let mut pivots = vec![];
    for col in 0..p {
        let bit = |r: &Vec<u64>| r[col / 64] >> (col % 64) & 1 == 1;
        if let Some(i) = (used..checks).find(|&i| bit(&rows[i])) {
            rows.swap(used, i);
            let pivot = rows[used].clone();
            for (j, r) in rows.iter_mut().enumerate() {
                if j != used && bit(r) {
                    for w in 0..words {
                        r[w] ^= pivot[w];
                    }
                }
            }
            pivots.push((used, col));
            used += 1;
        }
    }
    for (r, col) in pivots {
        if rows[r][words - 1] & 1 == 1 {
            solution[col / 8] |= 1 << (7 - col % 8);
        }
    }
    solution
}

fn flip(b: &mut [u8], bit: usize) {
    b[bit / 8] ^= 1 << (7 - bit % 8);
}

/// contents of a message: constant, random, or stretches of either, also such as fill whole codewords
pub fn message(r: &mut Rng, n: usize, style: usize) -> Vec<u8> {
    match style % 7 {
        0 => vec![0; n],
        1 => vec![255; n],
        2 | 4 | 5 => {
            let word = *r.pick(&[8usize, 16, 32, 128, 512]);
            let aligned = r.below(2) == 0;
            // the length header takes the first two bytes
            let mut v = if aligned { r.bytes(word - 2) } else { vec![] };
            while v.len() < n {
                let k = if aligned { word * (1 + r.below(3)) } else { 1 + r.below(2 * word) };
                match r.below(6) {
                    0 | 1 => v.extend(vec![0; k]),
                    2 => v.extend(vec![255; k]),
                    3 => { let b = r.byte(); v.extend(vec![b; k]) }
                    // a single byte set
                    4 => { let mut x = vec![0; k]; let i = r.below(k); x[i] = 1 << r.below(8); v.extend(x) }
                    _ => v.extend(r.bytes(k)),
                }
            }
            v.truncate(n);
            v
        }
        _ => r.bytes(n),
    }
}

/// encode, with the codewords whose parity checks the specification shall verify
fn enc_event(d: usize, m: &[u8], cap: usize) -> (Option<Vec<u8>>, Value) {
    let c = guard(|| encode(m.to_vec(), d));
    let e = match &c {
        None => json!({"ev":"enc","D":d,"m":bytes_json(m),"ok":0,"c":[],"pw":[],"p":[]}),
        Some(c) => {
            let mut pw = vec![];
            let mut p = vec![];
            if let Some(code) = get_code_by_codeword_length(d) {
                let words: Vec<&[u8]> = c.chunks_exact(code.n() / 8).collect();
                for (i, w) in words.iter().enumerate() {
                    if i < cap || i + 1 == words.len() {
                        pw.push(json!(i + 1));
                        p.push(bytes_json(&punctured(code, w)));
                    }
                }
            }
            json!({"ev":"enc","D":d,"m":bytes_json(m),"ok":1,"c":bytes_json(c),"pw":pw,"p":p})
        }
    };
    (c, e)
}

fn dec_event(d: usize, c: &[u8], filler: &[u8], flips: &[(usize, usize)], n: usize) -> Value {
    let mut rx = c.to_vec();
    for (w, b) in flips {
        flip(&mut rx, (w - 1) * n * 8 + b);
    }
    rx.extend_from_slice(filler);
    let fl: Vec<Value> = flips.iter().map(|(w, b)| json!([w, b])).collect();
    match guard(|| decode(rx, d)) {
        None => json!({"ev":"dec","fill":filler.len(),"fl":fl,"ok":0,"o":[]}),
        Some(o) => json!({"ev":"dec","fill":filler.len(),"fl":fl,"ok":1,"o":bytes_json(&o)}),
    }
}

/// size of a codeword in bytes as the domain size fixes it (0: no code); kept apart from the code under test
fn word_bytes(d: usize) -> usize {
    match d {
        16 => 16,
        32 => 32,
        64 | 128 => 64,
        256 | 512 => 256,
        x if x >= 1024 => 1024,
        _ => 0,
    }
}

pub fn code_for(d: usize) -> Option<LDPCCode> {
    match d {
        16 => Some(LDPCCode::TC128),
        32 => Some(LDPCCode::TC256),
        64 | 128 => Some(LDPCCode::TC512),
        256 | 512 => Some(LDPCCode::TM2048),
        x if x >= 1024 => Some(LDPCCode::TM8192),
        _ => None,
    }
}

/// the coded form of a message, and the punctured bits of each codeword, without the code under test
pub fn coded(m: &[u8], d: usize) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut framed = vec![(m.len() / 256) as u8, m.len() as u8];
    framed.extend_from_slice(m);
    match code_for(d) {
        None => (framed, vec![]),
        Some(code) => {
            let mut c = vec![];
            let mut p = vec![];
            for w in framed.chunks(code.k() / 8) {
                let mut w = w.to_vec();
                w.resize(code.k() / 8, 0);
                let mut cw = vec![0u8; code.n() / 8];
                code.copy_encode(&w, &mut cw);
                p.push(punctured(code, &cw));
                c.extend_from_slice(&cw);
            }
            (c, p)
        }
    }
}

pub fn run(mut ctx: Ctx) {
    let mut t = Trace::new(&ctx.out, 16);
    let scenarios = ctx.scenarios();
    let hard: Vec<Value> = scenarios.iter().filter(|s| s["code"].is_string()).cloned().collect();
    let rounds = if ctx.thorough { 4 } else { 1 };
    let mut style = 0;
    let sweeps_only = ctx.args.iter().any(|a| a == "sweep");
    for _ in 0..rounds {
        for s in scenarios.iter().filter(|s| s["D"].is_u64()) {
            let r = &mut ctx.rng;
            let d = s["D"].as_u64().unwrap() as usize;
            let n = s["n"].as_u64().unwrap() as usize;
            let nb = word_bytes(d);
            let m = message(r, n, style);
            style = r.below(7);
            let (c, e) = enc_event(d, &m, if sweeps_only { 0 } else { 3 });
            let mut events = vec![e];
            if let Some(c) = c {
                let room = d.saturating_sub(c.len());
                let fill = match s["fill"].as_str().unwrap() {
                    "none" => 0,
                    "one" => 1,
                    "part" => nb.max(1) - 1,
                    _ => room,
                };
                let words = if nb == 0 { 0 } else { c.len() / nb };
                let mut flips = vec![];
                let some = |r: &mut Rng, w: usize, k: usize, f: &mut Vec<(usize, usize)>| {
                    let mut last = usize::MAX;
                    for _ in 0..k {
                        let mut b = r.below(nb * 8);
                        if b == last {
                            b = (b + 1) % (nb * 8);
                        }
                        last = b;
                        f.push((w, b));
                    }
                };
                if words > 0 {
                    match s["plan"].as_str().unwrap() {
                        "none" => {}
                        "one first" => some(r, 1, 1, &mut flips),
                        "two first" => some(r, 1, 2, &mut flips),
                        "two last" => some(r, words, 2, &mut flips),
                        "two each" => (1..=words).for_each(|w| some(r, w, 2, &mut flips)),
                        _ => (1..=words).for_each(|w| { let k = r.below(3); some(r, w, k, &mut flips) }),
                    }
                }
                let filler = match r.below(4) {
                    0 => vec![0; fill],
                    1 => vec![255; fill],
                    2 if !c.is_empty() => c.iter().cycle().take(fill).cloned().collect(),
                    _ => r.bytes(fill),
                };
                events.push(dec_event(d, &c, &filler, &flips, nb));
            }
            t.history(events);
        }
    }
    // lengths at the limit of the length header
    if !sweeps_only {
        for d in [12, 16, 1024, 9000] {
            for n in [65533usize, 65535, 65536, 65537, 70000, 131072] {
                if n <= 65535 && d != 9000 && d != 12 && !ctx.thorough {
                    continue;
                }
                let m = message(&mut ctx.rng, n, 3);
                let ok = guard(|| encode(m.clone(), d)).is_some();
                let mut h = vec![json!({"ev":"long","D":d,"n":n,"ok":ok as u8})];
                if n <= 65535 && ok {
                    let (c, e) = enc_event(d, &m, 1);
                    h.push(e);
                    if let Some(c) = c {
                        h.push(dec_event(d, &c, &[], &[], 0));
                    }
                }
                t.history(h);
            }
        }
        // every short length
        for d in [11usize, 16, 32, 64, 128, 256, 512, 1024, 1500] {
            let top = if ctx.thorough { 300 } else { 40 };
            for n in 0..top {
                let m = message(&mut ctx.rng, n, n);
                let (c, e) = enc_event(d, &m, 0);
                let mut h = vec![e];
                if let Some(c) = c {
                    let room = d.saturating_sub(c.len());
                    let room = ctx.rng.below(room + 1);
                    let filler = ctx.rng.bytes(room);
                    h.push(dec_event(d, &c, &filler, &[], 0));
                }
                t.history(h);
            }
        }
    }
    if sweeps_only {
        sweeps(&mut ctx, &mut t, &hard);
    }
    t.finish();
}

struct Job {
    d: usize,
    n: usize,
    w: usize,
    /// the words the units take turns at: w, or all of them
    all: bool,
    /// distance between first positions, and between second positions
    step: usize,
    stride: usize,
    pairs: Vec<(usize, usize)>,
}

/// sweeps of pairs, and the pairs the model of the decoder finds hardest, moved along their cyclic orbit
fn sweeps(ctx: &mut Ctx, t: &mut Trace, hard: &[Value]) {
    let mut jobs: Vec<Job> = vec![];
    let th = ctx.thorough;
    for (d, n, w, step, stride) in if th {
        vec![(16, 6, 1, 1, 1), (16, 30, 3, 1, 1), (32, 14, 1, 1, 1), (32, 47, 2, 1, 1), (64, 30, 1, 1, 1), (128, 31, 2, 2, 1),
             (256, 88, 1, 8, 1), (512, 300, 2, 64, 1), (1024, 84, 1, 128, 1), (3000, 1500, 3, 512, 3), (8192, 600, 1, 512, 2)]
    } else {
        vec![(16, 6, 1, 1, 1), (16, 30, 3, 8, 1), (32, 14, 1, 2, 1), (32, 47, 2, 32, 1), (64, 30, 1, 16, 1), (128, 31, 2, 64, 1),
             (256, 88, 1, 128, 1), (512, 300, 2, 256, 5), (1024, 84, 1, 512, 5), (3000, 1500, 3, 2048, 13)]
    } {
        jobs.push(Job { d, n, w, step, stride, pairs: vec![], all: false });
    }
    for (name, d, n, w) in [("TC128", 16, 6, 1), ("TC256", 32, 40, 2), ("TC512", 64, 30, 1), ("TC512", 128, 60, 2), ("TM2048", 256, 88, 1),
                            ("TM2048", 512, 200, 2), ("TM8192", 1024, 84, 1), ("TM8192", 4000, 84, 1)] {
        let bits = word_bytes(d) * 8;
        let (block, cycle) = if name.starts_with("TC") { (bits / 8, bits / 8) } else { (bits / 4, bits / 16) };
        let mut pairs = vec![];
        for s in hard.iter().filter(|s| s["code"] == *name) {
            let a = s["a"].as_u64().unwrap() as usize;
            let b = s["b"].as_u64().unwrap() as usize;
            for k in 0..if th { 6 } else { 2 } {
                let j = if k == 0 { 0 } else { ctx.rng.below(cycle) };
                let mv = |v: usize| v / block * block + (v % block) / cycle * cycle + (v % cycle + j) % cycle;
                pairs.push((mv(a), mv(b)));
            }
        }
        // and in every word of a longer message
        let k = word_bytes(d) / 2;
        let words = match k { 8 => 12, 16 => 9, 32 => 7, 128 => 5, _ => 4 };
        let far = pairs.iter().step_by(if th { 1 } else { 2 }).cloned().collect();
        jobs.push(Job { d, n: k * words - 3, w: 1, step: 0, stride: 0, pairs: far, all: true });
        jobs.push(Job { d, n, w, step: 0, stride: 0, pairs, all: false });
    }
    for job in jobs {
        let d = job.d;
        let style = if job.all { ctx.rng.below(7) } else { 3 };
        let m = message(&mut ctx.rng, job.n, style);
        let (c, e) = enc_event(d, &m, 0);
        let mut h = vec![e];
        if let Some(c) = c {
            let bits = word_bytes(d) * 8;
            // each unit: the pairs to try and the event to fill in
            let mut units: Vec<(Vec<(usize, usize)>, Value)> = vec![];
            if job.step > 0 {
                for a in (0..bits).step_by(job.step) {
                    let from = ctx.rng.below(job.stride);
                    let ps: Vec<(usize, usize)> = (from..bits).step_by(job.stride).map(|b| (a, b)).collect();
                    let e = json!({"ev":"sweep","cw":job.w,"bit":a,"from":from,"stride":job.stride,"tried":ps.len()});
                    units.push((ps, e));
                }
            } else {
                let words = c.len() * 8 / bits;
                let size = if job.all { (job.pairs.len() / (3 * words)).clamp(1, 50) } else { 50 };
                for (i, ps) in job.pairs.chunks(size).enumerate() {
                    let fl: Vec<Value> = ps.iter().map(|(a, b)| json!([a, b])).collect();
                    let w = if job.all { 1 + i % words } else { job.w };
                    units.push((ps.to_vec(), json!({"ev":"pairs","cw":w,"fl":fl})));
                }
            }
            let results = Mutex::new(vec![]);
            let next = std::sync::atomic::AtomicUsize::new(0);
            std::thread::scope(|sc| {
                for _ in 0..8 {
                    sc.spawn(|| loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= units.len() {
                            break;
                        }
                        let mut outs: Vec<Vec<u8>> = vec![];
                        let mut refused = 0;
                        let w = units[i].1["cw"].as_u64().unwrap() as usize;
                        for (a, b) in &units[i].0 {
                            let mut rx = c.clone();
                            flip(&mut rx, (w - 1) * bits + a);
                            if b != a {
                                flip(&mut rx, (w - 1) * bits + b);
                            }
                            match guard(|| decode(rx, d)) {
                                None => refused += 1,
                                Some(o) => {
                                    if !outs.contains(&o) && outs.len() < 4 {
                                        outs.push(o);
                                    }
                                }
                            }
                        }
                        let o: Vec<Value> = outs.iter().map(|x| bytes_json(x)).collect();
                        let mut e = units[i].1.clone();
                        e["refused"] = json!(refused);
                        e["outs"] = json!(o);
                        results.lock().unwrap().push((i, e));
                    });
                }
            });
            let mut r = results.into_inner().unwrap();
            r.sort_by_key(|x| x.0);
            h.extend(r.into_iter().map(|x| x.1));
        }
        t.history(h);
    }
}
