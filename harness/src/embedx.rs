//! C01-C04: embeds and extracts; replays the requests of MCEmbed and lays out marks of its own.
use crate::common::*;
use crate::ecc::{code_for, coded, message, punctured};
use embedding::{embed, extract};
use ndarray::Array2;
use serde_json::{json, Value};

fn image(r: &mut Rng, rows: usize, cols: usize, style: usize, lo: u8, hi: u8) -> Array2<u8> {
    let flat = r.range(lo as i64, hi as i64) as u8;
    let span = (hi - lo) as usize;
    let v: Vec<u8> = (0..rows * cols)
        .map(|i| {
            let (y, x) = (i / cols, i % cols);
            match style % 6 {
                0 => flat,
                1 => lo + (x * span / cols.max(1)) as u8,
                2 => lo + (((x * y) % (span + 1)) as u8),
                3 => if (x + y) % 2 == 0 { lo } else { hi },
                _ => lo + r.below(span + 1) as u8,
            }
        })
        .collect();
    Array2::from_shape_vec((rows, cols), v).unwrap()
}

fn rows_json(a: &Array2<u8>) -> Value {
    Value::Array(a.rows().into_iter().map(|row| Value::Array(row.iter().map(|v| json!(*v)).collect())).collect())
}

fn extremes(a: &Array2<u8>) -> (u8, u8) {
    (a.iter().cloned().min().unwrap_or(128), a.iter().cloned().max().unwrap_or(128))
}

fn payload(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![0; n],
        1 => vec![255; n],
        2 => vec![0xAA; n],
        // stretches, some of them exactly a codeword's worth; two more bytes are put in front
        3 | 4 => message(r, n + 2, 2)[2..].to_vec(),
        _ => r.bytes(n),
    }
}

/// depth in units of 1/(64 b), rounded up to a multiple of four
fn units(depth: f64, b: usize) -> i64 {
    let d = (depth * 64. * b as f64).ceil().min(4e8) as i64;
    (d + 3) / 4 * 4
}

fn extract_event(y: &Array2<u8>, depth: f64, l: usize) -> Value {
    match guard(|| extract(y.clone(), depth, l)) {
        None => json!({"ev":"extract","ok":0,"o":[]}),
        Some(o) => json!({"ev":"extract","ok":1,"o":bytes_json(&o)}),
    }
}

fn most(d: usize) -> usize {
    match code_for(d) {
        None => d.saturating_sub(4),
        Some(c) => ((d / (c.n() / 8)) * (c.k() / 8)).saturating_sub(4),
    }
}

/// embeds without recording the images
fn ask(x: &Array2<u8>, m: &[u8], depth: f64, l: usize) -> (Vec<Value>, Option<Array2<u8>>) {
    let b = 1usize << l;
    let (lo, hi) = extremes(x);
    let (rows, cols) = x.dim();
    let y = guard(|| embed(x.clone(), m.to_vec(), depth, l));
    let deep = depth > (2 * b) as f64 * 1.0005;
    let ok = y.is_some();
    let mut h = vec![json!({"ev":"ask","R":rows,"C":cols,"L":l,"DD":units(depth, b),"n":m.len(),"m":if ok { bytes_json(m) } else { json!([]) },
                            "lo":lo,"hi":hi,"deep":deep as u8,"ok":ok as u8})];
    if let Some(y) = &y {
        h.push(extract_event(y, depth, l));
    }
    (h, y)
}

/// embeds and records both images; the depth is a multiple of 1/16
fn full(x: &Array2<u8>, m: &[u8], depth: f64, l: usize) -> (Vec<Value>, Option<Array2<u8>>) {
    let b = 1usize << l;
    let (lo, hi) = extremes(x);
    let (rows, cols) = x.dim();
    let y = guard(|| embed(x.clone(), m.to_vec(), depth, l));
    let d = if rows % b == 0 && cols % b == 0 { rows / b * (cols / b) / 8 } else { 0 };
    let (c, p) = coded(&wrapped(m), d);
    let h = vec![json!({"ev":"embed","R":rows,"C":cols,"L":l,"DD":units(depth, b),"lo":lo,"hi":hi,"m":bytes_json(m),
                        "c":bytes_json(&c),"p":p.iter().map(|w| bytes_json(w)).collect::<Vec<_>>(),
                        "x":rows_json(x),"y":y.as_ref().map(rows_json).unwrap_or(json!([])),"ok":y.is_some() as u8})];
    (h, y)
}

/// embeds into a large domain and records some of the blocks
fn sampled(r: &mut Rng, x: &Array2<u8>, m: &[u8], depth: f64, l: usize) -> Vec<Value> {
    let b = 1usize << l;
    let (lo, hi) = extremes(x);
    let (rows, cols) = x.dim();
    let (dr, dc) = (rows / b, cols / b);
    let y = guard(|| embed(x.clone(), m.to_vec(), depth, l));
    let (c, p) = coded(&wrapped(m), dr * dc / 8);
    let bits = c.len() * 8;
    let mut at: Vec<usize> = (0..12).collect();
    for p in [8192usize, 16384, 32768, 65536, 131072, 262144, 524288, bits, dr * dc, dc * (dr / 2)] {
        at.extend((0..24).map(|k| (p + k).saturating_sub(12)));
    }
    at.extend((0..160).map(|_| r.below(bits)));
    at.extend((0..60).map(|_| r.below(dr * dc)));
    at.retain(|n| *n < dr * dc);
    at.sort();
    at.dedup();
    let block = |a: &Array2<u8>, n: usize| (0..b * b).map(|k| json!(a[(n / dc * b + k / b, n % dc * b + k % b)])).collect::<Vec<_>>();
    let at: Vec<Value> = match &y {
        Some(y) if y.dim() == x.dim() => at.iter().map(|n| json!([n, block(x, *n), block(y, *n)])).collect(),
        _ => vec![],
    };
    let ok = y.is_some() && !at.is_empty();
    let mut h = vec![json!({"ev":"sample","R":rows,"C":cols,"L":l,"DD":units(depth, b),"lo":lo,"hi":hi,"m":bytes_json(m),
                            "c":bytes_json(&c),"p":p.iter().map(|w| bytes_json(w)).collect::<Vec<_>>(),"at":at,"ok":ok as u8})];
    if let Some(y) = y {
        h.push(extract_event(&y, depth, l));
    }
    h
}

/// domains of more than 65536 coefficients, filled beyond that
fn large(ctx: &mut Ctx, t: &mut Trace) {
    let th = ctx.thorough;
    let r = &mut ctx.rng;
    let mut v = vec![(512usize, 576usize, 1usize, 4500usize), (284, 1040, 1, 4550), (1200, 280, 1, 5000), (1080, 1100, 2, 4300), (800, 1400, 1, 16640),
                     // many columns, many rows, many levels
                     (2, 147600, 1, 4200), (147600, 2, 1, 4300), (256, 288, 5, 5), (288, 320, 5, 7), (512, 1024, 6, 4)];
    if th {
        v.extend([(2056, 2056, 1, 65533), (1500, 1500, 1, 34000), (2064, 2080, 3, 4090), (4, 150000, 1, 4600), (150000, 4, 1, 4600), (1600, 1400, 1, 33000), (1664, 1664, 2, 10000)]);
    }
    for (i, (rows, cols, l, n)) in v.into_iter().enumerate() {
        let b = 1usize << l;
        let depth = depths(r, b, if i % 4 == 3 { 7 } else { 1 + i % 3 }, true);
        let (lo, hi) = headroom(depth, b).unwrap_or((100, 150));
        let x = image(r, rows, cols, 5, lo, hi);
        let m = r.bytes(n);
        let h = sampled(r, &x, &m, depth, l);
        t.history(h);
    }
}

fn wrapped(m: &[u8]) -> Vec<u8> {
    let mut v = vec![(m.len() % 256) as u8, (m.len() / 256) as u8];
    v.extend_from_slice(m);
    v
}

/// a mark made without the code under test: every coefficient somewhere on the proper side
fn reference(r: &mut Rng, rows: usize, cols: usize, l: usize, m: &[u8], depth: f64, edge: bool) -> Vec<Value> {
    let b = 1usize << l;
    let (dr, dc) = (rows / b, cols / b);
    let dd = units(depth, b);
    let (c, p) = coded(&wrapped(m), dr * dc / 8);
    let mut x = image(r, rows, cols, 4, 0, 255);
    for i in 0..c.len() * 8 {
        let bit = c[i / 8] >> (i % 8) & 1;
        let (bi, bj) = (i / dc, i % dc);
        loop {
            // the block sum decides; the pixels inside it are anything
            let base = r.below(256) as i64;
            let tex = if edge { 0 } else { r.below(60) as i64 };
            let share = r.below(b * b + 1);
            let mut s = 0i64;
            for k in 0..b * b {
                let v = (base + r.range(-tex, tex) + if edge { (r.below(b * b) < share) as i64 } else { 0 }).clamp(0, 255);
                x[(bi * b + k / b, bj * b + k % b)] = v as u8;
                s += v;
            }
            let rem = (64 * s).rem_euclid(dd);
            if (bit == 1 && rem > 0 && 2 * rem < dd) || (bit == 0 && 2 * rem > dd) {
                break;
            }
        }
    }
    vec![json!({"ev":"ref","R":rows,"C":cols,"L":l,"DD":dd,"m":bytes_json(m),"c":bytes_json(&c),
                "p":p.iter().map(|w| bytes_json(w)).collect::<Vec<_>>(),"x":rows_json(&x)}),
         extract_event(&x, depth, l)]
}

/// sides of domains, in coefficients: no code, each code, rows or columns in excess
const DOMAINS: [(usize, usize); 22] = [(8, 9), (9, 8), (6, 12), (1, 72), (73, 1), (8, 16), (16, 8), (4, 32), (1, 128), (128, 1), (1, 131), (11, 11),
    (16, 16), (8, 32), (33, 13), (64, 8), (8, 64), (16, 32), (20, 27), (32, 32), (8, 128), (26, 28)];

fn depths(r: &mut Rng, b: usize, i: usize, grid: bool) -> f64 {
    let b = b as f64;
    if grid {
        match i % 8 {
            // as deep as there is room for
            7 => b * (20 + r.below(145)) as f64,
            0 => 2. * b + 0.0625,
            1 => 2. * b + 1.,
            2 => 10.0f64.max(2. * b + 0.5),
            3 => 20.0f64.max(3. * b),
            4 => 37.5,
            5 => 100.,
            _ => (r.range(32, 1600) as f64) / 16.,
        }
    } else {
        match i % 7 {
            6 => b * (20. + r.unit() * 145.),
            0 => 2. * b * 1.001,
            1 => 2. * b + 1. / 3.,
            2 => 100.,
            3 => 33.3,
            4 => (4. * b) * 1.05,
            _ => 2. * b + r.unit() * 60.,
        }
    }
}

/// the range of pixels a source may have so that nothing is clamped
fn headroom(depth: f64, b: usize) -> Option<(u8, u8)> {
    let h = (0.75 * depth / b as f64 + 1.).ceil();
    if h <= 127. { Some((h as u8, 255 - h as u8)) } else { None }
}

pub fn run(mut ctx: Ctx) {
    let mut t = Trace::new(&ctx.out, if ctx.thorough { 32 } else { 16 });
    let prop = ctx.args[0].clone();
    let th = ctx.thorough;
    match prop.as_str() {
        "C01" => {
            roundtrips(&mut ctx, &mut t, if th { 60 } else { 4 });
            large(&mut ctx, &mut t);
        }
        "C02" | "C03" => {
            marks(&mut ctx, &mut t, if th { 20 } else if prop == "C02" { 3 } else { 2 });
            large(&mut ctx, &mut t);
            if prop == "C03" {
                references(&mut ctx, &mut t, if th { 10 } else { 1 });
            }
        }
        "C20" => disturbed(&mut ctx, &mut t),
        _ => limits(&mut ctx, &mut t),
    }
    t.finish();
}

fn roundtrips(ctx: &mut Ctx, t: &mut Trace, rounds: usize) {
    let mut i = 0;
    let r = &mut ctx.rng;
    for _ in 0..rounds {
        for l in 1..=4usize {
            let b = 1 << l;
            for (dr, dc) in DOMAINS {
                if l == 4 && dr * dc > 300 {
                    continue;
                }
                i += 1;
                let depth = depths(r, b, i, i % 3 == 0);
                let depth = if headroom(depth, b).is_none() { 100. } else { depth };
                let (lo, hi) = headroom(depth, b).unwrap();
                let x = image(r, dr * b, dc * b, i, lo, hi);
                let top = most(dr * dc / 8);
                for k in 0..3 {
                    let n = match k { 0 => 0, 1 => top, _ => r.below(top + 1) };
                    let m = payload(r, n);
                    let (mut h, y) = ask(&x, &m, depth, l);
                    // mark it again, on top of the first mark, wherever that is owed
                    if let (Some(y), 2) = (y, k) {
                        let n = r.below(top + 1);
                        let m = payload(r, n);
                        let d2 = depths(r, b, i + 1, false);
                        h.extend(ask(&y, &m, d2, l).0);
                    }
                    t.history(h);
                }
            }
        }
        // marking again at a smaller depth, with room for both
        for k in 0..24 {
            let l = 1 + k % 3;
            let b = 1 << l;
            let (dr, dc) = DOMAINS[r.below(DOMAINS.len())];
            let x = image(r, dr * b, dc * b, 5, 100, 150);
            let d = 2.2 * b as f64;
            let top = most(dr * dc / 8);
            let mut cur = x;
            let mut h = vec![];
            for _ in 0..4 {
                let n = r.below(top + 1);
                let m = payload(r, n);
                let (ev, y) = ask(&cur, &m, d, l);
                h.extend(ev);
                match y {
                    None => break,
                    Some(y) => cur = y,
                }
            }
            t.history(h);
        }
        // lengths whose bytes are special, in domains without a code and with the largest
        let mut special: Vec<usize> = (0..10).map(|k| [127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 768, 1023, 1024, 1025, 1280][(k * 3 + r.below(3)) % 15]).collect();
        special.extend([256, 512, 1 + r.below(999)]);
        for n in special {
            i += 1;
            let l = 1 + i % 2;
            let b = 1 << l;
            let (dr, dc) = if n < 1000 && i % 3 != 0 {
                let mut room = n + 4 + r.below(6);
                while code_for(room).is_some() { room += 1 }
                (8, room)
            } else {
                (128, 64 * ((n + 4 + 511) / 512) + r.below(3))
            };
            let depth = depths(r, b, i, false);
            let (lo, hi) = match headroom(depth, b) { Some(v) => v, None => (120, 130) };
            let x = image(r, dr * b, dc * b, 5, lo, hi);
            let m = payload(r, n);
            t.history(ask(&x, &m, depth, l).0);
        }
        // payloads around 32768 bytes and the longest
        for (side, n) in [(1600, 32767 + r.below(2)), (1664, 33000 + r.below(9000)), (2056, 65533 - r.below(3))] {
            let x = image(r, side, side, 5, 100, 150);
            let m = r.bytes(n);
            t.history(ask(&x, &m, 20., 1).0);
        }
        // large domains: the codes of 1024-byte words, several of them
        for (dr, dc, l) in [(64, 128, 1), (128, 64, 2), (128, 130, 1), (72, 128, 3), (257, 128, 1)] {
            let b = 1 << l;
            i += 1;
            let depth = depths(r, b, i, false);
            let (lo, hi) = match headroom(depth, b) { Some(v) => v, None => (120, 130) };
            let x = image(r, dr * b, dc * b, 5, lo, hi);
            let n = r.below(most(dr * dc / 8) + 1);
            let m = payload(r, n);
            t.history(ask(&x, &m, depth, l).0);
        }
    }
}

fn marks(ctx: &mut Ctx, t: &mut Trace, rounds: usize) {
    let r = &mut ctx.rng;
    let mut i = r.below(100);
    for _ in 0..rounds {
        for l in 1..=3usize {
            let b = 1 << l;
            for (dr, dc) in DOMAINS {
                if (l == 3 && dr * dc > 140) || (l == 2 && dr * dc > 600) {
                    continue;
                }
                i += 1;
                let depth = match i % 11 { 0 => 1., 1 => 0.5, 2 => b as f64, 3 => 2. * b as f64, _ => depths(r, b, i / 3, true) };
                let (lo, hi) = if i % 3 == 0 { (0, 255) } else { headroom(depth, b).unwrap_or((60, 200)) };
                let x = image(r, dr * b, dc * b, i, lo, hi);
                let top = most(dr * dc / 8);
                let n = match i % 5 { 0 => top, 1 => 0, _ => r.below(top + 1) };
                let m = payload(r, n);
                let (mut h, y) = full(&x, &m, depth, l);
                // an image already marked
                if let Some(y) = y {
                    if i % 7 == 0 && dr * dc < 300 {
                        let n = r.below(top + 1);
                        let m = payload(r, n);
                        h.extend(full(&y, &m, depth, l).0);
                    }
                }
                t.history(h);
            }
        }
        for (dr, dc, l) in [(64usize, 128usize, 1usize), (130, 64, 1)] {
            let b = 1 << l;
            let x = image(r, dr * b, dc * b, 5, 0, 255);
            let n = r.below(most(dr * dc / 8) + 1);
            let m = payload(r, n);
            t.history(full(&x, &m, 20., l).0);
        }
    }
}

fn references(ctx: &mut Ctx, t: &mut Trace, rounds: usize) {
    let r = &mut ctx.rng;
    let mut i = r.below(100);
    for _ in 0..rounds {
        for l in 1..=3usize {
            let b = 1 << l;
            for (dr, dc) in DOMAINS {
                if (l == 3 && dr * dc > 140) || (l == 2 && dr * dc > 600) {
                    continue;
                }
                i += 1;
                let depth = match i % 5 { 0 => 4., 1 => 8.5, _ => depths(r, b, i, true) };
                let top = most(dr * dc / 8);
                let n = match i % 4 { 0 => top, 1 => 0, _ => r.below(top + 1) };
                let m = payload(r, n);
                let h = reference(r, dr * b, dc * b, l, &m, depth, i % 2 == 0);
                t.history(h);
            }
        }
        let m = payload(r, 400);
        let h = reference(r, 128, 256, 1, &m, 20., false);
        t.history(h);
    }
}

fn limits(ctx: &mut Ctx, t: &mut Trace) {
    let scenarios = ctx.scenarios();
    let r = &mut ctx.rng;
    for (i, s) in scenarios.into_iter().enumerate() {
        let g = |k: &str| s[k].as_u64().unwrap() as usize;
        let (rows, cols, l, n) = (g("R"), g("C"), g("L"), g("n"));
        let b = 1 << l;
        // the limit is the same at every depth
        let depth = if i % 3 < 2 { 2.5 * b as f64 } else { [0.01, 0.3, 1., 255., 256., 1000., 4096., 5000.5, 16321., 65536., 1e6, 1e9][r.below(12)] };
        let x = image(r, rows, cols, 4, 60, 190);
        let m = payload(r, n);
        t.history(ask(&x, &m, depth, l).0);
    }
    // the limit of the length fields, in a domain that would hold more
    let big: Vec<(usize, usize, usize, usize)> = if ctx.thorough {
        vec![(2056, 2056, 1, 65533), (2056, 2056, 1, 65532), (2056, 2056, 1, 65534), (2056, 2056, 1, 65535), (2080, 2080, 1, 65536), (2080, 2080, 1, 65540),
             (2080, 2080, 1, 65553), (2080, 2080, 1, 131072), (2952, 2952, 1, 131080), (2056, 2054, 1, 65533), (4112, 4112, 2, 65533)]
    } else {
        vec![(2056, 2056, 1, 65533), (2080, 2080, 1, 65534), (2080, 2080, 1, 65536), (2080, 2080, 1, 65553), (2952, 2952, 1, 131080)]
    };
    for (rows, cols, l, n) in big {
        let x = image(r, rows, cols, 1, 60, 190);
        let m = r.bytes(n);
        t.history(ask(&x, &m, 2.5 * (1 << l) as f64, l).0);
    }
    // sides that are no multiples, on either axis and at each level
    for l in 1..=5usize {
        let b = 1usize << l;
        for k in (1..=b).step_by(if l == 5 { 7 } else { 1 }) {
            for (dr, dc) in [(k, 0), (0, k), (k, k), (b / 2, b / 2)] {
                let x = image(r, 12 * b + dr, 14 * b + dc, 4, 60, 190);
                let m = payload(r, 3);
                t.history(ask(&x, &m, 2.5 * b as f64, l).0);
            }
        }
    }
}

/// spreads a change of the block sum over its pixels; what does not fit is left out
fn spread(r: &mut Rng, block: &mut [i64], change: i64, how: &str) {
    let n = block.len() as i64;
    let sign = change.signum();
    let mut left = change.abs();
    if how == "one pixel" {
        let mut k = r.below(block.len());
        for _ in 0..n {
            let room = if sign > 0 { 255 - block[k] } else { block[k] };
            let part = room.min(left);
            block[k] += sign * part;
            left -= part;
            k = (k + 1) % block.len();
        }
        return;
    }
    while left > 0 {
        let mut moved = false;
        for v in block.iter_mut() {
            if left > 0 && (0..=255).contains(&(*v + sign)) {
                *v += sign;
                left -= 1;
                moved = true;
            }
        }
        if !moved {
            break;
        }
    }
    if how == "shuffled" || how == "scrambled" {
        for i in (1..block.len()).rev() {
            block.swap(i, r.below(i + 1));
        }
    }
    if how == "scrambled" {
        for _ in 0..2 * block.len() {
            let (i, j) = (r.below(block.len()), r.below(block.len()));
            let t = r.range(0, 255).min(block[i]).min(255 - block[j]);
            if i != j {
                block[i] -= t;
                block[j] += t;
            }
        }
    }
}

/// C20: marked images that were disturbed as planned by MCNoise
fn disturbed(ctx: &mut Ctx, t: &mut Trace) {
    let mut by: std::collections::BTreeMap<(u64, u64), Vec<Value>> = Default::default();
    for s in ctx.scenarios() {
        by.entry((s["d"].as_u64().unwrap(), s["L"].as_u64().unwrap())).or_default().push(s);
    }
    let r = &mut ctx.rng;
    let mut i = r.below(100);
    for ((d, l), plans) in by {
        let (dr, dc) = if (d as usize) < DOMAINS.len() { DOMAINS[d as usize] } else { [(64, 128), (130, 64), (96, 86), (256, 132)][d as usize - DOMAINS.len()] };
        let l = l as usize;
        let b = 1usize << l;
        if (l == 3 && dr * dc > 140) || (l == 2 && dr * dc > 600) {
            continue;
        }
        // many codewords: few plans, all of which lose something in each of them
        let plans: Vec<Value> = if dr * dc > 20000 {
            plans.into_iter().filter(|p| !["none", "first word", "last word"].contains(&p["loss"].as_str().unwrap())).take(2).collect()
        } else {
            plans
        };
        for group in plans.chunks(5) {
            i += 1;
            let depth = match i % 5 { 0 => 2. * b as f64 + 0.5, 1 => 100., 2 => 40., 3 => (b * (20 + r.below(140))) as f64, _ => depths(r, b, 6, true).max(2.5 * b as f64) };
            let (lo, hi) = match headroom(depth, b) { Some(v) => v, None => continue };
            let x = image(r, dr * b, dc * b, i, lo, hi);
            let top = most(dr * dc / 8);
            let n = match i % 3 { 0 => top, _ if dr * dc > 20000 => top, _ => r.below(top + 1) };
            let m = payload(r, n);
            let (mut h, y) = full(&x, &m, depth, l);
            let y = match y { Some(y) if y.dim() == x.dim() => y, _ => { t.history(h); continue; } };
            let dd = units(depth, b);
            let tol = ((dd - 128 * (b * b) as i64 - 1) / 256).max(0);
            let bits = coded(&wrapped(&m), dr * dc / 8).0.len() * 8;
            let word = code_for(dr * dc / 8).map(|c| c.n());
            for plan in group {
                let p = |k: &str| plan[k].as_str().unwrap();
                let mut gone: Vec<usize> = vec![];
                if let Some(w) = word {
                    for k in 0..bits / w {
                        let at = |v: usize| k * w + v;
                        let (a, c) = (r.below(w), r.below(w));
                        let two = vec![at(a), at(c)];
                        gone.extend(match p("loss") {
                            "one" => vec![at(a)],
                            "two" => two,
                            "ends" => vec![at(0), at(w - 1)],
                            "first word" if k == 0 => two,
                            "last word" if k + 1 == bits / w => two,
                            "mixed" => two[..r.below(3)].to_vec(),
                            "neighbours" => vec![at(a), at((a + 1) % w)],
                            _ => vec![],
                        });
                    }
                }
                let mut z = y.clone();
                for n in 0..dr * dc {
                    let at = |k: usize| (n / dc * b + k / b, n % dc * b + k % b);
                    let mut block: Vec<i64> = (0..b * b).map(|k| y[at(k)] as i64).collect();
                    if n >= bits {
                        let all = match p("rest") {
                            "white" => Some(255),
                            "black" => Some(0),
                            "both" => Some(255 * r.below(2) as i64),
                            _ => None,
                        };
                        match (p("rest"), all) {
                            (_, Some(c)) => block.iter_mut().for_each(|v| *v = c),
                            ("random", _) => block.iter_mut().for_each(|v| *v = r.range(0, 255)),
                            ("extremes", _) => block.iter_mut().for_each(|v| *v = 255 * r.below(2) as i64),
                            _ => {}
                        }
                    } else if gone.contains(&n) {
                        match r.below(3) {
                            0 => block.iter_mut().for_each(|v| *v = r.range(0, 255)),
                            1 => block.iter_mut().for_each(|v| *v = 0),
                            _ => {
                                let up = block.iter().sum::<i64>() < (128 * b * b) as i64;
                                spread(r, &mut block, if up { dd / 128 } else { -dd / 128 }, p("px"));
                            }
                        }
                    } else {
                        let rem = (64 * block.iter().sum::<i64>()).rem_euclid(dd);
                        let one = 2 * rem < dd;
                        let change = match p("drift") {
                            "up" => tol,
                            "down" => -tol,
                            "in" => if one { -tol } else { tol },
                            "out" => if one { tol } else { -tol },
                            "apart" => if n % 2 == 0 { tol } else { -tol },
                            "random" => r.range(-tol, tol),
                            "tiny" => tol.min(1) * (1 - 2 * (n as i64 / 3 % 2)),
                            _ => 0,
                        };
                        spread(r, &mut block, change, p("px"));
                    }
                    for k in 0..b * b {
                        z[at(k)] = block[k] as u8;
                    }
                }
                h.push(json!({"ev":"noise","z":rows_json(&z)}));
                h.push(extract_event(&z, depth, l));
            }
            t.history(h);
        }
    }
}
