//! C17: features of small images against exact moments, symmetries of larger ones.
use crate::common::*;
use image_features::{calculate_features, feature_types::FeaturesType};
use ndarray::Array2;
use serde_json::{json, Value};

fn feats(a: &Array2<u8>, k: usize) -> (u8, Value) {
    match guard(|| calculate_features(a, FeaturesType::MomentsZernike, k)) {
        None => (0, json!([])),
        Some(f) => (1, json!(f.iter().map(|v| if v.is_finite() && v.abs() < 2000. { (v * 1e6).round() as i64 } else { -2_000_000_000 }).collect::<Vec<_>>())),
    }
}
fn tol(k: usize) -> i64 {
    match k { 0..=8 => 20, 9..=11 => 200, _ => 20_000 }
}
fn feat(a: &Array2<u8>, k: usize) -> Value {
    let (ok, f) = feats(a, k);
    let (r, c) = a.dim();
    json!({"ev":"feat","R":r,"C":c,"k":k,"x":a.iter().map(|v| json!(*v)).collect::<Vec<_>>(),"f":f,"ok":ok,"tol":tol(k)})
}
fn start(a: &Array2<u8>, k: usize) -> Value {
    let (ok, f) = feats(a, k);
    json!({"ev":"start","k":k,"f":f,"ok":ok})
}
fn same(a: &Array2<u8>, k: usize, by: i64) -> Value {
    let (ok, f) = feats(a, k);
    json!({"ev":"same","f":f,"ok":ok,"by":by,"tol":tol(k) * 2})
}
fn rot(a: &Array2<u8>) -> Array2<u8> {
    let (r, c) = a.dim();
    Array2::from_shape_fn((c, r), |(i, j)| a[(r - 1 - j, i)])
}
fn mirror(a: &Array2<u8>) -> Array2<u8> {
    let (r, c) = a.dim();
    Array2::from_shape_fn((r, c), |(i, j)| a[(i, c - 1 - j)])
}
fn random(r: &mut Rng, rows: usize, cols: usize, style: usize) -> Array2<u8> {
    let p = (r.below(rows), r.below(cols));
    Array2::from_shape_fn((rows, cols), |(i, j)| match style % 5 {
        0 => r.byte(),
        1 => if (i, j) == p { 255 } else { 0 },
        2 => if i < p.0 || j < p.1 { 200 } else { 10 },
        3 => ((i * 255 / rows + j * 3) % 256) as u8,
        _ => 255,
    })
}
fn symmetric(h: &mut Vec<Value>, a: &Array2<u8>, k: usize) {
    let q = rot(a);
    h.push(same(&q, k, 1));
    h.push(same(&rot(&q), k, 1));
    h.push(same(&mirror(a), k, 1));
    h.push(same(&mirror(&q), k, 1));
    // brightness
    let top = *a.iter().max().unwrap() as i64;
    let by = if top == 0 { 3 } else { (255 / top).min(7) };
    if by > 1 {
        h.push(same(&a.mapv(|v| (v as i64 * by) as u8), k, by));
    }
}

/// few pixels that are not zero, in large images
fn spots(a: &Array2<u8>, k: usize) -> Value {
    let (ok, f) = feats(a, k);
    let (r, c) = a.dim();
    let at: Vec<Value> = a.indexed_iter().filter(|(_, v)| **v > 0).map(|((i, j), v)| json!([i, j, *v])).collect();
    json!({"ev":"spots","R":r,"C":c,"k":k,"at":at,"f":f,"ok":ok,"tol":tol(k)})
}
fn sparse(r: &mut Rng, rows: usize, cols: usize, n: usize, style: usize) -> Array2<u8> {
    let mut a = Array2::zeros((rows, cols));
    // anywhere, in one corner, on the last row, on the last column, in the other corner, near the centre, on the middle lines
    let m = n.min(8);
    for _ in 0..n {
        let middle = |r: &mut Rng, n: usize| ((n as i64 - 1) / 2 + r.range(-3, 4)).clamp(0, n as i64 - 1) as usize;
        let p = match style % 7 {
            5 => (middle(r, rows), middle(r, cols)),
            6 => if r.below(2) == 0 { (rows / 2, r.below(cols)) } else { (r.below(rows), cols / 2) },
            0 => (r.below(rows), r.below(cols)),
            1 => (rows - 1 - r.below(rows.min(m)), cols - 1 - r.below(cols.min(m))),
            2 => (rows - 1, r.below(cols)),
            3 => (r.below(rows), cols - 1),
            _ => (r.below(rows.min(m)), r.below(cols.min(m))),
        };
        a[p] = 128 + r.below(128) as u8;
    }
    a
}
fn wide(mut ctx: Ctx) {
    let mut t = Trace::new(&ctx.out, if ctx.thorough { 32 } else { 16 });
    let r = &mut ctx.rng;
    let (th, n) = (ctx.thorough, if ctx.thorough { 14 } else { 7 });
    // sides and amounts of features
    let mut sizes = vec![(257, 257, 2), (300, 260, 3), (256, 256, 1), (400, 200, 5), (150, 500, 2), (700, 130, 1), (640, 480, 1), (216, 216, 11), (97, 120, 8),
        (1, 300, 3), (300, 1, 3), (70, 2, 11)];
    for k in 12..=if th { 16 } else { 14 } {
        sizes.extend([(2, 2, k), (4 + k % 3, 4, k), (3, 5 + k % 4, k)]);
    }
    if th {
        for k in 1..=11 {
            sizes.extend([(230 + 7 * k, 300 - 5 * k, k), (40 * k, 33 * k, k.min(5)), (33, 15 * k, k)]);
        }
        sizes.extend([(1000, 1000, 2), (1200, 300, 3), (65, 1500, 1), (2000, 40, 2), (512, 512, 5), (513, 511, 3), (1024, 1024, 1)]);
    }
    for (rows, cols, k) in sizes {
        let side = rows.max(cols);
        let mut h = vec![json!({"ev":"wide","N":side,"k":k})];
        for s in 0..n {
            let few = if side < 10 { 1 + s % 3 } else { 20 };
            let a = sparse(r, rows, cols, few, s);
            h.push(spots(&a, k));
            if (rows + cols) % 2 == 0 && s == 0 {
                h.push(same(&rot(&a), k, 1));
            }
        }
        t.history(h);
    }
    t.finish();
}

pub fn run(mut ctx: Ctx) {
    if ctx.args.get(0).map(|a| a == "wide").unwrap_or(false) {
        return wide(ctx);
    }
    let mut t = Trace::new(&ctx.out, if ctx.thorough { 32 } else { 16 });
    let r = &mut ctx.rng;
    // the images of the model, grouped by grid
    let mut groups: Vec<((usize, usize), Vec<Array2<u8>>)> = vec![];
    let file = ctx.scen.clone();
    if let Some(f) = file {
        for line in std::fs::read_to_string(f).unwrap().lines() {
            let s: Value = serde_json::from_str(line).unwrap();
            let n = s["N"].as_u64().unwrap() as usize;
            let k = s["k"].as_u64().unwrap() as usize;
            let x: Vec<u8> = s["x"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u8 * 255).collect();
            let a = Array2::from_shape_vec((n, n), x).unwrap();
            match groups.iter_mut().find(|g| g.0 == (n, k) && g.1.len() < 64) {
                Some(g) => g.1.push(a),
                None => groups.push(((n, k), vec![a])),
            }
        }
    }
    for ((n, k), v) in groups {
        let mut h = vec![json!({"ev":"grid","N":n,"k":k})];
        for a in v {
            h.push(feat(&a, k));
        }
        t.history(h);
    }
    // every amount of features on other grids, square or not
    let grids: Vec<(usize, usize)> = if ctx.thorough {
        let mut g: Vec<(usize, usize)> = vec![];
        for n in [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 20] {
            for k in 1..=12 {
                g.push((n, k));
            }
        }
        g.extend([(24, 11), (32, 5), (31, 7), (40, 3), (64, 2), (63, 1), (100, 1), (14, 13), (9, 14)]);
        g
    } else {
        let mut g: Vec<(usize, usize)> = vec![];
        for k in 1..=11 {
            for n in [2 + k % 3, 5 + k % 4] {
                g.push((n, k));
            }
        }
        g.extend([(10, 11), (16, 4), (24, 2), (32, 1), (13, 5)]);
        g
    };
    for (n, k) in grids {
        let mut h = vec![json!({"ev":"grid","N":n,"k":k})];
        for s in 0..3 {
            let a = random(r, n, n, s + k);
            h.push(feat(&a, k));
            symmetric(&mut h, &a, k);
        }
        for s in 0..4 {
            let m = 1 + r.below(n);
            let a = if s % 2 == 0 { random(r, m, n, s + n) } else { random(r, n, m, s + n) };
            h.push(feat(&a, k));
            if (n - m) % 2 == 0 {
                symmetric(&mut h, &a, k);
            }
        }
        t.history(h);
    }
    // larger squares by their symmetries
    let sides: &[(usize, usize)] = if ctx.thorough {
        &[(64, 11), (100, 8), (101, 11), (128, 4), (216, 11), (257, 3), (300, 2), (512, 1)]
    } else {
        &[(64, 11), (101, 4), (129, 2), (33, 8)]
    };
    for (n, k) in sides {
        for s in 0..3 {
            let a = random(r, *n, *n, s);
            let a = a.mapv(|v| v / 2);
            let mut h = vec![start(&a, *k)];
            symmetric(&mut h, &a, *k);
            t.history(h);
        }
        let a = random(r, *n, *n / 2 * 2 - *n % 2, 0);
        let mut h = vec![start(&a, *k)];
        if *n % 2 == 0 {
            let a = random(r, *n, *n - 2 * (*n / 3), 0);
            h = vec![start(&a, *k)];
            symmetric(&mut h, &a, *k);
        }
        t.history(h);
    }
    t.finish();
}
