//! C16: the wavelet transform on integer and dyadic matrices.
use crate::common::*;
use embedding::verif::dwt_2d;
use ndarray::Array2;
use serde_json::{json, Value};

fn rows(m: &[i64], c: usize) -> Value {
    if c == 0 { return json!([]); }
    json!(m.chunks(c).map(|r| r.iter().map(|v| ti(*v)).collect::<Vec<_>>()).collect::<Vec<_>>())
}

/// a real matrix in the given unit, as integers, and whether it was integral up to rounding noise
fn integral(m: &Array2<f64>, unit: f64, big: f64) -> (Vec<i64>, bool) {
    let mut whole = true;
    let v = m.iter().map(|x| {
        let s = x / unit;
        if !((s - s.round()).abs() <= 1e-9 * big.max(1.0) + 1e-6) { whole = false; }
        if s.is_finite() { s.round() as i64 } else { whole = false; 0 }
    }).collect();
    (v, whole)
}

/// 2^L times the coefficients, straight from the definition (only used to have coefficients to give to the inverse)
fn pyramid(x: &[i64], r: usize, c: usize, l: usize) -> Vec<i64> {
    let mut out = x.to_vec();
    let (mut rr, mut cc) = (r, c);
    for k in 1..=l {
        let cur: Vec<i64> = (0..rr * cc).map(|i| out[i / cc * c + i % cc]).collect();
        let (hr, hc) = (rr / 2, cc / 2);
        for p in 0..hr {
            for q in 0..hc {
                let (a, b, d, e) = (cur[2 * p * cc + 2 * q], cur[2 * p * cc + 2 * q + 1], cur[(2 * p + 1) * cc + 2 * q], cur[(2 * p + 1) * cc + 2 * q + 1]);
                let s = 1i64 << (l - k);
                out[p * c + q] = a + b + d + e;
                out[p * c + q + hc] = s * (a - b + d - e);
                out[(p + hr) * c + q] = s * (a + b - d - e);
                out[(p + hr) * c + q + hc] = s * (a - b - d + e);
            }
        }
        rr = hr;
        cc = hc;
    }
    out
}

fn record(t: &mut Trace, x: &[i64], r: usize, c: usize, l: usize, unit: f64) {
    let m = Array2::from_shape_vec([r, c], x.iter().map(|v| *v as f64 * unit).collect()).unwrap();
    let big = x.iter().map(|v| v.abs()).max().unwrap_or(0) as f64 * (1u64 << l) as f64;
    let y = guard(|| dwt_2d(m, l, false));
    let (v, whole) = match &y { Some(y) if y.dim() == (r, c) => integral(y, unit / (1u64 << l) as f64, big), Some(_) => (vec![], false), None => (vec![], false) };
    let mut h = vec![json!({"ev":"fwd","R":r,"C":c,"L":l,"x":rows(x, c),"ok":y.is_some() as u8,"whole":whole as u8,"y":rows(&v, c),"unit":format!("{:e}", unit)})];
    let n = 1usize << l;
    if r % n == 0 && c % n == 0 && r * c > 0 {
        let p = pyramid(x, r, c, l);
        let m = Array2::from_shape_vec([r, c], p.iter().map(|v| *v as f64 * unit / n as f64).collect()).unwrap();
        let y = guard(|| dwt_2d(m, l, true));
        let (v, whole) = match &y { Some(y) if y.dim() == (r, c) => integral(y, unit, big), _ => (vec![], false) };
        h.push(json!({"ev":"bwd","ok":y.is_some() as u8,"whole":whole as u8,"y":rows(&v, c)}));
        // and of what the forward transform really returned
        if let Some(y) = guard(|| dwt_2d(Array2::from_shape_vec([r, c], x.iter().map(|v| *v as f64 * unit).collect()).unwrap(), l, false)) {
            let y = guard(|| dwt_2d(y, l, true));
            let (v, whole) = match &y { Some(y) if y.dim() == (r, c) => integral(y, unit, big), _ => (vec![], false) };
            h.push(json!({"ev":"bwd","ok":y.is_some() as u8,"whole":whole as u8,"y":rows(&v, c)}));
        }
    }
    t.history(h);
}

fn values(rng: &mut Rng, n: usize, style: usize, top: i64) -> Vec<i64> {
    match style % 5 {
        0 => (0..n).map(|_| rng.range(0, 255)).collect(),
        1 => (0..n).map(|_| rng.range(-top, top)).collect(),
        2 => { let k = rng.below(n.max(1)); (0..n).map(|i| if i == k { 1000 } else { 0 }).collect() }
        3 => { let v = rng.range(-top, top); vec![v; n] }
        _ => (0..n).map(|i| (i as i64 * 7919) % 1000).collect(),
    }
}

pub fn run(mut ctx: Ctx) {
    let mut t = Trace::new(&ctx.out, 8);
    let units = [1.0, 0.0009765625, 1048576.0, 1.0, 0.1];
    for (i, s) in ctx.scenarios().iter().enumerate() {
        let g = |k: &str| s[k].as_u64().unwrap() as usize;
        let (r, c, l) = (g("R"), g("C"), g("L"));
        for k in 0..if ctx.thorough { 5 } else { 2 } {
            let x = values(&mut ctx.rng, r * c, i + k, 100000);
            let u = units[ctx.rng.below(units.len())];
            record(&mut t, &x, r, c, l, u);
        }
    }
    let shapes: Vec<(usize, usize, usize)> = if ctx.thorough {
        vec![(64, 64, 6), (64, 128, 3), (128, 64, 5), (216, 216, 3), (8, 256, 3), (256, 8, 3), (512, 4, 2), (96, 160, 5), (48, 80, 4), (128, 128, 7), (2, 500, 1), (216, 240, 3)]
    } else {
        vec![(32, 32, 5), (32, 64, 3), (64, 32, 4), (48, 80, 4), (8, 128, 3), (2, 200, 1), (216, 24, 3)]
    };
    // long sides on either axis
    let mut shapes = shapes;
    shapes.extend([(2, 1030, 1), (1026, 2, 1), (4, 2052, 2), (2100, 4, 1), (8, 1304, 3), (4, 4100, 1), (4098, 2, 1)]);
    if ctx.thorough {
        shapes.extend([(2, 8194, 1), (8196, 4, 2), (16, 1600, 4), (1232, 16, 3), (2, 20000, 1), (20000, 2, 1), (600, 300, 2), (3, 2000, 1), (2000, 6, 2)]);
    }
    for (r, c, l) in shapes {
        for k in 0..2 {
            let x = values(&mut ctx.rng, r * c, k, 4000);
            record(&mut t, &x, r, c, l, units[k]);
        }
    }
    t.finish();
}
