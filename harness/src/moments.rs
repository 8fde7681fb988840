//! C25: complex Zernike moments of any order and repetition; replays the images of MCMoments.
use crate::common::*;
use ndarray::Array2;
use num::Complex;
use serde_json::{json, Value};
use zernike::calc::{calculate_zernike_image_moment, get_zernike_matrix};

fn part(v: f64) -> i64 {
    if v.is_finite() && v.abs() < 2000. { (v * 1e6).round() as i64 } else { -2_000_000_000 }
}
fn pair(z: &Complex<f64>) -> Value {
    json!([part(z.re), part(z.im)])
}
fn tol(n: usize) -> i64 {
    match n { 0..=15 => 20, 16..=20 => 200, _ => 20_000 }
}
fn matrix(side: usize, n: usize, m: isize) -> Value {
    match guard(|| get_zernike_matrix(n, m, side)) {
        Some(z) if z.dim() == (side, side) => json!({"ev":"matrix","m":m,"ok":1,"tol":tol(n),"v":z.iter().map(pair).collect::<Vec<_>>()}),
        _ => json!({"ev":"matrix","m":m,"ok":0,"tol":0,"v":[]}),
    }
}
fn moment(a: &Array2<u8>, n: usize, m: usize) -> Value {
    let (r, c) = a.dim();
    let x: Vec<u8> = a.iter().cloned().collect();
    match guard(|| calculate_zernike_image_moment(n, m, a)) {
        Some(z) => json!({"ev":"moment","R":r,"C":c,"x":x,"ok":1,"tol":tol(n),"v":pair(&z)}),
        None => json!({"ev":"moment","R":r,"C":c,"x":x,"ok":0,"tol":0,"v":[0, 0]}),
    }
}

pub fn run(mut ctx: Ctx) {
    let scenarios = ctx.scenarios();
    let mut t = Trace::new(&ctx.out, if ctx.thorough { 32 } else { 16 });
    let th = ctx.thorough;
    let r = &mut ctx.rng;
    let mut groups: Vec<((usize, usize, usize), Vec<Array2<u8>>)> = vec![];
    for s in scenarios {
        let g = |k: &str| s[k].as_u64().unwrap() as usize;
        let key = (g("N"), g("n"), g("m"));
        let x: Vec<u8> = s["x"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u8 * 255).collect();
        let a = Array2::from_shape_vec((key.0, key.0), x).unwrap();
        match groups.iter_mut().find(|g| g.0 == key && g.1.len() < 64) {
            Some(g) => g.1.push(a),
            None => groups.push((key, vec![a])),
        }
    }
    for ((side, n, m), v) in groups {
        let mut h = vec![json!({"ev":"grid","N":side,"n":n,"m":m})];
        for a in v {
            h.push(moment(&a, n, m));
        }
        t.history(h);
    }
    // every order and repetition, on squares and in them
    let top = if th { 24 } else { 20 };
    for n in 0..=top {
        for m in (n % 2..=n).step_by(2) {
            let sides: Vec<usize> = if th { vec![2, 3, 5, 8, 9, 12 + (n + m) % 9] } else { vec![3 + 2 * r.below(3), 2 + r.below(9)] };
            for side in sides {
                let mut h = vec![json!({"ev":"grid","N":side,"n":n,"m":m})];
                h.push(matrix(side, n, m as isize));
                if m > 0 {
                    h.push(matrix(side, n, -(m as isize)));
                }
                for s in 0..4 {
                    let short = 1 + r.below(side);
                    let dim = match s { 0 => (side, side), 1 => (side, short), 2 => (short, side), _ => (side, side) };
                    let a = Array2::from_shape_fn(dim, |_| if s == 3 { 255 * r.below(2) as u8 } else { r.byte() });
                    h.push(moment(&a, n, m));
                }
                t.history(h);
            }
        }
    }
    t.finish();
}
