//! C08, C09: replays the drift scenarios of MCThreeBit on the implementation, at many scales.
use crate::common::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use three_bit_quantization::{three_bit_dequantization, three_bit_quantization};

struct Scale {
    /// units per half cell
    h: i64,
    /// size of one unit
    unit: f64,
    /// whole cells (a multiple of four) added to every feature, subtracted again in the trace
    base: i64,
    /// displacement inside a unit (0 = exactly on the grid)
    jitter: bool,
}

fn record(t: &mut Trace, rng: &mut Rng, s: &Scale, pairs: &[(i64, Vec<i64>)]) {
    // one list of features, several drifted lists
    let step = s.unit * (2 * s.h) as f64;
    let value = |n: i64, rng: &mut Rng| -> f64 {
        let j = if s.jitter { (rng.unit() - 0.5) * 1.2 } else { 0.0 };
        if s.jitter {
            // n is odd: the value lies strictly between the grid lines n-1 and n+1
            ((s.base * 2 * s.h + n) as f64 + j) * s.unit
        } else {
            (s.base * 2 * s.h + n) as f64 * s.unit
        }
    };
    let fs: Vec<f64> = pairs.iter().map(|(f, _)| value(*f, rng)).collect();
    let fnums: Vec<i64> = pairs.iter().map(|(f, _)| *f).collect();
    let mut events = vec![];
    let got = guard(|| three_bit_quantization(&fs, step));
    let desc = format!("step {:e} base {} jitter {}", step, s.base, s.jitter);
    match &got {
        None => events.push(json!({"ev":"quant","ok":0,"H":s.h,"f":fnums,"q":[],"b":[],"d":desc})),
        Some((q, b)) => {
            let q: Vec<Value> = q.iter().map(|v| ti(v.saturating_sub(s.base))).collect();
            let bits: Vec<u8> = b.iter().map(|x| *x as u8).collect();
            events.push(json!({"ev":"quant","ok":1,"H":s.h,"f":fnums,"q":q,"b":bits,"d":desc}));
        }
    }
    if let Some((_, b)) = got {
        let rounds = pairs.iter().map(|(_, g)| g.len()).max().unwrap_or(0).max(if pairs.is_empty() { 1 } else { 0 });
        for k in 0..rounds {
            let gn: Vec<i64> = pairs.iter().map(|(_, g)| g[k % g.len()]).collect();
            let gs: Vec<f64> = gn.iter().map(|n| value(*n, rng)).collect();
            match guard(|| three_bit_dequantization(&gs, &b, step)) {
                None => events.push(json!({"ev":"restore","ok":0,"g":gn,"o":[]})),
                Some(o) => {
                    let o: Vec<Value> = o.iter().map(|v| ti(v.saturating_sub(s.base))).collect();
                    events.push(json!({"ev":"restore","ok":1,"g":gn,"o":o}));
                }
            }
        }
    }
    t.history(events);
}

pub fn run(mut ctx: Ctx) {
    let mut t = Trace::new(&ctx.out, 8);
    // scenarios of the specification: (H, f) -> all g reached by drifting
    let mut by: BTreeMap<(i64, i64), Vec<i64>> = BTreeMap::new();
    for s in ctx.scenarios() {
        let g = |k: &str| s[k].as_i64().unwrap();
        by.entry((g("H"), g("f"))).or_default().push(g("g"));
    }
    let scales: Vec<(f64, i64)> = vec![
        (1.0, 0), (0.0078125, -400), (3.0, 1 << 20), (0.375, -(1 << 34)), (997.0, 1 << 36),
        (2f64.powi(-40), 4), (2f64.powi(40), -8), (5.0 * 2f64.powi(-12), -(1 << 30)),
    ];
    for (si, (unit, base)) in scales.iter().enumerate() {
        if !ctx.thorough && si >= 5 { break; }
        // every scenario at every scale; lists of different lengths
        for h in 1..=8i64 {
            let mine: Vec<(i64, Vec<i64>)> = by.iter().filter(|((hh, _), _)| *hh == h).map(|((_, f), g)| (*f, g.clone())).collect();
            let mut i = 0;
            while i < mine.len() {
                let n = 1 + ctx.rng.below(16);
                let part = mine[i..(i + n).min(mine.len())].to_vec();
                i += n;
                record(&mut t, &mut ctx.rng, &Scale { h, unit: *unit, base: *base, jitter: false }, &part);
            }
        }
    }
    // random lists and steps, off the grid lines
    let n = if ctx.thorough { 4000 } else { 400 };
    for i in 0..n {
        let r = &mut ctx.rng;
        let h = *r.pick(&[4, 8, 16]);
        let unit = if i % 3 == 0 { *r.pick(&[1.0, 0.1, 0.03, 2.25, 9.9, 0.001, 1e-5, 1e4]) / (2 * h) as f64 }
                   else { 10f64.powf(r.unit() * 12.0 - 6.0) };
        let base = *r.pick(&[0, 4, -4, 100, -1000, 40000]);
        let len = match i % 10 { 0 => 0, 1 => 1, 2 => 85, 3 => 11, _ => 1 + r.below(40) };
        let pairs: Vec<(i64, Vec<i64>)> = (0..len).map(|_| {
            // features of one list may be of very different sizes
            let far = if i % 5 == 4 { *r.pick(&[40, 40, 5000, 2_000_000]) } else { 40 };
            let f = r.range(-far * h, far * h) | 1;
            let gs = (0..6).map(|k| {
                let d = match k {
                    0 => r.range(-2 * h, 2 * h),
                    1 => r.range(2 * h, 3 * h + 1),
                    2 => -r.range(2 * h, 3 * h + 1),
                    3 => r.range(3 * h, 9 * h),
                    4 => -r.range(3 * h, 9 * h),
                    _ => r.range(-2000 * h, 2000 * h),
                };
                (f + d) | 1
            }).collect();
            (f, gs)
        }).collect();
        record(&mut t, r, &Scale { h, unit, base, jitter: true }, &pairs);
    }
    t.finish();
}
