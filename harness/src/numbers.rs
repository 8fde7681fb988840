//! C22: factorials and pseudo-random numbers; replays the histories of MCNumbers.
use crate::common::*;
use serde_json::{json, Value};
use utils::math::factorial;
use utils::pseudo_random::{Generate, PseudoRandom};

/// a whole double in limbs of 13 bits
fn limbs(v: f64) -> Option<Vec<u32>> {
    if !v.is_finite() || v < 0. || v.fract() != 0. {
        return None;
    }
    let bits = v.to_bits();
    let (mut m, mut e) = ((bits & ((1 << 52) - 1)) | 1 << 52, (bits >> 52) as i32 - 1075);
    if v == 0. { m = 0; e = 0; }
    while e < 0 { m >>= 1; e += 1; }
    let mut out = vec![0u32; 80];
    for b in 0..53 {
        let p = b + e as usize;
        if m >> b & 1 == 1 {
            if p >= 79 * 13 { return None; }
            out[p / 13] |= 1 << (p % 13);
        }
    }
    Some(out)
}

fn unit_event(g: &mut PseudoRandom, i: usize) -> Value {
    match guard(|| g.generate_unit()) {
        None => json!({"ev":"unit","ok":0,"i":i,"v":"","u":-1}),
        Some(u) => json!({"ev":"unit","ok":1,"i":i,"v":format!("{:016x}", u.to_bits()),"u":ti((u * 1e6).floor() as i64)}),
    }
}

pub fn run(mut ctx: Ctx) {
    let mut t = Trace::new(&ctx.out, 8);
    let mut order: Vec<usize> = (0..=170).chain((0..40).map(|_| ctx.rng.below(171))).collect();
    let last = order.len();
    order[171..last].reverse();
    for n in order {
        let v = guard(|| factorial(n as f64));
        let l = v.and_then(limbs);
        t.one(json!({"ev":"fact","n":n,"ok":v.is_some() as u8,"whole":l.is_some() as u8,"v":l.unwrap_or_default()}));
    }
    for x in [100i64, 200, 250, 300, 400, 500, 600, 700, 750, 800, 900] {
        let v = guard(|| factorial(x as f64 / 1000.));
        t.one(json!({"ev":"anchor","x":x,"ok":v.is_some() as u8,"v":ti((v.unwrap_or(-1.) * 1e9).round() as i64)}));
    }
    for k in 0..if ctx.thorough { 40000 } else { 4000 } {
        let x = if k < 1000 { k - 950 } else { ctx.rng.range(-950, 40000) };
        if x % 1000 == 0 && x < 0 { continue; }
        let x1 = x as f64 / 1000.;
        let v = guard(|| factorial(x1 + 1.) / factorial(x1));
        t.one(json!({"ev":"ratio","x":x,"ok":v.is_some() as u8,"q":ti((v.unwrap_or(-1.) * 1e6).round() as i64)}));
    }
    // seeds by their number in the plans
    let (scenarios, thorough) = (ctx.scenarios(), ctx.thorough);
    let r = &mut ctx.rng;
    let seeds: Vec<usize> = vec![0, 1, 2, r.below(1 << 31), (1 << 53) - 3, r.below(1 << 62)];
    let name = |k: usize| seeds[k % seeds.len()].to_string();
    for (k, s) in scenarios.into_iter().enumerate() {
        let shift = k % seeds.len();
        // what each seed gives, from sources of their own
        let mut h = vec![];
        for j in 0..2 {
            h.push(json!({"ev":"start","seeds":[name(shift + j)]}));
            let mut g = PseudoRandom { seed: seeds[(shift + j) % seeds.len()] };
            for _ in 0..6 { h.push(unit_event(&mut g, 1)); }
        }
        let mut gs: Vec<PseudoRandom> = (0..2).map(|j| PseudoRandom { seed: seeds[(shift + j) % seeds.len()] }).collect();
        h.push(json!({"ev":"start","seeds":[name(shift), name(shift + 1)]}));
        for op in s["ops"].as_array().unwrap() {
            let g = |k: &str| op[k].as_i64().unwrap();
            let i = g("i") as usize;
            let src = &mut gs[i - 1];
            h.push(match op["op"].as_str().unwrap() {
                "seed" => {
                    let which = shift + g("s") as usize - 1;
                    let ok = guard(|| src.seed(seeds[which % seeds.len()])).is_some();
                    json!({"ev":"seed","i":i,"s":name(which),"ok":ok as u8})
                }
                "unit" => unit_event(src, i),
                _ => {
                    let v = guard(|| src.generate(g("a") as f64, g("b") as f64));
                    json!({"ev":"range","i":i,"a":g("a"),"b":g("b"),"ok":v.is_some() as u8,"m":ti((v.unwrap_or(9e9) * 1e6).round() as i64)})
                }
            });
        }
        t.history(h);
    }
    for k in 0..if thorough { 400 } else { 40 } {
        let s = if k == 0 { 0 } else { r.below(1 << 31) };
        let mut c = vec![0; 10];
        let n = 2000;
        let ok = guard(|| {
            let mut g = PseudoRandom { seed: s };
            for _ in 0..n { c[((g.generate_unit() * 10.) as usize).min(9)] += 1; }
        }).is_some();
        t.one(json!({"ev":"tenths","s":s.to_string(),"n":n,"ok":ok as u8,"c":c}));
    }
    t.finish();
}
