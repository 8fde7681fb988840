//! C07: watermark records.
use crate::common::*;
use bitvec::prelude::*;
use serde_json::{json, Value};
use three_bit_quantization::{perturbation_vector_as_bytes, perturbation_vector_from_bytes};
use watermarking::verif::{deserialize, Watermark};

pub fn text(r: &mut Rng, n: usize, style: usize) -> String {
    // exactly n bytes of UTF-8, mixing widths
    let mut s = String::new();
    while s.len() < n {
        let left = n - s.len();
        let c = match if style % 3 == 0 { 1 } else { 1 + r.below(4.min(left)) } {
            1 => *r.pick(&['a', 'Z', '0', ' ', '\u{0}', '\n', '~', '\u{7f}']),
            2 => *r.pick(&['\u{e9}', '\u{436}', '\u{80}', '\u{7ff}']),
            3 => *r.pick(&['\u{20ac}', '\u{800}', '\u{ffff}', '\u{feff}']),
            _ => *r.pick(&['\u{1f600}', '\u{10000}', '\u{10ffff}']),
        };
        s.push(c);
    }
    s
}

fn bits(b: &BitVec<u8, Lsb0>) -> Vec<u8> {
    b.iter().map(|x| if *x { 1 } else { 0 }).collect()
}
fn bitvec(v: &[u8]) -> BitVec<u8, Lsb0> {
    let mut b = BitVec::new();
    for x in v { b.push(*x == 1); }
    b
}

fn de_event(b: &[u8]) -> Value {
    match guard(|| deserialize(&b.to_vec())) {
        None => json!({"ev":"de","b":bytes_json(b),"ok":0,"p":[],"s":[],"t":[]}),
        Some(w) => json!({"ev":"de","b":bytes_json(b),"ok":1,"p":bits(&w.perturbation_vector),"s":bytes_json(&w.signature),"t":bytes_json(w.text.as_bytes())}),
    }
}

fn record(t: &mut Trace, r: &mut Rng, p: &[u8], s: &[u8], x: &str, tail: usize) {
    let w = Watermark::new(bitvec(p), s.to_vec(), x.to_string());
    let b = guard(|| w.serialize());
    let mut h = vec![json!({"ev":"ser","p":p,"s":bytes_json(s),"t":bytes_json(x.as_bytes()),"ok":b.is_some() as u8,"b":bytes_json(b.as_deref().unwrap_or(&[]))})];
    if let Some(b) = b {
        h.push(de_event(&b));
        let mut more = b.clone();
        more.extend(r.bytes(tail));
        h.push(de_event(&more));
    }
    t.history(h);
}

pub fn run(mut ctx: Ctx) {
    let mut t = Trace::new(&ctx.out, 8);
    for (i, s) in ctx.scenarios().iter().enumerate() {
        let r = &mut ctx.rng;
        let g = |k: &str| s[k].as_u64().unwrap() as usize;
        let p: Vec<u8> = match i % 4 { 0 => vec![1; g("p")], 1 => vec![0; g("p")], _ => (0..g("p")).map(|_| r.below(2) as u8).collect() };
        let sig = match i % 5 { 0 => vec![255; g("s")], _ => r.bytes(g("s")) };
        let x = text(r, g("t"), i);
        let tail = *r.pick(&[0, 1, 7, 300]);
        record(&mut t, r, &p, &sig, &x, tail);
    }
    for n in 0..256usize {
        let r = &mut ctx.rng;
        let p: Vec<u8> = (0..n).map(|_| r.below(2) as u8).collect();
        let b = guard(|| perturbation_vector_as_bytes(&bitvec(&p)));
        let back = b.clone().and_then(|b| guard(|| perturbation_vector_from_bytes(&b, n)));
        t.one(json!({"ev":"pack","p":p,"ok":b.is_some() as u8,"b":bytes_json(b.as_deref().unwrap_or(&[])),
            "back":back.map(|b| bits(&b)).unwrap_or(vec![9])}));
        let m = 1 + r.below(2);
        for _ in 0..m {
            let s = r.bytes(64);
            let x = text(r, n, n);
            record(&mut t, r, &p, &s, &x, n);
        }
    }
    for i in 0..if ctx.thorough { 2000 } else { 200 } {
        let r = &mut ctx.rng;
        let p: Vec<u8> = (0..r.below(262)).map(|_| r.below(2) as u8).collect();
        let n = r.below(262);
        let s = r.bytes(n);
        let n = r.below(262);
        let x = text(r, n, i);
        let tail = r.below(50);
        record(&mut t, r, &p, &s, &x, tail);
    }
    t.finish();
}
