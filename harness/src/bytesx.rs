//! C15: conversions.
use crate::common::*;
use serde_json::{json, Value};
use utils::bytes::*;
use utils::format::{decode_hex, encode_hex};

fn limbs(v: u64, w: usize) -> Value {
    json!((0..w).map(|k| (v >> (16 * k)) & 0xffff).collect::<Vec<u64>>())
}

fn to_event(ints: &[u64], w: usize) -> (Option<Vec<u8>>, Value) {
    let b = if w == 1 {
        let v: Vec<u16> = ints.iter().map(|x| *x as u16).collect();
        guard(|| vec_u16_to_bytes(&v))
    } else {
        let v: Vec<i64> = ints.iter().map(|x| *x as i64).collect();
        guard(|| vec_i64_to_bytes(&v))
    };
    let l: Vec<Value> = ints.iter().map(|x| limbs(*x, w)).collect();
    let e = json!({"ev":"to","w":w,"ints":l,"ok":b.is_some() as u8,"b":bytes_json(b.as_deref().unwrap_or(&[]))});
    (b, e)
}

fn from_event(b: &[u8], w: usize) -> Value {
    let v: Option<Vec<u64>> = if w == 1 {
        guard(|| vec_u16_from_bytes(&b.to_vec())).map(|v| v.into_iter().map(|x| x as u64).collect())
    } else {
        guard(|| vec_i64_from_bytes(&b.to_vec())).map(|v| v.into_iter().map(|x| x as u64).collect())
    };
    let l: Vec<Value> = v.iter().flatten().map(|x| limbs(*x, w)).collect();
    json!({"ev":"from","w":w,"b":bytes_json(b),"ok":v.is_some() as u8,"ints":l})
}

fn unhex_event(t: &str) -> Value {
    let r = guard(|| decode_hex(t).ok()).flatten();
    json!({"ev":"unhex","t":bytes_json(t.as_bytes()),"ok":r.is_some() as u8,"b":bytes_json(r.as_deref().unwrap_or(&[]))})
}

fn all(t: &mut Trace, ints: &[u64], w: usize) {
    let (b, e) = to_event(ints, w);
    let mut h = vec![e];
    if let Some(b) = b {
        h.push(from_event(&b, w));
        let x = guard(|| encode_hex(&b));
        let text = x.clone().unwrap_or_default();
        h.push(json!({"ev":"hex","b":bytes_json(&b),"ok":x.is_some() as u8,"t":bytes_json(text.as_bytes())}));
        h.push(unhex_event(&text));
        h.push(unhex_event(&text.to_uppercase()));
        if !b.is_empty() {
            h.push(from_event(&b[1..], w));
            h.push(from_event(&b[..b.len() - 1], w));
        }
    }
    t.history(h);
}

pub fn run(mut ctx: Ctx) {
    let mut t = Trace::new(&ctx.out, 8);
    for s in ctx.scenarios() {
        if let Some(x) = s["t"].as_array() {
            let b: Vec<u8> = x.iter().map(|v| v.as_u64().unwrap() as u8).collect();
            t.one(unhex_event(&String::from_utf8(b).unwrap()));
            continue;
        }
        let w = s["w"].as_u64().unwrap() as usize;
        let ints: Vec<u64> = s["ints"].as_array().unwrap().iter().map(|i| {
            i.as_array().unwrap().iter().enumerate().map(|(k, x)| x.as_u64().unwrap() << (16 * k)).sum()
        }).collect();
        all(&mut t, &ints, w);
    }
    // every 16-bit integer, in lists
    for c in 0..64u64 {
        let v: Vec<u64> = (0..1024).map(|i| c * 1024 + i).collect();
        let (b, e) = to_event(&v, 1);
        t.history(vec![e, from_event(&b.unwrap_or_default(), 1)]);
    }
    // random integers of all magnitudes, lists of all lengths
    for i in 0..if ctx.thorough { 3000 } else { 300 } {
        let r = &mut ctx.rng;
        let n = if i < 40 { i } else { r.below(90) };
        let w = if i % 3 == 0 { 1 } else { 4 };
        let v: Vec<u64> = (0..n).map(|_| {
            let k = r.below(64) as u32;
            let x = r.next() >> k;
            let x = if r.below(2) == 0 { x } else { x.wrapping_neg() };
            if w == 1 { x & 0xffff } else { x }
        }).collect();
        all(&mut t, &v, w);
        // byte strings of any length
        let len = r.below(40);
        let b = r.bytes(len);
        t.one(from_event(&b, 1));
        t.one(from_event(&b, 4));
    }
    // hex text: all bytes in both cases and mixed, and letters that are not hex digits
    let b: Vec<u8> = (0..=255).collect();
    let x = guard(|| encode_hex(&b));
    t.one(json!({"ev":"hex","b":bytes_json(&b),"ok":x.is_some() as u8,"t":bytes_json(x.clone().unwrap_or_default().as_bytes())}));
    for c in b"0123456789abcdefABCDEF" {
        for d in b"0123456789abcdefABCDEF" {
            t.one(unhex_event(&String::from_utf8(vec![*c, *d]).unwrap()));
        }
    }
    for _ in 0..if ctx.thorough { 2000 } else { 300 } {
        let r = &mut ctx.rng;
        let n = 2 * (1 + r.below(40));
        let mut s: Vec<u8> = (0..n).map(|_| *r.pick(b"0123456789abcdefABCDEF")).collect();
        t.one(unhex_event(&String::from_utf8(s.clone()).unwrap()));
        let i = r.below(n);
        s[i] = *r.pick(b"ghijklmnopqrstuvwxyzGHIJKLMNOPQRSTUVWXYZ");
        t.one(unhex_event(&String::from_utf8(s).unwrap()));
    }
    t.finish();
}
