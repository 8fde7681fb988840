//! C10: signing and verifying.
use crate::common::*;
use ed25519_dalek::{PublicKey, SecretKey};
use serde_json::{json, Value};
use signature::{sign, verify};
use std::collections::HashMap;

pub const PRIVATE_KEY: &str = "e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60";
pub const PUBLIC_KEY: &str = "a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6";

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn name(d: &[u8]) -> String {
    if d.len() <= 40 { hex(d) } else { format!("{}:{}", d.len(), hash(d)) }
}

pub fn key_pair(seed: &[u8]) -> (String, String) {
    let secret = SecretKey::from_bytes(seed).unwrap();
    let public: PublicKey = (&secret).into();
    (hex(seed), hex(public.as_bytes()))
}

fn sign_event(d: &[u8], k: &(String, String)) -> (Option<Vec<u8>>, Value) {
    let s = guard(|| sign(&d.to_vec(), &k.0, &k.1));
    let e = json!({"ev":"sign","k":k.1,"d":name(d),"ok":s.is_some() as u8,"s":hex(s.as_deref().unwrap_or(&[]))});
    (s, e)
}

fn verify_event(d: &[u8], s: &[u8], public: &str) -> Value {
    let r = guard(|| verify(&d.to_vec(), &s.to_vec(), public));
    json!({"ev":"verify","k":public,"d":name(d),"s":hex(s),"ok":r.is_some() as u8,"r":r.unwrap_or(false) as u8})
}

/// adds the group order to the second half (the classic malleability)
fn plus_order(s: &[u8]) -> Vec<u8> {
    let order = unhex("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010");
    let mut out = s.to_vec();
    let mut carry = 0u16;
    for i in 0..32 {
        let v = out[32 + i] as u16 + order[i] as u16 + carry;
        out[32 + i] = v as u8;
        carry = v >> 8;
    }
    out
}

fn altered(s: &[u8], how: &str, other: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut v = s.to_vec();
    match how {
        "none" => {}
        "first half" => { let i = r.below(256); v[i / 8] ^= 1 << (i % 8); }
        "second half" => { let i = 256 + r.below(256); v[i / 8] ^= 1 << (i % 8); }
        "two bits" => { v[3] ^= 1; v[40] ^= 1; }
        "shorter" => { v.pop(); }
        "longer" => v.push(0),
        "empty" => v.clear(),
        "zeros" => v = vec![0; 64],
        "ones" => v = vec![255; 64],
        "plus order" => v = plus_order(s),
        "first half of another" => v[..32].copy_from_slice(&other[..32]),
        "second half of another" => v[32..].copy_from_slice(&other[32..]),
        "halves swapped" => v.rotate_left(32),
        "random" => v = r.bytes(64),
        _ => panic!("{}", how),
    }
    v
}

/// data of many lengths, and the signature of each tried with edited copies
fn edited(t: &mut Trace, edits: Vec<Value>, k: &(String, String), foreign: &str, r: &mut Rng) {
    let mut by: std::collections::BTreeMap<usize, Vec<(String, usize)>> = Default::default();
    for e in edits {
        by.entry(e["n"].as_u64().unwrap() as usize).or_default().push((e["edit"].as_str().unwrap().into(), e["at"].as_u64().unwrap() as usize));
    }
    for (n, list) in by {
        // neighbours differ, so that exchanging or dropping one is an edit
        let mut d = r.bytes(n);
        for i in 1..n {
            if d[i] == d[i - 1] { d[i] = d[i].wrapping_add(1); }
        }
        // what Ed25519 makes of these data is known beforehand
        let expanded: ed25519_dalek::ExpandedSecretKey = (&SecretKey::from_bytes(&unhex(&k.0)).unwrap()).into();
        let known = expanded.sign(&d, &PublicKey::from_bytes(&unhex(&k.1)).unwrap());
        let (s, e) = sign_event(&d, k);
        let mut h = vec![json!({"ev":"known","k":k.1,"d":name(&d),"s":hex(&known.to_bytes())}), e];
        let s = s.unwrap_or_default();
        for (kind, p) in list {
            let mut x = d.clone();
            match kind.as_str() {
                "none" => {}
                "flip" => x[p] ^= 1 << r.below(8),
                "cut" => x.truncate(p),
                "append" => x.extend(vec![0; p]),
                "swap" => x.swap(p - 1, p),
                "drop" => { x.remove(p); }
                other => panic!("{}", other),
            }
            if x == d && kind != "none" { continue; }
            h.push(verify_event(&x, &s, &k.1));
            if kind == "none" {
                h.push(verify_event(&x, &s, foreign));
            } else if r.below(4) == 0 {
                let (s2, e) = sign_event(&x, k);
                h.push(e);
                if let Some(s2) = s2 {
                    h.push(verify_event(&x, &s2, &k.1));
                    h.push(verify_event(&d, &s2, &k.1));
                }
            }
        }
        t.history(h);
    }
}

pub fn run(mut ctx: Ctx) {
    let mut t = Trace::new(&ctx.out, 8);
    let vectors = [
        ("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60", "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a", "",
         "e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b"),
        ("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb", "3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c", "72",
         "92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00"),
        ("c5aa8df43f9f837bedb7442f31dcb7b166d38535076f094b85ce3a2e0b4458f7", "fc51cd8e6218a1a38da47ed00230f0580816ed13ba3303ac5deb911548908025", "af82",
         "6291d657deec24024827e69c3abe01a30ce548a284743a445e3680d7db5ac3ac18ff9b538d16f290ae67f760984dc6594a7c15e9716ed28dc027beceea1ec40a"),
    ];
    for (sk, pk, d, s) in vectors {
        let d = unhex(d);
        let mut h = vec![json!({"ev":"known","k":pk,"d":name(&d),"s":s})];
        h.push(verify_event(&d, &unhex(s), pk));
        h.push(sign_event(&d, &(sk.to_string(), pk.to_string())).1);
        t.history(h);
    }
    let rounds = if ctx.thorough { 12 } else { 1 };
    for round in 0..rounds {
        let r = &mut ctx.rng;
        let keys: Vec<(String, String)> = vec![(PRIVATE_KEY.to_string(), PUBLIC_KEY.to_string()), key_pair(&r.bytes(32)), key_pair(&r.bytes(32))];
        let base = r.bytes(88);
        let mut near = base.clone();
        near[87] ^= 1;
        let datas: Vec<Vec<u8>> = vec![vec![], base.clone(), near, base[..80].to_vec(), r.bytes(1 + 500 * round), vec![0; 8]];
        let mut sigs: HashMap<(usize, usize), Vec<u8>> = HashMap::new();
        let mut prologue = vec![];
        for (ki, k) in keys.iter().enumerate() {
            for (di, d) in datas.iter().enumerate() {
                let (s, e) = sign_event(d, k);
                prologue.push(e);
                prologue.push(sign_event(d, k).1);
                sigs.insert((ki, di), s.unwrap_or_default());
            }
        }
        let (edits, scenarios): (Vec<Value>, Vec<Value>) = ctx.scenarios().into_iter().partition(|s| s["edit"].is_string());
        if round == 0 {
            edited(&mut t, edits, &keys[1], &keys[0].1, &mut ctx.rng);
        }
        let r = &mut ctx.rng;
        for chunk in scenarios.chunks(scenarios.len() / 8 + 1) {
            let mut h = prologue.clone();
            for s in chunk {
                let g = |k: &str| s[k].as_u64().unwrap() as usize - 1;
                let sig = &sigs[&(g("k"), g("d"))];
                let other = &sigs[&((g("k") + 1) % keys.len(), (g("d") + 1) % datas.len())];
                if sig.len() != 64 || other.len() != 64 { continue; }
                let a = altered(sig, s["alt"].as_str().unwrap(), other, r);
                h.push(verify_event(&datas[g("vd")], &a, &keys[g("vk")].1));
            }
            t.history(h);
        }
        // every single bit of one signature per key
        for (ki, k) in keys.iter().enumerate() {
            let d = &datas[1];
            let s = sigs[&(ki, 1)].clone();
            let mut accepted = vec![];
            let mut refused = 0;
            for b in 0..s.len() * 8 {
                let mut v = s.clone();
                v[b / 8] ^= 1 << (b % 8);
                match guard(|| verify(d, &v, &k.1)) {
                    None => refused += 1,
                    Some(true) => accepted.push(b),
                    _ => {}
                }
            }
            let first = sign_event(d, k).1;
            t.history(vec![first, json!({"ev":"bits","k":k.1,"d":name(d),"s":hex(&s),"tried":s.len() * 8,"refused":refused,"accepted":accepted})]);
            // every single bit of the data
            let mut h = vec![sign_event(d, k).1];
            for b in 0..d.len() * 8 {
                let mut v = d.clone();
                v[b / 8] ^= 1 << (b % 8);
                h.push(verify_event(&v, &s, &k.1));
            }
            h.push(verify_event(d, &s, &k.1));
            t.history(h);
        }
        // upper-case keys are the same keys
        let up = (keys[1].0.to_uppercase(), keys[1].1.clone());
        t.history(vec![sign_event(&datas[4], &keys[1]).1, sign_event(&datas[4], &up).1]);
        // byte strings of every length that are no signatures
        let mut h = vec![sign_event(&datas[0], &keys[2]).1];
        for n in 0..140 {
            let b = r.bytes(n);
            h.push(verify_event(&datas[0], &b, &keys[2].1));
        }
        t.history(h);
    }
    t.finish();
}
