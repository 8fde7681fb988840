//! C21: generated key pairs, made by threads of several processes as MCKeys plans.
use crate::common::*;
use crate::sigx::{hex, key_pair, unhex, PRIVATE_KEY, PUBLIC_KEY};
use serde_json::{json, Value};
use signature::{sign, verify};

type Pair = Option<(String, String)>;

/// a process of its own: prints n pairs (stdout of the parent is not in use)
pub fn child(ctx: Ctx) {
    let n: usize = ctx.args[0].parse().unwrap();
    let v: Vec<Value> = (0..n).map(|_| guard(signature::verif::generate).map(|p| json!([p.0, p.1])).unwrap_or(Value::Null)).collect();
    std::fs::write(&ctx.out, json!(v).to_string()).unwrap();
}

fn in_child(ctx: &Ctx, n: usize, id: usize) -> Vec<Pair> {
    let out = format!("{}-child{}", ctx.out, id);
    std::process::Command::new(std::env::current_exe().unwrap()).args(["keys-child", &out, "-", &n.to_string()]).status().unwrap();
    let text = std::fs::read_to_string(&out).unwrap_or_else(|_| "[]".into());
    let _ = std::fs::remove_file(&out);
    let mut v: Vec<Pair> = serde_json::from_str::<Vec<Value>>(&text).unwrap().iter()
        .map(|p| p[0].as_str().map(|a| (a.to_string(), p[1].as_str().unwrap().to_string()))).collect();
    v.resize(n, None);
    v
}

fn in_threads(n: usize) -> Vec<Vec<Pair>> {
    let hs: Vec<_> = (0..4).map(|_| std::thread::spawn(move || (0..n).map(|_| guard(signature::verif::generate)).collect::<Vec<Pair>>())).collect();
    hs.into_iter().map(|h| h.join().unwrap()).collect()
}

fn codes(s: &str) -> Value {
    json!(s.bytes().collect::<Vec<u8>>())
}

fn pair_event(p: &Pair) -> Value {
    let (a, b) = p.clone().unwrap_or_default();
    let sound = a.len() == 64 && a.bytes().all(|c| c.is_ascii_hexdigit());
    let own = if sound { key_pair(&unhex(&a)).1 } else { String::new() };
    json!({"ev":"pair","ok":p.is_some() as u8,"a":a,"b":b,"ac":codes(&a),"bc":codes(&b),"own":own})
}

pub fn run(mut ctx: Ctx) {
    let mut t = Trace::new(&ctx.out, 4);
    let scenarios = ctx.scenarios();
    let datas: Vec<Vec<u8>> = vec![vec![], ctx.rng.bytes(88), ctx.rng.bytes(3)];
    let need = scenarios.iter().map(|s| s["made"].as_array().unwrap().len()).sum::<usize>();
    // makers 1..4 are threads of this process, 5 and 6 two other processes
    let mut pools: Vec<Vec<Pair>> = in_threads(need);
    pools.push(in_child(&ctx, need, 1));
    pools.push(in_child(&ctx, need, 2));
    let all: Vec<Pair> = pools.iter().flatten().cloned().collect();
    for s in scenarios {
        let ps: Vec<Pair> = s["made"].as_array().unwrap().iter()
            .map(|m| pools[m.as_u64().unwrap() as usize - 1].pop().unwrap()).collect();
        let mut h = vec![json!({"ev":"builtin","a":PRIVATE_KEY,"b":PUBLIC_KEY})];
        h.extend(ps.iter().map(pair_event));
        let g = |k: &str| s[k].as_u64().unwrap() as usize - 1;
        if let (Some(k), Some(v)) = (&ps[g("k")], &ps[g("vk")]) {
            let name = |d: &Vec<u8>| if d.is_empty() { "-".to_string() } else { hex(d) };
            let (d, vd) = (&datas[g("d")], &datas[g("vd")]);
            let sg = guard(|| sign(d, &k.0, &k.1));
            h.push(json!({"ev":"sign","k":k.1,"d":name(d),"ok":sg.is_some() as u8,"s":hex(sg.as_deref().unwrap_or(&[]))}));
            if let Some(sg) = sg {
                for public in [&v.1, &PUBLIC_KEY.to_string()] {
                    let r = guard(|| verify(vd, &sg, public));
                    h.push(json!({"ev":"verify","k":public,"d":name(vd),"s":hex(&sg),"ok":r.is_some() as u8,"r":r.unwrap_or(false) as u8}));
                }
            }
        }
        t.history(h);
    }
    // every pair there is, in one history: all of them new
    let mut h = vec![json!({"ev":"builtin","a":PRIVATE_KEY,"b":PUBLIC_KEY})];
    let some = if ctx.thorough { 3000 } else { 600 };
    let step = (all.len() / some).max(1);
    h.extend(all.iter().step_by(step).map(pair_event));
    let keys: Vec<Value> = all.iter().flatten().step_by((all.len() / 400).max(1)).map(|p| json!(unhex(&p.0))).collect();
    h.push(json!({"ev":"spread","keys":keys}));
    t.history(h);
    t.finish();
}
