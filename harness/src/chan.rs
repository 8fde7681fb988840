//! C13: whole images of every colour type against their planes watermarked one by one.
use crate::common::*;
use crate::life::texture;
use image::{DynamicImage, GenericImageView, GrayImage, ImageBuffer, Luma, LumaA, Rgb, Rgba};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use watermarking::verif::watermark_channel;
use watermarking::watermark;

pub fn digest(g: &GrayImage) -> String {
    let mut b = g.width().to_le_bytes().to_vec();
    b.extend(g.height().to_le_bytes());
    b.extend_from_slice(g.as_raw());
    hash(&b)
}

pub fn compose(kind: &str, p: &[&GrayImage]) -> DynamicImage {
    let (w, h) = p[0].dimensions();
    let at = |i: usize, x: u32, y: u32| p[i].get_pixel(x, y)[0];
    // samples that round to the planes, up to the last that does
    let wander = |i: usize, x: u32, y: u32| (x * 73 + y * 151 + x * y + 97 * i as u32) % 257;
    let wide = |i: usize, x: u32, y: u32| (at(i, x, y) as i32 * 257 + wander(i, x, y) as i32 - 128).clamp(0, 65535) as u16;
    let real = |i: usize, x: u32, y: u32| ((at(i, x, y) as f32 + (wander(i, x, y) as f32 - 128.) / 300.) / 255.).clamp(0., 1.);
    macro_rules! make {
        ($pix:expr) => { ImageBuffer::from_fn(w, h, $pix) };
    }
    match kind {
        "L8" => DynamicImage::ImageLuma8(make!(|x, y| Luma([at(0, x, y)]))),
        "La8" => DynamicImage::ImageLumaA8(make!(|x, y| LumaA([at(0, x, y), at(1, x, y)]))),
        "Rgb8" => DynamicImage::ImageRgb8(make!(|x, y| Rgb([at(0, x, y), at(1, x, y), at(2, x, y)]))),
        "Rgba8" => DynamicImage::ImageRgba8(make!(|x, y| Rgba([at(0, x, y), at(1, x, y), at(2, x, y), at(3, x, y)]))),
        "L16" => DynamicImage::ImageLuma16(make!(|x, y| Luma([wide(0, x, y)]))),
        "La16" => DynamicImage::ImageLumaA16(make!(|x, y| LumaA([wide(0, x, y), wide(1, x, y)]))),
        "Rgb16" => DynamicImage::ImageRgb16(make!(|x, y| Rgb([wide(0, x, y), wide(1, x, y), wide(2, x, y)]))),
        "Rgba16" => DynamicImage::ImageRgba16(make!(|x, y| Rgba([wide(0, x, y), wide(1, x, y), wide(2, x, y), wide(3, x, y)]))),
        "Rgb32F" => DynamicImage::ImageRgb32F(make!(|x, y| Rgb([real(0, x, y), real(1, x, y), real(2, x, y)]))),
        _ => DynamicImage::ImageRgba32F(make!(|x, y| Rgba([real(0, x, y), real(1, x, y), real(2, x, y), real(3, x, y)]))),
    }
}

/// the planes of an 8-bit image, in order
pub fn planes(d: &DynamicImage) -> (String, Vec<GrayImage>) {
    let c = d.color();
    let n = c.channel_count() as usize;
    let (w, h) = d.dimensions();
    let raw = d.as_bytes();
    if raw.len() != n * (w * h) as usize {
        return (format!("{:?}", c), vec![]);
    }
    let v = (0..n).map(|i| GrayImage::from_raw(w, h, raw.iter().skip(i).step_by(n).cloned().collect()).unwrap()).collect();
    (format!("{:?}", c), v)
}

#[derive(Clone, Copy)]
struct Par {
    depth: f64,
    step: f64,
    k: usize,
}

pub fn run(mut ctx: Ctx) {
    let mut t = Trace::new(&ctx.out, 8);
    let scenarios = ctx.scenarios();
    let shapes: [(u32, u32); 8] = [(208, 208), (224, 200), (200, 232), (416, 104), (104, 416), (264, 256), (208, 200), (192, 264)];
    let pars = [Par { depth: 20., step: 1., k: 1 }, Par { depth: 100., step: 0.5, k: 2 }, Par { depth: 33.5, step: 2., k: 1 }];
    let mut jobs: Vec<(Value, u64, usize)> = scenarios.iter().enumerate().map(|(i, s)| (s.clone(), ctx.rng.next(), i)).collect();
    // the parameters of the command line and the browser, once
    jobs.push((json!({"type":"Rgb8","shape":1,"planes":[1,2,3]}), 1, 9999));
    // pictures of more than a million pixels
    for (i, (ty, planes)) in [("Rgba8", json!([1, 2, 3, 4])), ("Rgb8", json!([2, 1, 3])), ("La8", json!([3, 4])), ("Rgba16", json!([3, 2, 1, 4]))].into_iter().enumerate() {
        if i < 2 || ctx.thorough {
            jobs.push((json!({"type":ty,"shape":6,"planes":planes}), ctx.rng.next(), 9000 + 3 * i));
        }
    }
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, Vec<Value>)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= jobs.len() {
                    break;
                }
                let (s, seed, n) = &jobs[i];
                let mut r = Rng::new(*seed);
                let mut h = vec![];
                let shape = s["shape"].as_u64().unwrap() as usize;
                let (w, hh) = if *n == 9999 { (224, 216) } else { match shape { 1 => shapes[0], 2 => shapes[1], 3 => shapes[2], 4 => *r.pick(&shapes[3..]), 6 => *r.pick(&[(1024, 1032), (1320, 808), (600, 1800), (2056, 520)]), _ => *r.pick(&[(200, 200), (212, 208), (64, 64), (208, 196)]) } };
                let par = if *n == 9999 { Par { depth: 100., step: 1., k: 11 } } else { pars[n % 3] };
                let pool: Vec<GrayImage> = (0..6)
                    .map(|j| match j {
                        0 => GrayImage::new(w, hh),
                        4 => texture(&mut r, w, hh, 0, 255, 2),
                        5 => GrayImage::from_pixel(w, hh, Luma([255])),
                        _ => { let st = r.below(4); texture(&mut r, w, hh, 30 * j, 120 + 40 * j, st) }
                    })
                    .collect();
                // sometimes planes are nearly each other: the same but for an end, a pixel or a pair of them
                let mut pool = pool;
                if (shape <= 4 || shape == 6) && r.below(2) == 0 {
                    for j in 2..4 {
                        let mut g = pool[1].clone().into_raw();
                        let n = g.len();
                        let (lo, hi) = match r.below(6) { 0 => (n - 1, n), 1 => (0, 1), 2 => (n * 3 / 4, n), 3 => (0, n / 4), 4 => { let a = r.below(n - 16); (a, a + 1 + r.below(16)) } _ => (n, n) };
                        for v in &mut g[lo..hi] { *v = if *v < 128 { *v + 40 } else { *v - 40 } }
                        if lo == n {
                            // the same values in other places
                            let (a, b) = (r.below(n), r.below(n));
                            g.swap(a, b);
                        }
                        pool[j] = GrayImage::from_raw(w, hh, g).unwrap();
                    }
                }
                let kind = s["type"].as_str().unwrap();
                let ps: Vec<usize> = s["planes"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect();
                let ps: Vec<&GrayImage> = ps.iter().map(|j| &pool[*j]).collect();
                let name = format!("{}/{}/{}", par.depth, par.step, par.k);
                let mut seen: Vec<String> = vec![];
                let marked = if kind.starts_with('R') { 3 } else { 1 };
                for p in ps.iter().take(marked) {
                    let d = digest(p);
                    if !seen.contains(&d) {
                        let o = guard(|| watermark_channel(p, par.depth, par.step, par.k, 3));
                        h.push(json!({"ev":"plane","d":d,"par":name,"o":o.map(|o| digest(&o)).unwrap_or("refused".into())}));
                        seen.push(d);
                    }
                }
                let img = compose(kind, &ps);
                let o = guard(|| watermark(img, par.depth, par.step, par.k));
                let input: Vec<String> = ps.iter().map(|p| digest(p)).collect();
                h.push(match o {
                    None => json!({"ev":"image","type":kind,"par":name,"w":w,"h":hh,"in":input,"ok":0,"out":[],"out_type":"","out_w":0,"out_h":0}),
                    Some(o) => {
                        let (ty, v) = planes(&o);
                        let v: Vec<String> = v.iter().map(digest).collect();
                        json!({"ev":"image","type":kind,"par":name,"w":w,"h":hh,"in":input,"ok":1,"out":v,"out_type":ty,"out_w":o.width(),"out_h":o.height()})
                    }
                });
                out.lock().unwrap().push((i, h));
            });
        }
    });
    let mut out = out.into_inner().unwrap();
    out.sort_by_key(|x| x.0);
    for (_, h) in out {
        t.history(h);
    }
    t.finish();
}
