//! C11, C12: lives of channels: marked, stored, tampered with, forged, read with other parameters.
use crate::common::*;
use crate::ecc::coded;
use crate::sigx::{key_pair, unhex, PRIVATE_KEY, PUBLIC_KEY};
use embedding::{embed, extract};
use image::GrayImage;
use image_features::{calculate_features, feature_types::FeaturesType};
use imageproc::contrast::equalize_histogram;
use ndarray::Array2;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use watermarking::verif::{authenticate_channel, watermark_channel};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Par {
    pub depth: f64,
    pub step: f64,
    pub k: usize,
    pub l: usize,
}

#[derive(Clone)]
struct Img {
    px: GrayImage,
    rec: Option<Vec<u8>>,
    par: Par,
}

pub fn matrix(g: &GrayImage) -> Array2<u8> {
    Array2::from_shape_vec([g.height() as usize, g.width() as usize], g.as_raw().clone()).unwrap()
}
pub fn gray(a: Array2<u8>) -> GrayImage {
    let (r, c) = a.dim();
    GrayImage::from_raw(c as u32, r as u32, a.into_raw_vec()).unwrap()
}

pub fn features(g: &GrayImage, k: usize) -> Option<Vec<f64>> {
    guard(|| calculate_features(&matrix(&equalize_histogram(g)), FeaturesType::MomentsZernike, k))
}

/// thousandths of a step, and whether some feature is too close to a border to be judged
fn scaled(f: &Option<Vec<f64>>, step: f64) -> (Value, bool) {
    match f {
        None => (json!([]), true),
        Some(f) => {
            let mut edge = false;
            let v: Vec<Value> = f.iter().map(|x| {
                let s = x / step;
                let half = (s * 2.).abs();
                if !(s.abs() < 1e6) || (half - half.round()).abs() < 1e-6 {
                    edge = true;
                }
                ti((s * 1000.).floor().clamp(-1.9e9, 1.9e9) as i64)
            }).collect();
            (json!(v), edge)
        }
    }
}

/// does the mark with this record read back, judged by the layout alone: 1 yes, 0 no, 2 unknown
fn reading(g: &GrayImage, rec: &[u8], par: &Par) -> u8 {
    let b = 1usize << par.l;
    let (w, h) = (g.width() as usize, g.height() as usize);
    if w % b != 0 || h % b != 0 {
        return 0;
    }
    let (dc, dr) = (w / b, h / b);
    let d = dc * dr / 8;
    let mut m = vec![(rec.len() % 256) as u8, (rec.len() / 256) as u8];
    m.extend_from_slice(rec);
    let (c, words) = coded(&m, d);
    if c.len() > d || d < 9 {
        return 0;
    }
    let mut wrong = vec![0usize; words.len().max(1)];
    let per = c.len() / wrong.len();
    for i in 0..c.len() * 8 {
        let (y, x) = (i / dc, i % dc);
        let mut s = 0u32;
        for k in 0..b * b {
            s += g.get_pixel((x * b + k % b) as u32, (y * b + k / b) as u32)[0] as u32;
        }
        let v = s as f64 / b as f64;
        let r = v - par.depth * (v / par.depth).round();
        if r.abs() < 1e-6 || (r.abs() - par.depth / 2.).abs() < 1e-6 {
            return 2;
        }
        if (r > 0.) as u8 != c[i / 8] >> (i % 8) & 1 {
            wrong[i / 8 / per] += 1;
        }
    }
    let most = *wrong.iter().max().unwrap();
    if most == 0 || (most <= 2 && !words.is_empty()) {
        1
    } else if most * 100 > per * 8 * 15 {
        0
    } else {
        2
    }
}

/// the parts of a record
fn parts(rec: &[u8]) -> Option<(Vec<u8>, usize)> {
    if rec.len() < 3 {
        return None;
    }
    let n = rec[0] as usize;
    let s = 3 + (n + 7) / 8;
    if rec.len() < s + rec[1] as usize + rec[2] as usize {
        return None;
    }
    Some(((0..n).map(|i| rec[3 + i / 8] >> (i % 8) & 1).collect(), s))
}

fn record(pv: &[u8], sig: &[u8], text: &str) -> Vec<u8> {
    let mut rec = vec![pv.len() as u8, sig.len() as u8, text.len() as u8];
    let mut p = vec![0u8; (pv.len() + 7) / 8];
    for (i, b) in pv.iter().enumerate() {
        p[i / 8] |= b << (i % 8);
    }
    rec.extend(p);
    rec.extend_from_slice(sig);
    rec.extend_from_slice(text.as_bytes());
    rec
}

/// the three-bit rule, apart from the code under test
fn rule(f: &[f64], step: f64) -> (Vec<u8>, Vec<i64>) {
    let q: Vec<i64> = f.iter().map(|x| (x / step).floor() as i64).collect();
    let mut pv = vec![];
    for (x, q) in f.iter().zip(&q) {
        let r = (q - 1).rem_euclid(4);
        pv.push((r / 2) as u8);
        pv.push((r % 2) as u8);
        pv.push((*x / step - *q as f64 >= 0.5) as u8);
    }
    (pv, q)
}

fn dalek_sign(q: &[i64], private: &str, public: &str) -> Vec<u8> {
    use ed25519_dalek::{ExpandedSecretKey, PublicKey, SecretKey};
    let secret = SecretKey::from_bytes(&unhex(private)).unwrap();
    let expanded = ExpandedSecretKey::from(&secret);
    let public = PublicKey::from_bytes(&unhex(public)).unwrap();
    let data: Vec<u8> = q.iter().flat_map(|v| v.to_le_bytes()).collect();
    expanded.sign(&data, &public).to_bytes().to_vec()
}

pub struct Life<'a> {
    r: &'a mut Rng,
    h: Vec<Value>,
    imgs: Vec<Img>,
}

impl<'a> Life<'a> {
    pub fn new(r: &'a mut Rng) -> Self {
        Life { r, h: vec![], imgs: vec![] }
    }
    fn add(&mut self, px: GrayImage, rec: Option<Vec<u8>>, par: Par) -> usize {
        self.imgs.push(Img { px, rec, par });
        self.imgs.len()
    }
    fn fresh(&mut self, px: GrayImage, par: Par) -> usize {
        let i = self.add(px, None, par);
        self.h.push(json!({"ev":"new","i":i}));
        i
    }
    fn img(&self, i: usize) -> Img {
        self.imgs[i - 1].clone()
    }
    fn mark(&mut self, i: usize, p: Par) -> usize {
        let x = self.img(i);
        let f = features(&x.px, p.k);
        let (fs, edge) = scaled(&f, p.step);
        let y = guard(|| watermark_channel(&x.px, p.depth, p.step, p.k, p.l));
        let ok = y.is_some();
        let (px, rec) = match y {
            None => (x.px, None),
            Some(y) => {
                // the record that belongs there, if it reads back; what was extracted instead only where the
                // mark is bound to read back
                let got = guard(|| extract(matrix(&y), p.depth, p.l));
                let text = got.as_ref().and_then(|g| parts(g).map(|(_, s)| String::from_utf8_lossy(&g[s + g[1] as usize..]).to_string())).unwrap_or_default();
                let want = f.map(|f| {
                    let (pv, q) = rule(&f, p.step);
                    record(&pv, &dalek_sign(&q, PRIVATE_KEY, PUBLIC_KEY), &text)
                });
                let b = (1u32 << p.l) as f64;
                let (lo, hi) = x.px.iter().fold((255u8, 0u8), |a, v| (a.0.min(*v), a.1.max(*v)));
                let room = 0.75 * p.depth / b + 1.;
                let bound = p.depth > 2.001 * b && lo as f64 >= room && 255. - hi as f64 >= room;
                let rec = match want {
                    Some(w) if reading(&y, &w, &p) == 1 => Some(w),
                    _ if bound => got,
                    _ => None,
                };
                (y, rec)
            }
        };
        let o = self.add(px, rec, p);
        self.h.push(json!({"ev":"mark","i":i,"o":o,"f":fs,"edge":edge as u8,"ok":ok as u8}));
        o
    }
    fn auth(&mut self, i: usize, p: Par) {
        let x = self.img(i);
        let (fs, edge) = scaled(&features(&x.px, p.k), p.step);
        let read = match &x.rec {
            Some(rec) => reading(&x.px, rec, &p),
            None => 2,
        };
        let r = guard(|| authenticate_channel(&x.px, p.depth, p.step, p.k, p.l));
        let same = p.step == x.par.step && p.k == x.par.k;
        self.h.push(json!({"ev":"auth","i":i,"f":fs,"edge":edge as u8,"read":read,"same":same as u8,
                           "ok":r.is_some() as u8,"r":r.unwrap_or(false) as u8}));
    }
    /// a channel that never carried a mark
    fn bare(&mut self, i: usize, p: Par) {
        let x = self.img(i);
        let r = guard(|| authenticate_channel(&x.px, p.depth, p.step, p.k, p.l));
        self.h.push(json!({"ev":"auth","i":i,"f":[],"edge":1,"read":0,"same":0,"ok":r.is_some() as u8,"r":r.unwrap_or(false) as u8}));
    }
    fn craft(&mut self, i: usize, p: Par, pv: &[u8], q: &[i64], rec: Vec<u8>, key: &str, whole: bool) -> usize {
        let x = self.img(i);
        let y = guard(|| embed(matrix(&x.px), rec.clone(), p.depth, p.l));
        match y {
            None => i,
            Some(y) => {
                let o = self.add(gray(y), Some(rec), p);
                let q: Vec<Value> = q.iter().map(|v| ti(*v)).collect();
                self.h.push(json!({"ev":"craft","o":o,"pv":pv,"q":q,"key":key,"whole":whole as u8}));
                o
            }
        }
    }
    fn changed(&mut self, i: usize, px: GrayImage) -> usize {
        let x = self.img(i);
        let o = self.add(px, x.rec, x.par);
        self.h.push(json!({"ev":"copy","i":i,"o":o}));
        o
    }
    fn store(&mut self, i: usize) -> usize {
        use image::ImageFormat::*;
        let x = self.img(i);
        let f = *self.r.pick(&[Png, Bmp, Tiff, Pnm]);
        let mut buf = std::io::Cursor::new(vec![]);
        let px = match image::DynamicImage::ImageLuma8(x.px.clone()).write_to(&mut buf, f) {
            Ok(_) => image::load_from_memory_with_format(buf.get_ref(), f).map(|d| d.into_luma8()).unwrap_or(x.px),
            Err(_) => x.px,
        };
        self.changed(i, px)
    }
    fn tamper(&mut self, i: usize, kind: usize) -> usize {
        let x = self.img(i);
        let mut g = x.px.clone();
        let b = 1u32 << x.par.l;
        let (bw, bh) = (g.width() / b, g.height() / b);
        let r = &mut self.r;
        match kind {
            // turn blocks inside out, which keeps their sums
            0 | 1 => {
                let many = if kind == 0 { 6 } else { bw * bh };
                for _ in 0..many {
                    let (x0, y0) = (r.below(bw as usize) as u32 * b, r.below(bh as usize) as u32 * b);
                    let (p, q) = ((x0, y0), (x0 + b - 1, y0 + b - 1));
                    let (u, v) = (g.get_pixel(p.0, p.1)[0] as i32, g.get_pixel(q.0, q.1)[0] as i32);
                    let d = (r.below(80) as i32 - 40).clamp(-u, 255 - u);
                    let d = -((-d).clamp(-v, 255 - v));
                    g.put_pixel(p.0, p.1, image::Luma([(u + d) as u8]));
                    g.put_pixel(q.0, q.1, image::Luma([(v - d) as u8]));
                }
            }
            // lift blocks by whole multiples of the depth
            2 => {
                let s = (x.par.depth / b as f64).round() as i32;
                for j in 0..bh / 2 {
                    for i in 0..bw {
                        let fits = (0..b * b).all(|k| g.get_pixel(i * b + k % b, j * b + k / b)[0] as i32 + s <= 255);
                        if fits {
                            for k in 0..b * b {
                                let v = g.get_pixel(i * b + k % b, j * b + k / b)[0] as i32 + s;
                                g.put_pixel(i * b + k % b, j * b + k / b, image::Luma([v as u8]));
                            }
                        }
                    }
                }
            }
            // paint what lies behind the mark
            3 => {
                let h = g.height();
                for y in h * 3 / 4..h {
                    for x in 0..g.width() {
                        g.put_pixel(x, y, image::Luma([if (x / 4) % 2 == 0 { 0 } else { 255 }]));
                    }
                }
            }
            // noise over everything
            4 => for p in g.iter_mut() { *p = (*p as i32 + r.below(3) as i32 - 1).clamp(0, 255) as u8 },
            5 => for p in g.iter_mut() { *p = (*p as i32 + r.below(81) as i32 - 40).clamp(0, 255) as u8 },
            // one pixel
            6 => { let (x, y) = (r.below(g.width() as usize) as u32, r.below(g.height() as usize) as u32); g.put_pixel(x, y, image::Luma([r.byte()])) }
            7 => g = image::imageops::flip_horizontal(&g),
            8 => g = image::imageops::rotate180(&g),
            _ => for p in g.iter_mut() { *p = 255 - *p },
        }
        self.changed(i, g)
    }
    fn alter(&mut self, i: usize, f0: &Option<Vec<f64>>, kind: usize) -> usize {
        let x = self.img(i);
        let (Some(rec), Some(f)) = (x.rec.clone(), f0) else { return i };
        let Some((mut pv, at)) = parts(&rec) else { return i };
        let p = x.par;
        let (_, q) = rule(f, p.step);
        let mut new = rec.clone();
        let mut whole = false;
        let n = rec[1] as usize;
        if n != 64 || pv.is_empty() {
            return i;
        }
        match kind {
            0 => new[at + self.r.below(64)] ^= 1 << self.r.below(8),
            1 => new[at..at + 64].fill(0),
            2 => new[at..at + 64].reverse(),
            3 => {
                let j = self.r.below(pv.len());
                new[3 + j / 8] ^= 1 << (j % 8);
                pv[j] ^= 1;
                whole = true;
            }
            // another text is not covered by the signature
            4 => {
                if rec.len() > at + 64 {
                    new[at + 64] = b'h';
                }
                whole = true;
            }
            5 => { new.remove(at); new[1] = 63; }
            6 => new[1] = 65,
            7 => { new[1] = 0; new.drain(at..at + 64); }
            // a shorter vector: fewer features are restored than were signed
            _ => { pv.truncate(pv.len() - 3); new = record(&pv, &rec[at..at + 64], "x"); whole = true; }
        }
        self.craft(i, p, &pv, &q, new, "built-in", whole)
    }
}

pub fn texture(r: &mut Rng, w: u32, h: u32, lo: i32, hi: i32, style: usize) -> GrayImage {
    let span = (hi - lo).max(1) as f64;
    let (a, b, c, d) = (r.unit() * 0.2 + 0.02, r.unit() * 0.2 + 0.02, r.unit() * 6., r.unit());
    let noise = *r.pick(&[0., 0.1, 0.5]);
    let mut g = GrayImage::new(w, h);
    for (x, y, p) in g.enumerate_pixels_mut() {
        let (fx, fy) = (x as f64, y as f64);
        let v = match style % 4 {
            0 => 0.5 + 0.5 * (a * fx + c).sin() * (b * fy).cos(),
            1 => d * fx / w as f64 + (1. - d) * fy / h as f64,
            2 => if ((fx * a + fy * b) as i64) % 2 == 0 { 0.2 } else { 0.8 },
            _ => (fx * fy * a * 0.05).sin().abs(),
        };
        let v = (1. - noise) * v + noise * r.unit();
        p[0] = (lo + (v * span) as i32).clamp(0, 255) as u8;
    }
    g
}

/// width, height, levels: domains without a code and with each code that is large enough
const SHAPES: [(u32, u32, usize); 9] = [(54, 56, 1), (56, 54, 1), (128, 64, 1), (64, 128, 1), (108, 112, 2), (60, 52, 1), (112, 108, 2), (54, 60, 1), (128, 128, 1)];

fn params(r: &mut Rng, l: usize, k: usize) -> Par {
    let b = (1 << l) as f64;
    let depth = match r.below(5) { 0 => 2.2 * b, 1 => 4. * b, 2 => 8. * b, 3 => 3.3 * b, _ => b * (2.1 + 4. * r.unit()) };
    Par { depth, step: 1., k, l }
}

/// a step around the drift that this mark causes
fn fit_step(r: &mut Rng, g: &GrayImage, p: Par) -> f64 {
    let y = match guard(|| watermark_channel(g, p.depth, 1., p.k, p.l)) { Some(y) => y, None => return 1. };
    let (Some(f), Some(n)) = (features(g, p.k), features(&y, p.k)) else { return 1. };
    let d = f.iter().zip(&n).map(|(a, b)| (a - b).abs()).fold(1e-3, f64::max);
    d * *r.pick(&[0.4, 0.6, 0.7, 0.8, 0.9, 1.02, 1.1, 1.5, 2.5, 10.])
}

enum Job {
    Offsets(Vec<i64>),
    Hist(Vec<(String, usize)>),
    Honest(usize),
    Big(u32, u32, usize, usize),
}

pub fn run(mut ctx: Ctx) {
    let mut t = Trace::new(&ctx.out, 16);
    let mut jobs = vec![];
    let scenarios = ctx.scenarios();
    for s in &scenarios {
        if let Some(h) = s["hist"].as_array() {
            jobs.push(Job::Hist(h.iter().map(|a| (a[0].as_str().unwrap().to_string(), a[1].as_u64().unwrap() as usize)).collect()));
        } else {
            jobs.push(Job::Offsets(s["off"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect()));
        }
    }
    for i in 0..if ctx.thorough { 3000 } else { 120 } {
        jobs.push(Job::Honest(i));
    }
    for (w, h, l, k) in [(216, 216, 3, 11), (232, 200, 3, 2), (200, 232, 3, 3), (176, 176, 2, 12), (130, 70, 1, 16), (64, 256, 1, 5), (432, 432, 4, 1), (448, 464, 4, 2), (896, 864, 5, 1), (216, 216, 3, 1), (432, 216, 2, 1), (96, 96, 1, 24), (64, 128, 1, 22)] {
        jobs.push(Job::Big(w, h, l, k));
    }
    if ctx.thorough {
        for (w, h, l, k) in [(512, 512, 3, 11), (256, 256, 2, 5), (256, 128, 1, 25), (130, 70, 1, 40), (256, 512, 2, 2), (448, 224, 3, 11), (224, 448, 3, 5), (432, 432, 4, 3), (256, 256, 1, 60), (320, 320, 1, 85), (864, 896, 5, 2)] {
            jobs.push(Job::Big(w, h, l, k));
        }
    }
    let seeds: Vec<u64> = jobs.iter().map(|_| ctx.rng.next()).collect();
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, Vec<Value>)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= jobs.len() {
                    break;
                }
                let i = jobs.len() - 1 - i;
                let mut r = Rng::new(seeds[i]);
                let h = play(&mut r, &jobs[i]);
                out.lock().unwrap().push((i, h));
            });
        }
    });
    let mut out = out.into_inner().unwrap();
    out.sort_by_key(|x| x.0);
    for (_, h) in out {
        t.history(h);
    }
    t.finish();
}

fn play(r: &mut Rng, job: &Job) -> Vec<Value> {
    let mut rr = Rng::new(r.next());
    match job {
        Job::Big(w, h, l, k) => {
            let mut p = params(r, *l, *k);
            let g = texture(r, *w, *h, 70, 180, 0);
            // many features: coarse enough for all of them to stay where they are
            p.step = fit_step(r, &g, p) * if *k > 20 { 8. } else { 2. };
            let mut life = Life::new(&mut rr);
            let i = life.fresh(g, p);
            let i = life.mark(i, p);
            life.auth(i, p);
            // at other levels there is no such mark
            for q in 1..=5 {
                if q != *l {
                    life.auth(i, Par { l: q, ..p });
                }
            }
            let j = life.store(i);
            life.auth(j, p);
            let i = life.tamper(i, 3);
            life.auth(i, p);
            life.h
        }
        Job::Honest(n) => {
            let (w, h, l) = SHAPES[n % SHAPES.len()];
            let k = 1 + r.below(if n % 30 == 0 { 11 } else { 3 });
            let mut p = params(r, l, k);
            let (lo, hi) = *r.pick(&[(60, 190), (90, 160), (0, 255), (100, 255), (110, 140)]);
            let style = r.below(4);
            let g = texture(r, w, h, lo, hi, style);
            p.step = fit_step(r, &g, p);
            let mut life = Life::new(&mut rr);
            let i = life.fresh(g, p);
            life.bare(i, p);
            let m = life.mark(i, p);
            life.auth(m, p);
            let s = life.store(m);
            life.auth(s, p);
            // marked again, with the same and with other parameters
            let m2 = life.mark(s, p);
            life.auth(m2, p);
            let mut p2 = params(life.r, l, 1 + n % 3);
            p2.step = p.step;
            let m3 = life.mark(m2, p2);
            life.auth(m3, p2);
            life.auth(m3, p);
            if k > 4 {
                return life.h;
            }
            // read with other parameters
            for q in [Par { depth: p.depth * 2., ..p }, Par { depth: p.depth * 0.6, ..p }, Par { step: p.step * 3.1, ..p }, Par { step: p.step * 0.37, ..p },
                      Par { step: p.step * 1.01, ..p }, Par { k: p.k + 1, ..p }, Par { k: (p.k - 1).max(1), ..p }, Par { l: p.l + 1, ..p }, Par { l: (p.l - 1).max(1), ..p }, Par { step: p.step * 1.5, ..p }] {
                life.auth(m, q);
            }
            life.h
        }
        Job::Offsets(off) => {
            let (w, h, l) = SHAPES[r.below(SHAPES.len() - 1)];
            let k = off.len() + r.below(2);
            let mut p = params(r, l, k);
            p.depth = 2.3 * (1 << l) as f64;
            let style = r.below(4);
            let g = texture(r, w, h, 50, 200, style);
            let mut life = Life::new(&mut rr);
            let i = life.fresh(g, p);
            // what the features will be, whatever exactly the mark says
            let pilot = record(&vec![1; 3 * k], &life.r.bytes(64), "pilot");
            let y = match guard(|| embed(matrix(&life.img(i).px), pilot, p.depth, p.l)) { Some(y) => gray(y), None => return life.h };
            let (Some(f0), Some(f)) = (features(&life.img(i).px, k), features(&y, k)) else { return life.h };
            let d = f0.iter().zip(&f).map(|(a, b)| (a - b).abs()).fold(1e-3, f64::max);
            p.step = d * *life.r.pick(&[3., 8., 20., 50.]);
            let t: Vec<f64> = f.iter().enumerate().map(|(j, v)| v + p.step * 0.25 * *off.get(j).unwrap_or(&0) as f64 + p.step * 0.01).collect();
            let (pv, q) = rule(&t, p.step);
            let sig = dalek_sign(&q, PRIVATE_KEY, PUBLIC_KEY);
            let o = life.craft(i, p, &pv, &q, record(&pv, &sig, "Hello world!"), "built-in", true);
            if o != i {
                life.auth(o, p);
                let n = life.r.below(3);
                if n == 0 {
                    let o2 = life.tamper(o, 1);
                    life.auth(o2, p);
                }
            }
            life.h
        }
        Job::Hist(acts) => {
            let (w, h, l) = SHAPES[r.below(6)];
            let k = 1 + r.below(3);
            let mut p = params(r, l, k);
            if r.below(2) == 0 {
                p.depth = 8. * (1 << l) as f64;
            }
            let style = r.below(4);
            let g1 = texture(r, w, h, 70, 180, style);
            let g2 = texture(r, w, h, 60, 190, style + 1);
            p.step = fit_step(r, &g1, p);
            let twin = r.below(3) == 0;
            let mut life = Life::new(&mut rr);
            let mut cur = [0usize; 2];
            cur[0] = life.fresh(g1.clone(), p);
            // the second channel is sometimes nearly the first one
            cur[1] = life.fresh(if twin { g1 } else { g2 }, p);
            // features at the time the mark was made
            let mut made: [Option<Vec<f64>>; 2] = [None, None];
            for (a, c) in acts {
                let c = c - 1;
                let i = cur[c];
                match a.as_str() {
                    "mark" => {
                        made[c] = features(&life.img(i).px, k);
                        cur[c] = life.mark(i, p);
                    }
                    "store" => cur[c] = life.store(i),
                    "tamper" => {
                        let kind = life.r.below(10);
                        cur[c] = life.tamper(i, kind);
                    }
                    "move" => {
                        let d = 1 - c;
                        if let Some(rec) = life.img(i).rec {
                            let x = life.img(cur[d]);
                            if let Some(y) = guard(|| embed(matrix(&x.px), rec.clone(), p.depth, p.l)) {
                                let o = life.add(gray(y), Some(rec), p);
                                life.h.push(json!({"ev":"move","i":i,"o":o}));
                                cur[d] = o;
                                made[d] = made[c].clone();
                            }
                        }
                    }
                    "alter" => {
                        let kind = life.r.below(9);
                        let f = made[c].clone();
                        cur[c] = life.alter(i, &f, kind);
                    }
                    "rekey" => {
                        if let Some(f) = features(&life.img(i).px, k) {
                            let (pv, q) = rule(&f, p.step);
                            let pair = key_pair(&life.r.bytes(32));
                            let sig = if life.r.below(2) == 0 { dalek_sign(&q, &pair.0, &pair.1) } else { dalek_sign(&q, &pair.0, PUBLIC_KEY) };
                            cur[c] = life.craft(i, p, &pv, &q, record(&pv, &sig, "Hello world!"), "other", true);
                            made[c] = Some(f);
                        }
                    }
                    _ => {
                        // the mark is overwritten with something that is none
                        let n = 40 + life.r.below(30);
                        let junk = life.r.bytes(n);
                        cur[c] = life.craft(i, p, &[], &[0], junk, "none", false);
                        made[c] = None;
                    }
                }
                for d in 0..2 {
                    if life.img(cur[d]).rec.is_some() && (d == c || a == "move") {
                        life.auth(cur[d], p);
                    }
                }
            }
            life.h
        }
    }
}
