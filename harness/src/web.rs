//! C19: the browser crate, natively against stand-ins for js-sys and wasm-bindgen.
#[allow(dead_code)]
mod chan;
mod common;
#[allow(dead_code)]
mod ecc;
#[allow(dead_code)]
mod life;
#[allow(dead_code)]
mod sigx;
use common::*;
use image::{DynamicImage, GenericImageView, ImageFormat};
use js_sys::Uint8Array;
use serde_json::{json, Value};
use std::io::Cursor;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use web::verif::{ImageModel, WatermarkingProcess};

fn data(v: &Value) -> Uint8Array {
    let b: Vec<u8> = v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or(vec![]);
    Uint8Array::from(&b[..])
}

fn model(m: &ImageModel) -> Value {
    json!({"w":m.get_width(),"h":m.get_height(),"d":bytes_json(&m.get_data().to_vec())})
}

struct Store {
    x: ImageModel,
    y: ImageModel,
    p: WatermarkingProcess,
}

impl Store {
    fn new() -> Store {
        let m = |d: u8| ImageModel::new(3, 5, Uint8Array::from(&[d][..]));
        Store { x: m(30), y: m(40), p: WatermarkingProcess::new("Png".into(), m(10), m(20)) }
    }
    fn at(&mut self, n: &Value) -> &mut ImageModel {
        if n == "x" { &mut self.x } else { &mut self.y }
    }
    fn show(&self) -> Value {
        json!({"x":model(&self.x),"y":model(&self.y),"p":{"f":self.p.get_source_format(),"s":model(&self.p.get_source()),"m":model(&self.p.get_watermarked())}})
    }
    fn run(&mut self, o: &Value) {
        let n = |k: &str| o[k].as_u64().unwrap() as u32;
        match o["op"].as_str().unwrap() {
            "model" => *self.at(&o["n"]) = ImageModel::new(n("w"), n("h"), data(&o["d"])),
            "process" => self.p = WatermarkingProcess::new(o["f"].as_str().unwrap().into(), self.at(&o["a"]).clone(), self.at(&o["b"]).clone()),
            "getSource" => *self.at(&o["to"]) = self.p.get_source(),
            "getMarked" => *self.at(&o["to"]) = self.p.get_watermarked(),
            "setWidth" => self.at(&o["n"]).set_width(n("v")),
            "setHeight" => self.at(&o["n"]).set_height(n("v")),
            "setData" => self.at(&o["n"]).set_data(data(&o["v"])),
            "setFormat" => self.p.set_source_format(o["v"].as_str().unwrap().into()),
            "setSource" => { let m = self.at(&o["a"]).clone(); self.p.set_source(m) }
            _ => { let m = self.at(&o["a"]).clone(); self.p.set_watermarked(m) }
        }
    }
}

fn shown(m: &ImageModel, picture: &DynamicImage, r: &mut Rng) -> Value {
    let d = m.get_data().to_vec();
    let rgba = picture.to_rgba8();
    let (w, h) = picture.dimensions();
    let px: Vec<Value> = (0..40).map(|i| {
        let (x, y) = match i { 0 => (0, 0), 1 => (w - 1, 0), 2 => (0, h - 1), 3 => (w - 1, h - 1), _ => (r.below(w as usize) as u32, r.below(h as usize) as u32) };
        let at = (4 * (y * w + x)) as usize;
        let found: Vec<u8> = d.get(at..at + 4).map(|s| s.to_vec()).unwrap_or(vec![]);
        json!({"x":x,"y":y,"at":at,"found":bytes_json(&found),"pixel":bytes_json(&rgba.get_pixel(x, y).0)})
    }).collect();
    json!({"w":m.get_width(),"h":m.get_height(),"len":d.len(),"px":px,"all":hash(&d)})
}

fn open(b: &Value, seed: u64) -> Value {
    let mut r = Rng::new(seed);
    let (w, h) = *r.pick(&match b["shape"].as_u64().unwrap() { 1 => vec![(216, 216)], 2 => vec![(232, 216), (224, 216)], _ => vec![(216, 232), (216, 240)] });
    let (depth, step) = match b["depth"].as_u64().unwrap() { 1 => (100., 1.), 2 => (60. + r.below(20) as f64 / 2., 0.5), _ => (*r.pick(&[500., 333.25]), 1.5) };
    let mut planes: Vec<image::GrayImage> = (0..4).map(|i| life::texture(&mut r, w, h, 40 + 5 * i, 200, i as usize)).collect();
    let colour = b["colour"].as_str().unwrap();
    // alpha from wholly transparent, whatever colours lie there, to opaque
    if colour.contains('a') {
        planes[if colour.starts_with('R') { 3 } else { 1 }] = life::texture(&mut r, w, h, -120, 380, 3);
    }
    let refs: Vec<&image::GrayImage> = planes.iter().collect();
    let picture = chan::compose(colour, &refs);
    let f = b["f"].as_str().unwrap();
    let kind = match f { "gif" => ImageFormat::Gif, "jpeg" => ImageFormat::Jpeg, "png" => ImageFormat::Png, "tiff" => ImageFormat::Tiff, _ => ImageFormat::Bmp };
    let mut c = Cursor::new(vec![]);
    picture.write_to(&mut c, kind).expect("a blob");
    let blob = c.into_inner();
    // what the blob holds
    let picture = image::load_from_memory(&blob).expect("decodes");
    let marked = watermarking::watermark(picture.clone(), depth, step, 11);
    let got = guard(|| web::get_watermarking_process(Uint8Array::from(&blob[..]), depth, step));
    let (rgba, mrgba) = (picture.to_rgba8().into_raw(), marked.to_rgba8().into_raw());
    let head = json!({"ev":"open","f":f,"colour":colour,"w":w,"h":h,"depth":format!("{}", depth),"step":format!("{}", step)});
    let mut e = head.as_object().unwrap().clone();
    match got {
        None => { e.insert("got".into(), json!("refused")); }
        Some(p) => {
            e.insert("got".into(), json!("process"));
            e.insert("format".into(), json!(p.get_source_format()));
            e.insert("source".into(), shown(&p.get_source(), &picture, &mut r));
            e.insert("marked".into(), shown(&p.get_watermarked(), &marked, &mut r));
            e.insert("picture".into(), json!(hash(&rgba)));
            e.insert("expected".into(), json!(hash(&mrgba)));
            e.insert("changed".into(), json!(rgba != mrgba));
        }
    }
    Value::Object(e)
}

fn main() {
    let (cmd, ctx) = Ctx::from_env();
    assert!(cmd == "web", "unknown command");
    let mut t = Trace::new(&ctx.out, 4);
    let scenarios = ctx.scenarios();
    let blobs: Vec<&Value> = scenarios.iter().filter(|s| s["kind"] == "blob").collect();
    let next = AtomicUsize::new(0);
    let opened: Mutex<Vec<(usize, Value)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= blobs.len() {
                    break;
                }
                let e = open(&blobs[i]["b"], ctx.seed.wrapping_mul(1000) + i as u64);
                opened.lock().unwrap().push((i, e));
            });
        }
    });
    let mut opened = opened.into_inner().unwrap();
    opened.sort_by_key(|o| o.0);
    for (_, e) in opened {
        t.one(e);
    }
    for s in scenarios.iter().filter(|s| s["kind"] == "history") {
        let mut store = Store::new();
        let mut events = vec![json!({"ev":"start","st":store.show()})];
        for o in s["h"].as_array().unwrap() {
            store.run(o);
            events.push(json!({"ev":"op","o":o,"st":store.show()}));
        }
        t.history(events);
    }
    t.finish();
}
