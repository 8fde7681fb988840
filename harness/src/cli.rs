//! C14, C26: runs of the command line tool in a scratch folder, without and with faults.
mod common;
use common::*;
use image::{DynamicImage, GenericImageView, ImageFormat};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn format_of(f: &str) -> ImageFormat {
    match f {
        "bmp" => ImageFormat::Bmp,
        "pnm" => ImageFormat::Pnm,
        "tiff" => ImageFormat::Tiff,
        "jpeg" => ImageFormat::Jpeg,
        "gif" => ImageFormat::Gif,
        _ => ImageFormat::Png,
    }
}

fn encode(d: &DynamicImage, f: &str) -> Vec<u8> {
    let mut c = Cursor::new(vec![]);
    d.write_to(&mut c, format_of(f)).expect("encode");
    c.into_inner()
}

fn decode(b: &[u8], f: &str) -> DynamicImage {
    image::load_from_memory_with_format(b, format_of(f)).expect("decode")
}

fn picture(name: &str, seed: u64) -> DynamicImage {
    let mut r = Rng::new(seed ^ name.bytes().fold(7u64, |a, b| a.wrapping_mul(131) ^ b as u64));
    let (w, h) = match name { "small" => (64, 64), "b" => (224, 216), "d" => (216, 232), _ => (216, 216) };
    let (fx, fy, ph) = (0.03 + r.unit() * 0.1, 0.03 + r.unit() * 0.1, r.unit() * 6.);
    let noise: Vec<u8> = r.bytes((w * h) as usize);
    let at = |x: u32, y: u32, c: f64| (125. + 45. * (fx * x as f64 + ph + c).sin() + 40. * (fy * y as f64 - c).cos() + (noise[(y * w + x) as usize] % 11) as f64) as u8;
    match name {
        "q" => DynamicImage::ImageRgba8(image::RgbaImage::from_fn(w, h, |x, y| image::Rgba([at(x, y, 0.), at(x, y, 1.), at(x, y, 2.), 255 - (x % 50) as u8]))),
        "c" => DynamicImage::ImageRgb8(image::RgbImage::from_fn(w, h, |x, y| image::Rgb([at(x, y, 0.), at(x, y, 0.7), at(x, y, 2.)]))),
        // 16 bits a channel
        "s" => DynamicImage::ImageRgb16(image::ImageBuffer::from_fn(w, h, |x, y| image::Rgb([at(x, y, 0.), at(x, y, 0.7), at(x, y, 2.)].map(|v| v as u16 * 256 + (x * 7 + y * 31) as u16 % 256)))),
        // few colours, as a GIF has
        "g" => DynamicImage::ImageRgba8(image::RgbaImage::from_fn(w, h, |x, y| { let v = at(x, y, 0.) / 16 * 16; image::Rgba([v, v, v, 255]) })),
        _ => DynamicImage::ImageLuma8(image::GrayImage::from_fn(w, h, |x, y| image::Luma([at(x, y, 0.)]))),
    }
}

/// what ^ stands for in the plans
const FOREIGN: &str = "é中";

struct World {
    /// bytes of the files a run starts with, by picture and format
    files: HashMap<(String, String), Vec<u8>>,
    /// pixels a picture name stands for
    known: Mutex<BTreeMap<String, DynamicImage>>,
}

fn entry(k: &str, pic: &str, f: &str, big: bool) -> Value {
    json!({"k":k,"pic":pic,"f":f,"big":big})
}

impl World {
    fn add(&self, name: String, d: DynamicImage) {
        self.known.lock().unwrap().insert(name, d);
    }
    fn mark(&self, name: &str) {
        let d = self.known.lock().unwrap()[name].clone();
        let m = guard(|| watermarking::watermark(d, 100., 1., 11));
        if let Some(m) = m {
            let s = format!("M({})", name);
            self.add(format!("J({})", s), decode(&encode(&DynamicImage::from(m.clone()), "jpeg"), "jpeg"));
            self.add(format!("G({})", s), decode(&encode(&DynamicImage::ImageRgba8(m.to_rgba8()), "gif"), "gif"));
            self.add(s, m);
        }
    }
    /// what a file holds
    fn look(&self, b: &[u8]) -> Value {
        for ((pic, f), c) in &self.files {
            if c == b {
                return if f.is_empty() { entry("bytes", pic, "", false) } else { entry("image", pic, f, pic != "small") };
            }
        }
        let f = match image::guess_format(b) {
            Ok(ImageFormat::Png) => "png",
            Ok(ImageFormat::Bmp) => "bmp",
            Ok(ImageFormat::Pnm) => "pnm",
            Ok(ImageFormat::Tiff) => "tiff",
            Ok(ImageFormat::Jpeg) => "jpeg",
            Ok(ImageFormat::Gif) => "gif",
            _ => return entry("bytes", &hash(b), "", false),
        };
        let d = match guard(|| decode(b, f)) {
            Some(d) => d,
            None => return entry("bytes", &format!("broken {}", hash(b)), f, false),
        };
        let (w, h) = d.dimensions();
        let raw = d.to_rgba8().into_raw();
        let known = self.known.lock().unwrap();
        let lossy = match f { "jpeg" => "J(", "gif" => "G(", _ => "" };
        let mut best = (f64::MAX, "unknown".to_string());
        for (n, k) in known.iter() {
            let of = n.starts_with("J(") || n.starts_with("G(");
            if k.dimensions() != (w, h) || of != !lossy.is_empty() || !n.starts_with(lossy) {
                continue;
            }
            let kr = k.to_rgba8().into_raw();
            let diff: u64 = kr.iter().zip(&raw).map(|(a, b)| a.abs_diff(*b) as u64).sum();
            let mad = diff as f64 / raw.len() as f64;
            if (diff == 0 || (of && mad < 4.)) && mad < best.0 {
                best = (mad, n.clone());
            }
        }
        entry("image", &best.1, f, w >= 216 && h >= 216)
    }
    fn scan(&self, root: &Path, dir: &Path, out: &mut Vec<Value>, seen: &mut HashMap<String, Value>) {
        let mut names: Vec<PathBuf> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
        names.sort();
        for p in names {
            let rel = p.strip_prefix(root).unwrap().to_str().unwrap().replace(FOREIGN, "^");
            if p.is_dir() {
                out.push(json!({"p":rel,"e":entry("dir", "", "", false)}));
                self.scan(root, &p, out, seen);
            } else {
                let b = std::fs::read(&p).unwrap();
                let e = seen.entry(hash(&b)).or_insert_with(|| self.look(&b)).clone();
                out.push(json!({"p":rel,"e":e}));
            }
        }
    }
}

fn args_of(s: &Value, root: &str) -> Vec<String> {
    let a = &s["a"];
    let at = |t: &str| t.replace('@', root).replace('^', FOREIGN);
    let inputs: Vec<String> = a["inputs"].as_array().unwrap().iter().map(|i| at(i["arg"].as_str().unwrap())).collect();
    let mut opts: Vec<Vec<String>> = vec![];
    if a["hassuffix"].as_bool().unwrap() {
        opts.push(vec!["-s".into(), at(a["suffix"].as_str().unwrap())]);
    }
    if a["hasout"].as_bool().unwrap() {
        opts.push(vec!["-o".into(), at(a["out"].as_str().unwrap())]);
    }
    let layout = a["layout"].as_str().unwrap();
    let special = ["help", "unknown", "twice", "novalue"].contains(&layout);
    let dashed = inputs.iter().any(|i| i.starts_with('-'));
    let inputs: Vec<String> = inputs.into_iter().filter(|i| !special || !i.starts_with('-')).collect();
    let layout = if dashed && !special { "separator" } else { layout };
    let flat = |o: &Vec<Vec<String>>| o.iter().flatten().cloned().collect::<Vec<String>>();
    match layout {
        "last" => [inputs, flat(&opts)].concat(),
        "separator" => { opts.reverse(); [flat(&opts), vec!["--".into()], inputs].concat() }
        "glued" => [opts.iter().map(|o| o.concat()).collect(), inputs].concat(),
        "between" if !inputs.is_empty() => { opts.reverse(); [inputs[..1].to_vec(), flat(&opts), inputs[1..].to_vec()].concat() }
        "help" => [flat(&opts), vec!["-h".into()], inputs].concat(),
        "unknown" => [flat(&opts), vec!["-x".into()], inputs].concat(),
        "twice" => [vec!["-s".into(), "u".into(), "-s".into(), "v".into()], inputs].concat(),
        "novalue" => [inputs, flat(&opts), vec!["-o".into()]].concat(),
        _ => [flat(&opts), inputs].concat(),
    }
}

/// the folder a run starts with
fn lay(world: &World, s: &Value, root: &Path) {
    let mut entries: Vec<&Value> = s["fs"].as_array().unwrap().iter().collect();
    entries.sort_by_key(|e| e["p"].as_str().unwrap().len());
    for e in entries {
        let p = root.join(e["p"].as_str().unwrap().replace('^', FOREIGN));
        if e["e"]["k"] == "dir" {
            std::fs::create_dir_all(&p).unwrap();
        } else {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, &world.files[&(e["e"]["pic"].as_str().unwrap().to_string(), e["e"]["f"].as_str().unwrap().to_string())]).unwrap();
        }
    }
}

/// one run of the tool with a fault: how it ended, what it reported, the log of the shim
fn run_with(tool: &Path, args: &[String], root: &Path, temp: &Path, shim: &str, fault: &str) -> (&'static str, Vec<Value>, Vec<String>) {
    use std::os::unix::process::ExitStatusExt;
    let (log, out) = (temp.join("log"), temp.join("stdout"));
    let _ = std::fs::remove_file(&log);
    let status = Command::new(tool).args(args).current_dir(root.join("work")).env("TMPDIR", temp).env("HOME", temp)
        .env("LD_PRELOAD", shim).env("SV_FAULT", fault).env("SV_LOG", &log).env("SV_ROOT", root)
        .stdin(Stdio::null()).stdout(std::fs::File::create(&out).unwrap()).stderr(Stdio::null()).status();
    let end = match status { Ok(x) if x.success() => "ok", Ok(x) if x.signal() == Some(9) => "killed", _ => "fail" };
    let text = String::from_utf8_lossy(&std::fs::read(&out).unwrap()).to_string();
    let mut reports = vec![];
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("Watermarked ") {
            let (head, time) = r.rsplit_once(" channels) in ").unwrap_or((r, "?"));
            let (path, counts) = head.rsplit_once(" (").unwrap_or((head, "0 -> 0"));
            let (from, to) = counts.split_once(" -> ").unwrap_or(("0", "0"));
            let full = root.join("work").join(path);
            let full = full.parent().and_then(|d| d.canonicalize().ok()).map(|d| d.join(full.file_name().unwrap_or_default())).unwrap_or(full);
            let rel = full.strip_prefix(root).map(|p| p.to_str().unwrap().to_string()).unwrap_or(path.to_string());
            reports.push(json!({"path":rel.replace(FOREIGN, "^"),"from":from.parse::<i64>().unwrap_or(0),"to":to.parse::<i64>().unwrap_or(0),
                                "time":time.replace('\u{b5}', "^")}));
        }
    }
    let log = std::fs::read_to_string(&log).unwrap_or_default().lines().map(|l| l.to_string()).collect();
    (end, reports, log)
}

/// C26: every scenario once with its fault
fn crash_runs(world: &World, scenarios: &[Value], tool: &Path, base: &Path, shim: &str) -> Vec<Value> {
    // what complete outputs hold, and how many writes and reads they take: runs of the same arguments, and of their beginnings, without faults
    let mut plain: BTreeMap<String, Value> = BTreeMap::new();
    for s in scenarios {
        let n = s["a"]["inputs"].as_array().unwrap().len();
        for k in 1..=n {
            let mut t = s.clone();
            t["a"]["inputs"] = Value::Array(s["a"]["inputs"].as_array().unwrap()[..k].to_vec());
            plain.entry(t["a"].to_string()).or_insert(t);
        }
    }
    let plain: Vec<Value> = plain.into_values().collect();
    let counts: Mutex<HashMap<String, Vec<String>>> = Mutex::new(HashMap::new());
    // by path: the bytes complete outputs can hold
    let whole: Mutex<std::collections::HashSet<(String, String)>> = Mutex::new(Default::default());
    let each = |work: &[Value], f: &(dyn Fn(usize, &Value, &Path, &Path) + Sync)| {
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= work.len() {
                        break;
                    }
                    let (root, temp) = (base.join(format!("{}", i)), base.join(format!("{}-tmp", i)));
                    std::fs::create_dir_all(&root).unwrap();
                    std::fs::create_dir_all(&temp).unwrap();
                    let root = root.canonicalize().unwrap();
                    lay(world, &work[i], &root);
                    f(i, &work[i], &root, &temp);
                    let _ = std::fs::remove_dir_all(&root);
                    let _ = std::fs::remove_dir_all(&temp);
                });
            }
        });
    };
    fn hashes(root: &Path, list: &[Value]) -> Vec<(String, String)> {
        list.iter().filter(|e| e["e"]["k"] != "dir").map(|e| {
            let p = e["p"].as_str().unwrap().to_string();
            let h = hash(&std::fs::read(root.join(p.replace('^', FOREIGN))).unwrap());
            (p, h)
        }).collect()
    }
    each(&plain, &|_, s, root, temp| {
        let (_, _, log) = run_with(tool, &args_of(s, root.to_str().unwrap()), root, temp, shim, "none");
        assert!(log.first().map(|l| l == "loaded").unwrap_or(false), "the shim was not loaded");
        counts.lock().unwrap().insert(s["a"].to_string(), log);
        let mut after = vec![];
        world.scan(root, root, &mut after, &mut HashMap::new());
        let hs = hashes(root, &after);
        whole.lock().unwrap().extend(hs);
    });
    let (counts, whole) = (counts.into_inner().unwrap(), whole.into_inner().unwrap());
    let events: Mutex<Vec<(usize, Value)>> = Mutex::new(vec![]);
    each(scenarios, &|i, s, root, temp| {
        let f = &s["fault"];
        let (k, at, j) = (f["k"].as_str().unwrap(), f["at"].as_str().unwrap(), f["j"].as_i64().unwrap());
        let of = |what: &str| -> i64 {
            counts[&s["a"].to_string()].iter().filter_map(|l| l.strip_prefix(&format!("{} {} ", what, j))).filter_map(|n| n.parse().ok()).next().unwrap_or(1)
        };
        let w = |n: i64| match f["w"].as_str().unwrap() { "first" => 1, "second" => 2, "middle" => n / 2 + 1, "third quarter" => n * 3 / 4 + 1, "before last" => n - 1, _ => n }.max(1);
        let mut step = [0, 0];
        let fault = match k {
            "kill" if at == "write" => format!("kill:write:{}:{}", j, w(of("write"))),
            "kill" => format!("kill:{}:{}", at, j),
            "nospace" => format!("nospace:write:{}:{}", j, w(of("write"))),
            "denied" => format!("denied:open:{}", j),
            "badread" => format!("badread:{}:{}", j, w(of("read"))),
            "clock" => { step = [j, f["w"].as_str().unwrap().parse().unwrap()]; format!("clock:{}:{}", step[0], step[1]) }
            k => k.to_string(),
        };
        let mut seen = HashMap::new();
        let mut before = vec![];
        world.scan(root, root, &mut before, &mut seen);
        let args = args_of(s, root.to_str().unwrap());
        let (end, reports, log) = run_with(tool, &args, root, temp, shim, &fault);
        let mut after = vec![];
        world.scan(root, root, &mut after, &mut seen);
        let hs: HashMap<String, String> = hashes(root, &after).into_iter().collect();
        for e in after.iter_mut() {
            let p = e["p"].as_str().unwrap().to_string();
            let ok = hs.get(&p).map(|h| whole.contains(&(p.clone(), h.clone()))).unwrap_or(true);
            e["whole"] = json!(ok);
        }
        let fired = log.iter().any(|l| l == "fired");
        events.lock().unwrap().push((i, json!({"ev":"run","a":s["a"],"fault":f,"told":fault,"step":step,"before":before,"after":after,
                                               "end":end,"fired":fired,"reports":reports})));
    });
    let mut events = events.into_inner().unwrap();
    events.sort_by_key(|e| e.0);
    events.into_iter().map(|e| e.1).collect()
}

fn main() {
    let (cmd, ctx) = Ctx::from_env();
    assert!(cmd == "cli" || cmd == "crash", "unknown command");
    let crash = cmd == "crash";
    let shim = std::env::args().last().unwrap_or_default();
    let tool = std::env::current_exe().unwrap().with_file_name("cli");
    let scenarios = ctx.scenarios();
    let base = PathBuf::from(format!("{}-scratch", ctx.out));
    let _ = std::fs::remove_dir_all(&base);
    let mut world = World { files: HashMap::new(), known: Mutex::new(BTreeMap::new()) };
    for s in scenarios.iter().take(1) {
        for e in s["fs"].as_array().unwrap() {
            let (k, pic, f) = (e["e"]["k"].as_str().unwrap(), e["e"]["pic"].as_str().unwrap(), e["e"]["f"].as_str().unwrap());
            let key = (pic.to_string(), f.to_string());
            if k == "bytes" {
                let png = encode(&picture("a", ctx.seed), "png");
                world.files.insert(key, if pic == "cut" { png[..png.len() / 2].to_vec() } else { format!("this is {}", pic).into_bytes() });
            } else if k == "image" && !world.files.contains_key(&key) {
                let b = encode(&picture(pic, ctx.seed), f);
                world.add(pic.into(), decode(&b, f));
                world.files.insert(key, b);
            }
        }
    }
    // the marked pictures
    let names: Vec<String> = world.known.lock().unwrap().keys().cloned().filter(|n| n != "small").collect();
    for round in [names, vec!["M(a)".to_string(), "M(c)".to_string()]] {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= round.len() {
                        break;
                    }
                    if world.known.lock().unwrap().contains_key(&round[i]) {
                        world.mark(&round[i]);
                    }
                });
            }
        });
    }
    // files that are in the layout under several formats keep the pixels of the picture
    let world = world;
    if crash {
        let events = crash_runs(&world, &scenarios, &tool, &base, &shim);
        let _ = std::fs::remove_dir_all(&base);
        let mut t = Trace::new(&ctx.out, 4);
        events.into_iter().for_each(|e| t.one(e));
        return t.finish();
    }
    let events: Mutex<Vec<(usize, Value)>> = Mutex::new(vec![]);
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= scenarios.len() {
                    break;
                }
                let s = &scenarios[i];
                let root = base.join(format!("{}", i));
                std::fs::create_dir_all(&root).unwrap();
                let root = root.canonicalize().unwrap();
                lay(&world, s, &root);
                let mut seen = HashMap::new();
                let mut before = vec![];
                world.scan(&root, &root, &mut before, &mut seen);
                let temp = base.join(format!("{}-tmp", i));
                std::fs::create_dir_all(&temp).unwrap();
                let args = args_of(s, root.to_str().unwrap());
                let status = Command::new(&tool).args(&args).current_dir(root.join("work")).env("TMPDIR", &temp).env("HOME", &temp)
                    .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status();
                let exit = match status { Ok(x) if x.success() => "ok", _ => "fail" };
                let mut after = vec![];
                world.scan(&root, &root, &mut after, &mut seen);
                let shown: Vec<String> = args.iter().map(|a| a.replace(root.to_str().unwrap(), "@").replace(FOREIGN, "^")).collect();
                events.lock().unwrap().push((i, json!({"ev":"run","a":s["a"],"args":shown,"before":before,"after":after,"exit":exit})));
                let _ = std::fs::remove_dir_all(&root);
                let _ = std::fs::remove_dir_all(&temp);
            });
        }
    });
    let _ = std::fs::remove_dir_all(&base);
    let mut events = events.into_inner().unwrap();
    events.sort_by_key(|e| e.0);
    let mut t = Trace::new(&ctx.out, 4);
    for (_, e) in events {
        t.one(e);
    }
    t.finish();
}
