//! C24: the same matrix in every layout; replays the looks of MCLayout.
use crate::common::*;
use embedding::verif::dwt_2d;
use embedding::{embed, extract};
use image_features::calculate_features;
use image_features::feature_types::FeaturesType;
use ndarray::{Array2, Axis, Slice};
use serde_json::{json, Value};
use zernike::calc::calculate_zernike_image_moment;

/// a matrix equal to `a` that lies in memory as the steps say; the cells not looked at hold `junk`
fn laid<T: Copy>(a: &Array2<T>, steps: &[String], junk: T) -> Array2<T> {
    let (mut r, mut c) = a.dim();
    for s in steps.iter().rev() {
        match s.as_str() {
            "t" => std::mem::swap(&mut r, &mut c),
            "p0" => r += 2,
            "p1" => c += 2,
            "e0" => r *= 2,
            "e1" => c *= 2,
            _ => {}
        }
    }
    let mut v = Array2::from_elem((r, c), junk);
    for s in steps {
        match s.as_str() {
            "t" => v = v.reversed_axes(),
            "i0" => v.invert_axis(Axis(0)),
            "i1" => v.invert_axis(Axis(1)),
            "p0" => v.slice_axis_inplace(Axis(0), Slice::new(1, Some(-1), 1)),
            "p1" => v.slice_axis_inplace(Axis(1), Slice::new(1, Some(-1), 1)),
            "e0" => v.slice_axis_inplace(Axis(0), Slice::new(1, None, 2)),
            _ => v.slice_axis_inplace(Axis(1), Slice::new(1, None, 2)),
        }
    }
    v.assign(a);
    v
}

fn bytes_of(a: Option<Array2<u8>>) -> Value {
    match a {
        None => json!({"kind":"refused","v":""}),
        Some(a) => json!({"kind":"bytes","v":format!("{:?} {}", a.dim(), a.iter().map(|b| format!("{:02x}", b)).collect::<String>())}),
    }
}

fn numbers(v: Option<Vec<f64>>, scale: f64) -> Value {
    match v {
        None => json!({"kind":"refused","v":""}),
        Some(v) => json!({"kind":"numbers","v":v.into_iter().map(|x| ti((x * scale).round() as i64)).collect::<Vec<_>>()}),
    }
}

/// a matrix of bytes and one of numbers, and what is done with them
struct Case {
    grey: Array2<u8>,
    marked: Array2<u8>,
    wave: Array2<f64>,
    forward: Array2<f64>,
    small: Array2<u8>,
    message: Vec<u8>,
    depth: f64,
    l: usize,
}

const OPS: [&str; 7] = ["embed", "extract", "roundtrip", "features", "moment", "forward", "inverse"];

impl Case {
    fn new(r: &mut Rng, n: usize) -> Case {
        let (rows, cols, l) = [(32, 48, 1), (32, 32, 1), (64, 48, 2), (16, 96, 1)][n % 4];
        let grey = Array2::from_shape_fn((rows, cols), |_| 60 + r.below(140) as u8);
        let message = r.bytes(4);
        let depth = 20. + r.below(20) as f64;
        let marked = guard(|| embed(grey.clone(), message.clone(), depth, l)).unwrap_or(grey.clone());
        let wave = Array2::from_shape_fn((8, 16), |_| r.below(256) as f64);
        let forward = guard(|| dwt_2d(wave.clone(), 2, false)).unwrap_or(wave.clone());
        let (a, b) = [(12, 12), (9, 14), (15, 10), (13, 13)][n % 4];
        let small = Array2::from_shape_fn((a, b), |_| r.below(256) as u8);
        Case { grey, marked, wave, forward, small, message, depth, l }
    }
    fn shape(&self, op: &str) -> (usize, usize) {
        match op {
            "embed" | "extract" | "roundtrip" => self.grey.dim(),
            "features" | "moment" => self.small.dim(),
            _ => self.wave.dim(),
        }
    }
    fn call(&self, op: &str, steps: &[String]) -> (Vec<isize>, Value) {
        let (m, d, l) = (self.message.clone(), self.depth, self.l);
        match op {
            "embed" => {
                let a = laid(&self.grey, steps, 7);
                (a.strides().to_vec(), bytes_of(guard(|| embed(a, m, d, l))))
            }
            "extract" => {
                let a = laid(&self.marked, steps, 7);
                (a.strides().to_vec(), bytes_of(guard(|| extract(a, d, l)).map(|v| Array2::from_shape_vec((1, v.len()), v).unwrap())))
            }
            // what embedding returns, however it lies, is read at once
            "roundtrip" => {
                let a = laid(&self.grey, steps, 7);
                let st = a.strides().to_vec();
                (st, bytes_of(guard(|| extract(embed(a, m, d, l), d, l)).map(|v| Array2::from_shape_vec((1, v.len()), v).unwrap())))
            }
            "features" => {
                let a = laid(&self.small, steps, 255);
                (a.strides().to_vec(), numbers(guard(|| calculate_features(&a, FeaturesType::MomentsZernike, 4)), 1e4))
            }
            "moment" => {
                let a = laid(&self.small, steps, 255);
                (a.strides().to_vec(), numbers(guard(|| {
                    let z = calculate_zernike_image_moment(6, 2, &a);
                    vec![z.re, z.im]
                }), 1e4))
            }
            "forward" => {
                let a = laid(&self.wave, steps, 1000.);
                (a.strides().to_vec(), numbers(guard(|| dwt_2d(a, 2, false)).map(|y| y.iter().cloned().collect()), 64.))
            }
            _ => {
                let a = laid(&self.forward, steps, 1000.);
                (a.strides().to_vec(), numbers(guard(|| dwt_2d(a, 2, true)).map(|y| y.iter().cloned().collect()), 64.))
            }
        }
    }
}

pub fn run(mut ctx: Ctx) {
    let scenarios = ctx.scenarios();
    let mut t = Trace::new(&ctx.out, 8);
    let r = &mut ctx.rng;
    for (n, some) in scenarios.chunks(40).enumerate() {
        let case = Case::new(r, n);
        let plain: serde_json::Map<String, Value> = OPS.iter().map(|op| (op.to_string(), case.call(op, &[]).1)).collect();
        let mut h = vec![json!({"ev":"plain","r":plain})];
        for s in some {
            let steps: Vec<String> = s["steps"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
            for op in OPS {
                let (rows, cols) = case.shape(op);
                let (strides, v) = case.call(op, &steps);
                h.push(json!({"ev":"call","op":op,"steps":steps,"R":rows,"C":cols,"strides":strides,"r":v}));
            }
        }
        t.history(h);
    }
    t.finish();
}
