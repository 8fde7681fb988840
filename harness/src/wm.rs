//! Harness for the watermarking crate.
mod chan;
mod common;
mod ecc;
mod hist;
mod life;
mod record;
mod sigx;

use common::Ctx;

fn main() {
    let (cmd, ctx) = Ctx::from_env();
    match cmd.as_str() {
        "chan" => chan::run(ctx),
        "history" => hist::run(ctx),
        "prepare" => hist::prepare(ctx),
        "one" => hist::one(ctx),
        "share" => hist::share(ctx),
        "life" => life::run(ctx),
        "record" => record::run(ctx),
        other => panic!("unknown command {}", other),
    }
}
