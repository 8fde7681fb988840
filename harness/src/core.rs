//! Harness for the crates below the watermarking crate.
mod bytesx;
mod common;
mod ecc;
mod embedx;
mod haarx;
mod keysx;
mod layoutx;
mod moments;
mod numbers;
mod sigx;
mod threebit;
mod zern;

use common::Ctx;

fn main() {
    let (cmd, ctx) = Ctx::from_env();
    match cmd.as_str() {
        "threebit" => threebit::run(ctx),
        "embed" => embedx::run(ctx),
        "zernike" => zern::run(ctx),
        "ecc" => ecc::run(ctx),
        "bytes" => bytesx::run(ctx),
        "haar" => haarx::run(ctx),
        "keys" => keysx::run(ctx),
        "keys-child" => keysx::child(ctx),
        "layout" => layoutx::run(ctx),
        "moments" => moments::run(ctx),
        "numbers" => numbers::run(ctx),
        "sig" => sigx::run(ctx),
        other => panic!("unknown command {}", other),
    }
}
