#[path = "../../harness/src/core.rs"]
#[macro_use]
mod core;
#[path = "../../harness/src/runner.rs"]
mod runner;
mod audio;
mod flac;
mod picture;
mod tasks;
use crate::core::*;

fn register(p: &str, _env: &Env, r: &mut Reg) -> bool {
    match p {
        "C29" => audio::c29(r),
        "C30" => tasks::c30(r),
        "C32" => picture::c32(r),
        _ => return false,
    }
    true
}
fn main() {
    runner::main(register)
}
