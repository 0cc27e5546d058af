#[path = "../../harness/src/core.rs"]
#[macro_use]
mod core;
mod exports;
mod page;
#[path = "../../harness/src/runner.rs"]
mod runner;
mod server;
#[allow(dead_code)]
#[path = "../../harness/src/sig.rs"]
mod sig;
use crate::core::*;

fn register(p: &str, _env: &Env, r: &mut Reg) -> bool {
    match p {
        "C31" => {
            exports::c31(r);
            page::c31(r);
        }
        "C35" => server::c35(r),
        _ => return false,
    }
    true
}
fn main() {
    runner::main(register)
}
