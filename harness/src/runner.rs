//! Command line and scheduling of the sub-checks.
use crate::core::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}
pub fn main(register: fn(&str, &Env, &mut Reg) -> bool) {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let env = Env {
        prop: prop.clone(),
        config: arg(&args, "--config").unwrap_or_else(|| "std".into()),
        seed: arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: arg(&args, "--tier").as_deref() == Some("thorough"),
        trace: arg(&args, "--trace"),
    };
    let threads: usize = if env.trace.is_some() { 1 } else { arg(&args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(4) };
    crate::core::quiet_panics();
    crate::core::watchdog(arg(&args, "--out").filter(|o| o != "/dev/null"));
    let mut reg = Reg { thorough: env.thorough, ..Default::default() };
    if !register(&prop, &env, &mut reg) {
        eprintln!("unknown property {prop}");
        std::process::exit(3);
    }
    if let Some(f) = arg(&args, "--replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        let s = reg.subs.iter().find(|s| s.name == v["sub"].as_str().unwrap()).expect("no such sub-check in this configuration");
        match (s.replay)(&v["case"]).expect("bad case") {
            Ok(v) => println!("PASS {:?}", v),
            Err(e) => {
                println!("FAIL {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let only = arg(&args, "--only");
    let pick = |s: &Sub| only.as_ref().map_or(true, |o| s.name.contains(o.as_str()));
    let out: Mutex<Vec<SubReport>> = Mutex::new(vec![]);
    let par: Vec<usize> = (0..reg.subs.len()).filter(|&i| !reg.subs[i].serial && pick(&reg.subs[i])).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut reg = Reg { thorough: env.thorough, ..Default::default() };
                    register(&env.prop, &env, &mut reg);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= par.len() {
                            break;
                        }
                        let r = (reg.subs[par[i]].run)(&env);
                        out.lock().unwrap().push(r);
                    }
                })
                .unwrap();
        }
    });
    for s in reg.subs.iter().filter(|s| s.serial && pick(s)) {
        let r = (s.run)(&env);
        out.lock().unwrap().push(r);
    }
    let mut reps = out.into_inner().unwrap();
    let order: Vec<String> = reg.subs.iter().map(|s| s.name.clone()).collect();
    reps.sort_by_key(|r| order.iter().position(|n| *n == r.sub));
    if let Some(o) = arg(&args, "--out") {
        std::fs::write(&o, serde_json::to_string(&reps).unwrap()).unwrap();
    }
    if args.iter().any(|a| a == "-v") {
        for r in &reps {
            println!(
                "{:<34} eval {:>7} nt {:>7} ratio {:.3} {:.1}s {:?}",
                r.sub, r.evaluations, r.distinct_nontrivial, r.max_ratio, r.secs, r.classes
            );
            if let Some(f) = &r.failure {
                println!("   FAIL {} case {}", f.reason, f.case);
            }
            if let Some(f) = &r.error {
                println!("   ERROR {f}");
            }
        }
    }
    let bad = reps.iter().any(|r| r.error.is_some());
    let fail = reps.iter().any(|r| r.failure.is_some());
    std::process::exit(if bad { 2 } else if fail { 1 } else { 0 });
}
