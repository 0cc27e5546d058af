//! C30: the build helper.
use crate::core::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::process::Command;
use std::sync::Mutex;
use xtask::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Host {
    arch: String,
    flags: Vec<String>,
    nproc: usize,
    extra: Vec<String>,
    /// white space between the extra features
    sep: u8,
}
const ARCHS: &[&str] = &["x86_64", "aarch64", "arm64", "riscv64", "i686", "armv7l", "ppc64le", "s390x", "", "wasm32", "aarch64_be", "loongarch64", "x86_64h"];
const FLAGS: &[&str] = &["fpu", "sse", "sse2", "ssse3", "sse4_1", "sse4_2", "avx", "avx2", "fma", "avx512f", "avx512vl", "avx512bw", "avx512dq", "asimd", "neon", "sve", "bmi2", "amx_tile", "avx_vnni", "sse4a"];
const EXTRA: &[&str] = &["parallel", "simd", "soa", "x86_64", "avx2", "avx512", "sse", "aarch64", "slow", "compile-time-rfft", "precomputed-twiddles", "std", "wasm", "kofft/simd", "s", "par", "parallel2", "-", "ünï"];
pub fn host() -> impl Strategy<Value = Host> + Clone {
    let pick = |v: &'static [&'static str]| prop::sample::select(v).prop_map(|s| s.to_string());
    (
        prop_oneof![5 => Just("x86_64".to_string()), 2 => Just("aarch64".to_string()), 4 => pick(ARCHS)],
        proptest::collection::vec(pick(FLAGS), 0..7),
        prop_oneof![2 => Just(1usize), 1 => Just(0usize), 4 => 2usize..=256],
        proptest::collection::vec(pick(EXTRA), 0..6),
        any::<u8>(),
    )
        .prop_map(|(arch, flags, nproc, extra, sep)| Host { arch, flags, nproc, extra, sep })
}
impl Host {
    fn extra_text(&self) -> String {
        let sep = [" ", "  ", "\t", "\n", " \t "][self.sep as usize % 5];
        let mut s = self.extra.join(sep);
        if self.sep & 0x40 != 0 {
            s = format!("{sep}{s}{sep}");
        }
        s
    }
    fn flags_text(&self) -> String {
        let lead = ["Flags:    ", "flags\t\t: ", "", "machdep.cpu.features: "][self.sep as usize / 8 % 4];
        format!("{lead}{}", self.flags.join(" "))
    }
    fn has(&self, f: &str) -> bool {
        self.flags.iter().any(|x| x == f)
    }
    /// what the documentation promises: features in order of appearance, RUSTFLAGS, example
    fn want(&self) -> (Vec<String>, Option<String>, String) {
        let mut f: Vec<String> = vec![];
        let mut rf = None;
        if self.arch.contains("x86_64") {
            f.push("x86_64".into());
            if self.has("avx512f") {
                f.push("avx512".into());
                rf = Some("-C target-feature=+avx512f,+fma".to_string());
            } else if self.has("avx2") {
                f.push("avx2".into());
                rf = Some("-C target-feature=+avx2,+fma".to_string());
            } else if self.has("sse4_1") {
                f.push("sse".into());
            }
        } else if self.arch.contains("aarch64") || self.arch.contains("arm64") {
            f.push("aarch64".into());
        }
        if self.nproc > 1 {
            f.push("parallel".into());
        }
        for e in &self.extra {
            if !f.contains(e) {
                f.push(e.clone());
            }
        }
        let ex = if f.iter().any(|x| x == "parallel") { "parallel_benchmark" } else { "benchmark" };
        (f, rf, ex.to_string())
    }
}
fn sorted(v: &[String]) -> Vec<String> {
    let mut v = v.to_vec();
    v.sort();
    v
}
fn check_cfg(what: &str, cfg: &BuildConfig, h: &Host) -> Result<(), String> {
    let (f, rf, ex) = h.want();
    ensure!(sorted(&cfg.features) == sorted(&f), "{what}: features {:?} instead of {f:?}", cfg.features);
    ensure!(cfg.rustflags == rf, "{what}: RUSTFLAGS {:?} instead of {rf:?}", cfg.rustflags);
    ensure!(cfg.example == ex, "{what}: example {} instead of {ex}", cfg.example);
    Ok(())
}
fn compute(h: &Host) -> Res {
    let cfg = no_panic("compute_config", || compute_config(&h.arch, &h.flags_text(), h.nproc, &h.extra_text()))?;
    check_cfg("compute_config", &cfg, h)?;
    let arg = cfg.features_arg();
    ensure!(arg.is_none() == cfg.features.is_empty(), "features_arg {arg:?} for {:?}", cfg.features);
    if let Some(a) = arg {
        let got: Vec<String> = a.split([' ', ',']).map(|s| s.to_string()).collect();
        ensure!(got == cfg.features, "features_arg {a:?} for {:?}", cfg.features);
    }
    Ok(if h.want().0.len() > 1 { nt("two or more features") } else { triv("at most one feature") })
}
#[derive(Debug, PartialEq, Clone)]
struct Call {
    prog: String,
    args: Vec<String>,
    rustflags: Option<String>,
}
fn of(c: &Command) -> Call {
    Call {
        prog: c.get_program().to_string_lossy().into(),
        args: c.get_args().map(|a| a.to_string_lossy().into_owned()).collect(),
        rustflags: c.get_envs().find(|(k, _)| *k == "RUSTFLAGS").and_then(|(_, v)| v.map(|v| v.to_string_lossy().into_owned())),
    }
}
/// A cargo call: its sub-command and options, the features it carries in any accepted spelling.
fn judge(what: &str, c: &Call, sub: &str, must: &[&str], cfg: Option<(&[String], Option<&String>)>) -> Result<(), String> {
    ensure!(c.prog == "cargo", "{what} runs {}", c.prog);
    ensure!(c.args.first().map(|s| s.as_str()) == Some(sub), "{what} runs cargo {:?}", c.args);
    let mut feats: Vec<String> = vec![];
    let mut rest = vec![];
    let mut i = 1;
    while i < c.args.len() {
        let a = &c.args[i];
        let val = if a == "--features" || a == "-F" {
            i += 1;
            c.args.get(i).cloned()
        } else {
            a.strip_prefix("--features=").map(|s| s.to_string())
        };
        match val {
            Some(v) => feats.extend(v.split([' ', ',']).filter(|s| !s.is_empty()).map(|s| s.to_string())),
            None => rest.push(a.clone()),
        }
        i += 1;
    }
    for m in must {
        ensure!(rest.iter().any(|r| r == m), "{what} lacks {m}: cargo {:?}", c.args);
    }
    match cfg {
        Some((f, rf)) => {
            ensure!(sorted(&feats) == sorted(f), "{what} carries the features {feats:?} instead of {f:?}");
            ensure!(c.rustflags.as_ref() == rf, "{what} sets RUSTFLAGS {:?} instead of {rf:?}", c.rustflags);
        }
        None => ensure!(feats.is_empty(), "{what} carries features {feats:?}"),
    }
    Ok(())
}
fn judge_named(name: &str, c: &Call, f: &[String], rf: Option<&String>, ex: &str) -> Result<(), String> {
    match name {
        "build" => judge(name, c, "build", &[], Some((f, None))),
        "test" => judge(name, c, "test", &[], Some((f, None))),
        "clippy" => judge(name, c, "clippy", &["--all-targets", "--all-features"], None),
        "fmt" => judge(name, c, "fmt", &["--all"], None),
        "benchmark" => judge(name, c, "run", &["--example", ex, "--release"], Some((f, rf))),
        "bench-libs" => judge(name, c, "bench", &["--manifest-path", "kofft-bench/Cargo.toml"], Some((f, rf))),
        _ => judge(name, c, "run", &["--manifest-path", "kofft-bench/Cargo.toml", "--example", "update_bench_readme"], Some((f, rf))),
    }
}
fn commands(h: &Host) -> Res {
    let (f, rf, ex) = h.want();
    // any configuration, not only computed ones
    let cfg = BuildConfig { features: f.clone(), rustflags: rf.clone(), example: ex.clone() };
    for (n, c) in [
        ("build", build_command(&cfg)),
        ("test", test_command(&cfg)),
        ("clippy", clippy_command()),
        ("fmt", fmt_command()),
        ("benchmark", benchmark_command(&cfg)),
        ("bench-libs", bench_libs_command(&cfg)),
        ("update-bench-readme", update_bench_readme_command(&cfg)),
    ] {
        judge_named(n, &of(&c), &f, rf.as_ref(), &ex)?;
    }
    let (i, o) = (format!("in {}.wav", h.sep), format!("-out{}.png", h.nproc));
    let c = of(&sanity_command(&i, &o));
    check_sanity(&c, &i, &o)?;
    Ok(if f.len() > 1 { nt("two or more features") } else { triv("at most one feature") })
}
fn check_sanity(c: &Call, i: &str, o: &str) -> Result<(), String> {
    ensure!(c.prog == "cargo" && c.args.first().map(|s| s.as_str()) == Some("run") && c.args.iter().any(|a| a == "sanity-check"), "sanity runs {} {:?}", c.prog, c.args);
    let p = c.args.iter().position(|a| a == "--").ok_or("sanity: no --")?;
    ensure!(c.args[p + 1..] == [i.to_string(), o.to_string()], "sanity passes {:?} instead of {:?}", &c.args[p + 1..], [i, o]);
    Ok(())
}

// ---- the command-line program with stand-ins for every program it starts -----
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Run {
    host: Host,
    cmd: u8,
    arch_env: Option<u8>,
    /// lscpu: 0 missing, 1 fails to list flags, 2 lists them
    lscpu: u8,
    status: u8,
    fail_at: u8,
}
static GATE: Mutex<()> = Mutex::new(());
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
const CMDS: &[&str] = &["build", "test", "clippy", "fmt", "analyze", "benchmark", "bench-libs", "update-bench-readme", "web-spectrogram", "sanity"];
fn cli(c: &Run) -> Res {
    let _g = GATE.lock().unwrap_or_else(|e| e.into_inner());
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.parent().unwrap().join("xtask-cli");
    let dir = Dir(std::env::temp_dir().join(format!("vpt-xtask-{}", std::process::id())));
    let bin = dir.0.join("bin");
    std::fs::create_dir_all(&bin).map_err(|e| e.to_string())?;
    let script = |name: &str, body: &str| -> Result<(), String> {
        use std::os::unix::fs::PermissionsExt;
        let p = bin.join(name);
        std::fs::write(&p, format!("#!/bin/sh\n{body}\n")).map_err(|e| e.to_string())?;
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).map_err(|e| e.to_string())
    };
    let log = dir.0.join("log");
    // records each call: program, RUSTFLAGS, arguments
    for p in ["cargo", "sh", "rustup", "wasm-pack"] {
        script(p, &format!("{{ printf 'P\\0%s\\0' {p}; printf 'R\\0%s\\0' \"${{RUSTFLAGS-unset}}\"; for a in \"$@\"; do printf 'A\\0%s\\0' \"$a\"; done; printf 'E\\0\\0'; }} >> '{}'\nn=0\nif [ -f '{}' ]; then read n < '{}'; fi\nn=$((n+1))\necho $n > '{}'\nif [ $n -gt {} ]; then exit {}; fi\nexit 0", log.display(), dir.0.join("n").display(), dir.0.join("n").display(), dir.0.join("n").display(), c.fail_at % 3, c.status))?;
    }
    script("uname", &format!("echo '{}'", c.host.arch))?;
    match c.lscpu % 3 {
        0 => {}
        1 => script("lscpu", "echo 'Architecture: x'")?,
        _ => script("lscpu", &format!("echo 'Architecture: {}'\necho 'Flags:   {}'", c.host.arch, c.host.flags.join(" ")))?,
    }
    if c.lscpu % 3 != 2 && c.host.sep % 2 == 0 {
        script("sysctl", &format!("echo '{}'", c.host.flags.join(" ")))?;
    }
    let name = CMDS[c.cmd as usize % CMDS.len()];
    let mut cmd = Command::new(&exe);
    cmd.env_clear().env("PATH", &bin).current_dir(&dir.0).arg(name).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    let (i, o) = ("in put.wav", "out.png");
    if name == "sanity" {
        cmd.args([i, o]);
    }
    cmd.env("KOFFT_FEATURES", c.host.extra_text());
    let mut h = c.host.clone();
    match c.arch_env {
        // an override, a blank override (ignored)
        Some(k) => {
            let a = ["aarch64", "x86_64", "  ", "", "arm64", "riscv64"][k as usize % 6];
            cmd.env("ARCH", a);
            if !a.trim().is_empty() {
                h.arch = a.into();
            }
        }
        None => {}
    }
    if c.lscpu % 3 == 1 && c.host.sep % 2 != 0 || c.lscpu % 3 == 0 && c.host.sep % 2 != 0 {
        h.flags.clear();
    }
    h.nproc = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    let st = cmd.status().map_err(|e| format!("cannot start the xtask program: {e}"))?;
    let raw = std::fs::read(&log).unwrap_or_default();
    let mut calls: Vec<Call> = vec![];
    let mut it = raw.split(|b| *b == 0).map(|b| String::from_utf8_lossy(b).into_owned());
    while let (Some(k), Some(v)) = (it.next(), it.next()) {
        match k.as_str() {
            "P" => calls.push(Call { prog: v, args: vec![], rustflags: None }),
            "R" => calls.last_mut().unwrap().rustflags = if v == "unset" { None } else { Some(v) },
            "A" => calls.last_mut().unwrap().args.push(v),
            _ => {}
        }
    }
    let (f, rf, ex) = h.want();
    let ok_first = c.fail_at % 3 > 0;
    let want_n = if name == "analyze" && (ok_first || c.status == 0) { 2 } else { 1 };
    ensure!(calls.len() == want_n, "xtask {name} started {} programs instead of {want_n}: {calls:?}", calls.len());
    match name {
        "analyze" => {
            judge_named("fmt", &calls[0], &f, rf.as_ref(), &ex)?;
            if want_n == 2 {
                judge_named("clippy", &calls[1], &f, rf.as_ref(), &ex)?;
            }
        }
        "sanity" => check_sanity(&calls[0], i, o)?,
        "web-spectrogram" => ensure!(calls[0].prog == "sh", "web-spectrogram runs {}", calls[0].prog),
        n => judge_named(n, &calls[0], &f, rf.as_ref(), &ex)?,
    }
    let last_fails = want_n > (c.fail_at % 3) as usize;
    let want = if last_fails { c.status as i32 } else { 0 };
    ensure!(st.code() == Some(want), "xtask {name} ends with {st} after its program ended with {want}");
    Ok(nt(name))
}
pub fn c30(r: &mut Reg) {
    r.prop("configuration", "two or more features selected", 40_000, host(), compute);
    r.prop("commands", "two or more features selected", 8_000, host(), commands);
    r.prop_serial(
        "command-line",
        "every case",
        400,
        (host(), any::<u8>(), prop::option::of(any::<u8>()), any::<u8>(), prop_oneof![Just(0u8), Just(1), Just(101), 2u8..=120], any::<u8>()).prop_map(|(host, cmd, arch_env, lscpu, status, fail_at)| Run { host, cmd, arch_env, lscpu, status, fail_at }),
        cli,
    );
}
