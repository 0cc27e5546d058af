//! C36: the two programs of kofft-bench, run as processes in a scratch folder.
#[path = "../../harness/src/core.rs"]
#[macro_use]
mod core;
#[path = "../../harness/src/runner.rs"]
mod runner;
use crate::core::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

static COUNT: AtomicUsize = AtomicUsize::new(0);
/// kofft-bench/ (the programs' working folder) next to benchmarks/
struct Dir(PathBuf);
impl Dir {
    fn new(with_results: bool) -> Result<Dir, String> {
        let k = COUNT.fetch_add(1, Ordering::SeqCst);
        let d = Dir(std::env::temp_dir().join(format!("vpb-{}-{k}", std::process::id())));
        std::fs::create_dir_all(d.0.join("kofft-bench")).map_err(|e| e.to_string())?;
        if with_results {
            std::fs::create_dir_all(d.0.join("benchmarks")).map_err(|e| e.to_string())?;
        }
        Ok(d)
    }
    fn file(&self, n: &str) -> PathBuf {
        self.0.join("benchmarks").join(n)
    }
    fn prog(&self, name: &str) -> Command {
        let exe = std::env::current_exe().unwrap().parent().unwrap().join(name);
        let mut c = Command::new(exe);
        c.current_dir(self.0.join("kofft-bench"));
        c.env("CARGO_TARGET_DIR", self.0.join("t")).env("CRITERION_HOME", self.0.join("t")).env_remove("RUSTFLAGS").env_remove("RUNNER_NAME");
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        c
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        if self.0.starts_with(std::env::temp_dir()) && self.0.file_name().is_some_and(|n| n.to_string_lossy().starts_with("vpb-")) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

const WORDS: &[&str] = &["local", "Intel(R) Xeon(R) Platinum 8370C CPU @ 2.80GHz", "-C target-cpu=native", "ci-7", "", "a \"quoted\" name", "back\\slash", "Größe π", "rustc 1.87.0 (17067e9ac 2025-05-09)", "T", "{}", "%s", "x  y"];
fn word(i: u8) -> &'static str {
    WORDS[i as usize % WORDS.len()]
}
const LIBS: &[(&str, &str, &str)] = &[
    ("kofft", "Complex", "Single"),
    ("kofft", "Complex", "Radix2"),
    ("kofft", "Complex", "Radix4"),
    ("kofft", "Complex", "SplitRadix"),
    ("kofft", "Complex", "Auto"),
    ("rustfft", "Complex", "Single"),
    ("kofft", "Real", "Direct"),
    ("kofft", "Real", "Packed"),
    ("realfft", "Real", "Single"),
];
/// criterion's names of the same nine measurements
const BENCH: &[&str] = &["kofft/single", "kofft/radix2", "kofft/radix4", "kofft/splitradix", "kofft/auto", "rustfft/single", "kofft/direct", "kofft/packed", "realfft/single"];

// ------------------------------------------------------------ the table program
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Row {
    what: u8,
    other: bool,
    size: usize,
    ns: f64,
    allocs: usize,
    peak: usize,
    prev: Option<f64>,
    best: bool,
}
fn row() -> impl Strategy<Value = Row> + Clone {
    let ns = prop_oneof![3 => 1f64..1e9, 1 => (0i32..=14, 1f64..10.0).prop_map(|(e, m)| m * 10f64.powi(e)), 1 => (1u64..=2_000_000_000).prop_map(|v| v as f64)];
    (any::<u8>(), any::<bool>(), prop_oneof![(0u32..=24).prop_map(|e| 1usize << e), 0usize..5_000_000], ns.clone(), 0usize..100, 0usize..1_000_000_000, prop::option::of(ns), any::<bool>())
        .prop_map(|(what, other, size, ns, allocs, peak, prev, best)| Row { what, other, size, ns, allocs, peak, prev, best })
}
impl Row {
    fn names(&self) -> (&'static str, &'static str, &'static str) {
        if self.other {
            [("kofft", "DCT-II", "fast"), ("kofft", "DCT-II", "slow"), ("kofft", "Complex", "Parallel"), ("fftw", "Haar", "Multi level")][self.what as usize % 4]
        } else {
            LIBS[self.what as usize % LIBS.len()]
        }
    }
    fn json(&self) -> Value {
        let (l, t, m) = self.names();
        let mut v = json!({"library": l, "transform": t, "size": self.size, "mode": m, "time_per_op_ns": self.ns, "ops_per_sec": 1e9 / self.ns, "allocations": self.allocs, "peak_bytes": self.peak, "_peak_bytes": self.peak});
        if let Some(p) = self.prev {
            v["prev_time_per_op_ns"] = json!(p);
            v["change_vs_prev"] = json!((p - self.ns) / p * 100.0);
        }
        v["best"] = json!(self.best);
        v
    }
}
/// The table program asks for `_os` and `_peak_bytes` where the bench program
/// writes `os` and `peak_bytes` (an open finding, see `own-results`): with both
/// names in the file everything else can be judged.
fn both_names(v: &mut Value) {
    let os = v["env"]["os"].clone();
    v["env"]["_os"] = os;
    for r in v["results"].as_array_mut().into_iter().flatten() {
        let p = r["peak_bytes"].clone();
        r["_peak_bytes"] = p;
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Table {
    env: [u8; 5],
    date: (u16, u8, u8, u32),
    rows: Vec<Row>,
    before: u8,
    old: u8,
    after: u8,
    compact: bool,
}
fn table(n: usize) -> impl Strategy<Value = Table> + Clone {
    (any::<[u8; 5]>(), (2020u16..2100, 1u8..=12, 1u8..=28, any::<u32>()), prop::collection::vec(row(), 0..n), any::<u8>(), any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(env, date, rows, before, old, after, compact)| Table { env, date, rows, before, old, after, compact })
}
const START: &str = "<!-- BENCH_START -->";
const END: &str = "<!-- BENCH_END -->";
const TEXT: &[&str] = &["", "# Benchmarks\n\n", "x", "größer 10 µs → ok\n", "\n\n\n", "| a | b |\n| --- | --- |\r\n", "no line end <!-- BENCH -->"];
fn text(i: u8) -> String {
    // sometimes long
    TEXT[i as usize % TEXT.len()].repeat(1 + (i as usize / TEXT.len()) % 5 * 40)
}
impl Table {
    fn stamp(&self) -> (String, String) {
        let (y, m, d, s) = self.date;
        let day = format!("{y:04}-{m:02}-{d:02}");
        (format!("{day}T{:02}:{:02}:{:02}.{:09}+00:00", s % 24, s / 24 % 60, s / 1440 % 60, s), day)
    }
    fn json(&self) -> Vec<u8> {
        let v = json!({"env": {"cpu": word(self.env[0]), "os": word(self.env[1]), "_os": word(self.env[1]), "rustc": word(self.env[2]), "flags": word(self.env[3]), "date": self.stamp().0, "runner": word(self.env[4])}, "results": self.rows.iter().map(|r| r.json()).collect::<Vec<_>>()});
        if self.compact { serde_json::to_vec(&v).unwrap() } else { serde_json::to_vec_pretty(&v).unwrap() }
    }
    fn old_table(&self) -> String {
        match self.old % 4 {
            0 => String::new(),
            1 => "\n".into(),
            2 => "\nLast run: never\n\n| Library |\n| --- |\n| kofft |\n".repeat(1 + self.old as usize / 4),
            _ => "old".into(),
        }
    }
}
/// cells of a row of a markdown table, None for other lines
fn cells(l: &str) -> Option<Vec<String>> {
    let l = l.trim();
    let b = l.strip_prefix('|')?.strip_suffix('|')?;
    Some(b.split('|').map(|c| c.trim().to_string()).collect())
}
fn check_table(new: &str, v: &Value, day: &str) -> Result<(), String> {
    let env = &v["env"];
    let lines: Vec<&str> = new.lines().filter(|l| !l.trim().is_empty()).collect();
    ensure!(!lines.is_empty(), "no table was written");
    for k in ["date", "runner", "rustc", "flags", "cpu"] {
        ensure!(lines[0].contains(env[k].as_str().unwrap().trim()), "the summary line lacks the {k}: {}", lines[0]);
    }
    let rows: Vec<Vec<String>> = lines.iter().skip(1).filter_map(|l| cells(l)).collect();
    let res = v["results"].as_array().unwrap();
    ensure!(rows.len() == res.len() + 2 && lines.len() == rows.len() + 1, "{} table lines for {} results", rows.len(), res.len());
    ensure!(rows[1].iter().all(|c| !c.is_empty() && c.chars().all(|x| x == '-' || x == ':')), "no rule below the headings");
    ensure!(rows.iter().all(|r| r.len() == rows[0].len()), "rows of different widths");
    let col = |name: &str| rows[0].iter().position(|h| h.to_lowercase().starts_with(name)).ok_or(format!("no column {name}"));
    let (lib, tr, sz, md, tm, op, al, dt) = (col("library")?, col("transform")?, col("size")?, col("mode")?, col("time")?, col("ops")?, col("alloc")?, col("date")?);
    for (i, r) in res.iter().enumerate() {
        let c = &rows[i + 2];
        for (k, at) in [("library", lib), ("transform", tr), ("mode", md)] {
            ensure!(c[at] == r[k].as_str().unwrap(), "row {i}: {k} is {:?}, not {}", c[at], r[k]);
        }
        ensure!(c[sz] == r["size"].to_string() && c[al] == r["allocations"].to_string(), "row {i}: size or allocations of {c:?} for {r}");
        let ms: f64 = c[tm].strip_suffix("ms").ok_or("time without its unit")?.trim().parse().map_err(|_| format!("row {i}: time {:?}", c[tm]))?;
        let want = r["time_per_op_ns"].as_f64().unwrap() / 1e6;
        ensure!((ms - want).abs() <= 0.000501 + want * 1e-12, "row {i}: {ms} ms shown for {want} ms");
        let ops: f64 = c[op].parse().map_err(|_| format!("row {i}: ops {:?}", c[op]))?;
        let want = r["ops_per_sec"].as_f64().unwrap();
        ensure!((ops - want).abs() <= 0.00501 + want * 1e-12, "row {i}: {ops} operations a second shown for {want}");
        let runner = env["runner"].as_str().unwrap();
        ensure!(c[dt].starts_with(day) && c[dt].contains(runner.trim()), "row {i}: date and runner {:?}", c[dt]);
    }
    Ok(())
}
fn readme_parts<'a>(s: &'a str, pre: &str, post: &str) -> Result<&'a str, String> {
    let r = s.strip_prefix(pre).ok_or("text before the table changed")?;
    let r = r.strip_prefix(START).ok_or("the start marker is gone")?;
    let r = r.strip_suffix(post).ok_or("text after the table changed")?;
    r.strip_suffix(END).ok_or_else(|| "the end marker is gone".into())
}
fn rewritten(c: &Table) -> Res {
    let d = Dir::new(true)?;
    let js = c.json();
    std::fs::write(d.file("latest.json"), &js).map_err(|e| e.to_string())?;
    let (pre, post) = (text(c.before), text(c.after));
    std::fs::write(d.file("README.md"), format!("{pre}{START}{}{END}{post}", c.old_table())).map_err(|e| e.to_string())?;
    let st = d.prog("bench-readme").status().map_err(|e| e.to_string())?;
    ensure!(st.success(), "the table program ends with {st} on a file of results");
    let got = std::fs::read_to_string(d.file("README.md")).map_err(|e| e.to_string())?;
    let v: Value = serde_json::from_slice(&js).unwrap();
    check_table(readme_parts(&got, &pre, &post)?, &v, &c.stamp().1)?;
    ensure!(std::fs::read(d.file("latest.json")).ok() == Some(js), "the results were changed");
    // again: nothing changes
    let st = d.prog("bench-readme").status().map_err(|e| e.to_string())?;
    ensure!(st.success() && std::fs::read_to_string(d.file("README.md")).ok() == Some(got), "a second run changes the text");
    Ok(if c.rows.is_empty() { triv("no results") } else { nt(format!("{} rows", if c.rows.len() > 8 { "many" } else { "few" })) })
}
/// the folder cannot be used: an error, and nothing is touched
fn table_refused(c: &(Table, u8, usize)) -> Res {
    let (t, kind, cut) = c;
    let d = Dir::new(true)?;
    let js = t.json();
    let (pre, post) = (text(t.before), text(t.after));
    let whole = format!("{pre}{START}{}{END}{post}", t.old_table());
    let (mut results, mut readme, mut fine) = (Some(js.clone()), Some(whole), false);
    let class = match kind % 6 {
        0 => {
            results = None;
            "no results"
        }
        1 => {
            results = Some(js[..cut % js.len()].to_vec());
            "cut results"
        }
        2 => {
            results = Some(b"[1, 2".to_vec());
            "damaged results"
        }
        3 => {
            readme = None;
            "no text"
        }
        4 => {
            readme = Some(format!("{pre}{post}"));
            fine = true;
            "no markers"
        }
        _ => {
            readme = Some(format!("{pre}{}{post}", if cut % 2 == 0 { START } else { END }));
            fine = true;
            "one marker"
        }
    };
    if let Some(x) = &results {
        std::fs::write(d.file("latest.json"), x).map_err(|e| e.to_string())?;
    }
    if let Some(x) = &readme {
        std::fs::write(d.file("README.md"), x).map_err(|e| e.to_string())?;
    }
    let st = d.prog("bench-readme").status().map_err(|e| e.to_string())?;
    ensure!(st.code().is_some_and(|c| c != 101), "the table program crashes ({st}): {class}");
    ensure!(st.success() == fine, "the table program ends with {st}: {class}");
    ensure!(std::fs::read_to_string(d.file("README.md")).ok() == readme, "the text was touched: {class}");
    Ok(nt(class))
}

// ------------------------------------------------------------ the bench program
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Run {
    powers: Vec<u8>,
    style: u8,
    /// one measurement only, by its name
    filter: Option<u8>,
    flags: Option<u8>,
    runner: Option<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    first: Option<Table>,
    damaged: Option<u16>,
    with_dir: bool,
    runs: Vec<Run>,
    table: bool,
}
fn run() -> impl Strategy<Value = Run> + Clone {
    (prop::collection::vec(1u8..=9, 0..4), any::<u8>(), prop_oneof![2 => Just(None), 1 => (0u8..9).prop_map(Some)], prop::option::of(any::<u8>()), prop::option::of(any::<u8>())).prop_map(|(powers, style, filter, flags, runner)| Run { powers, style, filter, flags, runner })
}
fn history() -> impl Strategy<Value = History> + Clone {
    let small = (table(20), any::<u8>()).prop_map(|(mut t, k)| {
        // results of the same program: each measurement once
        t.rows.iter_mut().for_each(|r| r.size = 1 << (1 + r.size % 9));
        let mut seen = std::collections::HashSet::new();
        t.rows.retain(|r| seen.insert((r.names(), r.size)));
        if k % 8 == 0 {
            t.rows.clear();
        }
        t
    });
    (prop::option::of(small), prop_oneof![5 => Just(None), 1 => any::<u16>().prop_map(Some)], any::<bool>(), prop::collection::vec(run(), 1..=3), any::<bool>()).prop_map(|(first, damaged, with_dir, runs, table)| History { first, damaged, with_dir, runs, table })
}
impl Run {
    fn var(&self) -> String {
        let mut o = String::new();
        for (i, p) in self.powers.iter().enumerate() {
            let junk = ["", "x,", " ", "-3,", ",", "2.5,"][(self.style as usize + i) % 6];
            o += &format!("{junk}{p}{},", if self.style & 8 != 0 { " " } else { "" });
        }
        if self.style & 16 == 0 {
            o.pop();
        }
        o
    }
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}
fn history_ok(h: &History) -> Res {
    let d = Dir::new(h.with_dir || h.first.is_some())?;
    let mut old: Option<Vec<u8>> = h.first.as_ref().map(|t| t.json());
    if let (Some(o), Some(k)) = (old.as_mut(), h.damaged) {
        let at = k as usize % o.len();
        o.truncate(at);
    }
    let (latest, previous) = (d.file("latest.json"), d.file("previous.json"));
    if let Some(o) = &old {
        std::fs::write(&latest, o).map_err(|e| e.to_string())?;
    }
    let mut kept: Option<Vec<u8>> = None;
    let (mut compared, mut measured) = (false, false);
    for r in &h.runs {
        let mut c = d.prog("bench-fft");
        c.args(["--bench", "--test"]).env("KOFFT_BENCH_POWERS", r.var());
        if let Some(f) = r.filter {
            c.arg(BENCH[f as usize]);
        }
        if let Some(k) = r.flags {
            c.env("RUSTFLAGS", word(k));
        }
        if let Some(k) = r.runner {
            c.env("RUNNER_NAME", word(k));
        }
        let st = c.status().map_err(|e| e.to_string())?;
        ensure!(st.success(), "the bench program ends with {st} for the powers {:?}", r.var());
        let new = std::fs::read(&latest).map_err(|e| format!("no results: {e}"))?;
        let v: Value = serde_json::from_slice(&new).map_err(|e| format!("unreadable results: {e}"))?;
        // what the run before left
        let was: Option<Value> = old.as_ref().and_then(|o| serde_json::from_slice(o).ok()).filter(|v: &Value| v["results"].is_array());
        if was.is_some() {
            kept = old.clone();
        }
        ensure!(std::fs::read(&previous).ok() == kept, "previous.json does not hold the results of the run before");
        ensure!(v["env"]["flags"] == json!(r.flags.map_or("", word)) && v["env"]["runner"] == json!(r.runner.map_or("local", word)), "flags and runner recorded as {}", v["env"]);
        ensure!(v["env"]["date"].as_str().is_some_and(|s| s.len() >= 20 && s.as_bytes()[10] == b'T'), "date recorded as {}", v["env"]["date"]);
        let res = v["results"].as_array().ok_or("no list of results")?;
        // each measurement once
        let mut want: Vec<(String, String, String, u64)> = Vec::new();
        for p in &r.powers {
            for (i, (l, t, m)) in LIBS.iter().enumerate() {
                if r.filter.is_none_or(|f| f as usize == i) {
                    want.push((l.to_string(), t.to_string(), m.to_string(), 1 << p));
                }
            }
        }
        let key = |x: &Value| (x["library"].as_str().unwrap_or("").to_string(), x["transform"].as_str().unwrap_or("").to_string(), x["mode"].as_str().unwrap_or("").to_string(), x["size"].as_u64().unwrap_or(0));
        let mut got: Vec<_> = res.iter().map(key).collect();
        want.sort();
        got.sort();
        ensure!(got == want, "measurements {got:?} recorded instead of {want:?}");
        for x in res {
            let k = key(x);
            let ns = x["time_per_op_ns"].as_f64().unwrap_or(-1.0);
            ensure!(ns > 0.0 && near(x["ops_per_sec"].as_f64().unwrap_or(0.0) * ns, 1e9), "{k:?}: {ns} ns but {} operations a second", x["ops_per_sec"]);
            ensure!(x["allocations"].as_u64().is_some_and(|a| a < 10_000), "{k:?}: {} allocations", x["allocations"]);
            // a transform of a few hundred points needs no more than some hundred kilobytes;
            // a counter wrapped below zero is the second open finding
            ensure!(x["peak_bytes"].as_u64().is_some_and(|a| (a < 1 << 24 || a > 1 << 60) && (a > 0 || x["allocations"] == json!(0))), "{k:?}: a peak of {} bytes with {} allocations", x["peak_bytes"], x["allocations"]);
            let before = was.as_ref().and_then(|w| w["results"].as_array().unwrap().iter().rev().find(|y| key(y) == k)).and_then(|y| y["time_per_op_ns"].as_f64());
            match before {
                Some(b) => {
                    compared = true;
                    ensure!(x["prev_time_per_op_ns"].as_f64().is_some_and(|p| near(p, b)), "{k:?}: previous time {} instead of {b}", x["prev_time_per_op_ns"]);
                    let ch = (b - ns) / b * 100.0;
                    ensure!(x["change_vs_prev"].as_f64().is_some_and(|p| (p - ch).abs() <= 1e-6 * (1.0 + ch.abs())), "{k:?}: change {} instead of {ch}", x["change_vs_prev"]);
                }
                None => ensure!(x["prev_time_per_op_ns"].is_null() && x["change_vs_prev"].is_null(), "{k:?}: compared with a measurement that does not exist"),
            }
            let best = res.iter().filter(|y| y["transform"] == x["transform"] && y["size"] == x["size"]).map(|y| y["time_per_op_ns"].as_f64().unwrap_or(0.0)).fold(f64::INFINITY, f64::min);
            ensure!(x["best"] == json!(near(best, ns)) || (near(best, ns) && best != ns), "{k:?}: best is {} with {ns} ns, the best of its group takes {best}", x["best"]);
            measured = true;
        }
        for w in res.windows(2) {
            let o = |x: &Value| (x["transform"].as_str().unwrap().to_string(), x["size"].as_u64().unwrap());
            ensure!(o(&w[0]) < o(&w[1]) || (o(&w[0]) == o(&w[1]) && w[0]["time_per_op_ns"].as_f64() <= w[1]["time_per_op_ns"].as_f64()), "results out of order: {} before {}", w[0], w[1]);
        }
        old = Some(new);
    }
    if h.table {
        // the table of what was just measured
        let (pre, post) = ("before\n", "\nafter\n");
        std::fs::write(d.file("README.md"), format!("{pre}{START}{END}{post}")).map_err(|e| e.to_string())?;
        let mut v: Value = serde_json::from_slice(&old.unwrap()).unwrap();
        both_names(&mut v);
        std::fs::write(&latest, serde_json::to_vec(&v).unwrap()).map_err(|e| e.to_string())?;
        let st = d.prog("bench-readme").status().map_err(|e| e.to_string())?;
        ensure!(st.success(), "the table program ends with {st} on the bench program's results");
        let got = std::fs::read_to_string(d.file("README.md")).map_err(|e| e.to_string())?;
        let day = v["env"]["date"].as_str().unwrap()[..10].to_string();
        check_table(readme_parts(&got, pre, post)?, &v, &day)?;
    }
    Ok(if compared { nt("compared with an earlier run") } else if measured { nt("first run") } else { triv("nothing measured") })
}

/// the files the repository itself carries
fn own_files(_: &u8) -> Res {
    let d = Dir::new(true)?;
    let repo = Path::new("/repo/benchmarks");
    let js = std::fs::read(repo.join("latest.json")).map_err(|e| e.to_string())?;
    let Ok(text) = std::fs::read_to_string(repo.join("README.md")) else { return Ok(triv("no README")) };
    let (Some(s), Some(e)) = (text.find(START), text.find(END)) else { return Ok(triv("no markers")) };
    std::fs::write(d.file("latest.json"), &js).map_err(|e| e.to_string())?;
    std::fs::write(d.file("README.md"), &text).map_err(|e| e.to_string())?;
    let st = d.prog("bench-readme").status().map_err(|e| e.to_string())?;
    ensure!(st.success(), "the table program ends with {st} on the repository's own results");
    let got = std::fs::read_to_string(d.file("README.md")).map_err(|e| e.to_string())?;
    let v: Value = serde_json::from_slice(&js).map_err(|e| e.to_string())?;
    let day = v["env"]["date"].as_str().unwrap_or("").split('T').next().unwrap_or("").to_string();
    check_table(readme_parts(&got, &text[..s], &text[e + END.len()..])?, &v, &day)?;
    Ok(nt("own files"))
}

fn register(p: &str, _env: &Env, r: &mut Reg) -> bool {
    if p != "C36" {
        return false;
    }
    r.prop("own-results", "the repository carries results and a table", 1, Just(0u8), own_files);
    r.prop("table", "at least one result", 400, table(30), rewritten);
    r.prop("table-long", "at least one result", 40, table(600), rewritten);
    r.prop("table-refused", "every case", 300, (table(6), any::<u8>(), any::<usize>()).prop_map(|(t, k, c)| (t, k, c)), table_refused);
    r.prop("run-history", "something was measured", 120, history(), history_ok);
    true
}
fn main() {
    runner::main(register)
}
