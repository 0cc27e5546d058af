//! C31: the page script and the service worker, run by node against stand-ins
//! for the browser (worker.mjs, gl.mjs).
use crate::core::*;
use kofft::visual::spectrogram as sp;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Node {
    fn start() -> Result<Node, String> {
        let mut child = Command::new("node")
            .arg(concat!(env!("CARGO_MANIFEST_DIR"), "/worker.mjs"))
            .arg(crate::server::WEB)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("cannot start node: {e}"))?;
        Ok(Node { to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()), child })
    }
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}
fn ask(q: serde_json::Value) -> Res {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            *n = Some(Node::start()?);
        }
        let p = n.as_mut().unwrap();
        let mut line = String::new();
        let sent = writeln!(p.to, "{q}").and_then(|_| p.to.flush()).and_then(|_| p.from.read_line(&mut line));
        if sent.is_err() || line.is_empty() {
            *n = None;
            return Err("the page script does not load or does not answer".to_string());
        }
        let v: serde_json::Value = serde_json::from_str(&line).map_err(|e| e.to_string())?;
        if let Some(e) = v["err"].as_str() {
            return Err(e.to_string());
        }
        if let Some(s) = v["skip"].as_str() {
            return Ok(triv(format!("not judged: {s}")));
        }
        let c = v["class"].as_str().unwrap_or("");
        Ok(if matches!(c, "square or line" | "nothing stored") { triv(c) } else { nt(c) })
    })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pic {
    w: usize,
    h: usize,
    seed: u64,
    map: u8,
    gpu: bool,
    loud: i8,
}
impl Pic {
    fn mags(&self) -> (Vec<f32>, f32) {
        let mut s = self.seed;
        let top = (self.loud as f32).exp2();
        let m: Vec<f32> = (0..self.w * self.h)
            .map(|_| {
                let u = (splitmix(&mut s) >> 40) as f32 / (1u64 << 24) as f32;
                match splitmix(&mut s) % 8 {
                    0 => 0.0,
                    1 => top,
                    2 => top * u,
                    // spread over the range of decibels
                    _ => top * 10f32.powf(-4.6 * u),
                }
            })
            .collect();
        let top = m.iter().fold(f32::MIN_POSITIVE, |a, b| a.max(*b));
        (m, top)
    }
}
fn pic(max: usize) -> impl Strategy<Value = Pic> + Clone {
    (1..=max, 1..=max, any::<u64>(), 0u8..7, any::<bool>(), -20i8..20).prop_map(|(w, h, seed, map, gpu, loud)| Pic { w, h, seed, map, gpu, loud })
}
fn canvas(c: &Pic) -> Res {
    let (m, top) = c.mags();
    ask(json!({"op": "canvas", "w": c.w, "h": c.h, "mags": m, "max": top, "map": c.map, "gpu": c.gpu}))
}
fn gl(c: &Pic) -> Res {
    let (m, top) = c.mags();
    let want: Vec<u8> = m.iter().flat_map(|v| sp::color_from_magnitude_u8(*v, top, -80.0, sp::Colormap::Rainbow)).collect();
    ask(json!({"op": "gl", "w": c.w, "h": c.h, "mags": m, "max": top, "want": want}))
}
fn page(c: &Pic) -> Res {
    let (m, top) = c.mags();
    let mut s = c.seed ^ 77;
    let x: Vec<f32> = (0..(splitmix(&mut s) % 40) + 1).map(|_| (splitmix(&mut s) % 2001) as f32 / 1000.0 - 1.0).collect();
    ask(json!({"op": "page", "w": c.w, "h": c.h, "mags": m, "max": top, "samples": x}))
}
fn db(c: &(f64, f64)) -> Res {
    ask(json!({"op": "db", "mag": c.0, "max": c.1}))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sw {
    extra: Vec<u8>,
    urls: Vec<u8>,
    offline: bool,
}
fn url(k: u8) -> String {
    match k % 12 {
        0 => "/".into(),
        1 => "/index.html".into(),
        2 => "/app.mjs".into(),
        3 => "/manifest.json".into(),
        j => format!("/pkg/file{j}"),
    }
}
fn sw(c: &Sw) -> Res {
    let (e, u): (Vec<_>, Vec<_>) = (c.extra.iter().map(|k| url(*k)).collect(), c.urls.iter().map(|k| url(*k)).collect());
    ask(json!({"op": "sw", "extra": e, "urls": u, "offline": c.offline}))
}
pub fn c31(r: &mut Reg) {
    const RP: &str = "case = (picture size, magnitudes, palette) drawn by the page script into a stand-in canvas; non-trivial: a rectangle that is not square";
    r.prop("page-decibels", "case = (magnitude, maximum); non-trivial: every case", 3200, (prop_oneof![5 => 0f64..10.0, 1 => Just(0.0), 2 => (-60f64..20.0).prop_map(|e| e.exp2())], (-60f64..20.0).prop_map(|e| e.exp2())), db);
    r.prop("page-canvas", RP, 500, pic(24), canvas);
    r.prop("page-webgl", "case = (picture size, magnitudes) drawn through a software WebGL context that evaluates the shaders; oracle: the core library's colours; non-trivial: a rectangle that is not square", 1200, pic(16), gl);
    r.prop("page-file", "case = (samples of the chosen file, picture the transform returns): the page hands the decoded samples to the transform and draws its result; non-trivial: every case", 800, pic(12), page);
    r.prop("service-worker", "case = (stored files, requests, online or not); non-trivial: some request is for a stored file", 1200, (proptest::collection::vec(any::<u8>(), 0..5), proptest::collection::vec(any::<u8>(), 1..10), any::<bool>()).prop_map(|(extra, urls, offline)| Sw { extra, urls, offline }), sw);
}
