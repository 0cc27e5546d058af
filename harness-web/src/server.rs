//! C35: the server of the web front end, the program itself on its own port,
//! against a model of the files it was given.
use crate::core::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const WEB: &str = "/repo/web-spectrogram";
const PORT: u16 = 3000;

struct Server {
    child: Child,
    dir: PathBuf,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        // only ever the directory made below
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
const SECRET: &[u8] = b"nothing outside the served folder may be sent";
fn connect() -> std::io::Result<TcpStream> {
    let s = TcpStream::connect_timeout(&([127, 0, 0, 1], PORT).into(), Duration::from_secs(5))?;
    s.set_read_timeout(Some(Duration::from_secs(30)))?;
    s.set_write_timeout(Some(Duration::from_secs(30)))?;
    Ok(s)
}
impl Server {
    fn start() -> Result<Server, String> {
        let t0 = Instant::now();
        // somebody else's server would answer instead
        while TcpListener::bind(("0.0.0.0", PORT)).is_err() {
            if t0.elapsed() > Duration::from_secs(60) {
                eprintln!("port {PORT} is in use");
                std::process::exit(3);
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        let dir = std::env::temp_dir().join(format!("vpw-server-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("static")).map_err(|e| e.to_string())?;
        std::fs::write(dir.join("secret.txt"), SECRET).map_err(|e| e.to_string())?;
        std::fs::create_dir_all(dir.join("static2")).map_err(|e| e.to_string())?;
        std::fs::write(dir.join("static2/secret.txt"), SECRET).map_err(|e| e.to_string())?;
        let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("web-server");
        let mut cmd = Command::new(exe);
        cmd.current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        unsafe {
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut s = Server { child: cmd.spawn().map_err(|e| e.to_string())?, dir };
        let t0 = Instant::now();
        loop {
            if connect().is_ok() {
                return Ok(s);
            }
            if let Ok(Some(st)) = s.child.try_wait() {
                return Err(format!("the server ends at once: {st}"));
            }
            ensure!(t0.elapsed() < Duration::from_secs(30), "the server does not listen on port {PORT}");
            std::thread::sleep(Duration::from_millis(2));
        }
    }
}

struct Reply {
    status: u16,
    head: BTreeMap<String, String>,
    body: Vec<u8>,
}
/// The replies to the methods, in order, from everything one connection sent.
fn replies(mut b: &[u8], methods: &[&str]) -> Result<Vec<Reply>, String> {
    let mut out = vec![];
    for m in methods {
        let end = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("reply {} of {} is missing", out.len() + 1, methods.len()))?;
        let text = String::from_utf8_lossy(&b[..end]).to_string();
        b = &b[end + 4..];
        let mut lines = text.split("\r\n");
        let status = lines.next().and_then(|l| l.split(' ').nth(1)).and_then(|c| c.parse().ok()).ok_or("no status line")?;
        let head: BTreeMap<String, String> = lines.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_ascii_lowercase(), v.trim().to_string())).collect();
        let mut body = vec![];
        if *m != "HEAD" && status != 304 && status != 204 {
            if head.get("transfer-encoding").is_some_and(|v| v.eq_ignore_ascii_case("chunked")) {
                loop {
                    let e = b.windows(2).position(|w| w == b"\r\n").ok_or("unfinished chunk")?;
                    let n = usize::from_str_radix(String::from_utf8_lossy(&b[..e]).trim(), 16).map_err(|_| "bad chunk")?;
                    ensure!(b.len() >= e + 2 + n + 2, "unfinished chunk");
                    body.extend_from_slice(&b[e + 2..e + 2 + n]);
                    b = &b[e + 2 + n + 2..];
                    if n == 0 {
                        break;
                    }
                }
            } else {
                let n = head.get("content-length").and_then(|v| v.parse().ok()).unwrap_or(b.len());
                ensure!(b.len() >= n, "the reply announces {n} bytes and {} come", b.len());
                body = b[..n].to_vec();
                b = &b[n..];
            }
        }
        out.push(Reply { status, head, body });
    }
    Ok(out)
}

/// names of files, and how a browser writes them
const FILES: [(&str, &str); 12] = [
    ("index.html", "/index.html"),
    ("app.mjs", "/app.mjs"),
    ("sw.js", "/sw.js"),
    ("pkg/web_spectrogram_bg.wasm", "/pkg/web_spectrogram_bg.wasm"),
    ("manifest.json", "/manifest.json"),
    ("sub/index.html", "/sub/index.html"),
    ("sub/deep/a.bin", "/sub/deep/a.bin"),
    ("two words.txt", "/two%20words.txt"),
    ("gr\u{fc}n.txt", "/gr%C3%BCn.txt"),
    ("100%.txt", "/100%25.txt"),
    (".hidden", "/.hidden"),
    ("health.txt", "/health.txt"),
];
/// requests for what is no file: (target, is it a directory below the folder)
const OTHER: [(&str, Option<&str>); 14] = [
    ("/", Some("")),
    ("/sub/", Some("sub")),
    ("/sub", Some("sub")),
    ("/sub/deep/", Some("sub/deep")),
    ("/pkg", Some("pkg")),
    ("/missing", None),
    ("/missing/also.html", None),
    ("/index.htm", None),
    ("/INDEX.HTML", None),
    ("/sub/app.mjs", None),
    ("/web_spectrogram_bg.wasm", None),
    ("/healthy", None),
    ("/two%2520words.txt", None),
    ("/?file=app.mjs", Some("")),
];
const ESCAPES: [&str; 12] = [
    "/../secret.txt",
    "/%2e%2e/secret.txt",
    "/..%2fsecret.txt",
    "/%2e%2e%2fsecret.txt",
    "/sub/../../secret.txt",
    "/sub/%2e%2e/%2e%2e/secret.txt",
    "/../static2/secret.txt",
    "/%2e%2e%2fstatic2%2fsecret.txt",
    "/..%5csecret.txt",
    "/%252e%252e/secret.txt",
    "/./../secret.txt",
    "@",
];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask {
    File { k: u8, query: bool, hexed: bool },
    Range { k: u8, from: u16, len: u16 },
    Other(u8),
    Escape(u8),
    Health,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Put { k: u8, len: u32, seed: u8 },
    Remove(u8),
    /// requests on one connection; `head`: only the headers
    Asks { v: Vec<(Ask, bool)>, origin: bool },
    /// the same, each on a connection of its own, at the same time
    Together(Vec<Ask>),
    Garbage(u8),
    Post(u8),
}
fn ask() -> impl Strategy<Value = Ask> + Clone {
    prop_oneof![
        5 => (any::<u8>(), any::<bool>(), proptest::bool::weighted(0.2)).prop_map(|(k, query, hexed)| Ask::File { k, query, hexed }),
        1 => (any::<u8>(), 0u16..300, 1u16..300).prop_map(|(k, from, len)| Ask::Range { k, from, len }),
        3 => any::<u8>().prop_map(Ask::Other),
        2 => any::<u8>().prop_map(Ask::Escape),
        1 => Just(Ask::Health),
    ]
}
fn ops() -> impl Strategy<Value = Vec<Op>> + Clone {
    let op = prop_oneof![
        4 => (any::<u8>(), prop_oneof![6 => 0u32..600, 1 => 60_000u32..200_000], any::<u8>()).prop_map(|(k, len, seed)| Op::Put { k, len, seed }),
        1 => any::<u8>().prop_map(Op::Remove),
        5 => (proptest::collection::vec((ask(), proptest::bool::weighted(0.2)), 1..5), any::<bool>()).prop_map(|(v, origin)| Op::Asks { v, origin }),
        1 => proptest::collection::vec(ask(), 2..9).prop_map(Op::Together),
        1 => any::<u8>().prop_map(Op::Garbage),
        1 => any::<u8>().prop_map(Op::Post),
    ];
    let puts = proptest::collection::vec((any::<u8>(), 0u32..600, any::<u8>()).prop_map(|(k, len, seed)| Op::Put { k, len, seed }), 0..10);
    (puts, proptest::collection::vec(op, 1..14)).prop_map(|(a, b)| [a, b].concat())
}
fn content(len: u32, seed: u8) -> Vec<u8> {
    (0..len).map(|i| (i.wrapping_mul(2654435761).wrapping_add(seed as u32 * 977) >> 13) as u8).collect()
}
fn target(a: &Ask, dir: &Path) -> String {
    match a {
        Ask::File { k, query, hexed } => {
            let t = FILES[*k as usize % FILES.len()].1;
            let t = if *hexed {
                // the same name with every letter escaped
                let mut s = String::new();
                let mut esc = 0;
                for c in t.chars() {
                    if c == '%' {
                        esc = 3;
                    }
                    if esc == 0 && c.is_ascii_alphanumeric() {
                        s += &format!("%{:02X}", c as u32);
                    } else {
                        s.push(c);
                    }
                    esc -= (esc > 0) as i32;
                }
                s
            } else {
                t.to_string()
            };
            if *query { format!("{t}?v=1&x=%2f") } else { t }
        }
        Ask::Range { k, .. } => FILES[*k as usize % FILES.len()].1.into(),
        Ask::Other(k) => OTHER[*k as usize % OTHER.len()].0.into(),
        Ask::Escape(k) => match ESCAPES[*k as usize % ESCAPES.len()] {
            "@" => format!("/{}", dir.join("secret.txt").display()),
            t => t.into(),
        },
        Ask::Health => "/health".into(),
    }
}
fn exchange(text: &str, methods: &[&str]) -> Result<Vec<Reply>, String> {
    let mut s = connect().map_err(|e| format!("no connection: {e}"))?;
    let mut b = vec![];
    s.write_all(text.as_bytes()).and_then(|_| s.read_to_end(&mut b)).map_err(|e| format!("the connection fails: {e}"))?;
    replies(&b, methods)
}
fn has(b: &[u8], part: &[u8]) -> bool {
    b.windows(part.len()).any(|w| w == part)
}
type Files = BTreeMap<usize, Vec<u8>>;
fn judge(a: &Ask, head: bool, r: &Reply, files: &Files, dir: &Path) -> Result<(), String> {
    let t = target(a, dir);
    let what = format!("{} {t}", if head { "HEAD" } else { "GET" });
    ensure!(!has(&r.body, SECRET), "{what}: sends a file outside the served folder");
    let origin = r.head.get("access-control-allow-origin").map(|s| s.as_str());
    ensure!(origin == Some("*"), "{what}: access-control-allow-origin is {origin:?}");
    let whole = |b: &[u8], why: &str| -> Result<(), String> {
        ensure!(r.status == 200, "{what}: status {} instead of 200 ({why})", r.status);
        if head {
            let n = r.head.get("content-length").map(|v| v.as_str());
            ensure!(n.is_none() || n == Some(&b.len().to_string()), "{what}: announces {n:?} bytes instead of {} ({why})", b.len());
        } else {
            ensure!(r.body == b, "{what}: {} bytes that are not the {} of {why}", r.body.len(), b.len());
        }
        Ok(())
    };
    // what is no file leads to the start page
    let start = || match files.get(&0) {
        Some(b) => whole(b, "the start page"),
        None => {
            ensure!(r.status == 404, "{what}: status {} although there is no start page", r.status);
            Ok(())
        }
    };
    match a {
        Ask::Health => {
            ensure!(r.status == 200, "{what}: status {}", r.status);
            Ok(())
        }
        Ask::File { k, .. } => {
            let k = *k as usize % FILES.len();
            let Some(b) = files.get(&k) else { return start() };
            whole(b, FILES[k].0)?;
            // a browser refuses modules, workers and streamed code of another type
            let ty = r.head.get("content-type").map_or("", |s| s.as_str());
            let need = match FILES[k].0.rsplit('.').next().unwrap() {
                "html" => "text/html",
                "js" | "mjs" => "javascript",
                "wasm" => "application/wasm",
                "json" => "json",
                _ => "",
            };
            ensure!(ty.contains(need), "{what}: content type {ty:?}");
            Ok(())
        }
        Ask::Range { k, from, len } => {
            let k = *k as usize % FILES.len();
            let Some(b) = files.get(&k) else { return Ok(()) };
            let (f, e) = (*from as usize, (*from as usize + *len as usize).min(b.len()));
            if r.status == 206 && !head {
                ensure!(f < e && r.body == b[f..e], "{what}: bytes {f}.. of {} give {} bytes", b.len(), r.body.len());
            } else if r.status == 200 {
                whole(b, FILES[k].0)?;
            } else if f < b.len() {
                ensure!(r.status == 206, "{what}: status {} for bytes {f}..{e} of {}", r.status, b.len());
            }
            Ok(())
        }
        Ask::Other(k) => match OTHER[*k as usize % OTHER.len()] {
            (t, Some(d)) => {
                let there = d.is_empty() || files.keys().any(|k| FILES[*k].0.starts_with(&format!("{d}/")));
                let index = FILES.iter().position(|f| f.0 == if d.is_empty() { "index.html".to_string() } else { format!("{d}/index.html") });
                if !there {
                    return start();
                }
                if r.status / 100 == 3 && !t.ends_with('/') && !t.contains('?') {
                    let l = r.head.get("location").map_or("", |s| s.as_str());
                    ensure!(l.ends_with(&format!("{t}/")), "{what}: leads to {l:?}");
                    return Ok(());
                }
                match index.and_then(|i| files.get(&i).map(|b| (i, b))) {
                    Some((i, b)) => whole(b, FILES[i].0),
                    None => start(),
                }
            }
            (_, None) => start(),
        },
        // a client's own `..` may be refused or lead to the start page
        Ask::Escape(_) => Ok(()),
    }
}
fn request(a: &Ask, head: bool, origin: bool, last: bool, dir: &Path) -> String {
    let mut s = format!("{} {} HTTP/1.1\r\nHost: localhost:3000\r\n", if head { "HEAD" } else { "GET" }, target(a, dir));
    if origin {
        s += "Origin: http://example.com\r\n";
    }
    if let Ask::Range { from, len, .. } = a {
        s += &format!("Range: bytes={from}-{}\r\n", *from as usize + *len as usize - 1);
    }
    if last {
        s += "Connection: close\r\n";
    }
    s + "\r\n"
}
fn serve(c: &Vec<Op>) -> Res {
    let s = Server::start()?;
    let dir = s.dir.clone();
    let root = dir.join("static");
    let mut files = Files::new();
    let mut found = 0;
    for (i, op) in c.iter().enumerate() {
        let at = |e: String| format!("step {i}: {e}");
        match op {
            Op::Put { k, len, seed } => {
                let k = *k as usize % FILES.len();
                let p = root.join(FILES[k].0);
                std::fs::create_dir_all(p.parent().unwrap()).map_err(|e| e.to_string())?;
                let b = content(*len, *seed);
                std::fs::write(&p, &b).map_err(|e| e.to_string())?;
                files.insert(k, b);
            }
            Op::Remove(k) => {
                let k = *k as usize % FILES.len();
                if files.remove(&k).is_some() {
                    std::fs::remove_file(root.join(FILES[k].0)).map_err(|e| e.to_string())?;
                    // no empty folders: they would not be in the model
                    let mut d = root.join(FILES[k].0);
                    while d.pop() && d != root && std::fs::remove_dir(&d).is_ok() {}
                }
            }
            Op::Asks { v, origin } => {
                let mut t = String::new();
                for (j, (a, head)) in v.iter().enumerate() {
                    t += &request(a, *head, *origin, j + 1 == v.len(), &dir);
                }
                let m: Vec<&str> = v.iter().map(|(_, h)| if *h { "HEAD" } else { "GET" }).collect();
                let rs = exchange(&t, &m).map_err(at)?;
                for ((a, head), r) in v.iter().zip(&rs) {
                    judge(a, *head, r, &files, &dir).map_err(at)?;
                    found += matches!(a, Ask::File { k, .. } if files.contains_key(&(*k as usize % FILES.len()))) as u32;
                }
            }
            Op::Together(v) => {
                let all: Vec<Result<(), String>> = std::thread::scope(|sc| {
                    let h: Vec<_> = v
                        .iter()
                        .map(|a| {
                            let (files, dir) = (&files, &dir);
                            sc.spawn(move || exchange(&request(a, false, false, true, dir), &["GET"]).and_then(|r| judge(a, false, &r[0], files, dir)))
                        })
                        .collect();
                    h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("client panicked".into()))).collect()
                });
                all.into_iter().collect::<Result<Vec<()>, String>>().map_err(|e| at(format!("{} requests at the same time: {e}", v.len())))?;
            }
            Op::Garbage(k) => {
                // whatever it answers, it must go on serving
                if let Ok(mut g) = connect() {
                    let b = content(200, *k);
                    let _ = match k % 4 {
                        0 => g.write_all(&b),
                        1 => g.write_all(b"GET /"),
                        2 => g.write_all(b"GET /index.html HTTP/1.1\r\nContent-Length: -5\r\n\r\n"),
                        _ => Ok(()),
                    };
                }
                let r = exchange(&request(&Ask::Health, false, false, true, &dir), &["GET"]).map_err(|e| at(format!("after a broken request: {e}")))?;
                judge(&Ask::Health, false, &r[0], &files, &dir).map_err(at)?;
            }
            Op::Post(k) => {
                let k = *k as usize % FILES.len();
                let m = if k % 2 == 0 { "POST" } else { "DELETE" };
                let t = format!("{m} {} HTTP/1.1\r\nHost: localhost:3000\r\nContent-Length: 3\r\nConnection: close\r\n\r\nabc", FILES[k].1);
                let r = exchange(&t, &[m]).map_err(at)?;
                ensure!(r[0].status >= 400, "step {i}: {m} {} is answered with {}", FILES[k].1, r[0].status);
                let now = std::fs::read(root.join(FILES[k].0)).ok();
                ensure!(now.as_ref() == files.get(&k), "step {i}: {m} {} changed the file", FILES[k].1);
            }
        }
    }
    Ok(if found > 0 { nt(if found > 3 { "many files served" } else { "files served" }) } else { triv("no existing file asked for") })
}
pub fn c35(r: &mut Reg) {
    r.prop_serial(
        "histories",
        "case = sequence of files put and removed, requests (several on a connection, several at a time, ranges, escapes, other methods, broken ones) to a server of its own; oracle: model of the folder; non-trivial: an existing file was asked for",
        2000,
        ops(),
        serve,
    );
}
