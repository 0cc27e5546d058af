//! C32: the example spectrogram program and the sanity-check program.
use crate::audio::{wav, wave, Tmp, Wave};
use crate::core::*;
use kofft::visual::spectrogram as sp;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::process::Command;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shot {
    n: usize,
    wave: Wave,
    rate: u32,
    junk: Option<usize>,
    map: u8,
    range: f32,
}
const MAPS: &[(&str, sp::Colormap)] = &[
    ("fire", sp::Colormap::Fire),
    ("legacy", sp::Colormap::Legacy),
    ("gray", sp::Colormap::Gray),
    ("viridis", sp::Colormap::Viridis),
    ("plasma", sp::Colormap::Plasma),
    ("inferno", sp::Colormap::Inferno),
    ("rainbow", sp::Colormap::Rainbow),
];
fn shot(nmax: usize) -> impl Strategy<Value = Shot> + Clone {
    (prop_oneof![1 => 1usize..=1100, 3 => 1usize..=nmax, 1 => (1usize..=8, 0usize..=2).prop_map(|(k, d)| (512 * k + d).saturating_sub(1).max(1))], wave(), prop::sample::select(vec![8000u32, 44100]), prop::option::of(0usize..20), any::<u8>(), prop_oneof![2 => Just(120f32), 3 => 1f32..=200.0, 1 => (1u8..=150).prop_map(|v| v as f32)])
        .prop_map(|(n, wave, rate, junk, map, range)| Shot { n, wave, rate, junk, map, range })
}
fn long(nmax: usize) -> impl Strategy<Value = Shot> + Clone {
    (shot(10), nmax / 3..=nmax, any::<u64>()).prop_map(|(mut s, n, w)| {
        s.n = n;
        s.wave = if w % 8 == 0 { s.wave } else { Wave::Steps(w) };
        s
    })
}
fn prog(name: &str) -> Command {
    let exe = std::env::current_exe().unwrap().parent().unwrap().join(name);
    let mut c = Command::new(exe);
    c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    c
}
struct Png {
    w: usize,
    h: usize,
    deep: bool,
    v: Vec<u16>,
}
fn load(p: &Path) -> Result<Png, String> {
    let f = std::fs::File::open(p).map_err(|e| format!("no picture written: {e}"))?;
    let mut rd = png::Decoder::new(std::io::BufReader::new(f)).read_info().map_err(|e| format!("not a PNG file: {e}"))?;
    let mut buf = vec![0; rd.output_buffer_size()];
    let i = rd.next_frame(&mut buf).map_err(|e| format!("undecodable PNG: {e}"))?;
    ensure!(i.color_type == png::ColorType::Rgb, "colour type {:?}", i.color_type);
    let deep = i.bit_depth == png::BitDepth::Sixteen;
    let v = if deep { buf.chunks(2).map(|b| u16::from_be_bytes([b[0], b[1]])).collect() } else { buf.iter().map(|b| *b as u16).collect() };
    Ok(Png { w: i.width as usize, h: i.height as usize, deep, v })
}
fn run_ok(what: &str, mut c: Command) -> Result<(), String> {
    let st = c.status().map_err(|e| format!("cannot start the {what} program: {e}"))?;
    ensure!(st.success(), "{what} program ended with {st}");
    Ok(())
}
fn same(what: &str, a: &Png, b: &Png) -> Result<(), String> {
    ensure!((a.w, a.h, a.deep) == (b.w, b.h, b.deep), "{what}: {}x{} against {}x{}", a.w, a.h, b.w, b.h);
    if let Some(i) = (0..a.v.len()).find(|i| a.v[*i] != b.v[*i]) {
        return Err(format!("{what}: pixel {},{} is {:?} against {:?}", i / 3 % a.w, i / 3 / a.w, &a.v[i / 3 * 3..i / 3 * 3 + 3], &b.v[i / 3 * 3..i / 3 * 3 + 3]));
    }
    Ok(())
}
fn both(c: &Shot) -> Res {
    let x = c.wave.make(c.n, 16, 0);
    let t = Tmp::with(".wav", &wav(&[x.clone()], 16, c.rate, c.junk))?;
    let (a, b, a2) = (Tmp::new("-a.png"), Tmp::new("-b.png"), Tmp::new("-a2.png"));
    let (nm, cm) = MAPS[c.map as usize % MAPS.len()];
    let mut ex = prog("spectrogram");
    // options before, between and after the paths
    let fl = format!("{}", -c.range);
    match c.map / 7 % 3 {
        0 => ex.arg(&t.0).arg(&a.0).args(["--floor", &fl, "--palette", nm]),
        1 => ex.args(["--palette", nm]).arg(&t.0).args(["--floor", &fl]).arg(&a.0),
        _ => ex.args(["--floor", &fl, "--palette", nm]).arg(&t.0).arg(&a.0),
    };
    run_ok("spectrogram example", ex)?;
    let mut sc = prog("sanity");
    sc.arg(&t.0).arg(&b.0).args(["--colormap", nm, "--dynamic-range", &format!("{}", c.range)]);
    run_ok("sanity-check", sc)?;
    let (pa, pb) = (load(&a.0)?, load(&b.0)?);
    ensure!(!pa.deep && !pb.deep, "a 16-bit picture without being asked");
    same("example against sanity-check", &pa, &pb)?;
    let frames = c.n.div_ceil(512);
    ensure!((pa.w, pa.h) == (frames, 512), "picture is {}x{} for {} samples", pa.w, pa.h, c.n);
    // again: the same file
    let mut ex = prog("spectrogram");
    ex.arg(&t.0).arg(&a2.0).args(["--floor", &fl, "--palette", nm]);
    run_ok("spectrogram example", ex)?;
    ensure!(std::fs::read(&a.0).ok() == std::fs::read(&a2.0).ok(), "two runs wrote different files");
    // the picture: time left to right, frequency bottom to top
    let f: Vec<f32> = x.iter().map(|v| *v as f32 / i16::MAX as f32).collect();
    let (mags, max) = sp::stft_magnitudes(&f, 1024, 512).map_err(|e| format!("{e:?}"))?;
    for (t, fr) in mags.iter().enumerate() {
        for (k, m) in fr.iter().enumerate() {
            let want = sp::color_from_magnitude_u8(*m, max, -c.range, cm);
            let i = ((511 - k) * pa.w + t) * 3;
            ensure!((0..3).all(|j| pa.v[i + j] == want[j] as u16), "frame {t} bin {k}: drawn {:?}, the library's colour is {want:?}", &pa.v[i..i + 3]);
        }
    }
    Ok(if c.wave.silent() { triv("silence") } else { nt(nm) })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opts {
    s: Shot,
    ch: usize,
    bits: u32,
    win: usize,
    log: bool,
    deep: bool,
}
/// every setting of the sanity-check program against the library
fn options(c: &Opts) -> Res {
    let ch: Vec<Vec<i32>> = (0..c.ch).map(|k| c.s.wave.make(c.s.n, c.bits, k)).collect();
    let t = Tmp::with(".wav", &wav(&ch, c.bits, c.s.rate, c.s.junk))?;
    let b = Tmp::new("-o.png");
    let (nm, cm) = MAPS[c.s.map as usize % MAPS.len()];
    let mut sc = prog("sanity");
    sc.arg(&t.0).arg(&b.0).args(["--colormap", nm, "--dynamic-range", &format!("{}", c.s.range), "--win-len", &c.win.to_string(), "--scale-mode", if c.log { "log" } else { "linear" }, "--png-depth", if c.deep { "sixteen" } else { "eight" }]);
    run_ok("sanity-check", sc)?;
    let p = load(&b.0)?;
    ensure!(p.deep == c.deep, "bit depth of the picture");
    let full = ((1i64 << (c.bits - 1)) - 1) as f32;
    let f: Vec<f32> = (0..c.s.n).map(|i| ch.iter().map(|v| v[i] as f32 / full).sum::<f32>() / c.ch as f32).collect();
    let (mags, max) = sp::stft_magnitudes(&f, c.win, c.win / 2).map_err(|e| format!("{e:?}"))?;
    let h = c.win / 2;
    ensure!((p.w, p.h) == (mags.len(), h), "picture is {}x{} instead of {}x{h}", p.w, p.h, mags.len());
    for (t, fr) in mags.iter().enumerate() {
        let bins = if c.log { sp::log_scale_bins(&fr[..h], h - 1) } else { fr.clone() };
        for (k, m) in bins.iter().enumerate() {
            let want = sp::color_from_magnitude_u16(*m, max, -c.s.range, cm);
            let i = ((h - 1 - k) * p.w + t) * 3;
            for j in 0..3 {
                let w = if c.deep { want[j] } else { want[j] >> 8 };
                // the mean of several channels may be summed in another order
                let near = c.ch > 2 && (p.v[i + j] as i32 - w as i32).abs() <= if c.deep { 514 } else { 2 };
                ensure!(p.v[i + j] == w || near, "frame {t} row {k}: drawn {:?}, the library's colour is {want:?}", &p.v[i..i + 3]);
            }
        }
    }
    Ok(if c.s.wave.silent() { triv("silence") } else { nt(if c.log { "log" } else { "linear" }) })
}
/// a pure tone is drawn at its own frequency
fn tone(c: &(u16, u8)) -> Res {
    let k = 8 + c.0 as usize % 490;
    let n = 2048;
    let x: Vec<i32> = (0..n).map(|i| (20000.0 * (2.0 * std::f64::consts::PI * k as f64 * i as f64 / 1024.0).sin()) as i32).collect();
    let t = Tmp::with(".wav", &wav(&[x], 16, 8000, None))?;
    for (what, b) in [("spectrogram", Tmp::new("-t1.png")), ("sanity", Tmp::new("-t2.png"))] {
        let mut p = prog(what);
        p.arg(&t.0).arg(&b.0).args(if what == "sanity" { ["--colormap", "gray"] } else { ["--palette", "gray"] });
        run_ok(what, p)?;
        let p = load(&b.0)?;
        ensure!((p.w, p.h) == (4, 512), "{what}: picture is {}x{}", p.w, p.h);
        for f in 0..3 {
            let best = (0..512).max_by_key(|y| p.v[(y * p.w + f) * 3]).unwrap();
            let row = 511 - k;
            ensure!(p.v[(row * p.w + f) * 3] == p.v[(best * p.w + f) * 3], "{what}: a tone at bin {k} is brightest in row {best} of column {f}, not in row {row}");
            let far = (0..512usize).filter(|y| y.abs_diff(row) > 6).map(|y| p.v[(y * p.w + f) * 3]).max().unwrap();
            ensure!(far < p.v[(row * p.w + f) * 3], "{what}: rows far from the tone are as bright");
        }
    }
    Ok(nt("tone"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bad {
    kind: u8,
    n: usize,
    cut: u32,
    win: usize,
}
fn refused(c: &Bad) -> Res {
    let good = wav(&[Wave::Noise(3).make(c.n, 16, 0)], 16, 8000, None);
    let (input, output, kind): (Tmp, Tmp, &str) = match c.kind % 7 {
        0 => (Tmp::new(".wav"), Tmp::new(".png"), "missing input"),
        1 => (Tmp::with(".wav", &good[..c.cut as usize % 44])?, Tmp::new(".png"), "cut header"),
        2 => (Tmp::with(".wav", &good[..44 + c.cut as usize % (2 * c.n)])?, Tmp::new(".png"), "cut data"),
        3 => (Tmp::with(".wav", &(0..c.n).map(|i| (i * 31 % 256) as u8).collect::<Vec<_>>())?, Tmp::new(".png"), "not audio"),
        4 => (Tmp::with(".wav", b"")?, Tmp::new(".png"), "empty file"),
        5 => (Tmp::with(".wav", &good)?, Tmp::new("-none/x.png"), "unwritable output"),
        _ => (Tmp::with(".wav", &wav(&[vec![]], 16, 8000, None))?, Tmp::new(".png"), "no samples"),
    };
    for what in ["spectrogram", "sanity"] {
        let mut p = prog(what);
        p.arg(&input.0).arg(&output.0);
        let st = p.status().map_err(|e| e.to_string())?;
        ensure!(st.code().map_or(false, |c| c != 0 && c != 101), "{what} on {kind}: ended with {st}");
        if c.kind % 7 < 5 {
            ensure!(!output.0.exists(), "{what} on {kind}: left a picture behind");
        }
    }
    // settings that cannot be drawn
    if c.kind % 7 == 5 {
        let t = Tmp::with(".wav", &good)?;
        let o = Tmp::new(".png");
        for w in ["0", "1", "-3", "x"] {
            let mut p = prog("sanity");
            p.arg(&t.0).arg(&o.0).arg(format!("--win-len={w}"));
            let st = p.status().map_err(|e| e.to_string())?;
            ensure!(st.code().map_or(false, |c| c != 0 && c != 101), "sanity with window length {w}: ended with {st}");
        }
        for p in [prog("sanity"), prog("spectrogram")].iter_mut() {
            let st = p.arg(&t.0).status().map_err(|e| e.to_string())?;
            ensure!(st.code().map_or(false, |c| c != 0 && c != 101), "without an output path: ended with {st}");
        }
    }
    Ok(nt(kind))
}
pub fn c32(r: &mut Reg) {
    r.prop("same-picture", "not silent", 300, shot(4000), both);
    r.prop("same-picture-2", "not silent", 300, shot(4000), both);
    r.prop("same-picture-3", "not silent", 200, shot(9000), both);
    r.prop("long-recordings", "not silent", 40, long(120_000), both);
    r.prop("long-recordings-2", "not silent", 6, long(600_000), both);
    r.prop("sanity-options", "not silent", 600, (shot(1500), 1usize..=3, prop::sample::select(vec![8u32, 16]), prop_oneof![1 => 2usize..=9, 2 => 2usize..=130, 2 => (1u32..=9).prop_map(|e| 1usize << e)], any::<bool>(), any::<bool>()).prop_map(|(mut s, ch, bits, win, log, deep)| { s.n = s.n.min(win * 20); Opts { s, ch, bits, win, log, deep } }), options);
    r.prop("tone", "every case", 150, (any::<u16>(), any::<u8>()), tone);
    r.prop("refusals", "every case", 300, (any::<u8>(), 1usize..=300, any::<u32>(), 1usize..=64).prop_map(|(kind, n, cut, win)| Bad { kind, n, cut, win }), refused);
}
