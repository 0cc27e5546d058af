//! C31: the functions the web front end exports, and its streaming frames.
use crate::core::*;
use crate::sig::*;
use kofft::fft::{self, Complex32, FftImpl};
use kofft::visual::spectrogram as sp;
use kofft::{dct, wavelet};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use web_spectrogram as web;

const MAPS: [(web::Colormap, sp::Colormap, &str); 7] = [
    (web::Colormap::Fire, sp::Colormap::Fire, "fire"),
    (web::Colormap::Legacy, sp::Colormap::Legacy, "legacy"),
    (web::Colormap::Gray, sp::Colormap::Gray, "gray"),
    (web::Colormap::Viridis, sp::Colormap::Viridis, "viridis"),
    (web::Colormap::Plasma, sp::Colormap::Plasma, "plasma"),
    (web::Colormap::Inferno, sp::Colormap::Inferno, "inferno"),
    (web::Colormap::Rainbow, sp::Colormap::Rainbow, "rainbow"),
];
/// What a call does. A refusal reaches JavaScript as an exception; outside a
/// browser the creation of its text aborts the process inside wasm-bindgen, so
/// a child process makes the call first. `Ok(None)`: refused.
fn refused<R>(f: impl Fn() -> Result<R, ()>) -> Result<Option<R>, String> {
    // the child only computes and exits
    let attempt = || unsafe {
        let pid = libc::fork();
        if pid == 0 {
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            libc::alarm(20);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
            libc::_exit(match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f().is_ok())) {
                Ok(true) => 0,
                Ok(false) => 3,
                Err(_) => 2,
            });
        }
        let mut s = 0;
        (pid > 0 && libc::waitpid(pid, &mut s, 0) == pid).then_some(s)
    };
    // a lock another thread held at the fork could stop a child: try again
    let late = |s: &Option<i32>| s.is_some_and(|s| libc::WIFSIGNALED(s) && libc::WTERMSIG(s) == libc::SIGALRM);
    let mut status = attempt();
    for _ in 0..2 {
        if late(&status) {
            status = attempt();
        }
    }
    let Some(status) = status else { return Ok(f().ok()) };
    if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) == libc::SIGABRT || libc::WEXITSTATUS(status) == 3 {
        return Ok(None);
    }
    ensure!(libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0, "an exported function panicked or died (status {status:#x})");
    Ok(f().ok())
}
fn near(what: &str, got: &[f32], want: &[f32]) -> Result<(), String> {
    ensure!(got.len() == want.len(), "{what}: {} values instead of {}", got.len(), want.len());
    let top = want.iter().fold(0f32, |m, v| m.max(v.abs()));
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g == w || (g - w).abs() <= 1e-5 * top + 1e-37, "{what}: value {i} is {g}, the core library computes {w}");
    }
    Ok(())
}
fn near8(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    ensure!(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.abs_diff(*b) <= 1), "{what}: {got:?}, the core library gives {want:?}");
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mag {
    n: usize,
    win: usize,
    hop: usize,
    sig: Sig,
}
fn mags(c: &Mag) -> Res {
    let x = c.sig.real32(c.n);
    let core = sp::stft_magnitudes(&x, c.win, c.hop);
    let got = refused(|| web::stft_magnitudes(&x, c.win, c.hop).map_err(|_| ()))?;
    let (Ok((m, top)), Some(g)) = (&core, &got) else {
        ensure!(core.is_err() && got.is_none(), "stft_magnitudes of {} samples, window {}, hop {}: core {:?}, web {}", c.n, c.win, c.hop, core.as_ref().err(), if got.is_some() { "ok" } else { "refused" });
        return Ok(triv("refused"));
    };
    let what = |w: &str| format!("stft_magnitudes of {} samples, window {}, hop {}: {w}", c.n, c.win, c.hop);
    ensure!(g.width() == m.len() && g.height() == c.win / 2, "{} x {}, the core library has {} frames of {}", what(&g.width().to_string()), g.height(), m.len(), c.win / 2);
    let flat: Vec<f32> = m.iter().flatten().copied().collect();
    near(&what("magnitudes"), &g.mags(), &flat)?;
    near(&what("maximum"), &[g.max_mag()], &[*top])?;
    Ok(if m.len() > 1 && c.win > 3 && !c.sig.trivial() { nt("several frames") } else { triv("one frame or silence") })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pts {
    v: Vec<(f32, f32)>,
    floor: f32,
    range: f32,
}
fn colours(c: &Pts) -> Res {
    for (mag, top) in &c.v {
        near("magnitude_to_db", &[web::magnitude_to_db(*mag, *top, c.floor)], &[sp::magnitude_to_db(*mag, *top, c.floor)])?;
        near("db_scale", &[web::db_scale(*mag, *top, c.range)], &[sp::db_scale(*mag, *top, c.range)])?;
        for (w, k, n) in MAPS {
            near8(&format!("map_color_u8({mag}, {n})"), &web::map_color_u8(*mag, w), &sp::map_color_u8(*mag, k))?;
            near8(&format!("color_from_magnitude_u8({mag}, {top}, {}, {n})", c.floor), &web::color_from_magnitude_u8(*mag, *top, c.floor, w), &sp::color_from_magnitude_u8(*mag, *top, c.floor, k))?;
        }
    }
    Ok(if c.v.is_empty() { triv("nothing") } else { nt("colours") })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Vecs {
    n: usize,
    other: usize,
    sig: Sig,
}
fn transforms(c: &Vecs) -> Res {
    let z = c.sig.complex(c.n);
    let (re, im): (Vec<f32>, Vec<f32>) = z.iter().map(|v| (v.0 as f32, v.1 as f32)).unzip();
    let (mut a, mut b) = (re.clone(), im.clone());
    let core = fft::fft_split(&mut a, &mut b);
    let got = refused(|| web::fft_split(&re, &im).map_err(|_| ()))?;
    ensure!(core.is_ok() == got.is_some(), "fft_split of {} values: core {core:?}, web {}", c.n, if got.is_some() { "ok" } else { "refused" });
    if let Some(g) = got {
        let w: Vec<f32> = a.iter().chain(&b).copied().collect();
        near(&format!("fft_split of {} values", c.n), &[g.re(), g.im()].concat(), &w)?;
        ensure!(g.re().len() == c.n, "fft_split: {} real parts for {} values", g.re().len(), c.n);
    }
    if c.other != c.n {
        ensure!(refused(|| web::fft_split(&re, &vec![0.0; c.other]).map_err(|_| ()))?.is_none(), "fft_split accepted {} real and {} imaginary parts", c.n, c.other);
    }
    near(&format!("dct2 of {} values", c.n), &web::dct2(&re), &dct::dct2(&re))?;
    let h = web::haar_forward(&re);
    let (avg, diff) = wavelet::haar_forward(&re);
    near(&format!("haar averages of {} values", c.n), &h.avg(), &avg)?;
    near(&format!("haar differences of {} values", c.n), &h.diff(), &diff)?;
    near(&format!("haar inverse of {} values", c.n), &web::haar_inverse(&h.avg(), &h.diff()), &wavelet::haar_inverse(&avg, &diff))?;
    Ok(if c.n > 1 && !c.sig.trivial() { nt(if c.n % 2 == 0 { "even" } else { "odd" }) } else { triv("short or zero") })
}

// ---- streaming frames ------------------------------------------------------------
const WIN: usize = 1024;
const HOP: usize = 512;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    Push(usize),
    Map(u8),
    Reset,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Live {
    sig: Sig,
    evs: Vec<Ev>,
}
const NAMES: [&str; 11] = ["fire", "legacy", "gray", "viridis", "plasma", "inferno", "rainbow", "RAINBOW", "Gray", "", "no such map"];
fn live_strat() -> impl Strategy<Value = Live> + Clone {
    let ev = prop_oneof![
        12 => prop_oneof![2 => 0usize..=1500, 2 => Just(HOP), 1 => Just(WIN), 1 => HOP - 1..=HOP + 1, 1 => WIN - 1..=WIN + 1].prop_map(Ev::Push),
        2 => any::<u8>().prop_map(Ev::Map),
        1 => Just(Ev::Reset),
    ];
    (prop_oneof![(any::<u64>(), -6i16..6).prop_map(|(s, exp)| Sig { kind: Kind::RealNoise(s), exp }), sig_plain()], proptest::collection::vec(ev, 1..14)).prop_map(|(sig, evs)| Live { sig, evs })
}
/// what one frame must look like, and the largest magnitude afterwards; a
/// colour is judged only where the magnitudes it depends on are above rounding
fn frame_of(x: &[f32], w: &[f32], max: &mut f32, cmap: sp::Colormap) -> Vec<Option<[u8; 3]>> {
    let mut f: Vec<Complex32> = x.iter().zip(w).map(|(a, b)| Complex32::new(a * b, 0.0)).collect();
    kofft::fft::ScalarFftImpl::<f32>::default().fft(&mut f).unwrap();
    let m: Vec<f32> = f[..WIN / 2].iter().map(|c| (c.re * c.re + c.im * c.im).sqrt()).collect();
    let top = m.iter().fold(*max, |a, b| a.max(*b));
    m.iter()
        .map(|v| {
            *max = max.max(*v);
            // both well above the rounding noise of this frame, or far below the floor
            let clear = *max >= 1e-3 * top && (*v >= 1e-3 * top || *v <= 1e-6 * *max);
            clear.then(|| sp::color_from_magnitude_u8(*v, *max, -80.0, cmap))
        })
        .collect()
}
fn judge_row(what: &str, row: &[u8], want: &[Option<[u8; 3]>]) -> Result<(), String> {
    ensure!(row.len() == 4 * want.len(), "{what}: {} bytes instead of {}", row.len(), 4 * want.len());
    for (i, (p, w)) in row.chunks(4).zip(want).enumerate() {
        ensure!(p[3] == 255, "{what}: pixel {i} is not opaque");
        if let Some(w) = w {
            ensure!(p.iter().zip(w).all(|(a, b)| a.abs_diff(*b) <= 2), "{what}: pixel {i} is {:?}, expected {w:?}", &p[..3]);
        }
    }
    Ok(())
}
fn total(evs: &[Ev]) -> usize {
    evs.iter().map(|e| if let Ev::Push(k) = e { *k } else { 0 }).sum()
}
fn live(c: &Live) -> Res {
    web::reset_state();
    let w = kofft::window::hann(WIN);
    let x = c.sig.real32(total(&c.evs));
    let mut at = 0;
    let mut buf: Vec<f32> = vec![];
    let (mut max, mut cmap) = (1e-12f32, sp::Colormap::Rainbow);
    let mut drawn = 0;
    for (k, e) in c.evs.iter().enumerate() {
        match e {
            Ev::Map(i) => {
                let n = NAMES[*i as usize % NAMES.len()];
                web::set_colormap(n);
                cmap = MAPS.iter().find(|m| m.2 == n.to_ascii_lowercase()).map_or(sp::Colormap::Fire, |m| m.1);
            }
            Ev::Reset => {
                web::reset_state();
                buf.clear();
                max = 1e-12;
                cmap = sp::Colormap::Rainbow;
            }
            Ev::Push(n) => {
                let part = &x[at..at + n];
                at += n;
                buf.extend_from_slice(part);
                let row = web::compute_frame(part);
                let what = format!("event {k}: frame after {n} more samples ({} waiting)", buf.len());
                if buf.len() < WIN {
                    ensure!(row.is_empty(), "{what}: {} bytes although a frame needs {WIN} samples", row.len());
                } else {
                    judge_row(&what, &row, &frame_of(&buf[..WIN], &w, &mut max, cmap))?;
                    buf.drain(..HOP);
                    drawn += 1;
                }
            }
        }
    }
    // another thread has a state of its own
    if c.evs.len() % 4 == 0 {
        let n = std::thread::spawn(|| web::compute_frame(&vec![0.25; HOP]).len()).join().map_err(|_| "compute_frame panicked in another thread")?;
        ensure!(n == 0, "a frame in a new thread after {HOP} samples");
    }
    Ok(if drawn > 1 && !c.sig.trivial() { nt(format!("{} frames", (drawn / 2) * 2)) } else { triv("at most one frame") })
}
/// the same samples cut differently give the same frames
fn cuts(c: &Live) -> Res {
    let run = |parts: &[usize], x: &[f32]| {
        web::reset_state();
        let (mut at, mut rows) = (0, vec![]);
        for n in parts {
            let r = web::compute_frame(&x[at..at + n]);
            at += n;
            if !r.is_empty() {
                rows.push(r);
            }
        }
        // let it work off what is left
        loop {
            let r = web::compute_frame(&[]);
            if r.is_empty() {
                return rows;
            }
            rows.push(r);
        }
    };
    let parts: Vec<usize> = c.evs.iter().filter_map(|e| if let Ev::Push(n) = e { Some(*n) } else { None }).collect();
    let n: usize = parts.iter().sum();
    let x = c.sig.real32(n);
    let (a, b) = (run(&parts, &x), run(&[n], &x));
    ensure!(a.len() == b.len(), "{n} samples in parts {parts:?} give {} frames, at once {}", a.len(), b.len());
    for (k, (p, q)) in a.iter().zip(&b).enumerate() {
        ensure!(p == q, "{n} samples in parts {parts:?}: frame {k} differs from the frame of one push");
    }
    let want = if n < WIN { 0 } else { (n - WIN) / HOP + 1 };
    ensure!(a.len() == want, "{n} samples give {} frames instead of {want}", a.len());
    Ok(if want > 1 && parts.len() > 1 { nt("several parts") } else { triv("one part or frame") })
}
pub fn c31(r: &mut Reg) {
    let f = || prop_oneof![4 => 0f32..1.0, 1 => Just(0f32), 2 => (-30i32..10).prop_map(|e| (e as f32).exp2()), 1 => 0f32..1e6];
    r.prop(
        "export-magnitudes",
        "case = (samples, window length, hop): exported magnitudes against the core library; non-trivial: several frames, signal not zero",
        3600,
        (0usize..3000, prop_oneof![3 => 1usize..200, 1 => Just(1024usize), 1 => Just(0usize)], prop_oneof![1 => Just(0usize), 9 => 1usize..400], sig_plain()).prop_map(|(n, win, hop, sig)| Mag { n, win, hop, sig }),
        mags,
    );
    r.prop("export-colours", "case = magnitudes, maxima, floor and dynamic range: exported decibel and colour functions against the core library; non-trivial: at least one value", 4500, (proptest::collection::vec((f(), f()), 0..6), -140f32..-1.0, 1f32..140.0).prop_map(|(v, floor, range)| Pts { v, floor, range }), colours);
    r.prop("export-transforms", "case = (length, signal): exported FFT, DCT and Haar functions against the core library; non-trivial: length > 1, signal not zero", 4500, (0usize..300, 0usize..300, sig_plain()).prop_map(|(n, other, sig)| Vecs { n, other, sig }), transforms);
    r.prop("live-frames", "case = sequence of pushes, palette changes and resets; oracle: own buffer of samples, core transform and colour functions; non-trivial: at least two frames", 1800, live_strat(), live);
    r.prop("live-cuts", "case = (signal, two ways to cut it into pushes); non-trivial: several parts and frames", 900, live_strat(), cuts);
}
