//! C17 STFT, C18 ISTFT, C19 streaming ISTFT.
use crate::core::*;
use crate::oracle::*;
use crate::sig::*;
use kofft::fft::{Complex32, FftError, FftImpl, ScalarFftImpl};
use kofft::stft;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const STD: bool = cfg!(feature = "k-std");

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Win {
    Rect,
    Hann,
    Hamming,
    Blackman,
    SymHann,
    Kaiser(u8),
    /// arbitrary values in (-1,1), some exactly zero
    Random(u64),
    /// mostly zero: leaves uncovered samples
    Holes(u64),
    Zero,
    Big,
}
impl Win {
    pub fn make(&self, n: usize) -> Vec<f32> {
        use std::f64::consts::PI;
        let nf = n as f64;
        match self {
            Win::Rect => vec![1.0; n],
            Win::Hann => (0..n).map(|i| (0.5 - 0.5 * (2.0 * PI * i as f64 / nf).cos()) as f32).collect(),
            Win::SymHann => (0..n).map(|i| (0.5 - 0.5 * (2.0 * PI * (i as f64 + 0.5) / nf).cos()) as f32).collect(),
            Win::Hamming => (0..n).map(|i| (0.54 - 0.46 * (2.0 * PI * i as f64 / nf).cos()) as f32).collect(),
            Win::Blackman => (0..n)
                .map(|i| {
                    let a = 2.0 * PI * i as f64 / nf;
                    (0.42 - 0.5 * a.cos() + 0.08 * (2.0 * a).cos()) as f32
                })
                .collect(),
            Win::Kaiser(b) => {
                if n == 0 {
                    vec![]
                } else {
                    kofft::window::kaiser(n, *b as f32 * 0.25)
                }
            }
            Win::Random(s) => {
                let mut s = *s;
                (0..n)
                    .map(|_| {
                        let r = splitmix(&mut s);
                        if r % 8 == 0 {
                            0.0
                        } else {
                            ((r >> 11) as f64 / (1u64 << 52) as f64 - 1.0) as f32
                        }
                    })
                    .collect()
            }
            Win::Holes(s) => {
                let mut s = *s;
                (0..n).map(|_| if splitmix(&mut s) % 3 == 0 { 0.75 } else { 0.0 }).collect()
            }
            Win::Zero => vec![0.0; n],
            Win::Big => (0..n).map(|i| 100.0 + i as f32).collect(),
        }
    }
}
pub fn win() -> impl Strategy<Value = Win> + Clone {
    prop_oneof![
        2 => Just(Win::Rect),
        3 => Just(Win::Hann),
        1 => Just(Win::SymHann),
        2 => Just(Win::Hamming),
        1 => Just(Win::Blackman),
        1 => (0u8..40).prop_map(Win::Kaiser),
        4 => any::<u64>().prop_map(Win::Random),
        1 => any::<u64>().prop_map(Win::Holes),
        1 => Just(Win::Zero),
        1 => Just(Win::Big),
    ]
}
fn wlen() -> BoxedStrategy<usize> {
    if STD {
        prop_oneof![4 => 1usize..=24, 3 => (0u32..=8).prop_map(|e| 1usize << e), 2 => 1usize..=150].boxed()
    } else {
        prop_oneof![(0u32..=8).prop_map(|e| 1usize << e)].boxed()
    }
}
/// windows past every small-size shortcut
fn wide_wlen() -> BoxedStrategy<usize> {
    if STD {
        prop_oneof![3 => 150usize..=1100, 2 => 1100usize..=5000, 2 => (8u32..=12).prop_map(|e| 1usize << e)].boxed()
    } else {
        (8u32..=12).prop_map(|e| 1usize << e).boxed()
    }
}
fn tiny_wlen() -> BoxedStrategy<usize> {
    if STD {
        (1usize..=8).boxed()
    } else {
        (0u32..=3).prop_map(|e| 1usize << e).boxed()
    }
}
/// a hop that keeps the number of overlapping frames small
fn near_hop(wl: usize, k: usize, r: usize) -> usize {
    match k {
        0..=3 => (wl / (k + 1)).max(1),
        4 => wl + 1 + r % wl,
        _ => wl / 8 + 1 + r % wl,
    }
}
fn wide_case() -> impl Strategy<Value = Case> + Clone {
    (prop_oneof![1usize..=6000, 1usize..=20_000], win(), wide_wlen(), (0usize..8, any::<usize>()), sig(), 0usize..3, any::<u64>()).prop_map(|(n, win, wl, (k, r), sig, extra, junk)| Case { n, win, wl, hop: near_hop(wl, k, r), sig, extra, junk })
}
/// more frames than a small counter can hold
fn many_case() -> impl Strategy<Value = Case> + Clone {
    (prop_oneof![2 => 66_000usize..=140_000, 1 => 300usize..=20_000], win(), tiny_wlen(), prop_oneof![3 => Just(1usize), 1 => 2usize..=4], sig(), 0usize..3, any::<u64>()).prop_map(|(n, win, wl, hop, sig, extra, junk)| Case { n, win, wl, hop, sig, extra, junk })
}
/// hops whose multiples pass the end of any signal, or of the machine word
fn huge() -> impl Strategy<Value = usize> + Clone {
    prop_oneof![
        (20u32..64, -2i64..3).prop_map(|(e, d)| (1usize << e).wrapping_add(d as usize)),
        (1usize..9, 0usize..3).prop_map(|(k, d)| (usize::MAX / k).saturating_add(d)),
    ]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    n: usize,
    win: Win,
    wl: usize,
    hop: usize,
    sig: Sig,
    /// frames beyond the required count
    extra: usize,
    junk: u64,
}
fn case(maxn: usize) -> impl Strategy<Value = Case> + Clone {
    let n = prop_oneof![1 => Just(0usize), 5 => 1..=60usize.min(maxn), 4 => 1..=maxn];
    (n, win(), wlen(), prop_oneof![3 => 1usize..=8, 3 => 1usize..=64, 1 => 1usize..=400, 1 => huge(), 2 => Just(0usize)], sig(), prop_oneof![3 => Just(0usize), 1 => 1usize..4], any::<u64>(), 0usize..5).prop_map(
        |(n, win, wl, hop, sig, extra, junk, div)| {
            // hop 0 here means "a fraction of the window"
            let hop = if hop == 0 { (wl / (div + 1)).max(1) } else { hop };
            Case { n, win, wl, hop, sig, extra, junk }
        },
    )
}
fn junk_c(seed: u64, n: usize) -> Vec<Complex32> {
    let mut s = seed;
    (0..n).map(|_| Complex32::new((splitmix(&mut s) % 1000) as f32 - 500.0, f32::NAN)).collect()
}
fn junk_r(seed: u64, n: usize) -> Vec<f32> {
    let mut s = seed;
    (0..n)
        .map(|_| match splitmix(&mut s) % 4 {
            0 => f32::NAN,
            1 => f32::INFINITY,
            k => k as f32 * 1e6,
        })
        .collect()
}
fn seg(x: &[f32], w: &[f32], start: usize) -> Vec<C> {
    w.iter().enumerate().map(|(i, w)| if start < x.len() && start + i < x.len() { (x[start + i] as f64 * *w as f64, 0.0) } else { (0.0, 0.0) }).collect()
}
fn f64s(f: &[Complex32]) -> Vec<C> {
    f.iter().map(|z| (z.re as f64, z.im as f64)).collect()
}
fn used(f: usize, wl: usize) -> bool {
    // reference every frame unless that is too much work
    f < 12 || wl * wl * f < 400_000
}
fn check_frame(what: &str, m: usize, f: &[Complex32], x: &[f32], w: &[f32], hop: usize) -> Result<f64, String> {
    let s = seg(x, w, m.saturating_mul(hop));
    if s.iter().all(|z| z.0 == 0.0) {
        ensure!(f.iter().all(|z| z.re == 0.0 && z.im == 0.0), "{what}: frame {m} lies past the signal (or is silent) but is not zero");
        return Ok(0.0);
    }
    close(&format!("{what} frame {m}"), &f64s(f), &dft(&s), tol_fft::<f32>(w.len()), 1e-35)
}
fn run_stft(c: &Case) -> Res {
    let x = c.sig.real32(c.n);
    let w = c.win.make(c.wl);
    let fft = ScalarFftImpl::<f32>::default();
    let req = c.n.div_ceil(c.hop);
    let total = req + c.extra;
    let mut ratio = 0f64;
    let mk = |salt: u64| -> Vec<Vec<Complex32>> {
        let mut s = c.junk ^ salt;
        (0..total).map(|_| { let l = (splitmix(&mut s) % (2 * c.wl as u64 + 2)) as usize; junk_c(s, l) }).collect()
    };
    let mut out = mk(1);
    let r = no_panic("stft", || stft::stft(&x, &w, c.hop, &mut out, &fft))?;
    ensure!(r.is_ok(), "stft returned {r:?}");
    ensure!(out.len() == total, "stft changed the number of frame buffers");
    for (m, f) in out.iter().enumerate() {
        ensure!(f.len() == c.wl, "stft frame {m} has {} bins, window has {}", f.len(), c.wl);
        if used(m, c.wl) || m + 2 >= req || m % 7 == 0 {
            ratio = ratio.max(check_frame("stft", m, f, &x, &w, c.hop)?);
        }
    }
    let same = |what: &str, m: usize, f: &[Complex32]| -> Result<f64, String> { close(&format!("{what} vs stft frame {m}"), &f64s(f), &f64s(&out[m]), 2.0 * tol_fft::<f32>(c.wl), 1e-35) };
    // pull stream
    let mut st = stft::StftStream::new(&x, &w, c.hop, &fft).map_err(|e| format!("StftStream::new: {e:?}"))?;
    let mut got = 0;
    loop {
        let mut buf = junk_c(c.junk ^ got as u64, c.wl);
        if got % 3 == 1 {
            // a rejected pull neither advances nor disturbs the stream
            let mut bad = junk_c(3, c.wl + 1);
            ensure!(st.next_frame(&mut bad) == Err(FftError::MismatchedLengths), "next_frame accepted a buffer of the wrong length");
            let keep = junk_c(3, c.wl + 1);
            ensure!(bits(&bad) == bits(&keep), "a refused next_frame wrote to the buffer");
        }
        let r = no_panic("next_frame", || st.next_frame(&mut buf))?;
        match r {
            Ok(true) => {
                ensure!(got < req, "stream produced more than {req} frames (n={} hop={})", c.n, c.hop);
                ratio = ratio.max(same("stream", got, &buf)?);
                got += 1;
            }
            Ok(false) => break,
            Err(e) => return Err(format!("next_frame failed: {e:?}")),
        }
    }
    ensure!(got == req, "stream produced {got} frames instead of {req} (n={} hop={})", c.n, c.hop);
    let mut buf = junk_c(9, c.wl);
    ensure!(st.next_frame(&mut buf) == Ok(false), "an exhausted stream produced another frame");
    // per-frame helper (also at starts off the hop grid)
    for m in 0..total {
        let mut buf = junk_c(c.junk ^ m as u64, c.wl);
        no_panic("frame", || stft::frame(&x, &w, m.saturating_mul(c.hop), &mut buf, &fft))?.map_err(|e| format!("frame: {e:?}"))?;
        ratio = ratio.max(same("frame helper", m, &buf)?);
    }
    let off = (c.junk % (c.n as u64 + 5)) as usize;
    let mut bad = junk_c(c.junk, c.wl + 1 + (c.junk % 3) as usize);
    ensure!(stft::frame(&x, &w, off, &mut bad, &fft) == Err(FftError::MismatchedLengths), "frame accepted a buffer of the wrong length");
    let mut buf = junk_c(c.junk, c.wl);
    stft::frame(&x, &w, off, &mut buf, &fft).map_err(|e| format!("frame: {e:?}"))?;
    ratio = ratio.max(check_frame("frame helper at any start,", 1, &buf, &x, &w, off)?);
    #[cfg(feature = "k-parallel")]
    {
        let mut p = mk(2);
        no_panic("parallel", || stft::parallel(&x, &w, c.hop, &mut p, &fft))?.map_err(|e| format!("parallel: {e:?}"))?;
        for (m, f) in p.iter().enumerate() {
            ratio = ratio.max(same("parallel", m, f)?);
        }
    }
    // one buffer short is refused
    if req > 0 {
        let mut short = vec![vec![]; req - 1];
        let r = no_panic("stft with too few buffers", || stft::stft(&x, &w, c.hop, &mut short, &fft))?;
        ensure!(r == Err(FftError::MismatchedLengths), "stft with {} of {req} buffers returned {r:?}", req - 1);
    }
    ensure!(stft::stft(&x, &w, 0, &mut out.clone(), &fft) == Err(FftError::InvalidHopSize), "stft accepted hop 0");
    ensure!(stft::StftStream::new(&x, &w, 0, &fft).err() == Some(FftError::InvalidHopSize), "StftStream accepted hop 0");
    let v = if req > 1 && c.wl > 1 && !c.sig.trivial() && c.win != Win::Zero {
        nt(if c.hop > c.wl { "gaps between frames" } else if c.hop == c.wl { "abutting" } else { "overlapping" })
    } else {
        triv("at most one frame, length-1 window, or silence")
    };
    Ok(v.r(ratio))
}

// ---- inverse ----------------------------------------------------------------
struct Ola {
    num: Vec<f64>,
    norm: Vec<f64>,
    bound: Vec<f64>,
}
/// Overlap-add of the given spectra (exact in f64), with a rounding bound per sample.
fn ola(frames: &[Vec<Complex32>], w: &[f32], hop: usize, len: usize) -> Ola {
    let mut o = Ola { num: vec![0.0; len], norm: vec![0.0; len], bound: vec![0.0; len] };
    for (m, f) in frames.iter().enumerate() {
        let t = idft(&f64s(f));
        let peak = norm(&t);
        for (i, &wi) in w.iter().enumerate() {
            let p = m.saturating_mul(hop).saturating_add(i);
            if p < len {
                let wi = wi as f64;
                o.num[p] += t[i].0 * wi;
                o.norm[p] += wi * wi;
                o.bound[p] += wi.abs() * peak * tol_fft::<f32>(w.len());
            }
        }
    }
    let slack = 4.0 * f32::EPSILON as f64 * frames.len().min(w.len() / hop.max(1) + 2) as f64;
    for p in 0..len {
        o.bound[p] += slack * o.num[p].abs();
    }
    o
}
/// got[p] must be num/norm where covered, `num` (or zero when `zeroed`) where not.
fn check_out(what: &str, got: &[f32], o: &Ola, zeroed: bool) -> Result<f64, String> {
    let mut ratio = 0f64;
    for p in 0..got.len() {
        let (want, tol) = if o.norm[p] > 2e-8 {
            (o.num[p] / o.norm[p], o.bound[p] / o.norm[p] + 1e-6 * (o.num[p] / o.norm[p]).abs())
        } else if o.norm[p] < 5e-9 {
            ensure!(got[p].is_finite(), "{what}: uncovered sample {p} is {}", got[p]);
            if zeroed || o.norm[p] == 0.0 {
                (0.0, if zeroed { 0.0 } else { 1e-30 })
            } else {
                continue;
            }
        } else {
            continue;
        };
        let d = (got[p] as f64 - want).abs();
        let r = if d == 0.0 { 0.0 } else { d / tol.max(1e-30) };
        ensure!(r <= 1.0 && got[p].is_finite(), "{what}: sample {p} is {} instead of {want} (allowed error {tol:.2e})", got[p]);
        ratio = ratio.max(r);
    }
    Ok(ratio)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InvCase {
    frames: usize,
    win: Win,
    wl: usize,
    hop: usize,
    sig: Sig,
    len: usize,
    junk: u64,
}
fn inv_case() -> impl Strategy<Value = InvCase> + Clone {
    (0usize..10, win(), wlen(), prop_oneof![4 => 1usize..=8, 2 => 1usize..=64, 3 => Just(0usize), 1 => Just(1_000_000usize), 1 => huge()], sig(), 0usize..3, any::<u64>()).prop_map(|(frames, win, wl, hop, sig, lk, junk)| {
        let hop = match hop {
            0 => (wl / (1 + (junk % 4) as usize)).max(1),
            1_000_000 => wl + 1 + (junk % 30) as usize,
            h => h,
        };
        let full = if frames == 0 { 5 } else { (frames - 1).saturating_mul(hop).saturating_add(wl) };
        let full = if full > 200_000 { 2 * wl + 3 } else { full };
        let len = match lk {
            0 => full,
            1 => (junk >> 20) as usize % (full + 1),
            _ => full + (junk >> 20) as usize % (2 * wl + 5),
        };
        InvCase { frames, win, wl, hop, sig, len, junk }
    })
}
fn wide_inv() -> impl Strategy<Value = InvCase> + Clone {
    (1usize..12, win(), wide_wlen(), (0usize..8, any::<usize>()), sig(), 0usize..3, any::<u64>()).prop_map(|(frames, win, wl, (k, r), sig, lk, junk)| {
        let hop = near_hop(wl, k, r);
        let full = (frames - 1) * hop + wl;
        let len = match lk {
            0 => full,
            1 => (junk >> 20) as usize % (full + 1),
            _ => full + (junk >> 20) as usize % (2 * wl + 5),
        };
        InvCase { frames, win, wl, hop, sig, len, junk }
    })
}
fn many_inv() -> impl Strategy<Value = InvCase> + Clone {
    (prop_oneof![1 => 66_000usize..=80_000, 2 => 250usize..=5000], win(), tiny_wlen(), 1usize..=4, sig(), 0usize..9, any::<u64>()).prop_map(|(frames, win, wl, hop, sig, k, junk)| InvCase { frames, win, wl, hop, sig, len: ((frames - 1) * hop + wl + k).saturating_sub(4), junk })
}
fn spectra(sig: &Sig, frames: usize, wl: usize) -> Vec<Vec<Complex32>> {
    let all = sig.complex(frames * wl);
    (0..frames).map(|m| all[m * wl..(m + 1) * wl].iter().map(|z| Complex32::new(z.0 as f32, z.1 as f32)).collect()).collect()
}
fn inv_class(frames: usize, hop: usize, wl: usize, w: &Win, s: &Sig) -> Verdict {
    if frames > 1 && wl > 1 && *w != Win::Zero && !s.trivial() {
        nt(if hop > wl { "gaps between frames" } else if hop == wl { "abutting" } else { "overlapping" })
    } else {
        triv("at most one frame, length-1 window, or silence")
    }
}
fn run_istft(c: &InvCase) -> Res {
    let w = c.win.make(c.wl);
    let fr = spectra(&c.sig, c.frames, c.wl);
    let fft = ScalarFftImpl::<f32>::default();
    let o = ola(&fr, &w, c.hop, c.len);
    let mut out = junk_r(c.junk, c.len);
    let mut scratch = junk_r(!c.junk, c.len);
    let mut f1 = fr.clone();
    let r = no_panic("istft", || stft::istft(&mut f1, &w, c.hop, &mut out, &mut scratch, &fft))?;
    ensure!(r.is_ok(), "istft returned {r:?}");
    let mut ratio = check_out("istft", &out, &o, false)?;
    // a second call with different leftovers gives the same bits
    let mut out2 = vec![0.0f32; c.len];
    let mut scratch2 = vec![0.0f32; c.len];
    stft::istft(&mut fr.clone(), &w, c.hop, &mut out2, &mut scratch2, &fft).map_err(|e| format!("istft: {e:?}"))?;
    ensure!(rbits(&out) == rbits(&out2), "istft output depends on what the output/scratch buffers held");
    // per-frame helper accumulates the un-normalised numerator
    let base: Vec<f32> = (0..c.len).map(|i| (i % 5) as f32 * 0.25).collect();
    let mut acc = base.clone();
    for (m, f) in fr.iter().enumerate() {
        let mut b = f.clone();
        no_panic("inverse_frame", || stft::inverse_frame(&mut b, &w, m.saturating_mul(c.hop), &mut acc, &fft))?.map_err(|e| format!("inverse_frame: {e:?}"))?;
    }
    for p in 0..c.len {
        let want = o.num[p] + base[p] as f64;
        let tol = o.bound[p] + 8.0 * f32::EPSILON as f64 * (want.abs() + base[p] as f64 + o.bound[p] / tol_fft::<f32>(c.wl)) + 1e-30;
        let d = (acc[p] as f64 - want).abs();
        ensure!(d <= tol, "inverse_frame: sample {p} is {} instead of {want}", acc[p]);
    }
    #[cfg(feature = "k-parallel")]
    {
        let keep = fr.clone();
        let mut out = junk_r(c.junk ^ 5, c.len);
        no_panic("inverse_parallel", || stft::inverse_parallel(&fr, &w, c.hop, &mut out, &fft))?.map_err(|e| format!("inverse_parallel: {e:?}"))?;
        ratio = ratio.max(check_out("inverse_parallel", &out, &o, true)?);
        for (a, b) in keep.iter().zip(&fr) {
            ensure!(bits(a) == bits(b), "inverse_parallel modified its frames");
        }
    }
    // refusals
    if c.frames > 0 {
        let k = (c.junk as usize) % c.frames;
        for d in [-1i64, 1] {
            let l = c.wl as i64 + d;
            let mut bad = fr.clone();
            bad[k].resize(l as usize, Complex32::new(1.0, 2.0));
            let keep = bad.clone();
            let mut out = junk_r(c.junk, c.len);
            let mut scratch = vec![0.0; c.len];
            let r = no_panic("istft with a frame of the wrong length", || stft::istft(&mut bad, &w, c.hop, &mut out, &mut scratch, &fft))?;
            ensure!(r == Err(FftError::MismatchedLengths), "istft with frame {k} of length {l} (window {}) returned {r:?}", c.wl);
            ensure!(bad.iter().zip(&keep).all(|(a, b)| bits(a) == bits(b)), "a refused istft transformed some frames");
            let mut one = bad[k].clone();
            let r = no_panic("inverse_frame with a wrong length", || stft::inverse_frame(&mut one, &w, 0, &mut out, &fft))?;
            ensure!(r == Err(FftError::MismatchedLengths), "inverse_frame accepted a frame of length {l} for window {}: {r:?}", c.wl);
            #[cfg(feature = "k-parallel")]
            {
                let r = no_panic("inverse_parallel with a wrong length", || stft::inverse_parallel(&bad, &w, c.hop, &mut out, &fft))?;
                ensure!(r == Err(FftError::MismatchedLengths), "inverse_parallel with frame {k} of length {l} (window {}) returned {r:?}", c.wl);
            }
        }
    }
    let mut bad_scratch = vec![0.0; c.len + 1];
    ensure!(stft::istft(&mut fr.clone(), &w, c.hop, &mut out, &mut bad_scratch, &fft) == Err(FftError::MismatchedLengths), "istft accepted scratch longer than output");
    if c.len > 0 {
        ensure!(stft::istft(&mut fr.clone(), &w, c.hop, &mut out, &mut bad_scratch[..c.len - 1], &fft) == Err(FftError::MismatchedLengths), "istft accepted scratch shorter than output");
    }
    ensure!(stft::istft(&mut fr.clone(), &w, 0, &mut out, &mut scratch, &fft) == Err(FftError::InvalidHopSize), "istft accepted hop 0");
    #[cfg(feature = "k-parallel")]
    ensure!(stft::inverse_parallel(&fr, &w, 0, &mut out, &fft) == Err(FftError::InvalidHopSize), "inverse_parallel accepted hop 0");
    Ok(inv_class(c.frames, c.hop, c.wl, &c.win, &c.sig).r(ratio))
}
fn roundtrip(c: &Case) -> Res {
    let x = c.sig.real32(c.n);
    let w = c.win.make(c.wl);
    let fft = ScalarFftImpl::<f32>::default();
    let req = c.n.div_ceil(c.hop);
    let mut frames = vec![vec![]; req + c.extra];
    stft::stft(&x, &w, c.hop, &mut frames, &fft).map_err(|e| format!("stft: {e:?}"))?;
    let mut norm2 = vec![0f64; c.n];
    let mut bound = vec![0f64; c.n];
    for m in 0..req {
        let e = norm(&seg(&x, &w, m * c.hop));
        for i in 0..c.wl {
            if m * c.hop + i < c.n {
                norm2[m * c.hop + i] += (w[i] as f64).powi(2);
                bound[m * c.hop + i] += (w[i] as f64).abs() * e;
            }
        }
    }
    let mut outs: Vec<(&str, Vec<f32>)> = vec![];
    #[cfg(feature = "k-parallel")]
    {
        let mut o = junk_r(c.junk, c.n);
        stft::inverse_parallel(&frames, &w, c.hop, &mut o, &fft).map_err(|e| format!("inverse_parallel: {e:?}"))?;
        outs.push(("inverse_parallel", o));
    }
    let mut o = junk_r(c.junk, c.n);
    let mut s = junk_r(c.junk ^ 1, c.n);
    no_panic("istft", || stft::istft(&mut frames, &w, c.hop, &mut o, &mut s, &fft))?.map_err(|e| format!("istft: {e:?}"))?;
    outs.push(("istft", o));
    let (mut ratio, mut covered) = (0f64, 0usize);
    for (what, o) in &outs {
        for p in 0..c.n {
            if norm2[p] > 2e-8 {
                covered += 1;
                let tol = 2.0 * tol_fft::<f32>(c.wl) * bound[p] / norm2[p] + 1e-5 * x[p].abs() as f64 + 1e-30;
                let d = (o[p] as f64 - x[p] as f64).abs();
                ensure!(d <= tol, "{what} after stft: sample {p} is {} instead of {} (covered with weight {:.3e}, n={} win={} hop={})", o[p], x[p], norm2[p], c.n, c.wl, c.hop);
                if d > 0.0 {
                    ratio = ratio.max(d / tol);
                }
            }
        }
    }
    let v = if covered > 1 && req > 1 && !c.sig.trivial() { nt(if covered == outs.len() * c.n { "fully covered" } else { "partly covered" }) } else { triv("nothing to reconstruct") };
    Ok(v.r(ratio))
}

// ---- streaming inverse -----------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StreamCase {
    frames: usize,
    win: Win,
    wl: usize,
    hop: usize,
    sig: Sig,
    /// after which pushes a rejected push is attempted (bit mask)
    bad: u64,
    junk: u64,
}
fn stream_case(maxf: usize) -> impl Strategy<Value = StreamCase> + Clone {
    (0usize..=maxf, win(), wlen(), prop_oneof![4 => 1usize..=8, 2 => 1usize..=64, 3 => Just(0usize), 2 => Just(1_000_000usize)], sig(), any::<u64>(), any::<u64>()).prop_map(|(frames, win, wl, hop, sig, bad, junk)| {
        let hop = match hop {
            0 => (wl / (1 + (junk % 4) as usize)).max(1),
            1_000_000 => wl + 1 + (junk % 90) as usize,
            h => h,
        };
        StreamCase { frames, win, wl, hop, sig, bad: bad & junk, junk }
    })
}
fn wide_stream() -> impl Strategy<Value = StreamCase> + Clone {
    (1usize..=12, win(), wide_wlen(), (0usize..8, any::<usize>()), sig(), any::<u64>(), any::<u64>()).prop_map(|(frames, win, wl, (k, r), sig, bad, junk)| StreamCase { frames, win, wl, hop: near_hop(wl, k, r), sig, bad: bad & junk, junk })
}
fn many_stream() -> impl Strategy<Value = StreamCase> + Clone {
    (prop_oneof![1 => 66_000usize..=70_000, 3 => 250usize..=5000], win(), tiny_wlen(), 1usize..=12, sig(), any::<u64>(), any::<u64>()).prop_map(|(frames, win, wl, hop, sig, bad, junk)| StreamCase { frames, win, wl, hop, sig, bad: bad & junk, junk })
}
fn run_stream(c: &StreamCase) -> Res {
    let w = c.win.make(c.wl);
    let fr = spectra(&c.sig, c.frames, c.wl);
    let fft = ScalarFftImpl::<f32>::default();
    let full = if c.frames == 0 { 0 } else { ((c.frames - 1) * c.hop + c.wl).max(c.frames * c.hop) };
    let o = ola(&fr, &w, c.hop, full);
    let mut st = no_panic("IstftStream::new", || stft::IstftStream::new(c.wl, c.hop, w.clone(), &fft))?.map_err(|e| format!("IstftStream::new: {e:?}"))?;
    let mut out: Vec<f32> = vec![];
    for (m, f) in fr.iter().enumerate() {
        if c.bad >> (m % 64) & 1 == 1 {
            for l in [c.wl + 1, c.wl - 1] {
                let bad = vec![Complex32::new(5.0, 5.0); l];
                let r = no_panic("push of a wrong length", || st.push_frame(&bad).map(|s| s.len()))?;
                ensure!(r == Err(FftError::MismatchedLengths), "push_frame with length {l} (window {}) returned {r:?}", c.wl);
            }
        }
        let chunk = no_panic(&format!("push_frame {m} (win {} hop {})", c.wl, c.hop), || st.push_frame(f).map(|s| s.to_vec()))?.map_err(|e| format!("push_frame: {e:?}"))?;
        ensure!(chunk.len() == c.hop, "push {m} returned {} samples instead of the hop {}", chunk.len(), c.hop);
        out.extend(chunk);
    }
    let tail = no_panic("flush", || st.flush().to_vec())?;
    out.extend(&tail);
    ensure!(out.len() == full, "stream of {} frames (win {} hop {}) gave {} samples, the frames span {full}", c.frames, c.wl, c.hop, out.len());
    let again = no_panic("second flush", || st.flush().to_vec())?;
    ensure!(again.is_empty(), "a second flush returned {} samples", again.len());
    let mut ratio = check_out("stream", &out, &o, false)?;
    // and against the library's own offline inverse
    let mut off = vec![0f32; full];
    let mut sc = vec![0f32; full];
    stft::istft(&mut fr.clone(), &w, c.hop, &mut off, &mut sc, &fft).map_err(|e| format!("istft: {e:?}"))?;
    for p in 0..full {
        if o.norm[p] > 2e-8 || o.norm[p] < 5e-9 {
            let b = if o.norm[p] > 2e-8 { o.bound[p] / o.norm[p] } else { o.bound[p] };
            let tol = 2.0 * b + 1e-6 * (off[p].abs() as f64) + 1e-30;
            let d = (out[p] as f64 - off[p] as f64).abs();
            ensure!(d <= tol, "stream sample {p} is {}, the offline inverse has {} (frames {} win {} hop {})", out[p], off[p], c.frames, c.wl, c.hop);
            ratio = ratio.max(d / tol);
        }
    }
    ensure!(stft::IstftStream::new(c.wl, 0, w.clone(), &fft).err() == Some(FftError::InvalidHopSize), "IstftStream accepted hop 0");
    for l in [c.wl + 1, c.wl - 1] {
        let r = no_panic("IstftStream::new with another length", || stft::IstftStream::new(l, c.hop, w.clone(), &fft).err())?;
        ensure!(r == Some(FftError::MismatchedLengths), "IstftStream::new({l}, ..) accepted a window of {}", c.wl);
    }
    Ok(inv_class(c.frames, c.hop, c.wl, &c.win, &c.sig).r(ratio))
}
/// A fft whose calls fail now and then: a failed push must not disturb the stream.
struct Flaky {
    inner: ScalarFftImpl<f32>,
    fail: std::cell::Cell<bool>,
}
impl FftImpl<f32> for Flaky {
    fn fft(&self, x: &mut [Complex32]) -> Result<(), FftError> {
        if self.fail.get() {
            return Err(FftError::InvalidValue);
        }
        self.inner.fft(x)
    }
    fn ifft(&self, x: &mut [Complex32]) -> Result<(), FftError> {
        if self.fail.get() {
            return Err(FftError::InvalidValue);
        }
        self.inner.ifft(x)
    }
    fn fft_strided(&self, x: &mut [Complex32], s: usize, b: &mut [Complex32]) -> Result<(), FftError> {
        self.inner.fft_strided(x, s, b)
    }
    fn ifft_strided(&self, x: &mut [Complex32], s: usize, b: &mut [Complex32]) -> Result<(), FftError> {
        self.inner.ifft_strided(x, s, b)
    }
    fn fft_out_of_place_strided(&self, a: &[Complex32], i: usize, o: &mut [Complex32], s: usize) -> Result<(), FftError> {
        self.inner.fft_out_of_place_strided(a, i, o, s)
    }
    fn ifft_out_of_place_strided(&self, a: &[Complex32], i: usize, o: &mut [Complex32], s: usize) -> Result<(), FftError> {
        self.inner.ifft_out_of_place_strided(a, i, o, s)
    }
    fn fft_with_strategy(&self, x: &mut [Complex32], s: kofft::fft::FftStrategy) -> Result<(), FftError> {
        self.inner.fft_with_strategy(x, s)
    }
}
fn run_faults(c: &StreamCase) -> Res {
    let w = c.win.make(c.wl);
    let fr = spectra(&c.sig, c.frames, c.wl);
    let plain = ScalarFftImpl::<f32>::default();
    let flaky = Flaky { inner: ScalarFftImpl::default(), fail: Default::default() };
    let mut a = stft::IstftStream::new(c.wl, c.hop, w.clone(), &plain).map_err(|e| format!("{e:?}"))?;
    let mut b = stft::IstftStream::new(c.wl, c.hop, w.clone(), &flaky).map_err(|e| format!("{e:?}"))?;
    let mut faults = 0;
    for (m, f) in fr.iter().enumerate() {
        if c.bad >> (m % 64) & 1 == 1 {
            faults += 1;
            flaky.fail.set(true);
            let r = no_panic("push with a failing transform", || b.push_frame(f).map(|s| s.len()))?;
            ensure!(r == Err(FftError::InvalidValue), "push_frame hid the transform's error: {r:?}");
            flaky.fail.set(false);
        }
        let x = a.push_frame(f).map_err(|e| format!("{e:?}"))?.to_vec();
        let y = b.push_frame(f).map_err(|e| format!("{e:?}"))?.to_vec();
        ensure!(rbits(&x) == rbits(&y), "chunk {m} differs after a failed push");
    }
    let (x, y) = (a.flush().to_vec(), b.flush().to_vec());
    ensure!(rbits(&x) == rbits(&y), "tail differs after a failed push");
    // pull stream with the same faults
    let sigl = c.frames * c.hop + 3;
    let s = c.sig.real32(sigl);
    let mut a = stft::StftStream::new(&s, &w, c.hop, &plain).map_err(|e| format!("{e:?}"))?;
    let mut b = stft::StftStream::new(&s, &w, c.hop, &flaky).map_err(|e| format!("{e:?}"))?;
    let (mut p, mut q) = (junk_c(1, c.wl), junk_c(1, c.wl));
    for m in 0.. {
        if c.bad >> (m % 64) & 1 == 1 && m * c.hop < sigl {
            flaky.fail.set(true);
            let r = b.next_frame(&mut q);
            ensure!(r == Err(FftError::InvalidValue), "next_frame hid the transform's error: {r:?}");
            flaky.fail.set(false);
        }
        let (x, y) = (a.next_frame(&mut p), b.next_frame(&mut q));
        ensure!(x == y, "streams end at different frames after a failed pull");
        if x != Ok(true) {
            break;
        }
        ensure!(bits(&p) == bits(&q), "frame {m} differs after a failed pull");
    }
    Ok(if faults > 0 && c.frames > 1 { nt("with failed pushes") } else { triv("no fault injected") })
}
fn signal_stream(c: &Case) -> Res {
    // stft stream -> istft stream restores the covered samples
    let x = c.sig.real32(c.n);
    let w = c.win.make(c.wl);
    let fft = ScalarFftImpl::<f32>::default();
    let mut a = stft::StftStream::new(&x, &w, c.hop, &fft).map_err(|e| format!("{e:?}"))?;
    let mut b = stft::IstftStream::new(c.wl, c.hop, w.clone(), &fft).map_err(|e| format!("{e:?}"))?;
    let mut f = junk_c(2, c.wl);
    let (mut out, mut frames) = (vec![], 0);
    while a.next_frame(&mut f).map_err(|e| format!("{e:?}"))? {
        frames += 1;
        let ch = no_panic("push_frame", || b.push_frame(&f).map(|s| s.to_vec()))?.map_err(|e| format!("{e:?}"))?;
        out.extend(ch);
    }
    out.extend(b.flush());
    let mut norm2 = vec![0f64; c.n];
    let mut bound = vec![0f64; c.n];
    for m in 0..frames {
        let e = norm(&seg(&x, &w, m * c.hop));
        for i in 0..c.wl {
            if m * c.hop + i < c.n {
                norm2[m * c.hop + i] += (w[i] as f64).powi(2);
                bound[m * c.hop + i] += (w[i] as f64).abs() * e;
            }
        }
    }
    let mut covered = 0;
    let mut ratio = 0f64;
    for p in 0..c.n {
        if norm2[p] > 2e-8 {
            covered += 1;
            ensure!(p < out.len(), "stream pair returned {} samples for a signal of {}", out.len(), c.n);
            let tol = 2.0 * tol_fft::<f32>(c.wl) * bound[p] / norm2[p] + 1e-5 * x[p].abs() as f64 + 1e-30;
            let d = (out[p] as f64 - x[p] as f64).abs();
            ensure!(d <= tol, "stream round trip: sample {p} is {} instead of {} (n={} win={} hop={})", out[p], x[p], c.n, c.wl, c.hop);
            ratio = ratio.max(d / tol);
        }
    }
    Ok(if covered > 1 && frames > 1 && !c.sig.trivial() { nt("reconstructed") } else { triv("nothing to reconstruct") }.r(ratio))
}
const R: &str = "two or more frames, window longer than 1, not silent";
pub fn c17(r: &mut Reg) {
    r.prop("stft-frames", R, 2500, case(400), run_stft);
    r.prop("stft-long", R, 60, case(6000).prop_filter("bounded work", |c| c.n * c.wl / c.hop < 400_000), run_stft);
    r.prop("stft-wide", R, 150, wide_case(), run_stft);
    r.prop("stft-many", R, 4, many_case(), run_stft);
}
pub fn c18(r: &mut Reg) {
    r.prop("istft-frames", R, 2500, inv_case(), run_istft);
    r.prop("stft-istft", "two or more frames and covered samples", 3000, case(400), roundtrip);
    r.prop("stft-istft-long", "two or more frames and covered samples", 100, case(6000).prop_filter("bounded work", |c| c.n * c.wl / c.hop < 2_000_000), roundtrip);
    r.prop("istft-wide", R, 200, wide_inv(), run_istft);
    r.prop("istft-many", R, 12, many_inv(), run_istft);
    r.prop("stft-istft-wide", "two or more frames and covered samples", 150, wide_case(), roundtrip);
    r.prop("stft-istft-many", "two or more frames and covered samples", 6, many_case(), roundtrip);
}
pub fn c19(r: &mut Reg) {
    r.prop("stream-vs-offline", R, 2500, stream_case(12), run_stream);
    r.prop("stream-long", R, 80, stream_case(150).prop_filter("bounded work", |c| c.wl * c.wl * c.frames < 600_000), run_stream);
    r.prop("failed-pushes", "at least one injected failure and two frames", 1500, stream_case(12), run_faults);
    r.prop("stream-roundtrip", "two or more frames and covered samples", 2000, case(300).prop_filter("the stream buffers hop samples", |c| c.hop < 1 << 16), signal_stream);
    r.prop("stream-wide", R, 200, wide_stream(), run_stream);
    r.prop("stream-many", R, 12, many_stream(), run_stream);
    r.prop("failed-pushes-wide", "at least one injected failure and two frames", 100, wide_stream(), run_faults);
    r.prop("stream-roundtrip-wide", "two or more frames and covered samples", 100, wide_case(), signal_stream);
    r.prop("stream-roundtrip-many", "two or more frames and covered samples", 6, many_case(), signal_stream);
}
