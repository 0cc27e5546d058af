//! C08: the same generated call in every build configuration.
//!
//! Each configuration of the crate under test is a separate build of this
//! program.  `vpk --serve` answers calls on stdin; the driving process sends
//! every generated call to all of them and compares the answers, so that a
//! disagreement shrinks like any other failure.
use super::fft_core::{supported, STD};
use crate::core::*;
use crate::oracle::*;
use crate::sig::*;
use kofft::fft::*;
use kofft::ndfft::*;
use kofft::rfft::*;
use kofft::{dct, dst, hartley, stft, wavelet as wv, window as wn, window_more as wm};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Fft32,
    Fft64,
    Ifft32,
    Ifft64,
    Layout32,
    Layout64,
    Rfft32,
    Rfft64,
    Nd32,
    Nd64,
    Batch,
    Stack,
    Stft,
    Trig,
    Signal,
    Wavelet,
    Window,
    Twiddle,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    pub op: Op,
    pub n: usize,
    pub m: usize,
    pub k: usize,
    pub sig: Sig,
}
/// One result: the values and the L2 distance two correct builds may differ by.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Out {
    pub name: String,
    pub err: Option<String>,
    /// this build may refuse the call (no_std lengths)
    pub refuse: bool,
    pub tol: f64,
    pub v: Vec<Option<f64>>,
    /// name of the result this one must equal, when it is not its namesake
    pub like: Option<String>,
}
struct Acc(Vec<Out>);
impl Acc {
    fn put(&mut self, name: &str, refuse: bool, tol: f64, r: Result<Result<Vec<f64>, FftError>, String>) {
        self.like(name, None, refuse, tol, r)
    }
    fn like(&mut self, name: &str, like: Option<&str>, refuse: bool, tol: f64, r: Result<Result<Vec<f64>, FftError>, String>) {
        let (err, v) = match r {
            Ok(Ok(v)) => (None, v),
            Ok(Err(e)) => (Some(format!("{e:?}")), vec![]),
            Err(p) => (Some(p), vec![]),
        };
        let v = v.into_iter().map(|x| if x.is_finite() { Some(x) } else { None }).collect();
        self.0.push(Out { name: name.into(), err, refuse, tol, v, like: like.map(|s| s.into()) });
    }
}
fn flat<T: El>(x: &[Cx<T>]) -> Vec<f64> {
    x.iter().flat_map(|z| [z.re.f(), z.im.f()]).collect()
}
fn f32s(x: &[f32]) -> Vec<f64> {
    x.iter().map(|v| *v as f64).collect()
}
macro_rules! call {
    ($a:expr, $name:expr, $refuse:expr, $tol:expr, $e:expr) => {
        $a.put($name, $refuse, $tol, no_panic($name, || $e))
    };
}
macro_rules! same {
    ($a:expr, $name:expr, $like:expr, $refuse:expr, $tol:expr, $e:expr) => {
        $a.like($name, Some($like), $refuse, $tol, no_panic($name, || $e))
    };
}

fn fft_variants<T: El>(a: &mut Acc, c: &Call, inv: bool) {
    let x = to_t::<T>(&c.sig.complex(c.n));
    let n = c.n;
    let no = !supported(n) && n > 0;
    let gain = if inv { 1.0 / (n.max(1) as f64).sqrt() } else { (n as f64).sqrt() };
    let tol = 2.0 * tol_fft::<T>(n) * norm(&from_t(&x)) * gain + 1e-300;
    let go = |f: &dyn Fn(&mut [Cx<T>]) -> Result<(), FftError>| {
        let mut y = x.clone();
        f(&mut y).map(|_| flat(&y))
    };
    let s = ScalarFftImpl::<T>::default;
    call!(a, "scalar", no, tol, go(&|y| if inv { s().ifft(y) } else { s().fft(y) }));
    same!(a, "fft_parallel", "scalar", no, tol, go(&|y| if inv { ifft_parallel(y) } else { fft_parallel(y) }));
    #[cfg(feature = "k-std")]
    same!(a, "plan", "scalar", no, tol, { let p = FftPlan::<T>::new(n, FftStrategy::Auto); go(&|y| if inv { p.ifft(y) } else { p.fft(y) }) });
    if !inv {
        same!(a, "auto strategy", "scalar", no, tol, go(&|y| s().fft_with_strategy(y, FftStrategy::Auto)));
        if n.is_power_of_two() {
            same!(a, "stockham", "scalar", no, tol, go(&|y| s().stockham_fft(y)));
            same!(a, "radix2 strategy", "scalar", no, tol, go(&|y| s().fft_with_strategy(y, FftStrategy::Radix2)));
            same!(a, "split-radix strategy", "scalar", no, tol, go(&|y| s().fft_with_strategy(y, FftStrategy::SplitRadix)));
            same!(a, "radix4 strategy", "scalar", no, tol, go(&|y| s().fft_with_strategy(y, FftStrategy::Radix4)));
        }
    }
    #[cfg(feature = "k-std")]
    same!(a, "vec", "scalar", no, tol, { if inv { s().ifft_vec(&x) } else { s().fft_vec(&x) } }.map(|y| flat(&y)));
}
fn backend_variants(a: &mut Acc, c: &Call, inv: bool) {
    let x = to_t::<f32>(&c.sig.complex(c.n));
    let n = c.n;
    let no = !supported(n) && n > 0;
    let gain = if inv { 1.0 / (n.max(1) as f64).sqrt() } else { (n as f64).sqrt() };
    let tol = 2.0 * tol_fft::<f32>(n) * norm(&from_t(&x)) * gain + 1e-300;
    let all = |a: &mut Acc, nm: &str, b: &dyn FftImpl<f32>| {
        let go = |f: &dyn Fn(&mut [Complex32]) -> Result<(), FftError>| {
            let mut y = x.clone();
            f(&mut y).map(|_| flat(&y))
        };
        same!(a, nm, "scalar", no, tol, go(&|y| if inv { b.ifft(y) } else { b.fft(y) }));
        same!(a, &format!("{nm} out of place"), "scalar", no, tol, {
            let mut y = vec![Complex32::zero(); n];
            if inv { b.ifft_out_of_place(&x, &mut y) } else { b.fft_out_of_place(&x, &mut y) }.map(|_| flat(&y))
        });
        same!(a, &format!("{nm} split"), "scalar", no, tol, {
            let (mut re, mut im): (Vec<f32>, Vec<f32>) = x.iter().map(|z| (z.re, z.im)).unzip();
            if inv { b.ifft_split(&mut re, &mut im) } else { b.fft_split(&mut re, &mut im) }.map(|_| re.iter().zip(&im).flat_map(|(p, q)| [*p as f64, *q as f64]).collect())
        });
        // a stride over nothing addresses nothing: that is not an error
        if n == 0 {
            return;
        }
        same!(a, &format!("{nm} strided"), "scalar", no, tol, {
            let st = 1 + c.k % 3;
            let mut w = vec![Complex32::new(3.0, 4.0); n * st];
            for (i, z) in x.iter().enumerate() {
                w[i * st] = *z;
            }
            if inv { b.ifft_strided_alloc(&mut w, st) } else { b.fft_strided_alloc(&mut w, st) }.map(|_| flat(&(0..n).map(|i| w[i * st]).collect::<Vec<_>>()))
        });
    };
    all(a, "auto-selected", new_fft_impl().as_ref());
    #[cfg(target_arch = "x86_64")]
    all(a, "SimdFftX86_64Impl", &SimdFftX86_64Impl);
}
fn layouts<T: El>(a: &mut Acc, c: &Call) {
    let x = to_t::<T>(&c.sig.complex(c.n));
    let n = c.n;
    let no = !supported(n) && n > 0;
    let inv = c.m % 2 == 1;
    let gain = if inv { 1.0 / (n.max(1) as f64).sqrt() } else { (n as f64).sqrt() };
    let tol = 2.0 * tol_fft::<T>(n) * norm(&from_t(&x)) * gain + 1e-300;
    let f = ScalarFftImpl::<T>::default();
    let split = |f: &dyn Fn(&mut [T], &mut [T]) -> Result<(), FftError>| {
        let (mut re, mut im): (Vec<T>, Vec<T>) = x.iter().map(|z| (z.re, z.im)).unzip();
        f(&mut re, &mut im).map(|_| re.iter().zip(&im).flat_map(|(p, q)| [p.f(), q.f()]).collect::<Vec<f64>>())
    };
    call!(a, "split", no, tol, split(&|re, im| if inv { f.ifft_split(re, im) } else { f.fft_split(re, im) }));
    same!(a, "free split", "split", no, tol, split(&|re, im| if inv { ifft_split(re, im) } else { fft_split(re, im) }));
    #[cfg(feature = "k-std")]
    same!(a, "plan split", "split", no, tol, split(&|re, im| { let p = FftPlan::<T>::new(n, FftStrategy::Auto); if inv { p.ifft_split(re, im) } else { p.fft_split(re, im) } }));
    same!(a, "out of place", "split", no, tol, { let mut y = vec![Cx::<T>::zero(); n]; if inv { f.ifft_out_of_place(&x, &mut y) } else { f.fft_out_of_place(&x, &mut y) }.map(|_| flat(&y)) });
    same!(a, "strided", "split", no, tol, {
        let st = 1 + c.k % 4;
        let mut w = vec![Cx::<T>::zero(); n * st];
        for (i, z) in x.iter().enumerate() {
            w[i * st] = *z;
        }
        let mut s = vec![Cx::<T>::zero(); n];
        if inv { f.ifft_strided(&mut w, st, &mut s) } else { f.fft_strided(&mut w, st, &mut s) }.map(|_| flat(&(0..n).map(|i| w[i * st]).collect::<Vec<_>>()))
    });
}
fn real<T: El + RealFftNum>(a: &mut Acc, c: &Call) {
    let n = c.n * 2;
    let no = !supported(c.n);
    let x: Vec<T> = c.sig.real(n).into_iter().map(T::of).collect();
    let nx = rnorm(&v64(&x));
    let tol = 3.0 * tol_fft::<T>(n) * nx * (n as f64).sqrt() + 1e-300;
    let f = ScalarFftImpl::<T>::default();
    let fwd = |g: &dyn Fn(&mut [T], &mut [Cx<T>]) -> Result<(), FftError>| {
        let (mut y, mut o) = (x.clone(), vec![Cx::<T>::zero(); c.n + 1]);
        g(&mut y, &mut o).map(|_| flat(&o))
    };
    call!(a, "rfft", no, tol, fwd(&|y, o| RfftPlanner::<T>::new().rfft(&f, y, o)));
    same!(a, "rfft with scratch", "rfft", no, tol, fwd(&|y, o| RfftPlanner::<T>::new().rfft_with_scratch(&f, y, o, &mut vec![Cx::<T>::zero(); c.n])));
    // any half spectrum with real ends
    let h = c.sig.complex(c.n + 1);
    let mut h: Vec<Cx<T>> = to_t(&h);
    h[0].im = T::zero();
    h[c.n].im = T::zero();
    let tol = 3.0 * tol_fft::<T>(n) * norm(&from_t(&h)) * 2.0 / (n as f64).sqrt() + 1e-300;
    let inv = |g: &dyn Fn(&mut [Cx<T>], &mut [T]) -> Result<(), FftError>| {
        let (mut y, mut o) = (h.clone(), vec![T::zero(); n]);
        g(&mut y, &mut o).map(|_| v64(&o))
    };
    call!(a, "irfft", no, tol, inv(&|y, o| RfftPlanner::<T>::new().irfft(&f, y, o)));
    same!(a, "irfft with scratch", "irfft", no, tol, inv(&|y, o| RfftPlanner::<T>::new().irfft_with_scratch(&f, y, o, &mut vec![Cx::<T>::zero(); c.n])));
}
fn nd<T: El>(a: &mut Acc, c: &Call) {
    let (d, r, w) = (c.n, c.m, c.k);
    let no = ![d, r, w, d * r].iter().all(|v| supported(*v));
    let x = to_t::<T>(&c.sig.complex(d * r * w));
    let tol = 6.0 * tol_fft::<T>(d * r * w) * norm(&from_t(&x)) * ((d * r * w) as f64).sqrt() + 1e-300;
    let f = ScalarFftImpl::<T>::default();
    call!(a, "fft3d", no, tol, {
        let mut y = x.clone();
        let z = Cx::<T>::zero();
        let (mut t, mut rw, mut cl) = (vec![z; d], vec![z; r], vec![z; w]);
        fft3d_inplace(&mut y, d, r, w, &f, &mut Fft3dScratch { tube: &mut t, row: &mut rw, col: &mut cl }).map(|_| flat(&y))
    });
    call!(a, "fft2d", no, tol, {
        let mut y = x.clone();
        let mut s = vec![Cx::<T>::zero(); d * r];
        fft2d_inplace(&mut y, d * r, w, &f, &mut s).map(|_| flat(&y))
    });
}
fn batches(a: &mut Acc, c: &Call) {
    let ns = [c.n, c.m, c.k];
    let no = !ns.iter().all(|v| supported(*v));
    let mk = || -> Vec<Vec<Complex32>> { ns.iter().map(|n| to_t(&c.sig.complex(*n))).collect() };
    let tot: f64 = mk().iter().map(|v| norm(&from_t(v)) * (v.len() as f64).sqrt()).sum();
    let tol = 2.0 * tol_fft::<f32>(*ns.iter().max().unwrap()) * tot + 1e-300;
    let f = ScalarFftImpl::<f32>::default();
    let out = |v: Vec<Vec<Complex32>>| v.iter().flat_map(|x| flat(x)).collect::<Vec<f64>>();
    call!(a, "batch", no, tol, { let mut v = mk(); batch(&f, &mut v).map(|_| out(v)) });
    same!(a, "multi_channel", "batch", no, tol, { let mut v = mk(); multi_channel(&f, &mut v).map(|_| out(v)) });
    call!(a, "batch_inverse", no, tol, { let mut v = mk(); batch_inverse(&f, &mut v).map(|_| out(v)) });
}
fn stack_n<const N: usize, const H: usize>(a: &mut Acc, c: &Call) {
    let x: Vec<Complex32> = to_t(&c.sig.complex(N));
    let tol = 4.0 * (N as f64) * f32::EPSILON as f64 * norm(&from_t(&x)) * (N as f64).sqrt() + 1e-300;
    let mut b = [Complex32::zero(); N];
    call!(a, "fft stack", false, tol, { b.copy_from_slice(&x); fft_inplace_stack(&mut b).map(|_| flat(&b)) });
    let mut b = [Complex32::zero(); N];
    call!(a, "ifft stack", false, tol / N as f64, { b.copy_from_slice(&x); ifft_inplace_stack(&mut b).map(|_| flat(&b)) });
    let mut r = [0f32; N];
    r.copy_from_slice(&c.sig.real32(N));
    let mut h = [Complex32::zero(); H];
    call!(a, "rfft stack", false, 2.0 * tol, rfft_stack(&r, &mut h).map(|_| flat(&h)));
    let mut g = [Complex32::zero(); H];
    g.copy_from_slice(&to_t::<f32>(&c.sig.complex(H)));
    g[0].im = 0.0;
    g[H - 1].im = 0.0;
    let mut back = [0f32; N];
    call!(a, "irfft stack", false, 8.0 * f32::EPSILON as f64 * (N as f64) * norm(&from_t(&g)) + 1e-300, irfft_stack(&g, &mut back).map(|_| f32s(&back)));
}
fn trig(a: &mut Acc, c: &Call) {
    let x = c.sig.real32(c.n);
    let one: f64 = x.iter().map(|v| v.abs() as f64).sum();
    // direct summation: angle rounding grows with n
    let tol = f32::EPSILON as f64 * (32.0 + 8.0 * c.n as f64) * one * ((c.n + 1) as f64).sqrt() + 1e-30;
    for (nm, f) in [
        ("dct1", dct::dct1 as fn(&[f32]) -> Vec<f32>),
        ("dct2", dct::dct2),
        ("dct3", dct::dct3),
        ("dct4", dct::dct4),
        ("dst1", dst::dst1),
        ("dst2", dst::dst2),
        ("dst3", dst::dst3),
        ("dst4", dst::dst4),
        ("dht", hartley::dht),
    ] {
        call!(a, nm, false, tol, Ok(f32s(&f(&x))));
    }
    if c.n > 0 {
        same!(a, "dct2 plan", "dct2", !supported(c.n), tol, {
            let mut p = dct::DctPlanner::new();
            let mut o = vec![0f32; c.n];
            let mut go = p.plan_dct2(c.n);
            let mut y = x.clone();
            go(&mut y, &mut o).map(|_| f32s(&o))
        });
    }
}
fn stfts(a: &mut Acc, c: &Call) {
    let (n, wl, hop) = (c.n, c.m, c.k);
    let no = !supported(wl);
    let x = c.sig.real32(n);
    let w = wn::hann(wl);
    let f = ScalarFftImpl::<f32>::default();
    let frames = n.div_ceil(hop);
    let nx = rnorm(&f32s(&x));
    let tol = (2e-6 + 3.0 * tol_fft::<f32>(wl)) * nx * (wl as f64).sqrt() * (1.0 + (wl / hop) as f64) + 1e-30;
    call!(a, "stft", no, tol, {
        let mut o = vec![vec![Complex32::zero(); wl]; frames];
        stft::stft(&x, &w, hop, &mut o, &f).map(|_| o.iter().flat_map(|v| flat(v)).collect())
    });
    #[cfg(feature = "k-parallel")]
    same!(a, "parallel stft", "stft", no, tol, {
        let mut o = vec![vec![Complex32::zero(); wl]; frames];
        stft::parallel(&x, &w, hop, &mut o, &f).map(|_| o.iter().flat_map(|v| flat(v)).collect())
    });
    // overlap-add of arbitrary frames with a rectangular window: no division by small weights
    let w1 = vec![1f32; wl];
    let fr: Vec<Vec<Complex32>> = (0..frames.min(8)).map(|i| { let mut s = c.sig.clone(); s.exp = 0; let mut v = to_t::<f32>(&s.complex(wl)); v.rotate_left(i % wl.max(1)); v }).collect();
    let len = if fr.is_empty() { 0 } else { (fr.len() - 1) * hop + wl };
    let tot: f64 = fr.iter().map(|v| norm(&from_t(v))).sum();
    let tol = 4.0 * tol_fft::<f32>(wl) * tot + 1e-30;
    call!(a, "istft", no, tol, {
        let (mut o, mut s) = (vec![0f32; len], vec![0f32; len]);
        stft::istft(&mut fr.clone(), &w1, hop, &mut o, &mut s, &f).map(|_| f32s(&o))
    });
    #[cfg(feature = "k-parallel")]
    same!(a, "inverse_parallel", "istft", no, tol, {
        let mut o = vec![0f32; len];
        stft::inverse_parallel(&fr, &w1, hop, &mut o, &f).map(|_| f32s(&o))
    });
}
fn signals(a: &mut Acc, c: &Call) {
    let x = c.sig.real32(c.n);
    let n = c.n;
    let nx = rnorm(&f32s(&x));
    let no = !supported(n) && n > 0;
    call!(a, "hilbert", no, 4.0 * tol_fft::<f32>(n) * nx + 1e-30, kofft::hilbert::hilbert_analytic(&x).map(|y| flat(&y)));
    // a dominating impulse keeps every spectral magnitude away from zero
    if n > 0 {
        let one: f64 = x.iter().map(|v| v.abs() as f64).sum();
        let mut y: Vec<f32> = x.clone();
        y[0] += (2.0 * one) as f32 + 1.0;
        let yn = rnorm(&f32s(&y));
        let lo = (one + 1.0).max(1e-30);
        call!(a, "cepstrum", no, 4.0 * tol_fft::<f32>(n) * (yn * (n as f64).sqrt() / lo + 20.0) + 1e-30, kofft::cepstrum::real_cepstrum(&y).map(|y| f32s(&y)));
    }
    // chirp-z on the unit circle
    let m = c.m % 24;
    let one: f64 = x.iter().take(24).map(|v| v.abs() as f64).sum();
    let th = |k: usize| { let t = k as f64 * 0.37; (t.cos() as f32, t.sin() as f32) };
    call!(a, "czt", false, f32::EPSILON as f64 * one * 16.0 * (24.0 * (m + 2) as f64) + 1e-30, Ok(kofft::czt::czt_f32(&x[..n.min(24)], m, th(c.k + 1), th(c.m)).iter().flat_map(|z| [z.0 as f64, z.1 as f64]).collect()));
    if n > 0 {
        let k = c.k % n;
        let sr = 8000f32;
        let f = ((k as f64 + 0.4) * sr as f64 / n as f64) as f32;
        let th = 2.0 * std::f64::consts::PI * k as f64 / n as f64;
        let (mut s1, mut s2, mut smax) = (0f64, 0f64, 0f64);
        for v in &x {
            let s0 = *v as f64 + 2.0 * th.cos() * s1 - s2;
            s2 = s1;
            s1 = s0;
            smax = smax.max(s0.abs());
        }
        call!(a, "goertzel power", false, 64.0 * f32::EPSILON as f64 * (n as f64 + 4.0) * smax * smax + 1e-30, kofft::goertzel::goertzel_f32(&x, sr, f).map(|g| vec![g as f64 * g as f64]));
    }
}
fn wavelets(a: &mut Acc, c: &Call) {
    let x = c.sig.real32(c.n);
    let tol = 64.0 * f32::EPSILON as f64 * rnorm(&f32s(&x)) + 1e-30;
    type F = fn(&[f32]) -> (Vec<f32>, Vec<f32>);
    type I = fn(&[f32], &[f32]) -> Vec<f32>;
    for (nm, f, i) in [("haar", wv::haar_forward as F, wv::haar_inverse as I), ("db2", wv::db2_forward, wv::db2_inverse), ("db4", wv::db4_forward, wv::db4_inverse), ("sym4", wv::sym4_forward, wv::sym4_inverse), ("coif1", wv::coif1_forward, wv::coif1_inverse)] {
        call!(a, nm, false, tol, { let (p, q) = f(&x); Ok(f32s(&p).into_iter().chain(f32s(&q)).collect()) });
        call!(a, &format!("{nm} inverse"), false, 2.0 * tol, { let (p, q) = f(&x); Ok(f32s(&i(&p, &q))) });
    }
    call!(a, "haar multi", false, 4.0 * tol, { let (p, q) = wv::haar_forward_multi(&x, c.k % 6); Ok(f32s(&p).into_iter().chain(q.iter().flat_map(|v| f32s(v))).collect()) });
}
fn windows(a: &mut Acc, c: &Call) {
    let n = c.n;
    // cosine of an angle up to 6 pi in single precision
    let tol = 4e-6 * ((n + 1) as f64).sqrt();
    for (nm, f) in [("hann", wn::hann as fn(usize) -> Vec<f32>), ("hamming", wn::hamming), ("blackman", wn::blackman), ("bartlett", wm::bartlett), ("bohman", wm::bohman), ("nuttall", wm::nuttall)] {
        call!(a, nm, false, tol, Ok(f32s(&f(n))));
    }
    let beta = (c.m % 40) as f32 * 0.5;
    call!(a, "kaiser", false, 4e-5 * ((n + 1) as f64).sqrt(), Ok(f32s(&wn::kaiser(n, beta))));
    call!(a, "tukey", false, 2.0 * tol, Ok(f32s(&wm::tukey(n, (c.k % 33) as f32 / 32.0))));
}
fn twiddles(a: &mut Acc, c: &Call) {
    let n = c.n;
    let t = ((n + 1) as f64).sqrt();
    call!(a, "f32", false, 8.0 * f32::EPSILON as f64 * t, Ok(flat(&FftPlanner::<f32>::new().get_twiddles(n))));
    call!(a, "f64", false, 8.0 * f64::EPSILON * t, Ok(flat(&FftPlanner::<f64>::new().get_twiddles(n))));
    call!(a, "rfft f32", false, 8.0 * f32::EPSILON as f64 * t, Ok(flat(&RfftPlanner::<f32>::new().get_twiddles(n))));
    call!(a, "rfft f64", false, 8.0 * f64::EPSILON * t, Ok(flat(&RfftPlanner::<f64>::new().get_twiddles(n))));
    call!(a, "strategy", false, 0.0, Ok(vec![FftPlanner::<f32>::new().plan_strategy(n) as usize as f64, FftPlanner::<f64>::new().plan_strategy(n) as usize as f64]));
}
pub fn exec(c: &Call) -> Vec<Out> {
    let mut acc = Acc(vec![]);
    let a = &mut acc;
    match c.op {
        Op::Fft32 | Op::Ifft32 => {
            fft_variants::<f32>(a, c, c.op == Op::Ifft32);
            backend_variants(a, c, c.op == Op::Ifft32);
        }
        Op::Fft64 | Op::Ifft64 => fft_variants::<f64>(a, c, c.op == Op::Ifft64),
        Op::Layout32 => layouts::<f32>(a, c),
        Op::Layout64 => layouts::<f64>(a, c),
        Op::Rfft32 => {
            real::<f32>(a, c);
            let n = c.n * 2;
            let x = c.sig.real32(n);
            let tol = 3.0 * tol_fft::<f32>(n) * rnorm(&f32s(&x)) * (n as f64).sqrt() + 1e-300;
            let b = new_fft_impl();
            same!(a, "rfft on the auto-selected backend", "rfft", !supported(c.n), tol, {
                let (mut y, mut o) = (x.clone(), vec![Complex32::zero(); c.n + 1]);
                RfftPlanner::<f32>::new().rfft(b.as_ref(), &mut y, &mut o).map(|_| flat(&o))
            });
        }
        Op::Rfft64 => real::<f64>(a, c),
        Op::Nd32 => nd::<f32>(a, c),
        Op::Nd64 => nd::<f64>(a, c),
        Op::Batch => batches(a, c),
        Op::Stack => match c.n % 7 {
            0 => stack_n::<2, 2>(a, c),
            1 => stack_n::<4, 3>(a, c),
            2 => stack_n::<8, 5>(a, c),
            3 => stack_n::<16, 9>(a, c),
            4 => stack_n::<64, 33>(a, c),
            5 => stack_n::<256, 129>(a, c),
            _ => stack_n::<1024, 513>(a, c),
        },
        Op::Stft => stfts(a, c),
        Op::Trig => trig(a, c),
        Op::Signal => signals(a, c),
        Op::Wavelet => wavelets(a, c),
        Op::Window => windows(a, c),
        Op::Twiddle => twiddles(a, c),
    }
    acc.0
}
pub fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { return };
        let c: Call = serde_json::from_str(&l).expect("call");
        let mut s = serde_json::to_string(&exec(&c)).unwrap();
        s.push('\n');
        if out.write_all(s.as_bytes()).and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}

pub static PEERS: OnceLock<Vec<(String, String)>> = OnceLock::new();
struct Peer {
    name: String,
    path: String,
    proc: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
}
impl Peer {
    fn send(&mut self, line: &str) -> std::io::Result<()> {
        if self.proc.is_none() {
            let mut ch = Command::new(&self.path).arg("--serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
            let (i, o) = (ch.stdin.take().unwrap(), ch.stdout.take().unwrap());
            self.proc = Some((ch, i, BufReader::new(o)));
        }
        let p = self.proc.as_mut().unwrap();
        p.1.write_all(line.as_bytes()).and_then(|_| p.1.flush())
    }
    fn recv(&mut self) -> Result<Vec<Out>, String> {
        let Some(p) = self.proc.as_mut() else { return Err("not running".into()) };
        let mut l = String::new();
        match p.2.read_line(&mut l) {
            Ok(k) if k > 0 => serde_json::from_str(&l).map_err(|e| e.to_string()),
            _ => {
                let st = self.proc.take().and_then(|mut p| {
                    drop(p.1);
                    p.0.wait().ok()
                });
                Err(format!("the program built as {} died ({})", self.name, st.map(|s| s.to_string()).unwrap_or_default()))
            }
        }
    }
}
impl Drop for Peer {
    fn drop(&mut self) {
        if let Some((mut c, i, _)) = self.proc.take() {
            drop(i);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}
thread_local! { static POOL: RefCell<Vec<Peer>> = const { RefCell::new(vec![]) }; }

fn compare(what: &str, got: &Out, want: &Out) -> Result<f64, String> {
    if let (Some(e), true) = (&got.err, got.refuse) {
        ensure!(e == "NonPowerOfTwoNoStd", "{what}: refused with {e}");
        return Ok(0.0);
    }
    ensure!(got.err == want.err, "{what}: {:?} instead of {:?}", got.err.as_deref().unwrap_or("success"), want.err.as_deref().unwrap_or("success"));
    ensure!(got.v.len() == want.v.len(), "{what}: {} values instead of {}", got.v.len(), want.v.len());
    let mut e = 0.0;
    let mut worst = (0, -1.0);
    for (i, (g, w)) in got.v.iter().zip(&want.v).enumerate() {
        match (g, w) {
            (Some(g), Some(w)) => {
                let d = (g - w) * (g - w);
                e += d;
                if d > worst.1 {
                    worst = (i, d);
                }
            }
            (None, None) => {}
            _ => return Err(format!("{what}: value {i} is {g:?} instead of {w:?}")),
        }
    }
    let tol = want.tol.max(got.tol);
    let e = f64::sqrt(e);
    ensure!(e <= tol, "{what}: differs by {e:.3e}, allowed {tol:.3e} (value {}: {:?} instead of {:?})", worst.0, got.v[worst.0], want.v[worst.0]);
    Ok(if tol > 0.0 { e / tol } else { 0.0 })
}
pub fn cross(c: &Call) -> Res {
    POOL.with(|pool| {
        let mut pool = pool.borrow_mut();
        if pool.is_empty() {
            *pool = PEERS.get().map(|p| p.iter().map(|(n, p)| Peer { name: n.clone(), path: p.clone(), proc: None }).collect()).unwrap_or_default();
        }
        let mut line = serde_json::to_string(c).unwrap();
        line.push('\n');
        for p in pool.iter_mut() {
            if p.send(&line).is_err() {
                p.proc = None;
                if p.send(&line).is_err() {
                    p.proc = None;
                }
            }
        }
        let mine = exec(c);
        let mut answers = vec![];
        for p in pool.iter_mut() {
            answers.push((p.name.clone(), p.recv()));
        }
        let mut ratio = 0f64;
        let find = |n: &str| mine.iter().find(|o| o.name == n);
        for o in &mine {
            if let Some(l) = &o.like {
                ratio = ratio.max(compare(&format!("{} against {l} in the standard build", o.name), o, find(l).unwrap())?);
            }
        }
        let mut n = 0;
        for (name, ans) in answers {
            for o in ans? {
                let key = o.like.clone().unwrap_or_else(|| o.name.clone());
                let w = find(&key).ok_or_else(|| format!("no {key} in the standard build"))?;
                ratio = ratio.max(compare(&format!("{} in the {name} build against {key} in the standard build", o.name), &o, w)?);
                n += 1;
            }
        }
        let v = if c.sig.trivial() && !matches!(c.op, Op::Window | Op::Twiddle) || mine.iter().all(|o| o.v.iter().all(|x| *x == Some(0.0))) || n == 0 { triv("silent or empty") } else { nt(format!("{:?}", c.op)) };
        Ok(v.r(ratio))
    })
}
pub fn c08(r: &mut Reg) {
    if !STD {
        return;
    }
    let call = |op: Op, n: BoxedStrategy<usize>, m: BoxedStrategy<usize>, k: BoxedStrategy<usize>| (n, m, k, sig_plain()).prop_map(move |(n, m, k, sig)| Call { op, n, m, k, sig });
    let rule = "one generated call answered by every build; non-trivial: at least one non-zero value, signal not silent";
    let z = || (0usize..1000).boxed();
    let len = |max: usize| len_any(max).boxed();
    let p2 = |hi: u32| pow2(0, hi).boxed();
    for (nm, op) in [("fft-f32", Op::Fft32), ("fft-f64", Op::Fft64), ("ifft-f32", Op::Ifft32), ("ifft-f64", Op::Ifft64)] {
        r.prop(nm, rule, 300, call(op, prop_oneof![1 => Just(0usize).boxed(), 12 => len(600), 8 => p2(11)].boxed(), z(), z()), cross);
        r.sweep(&format!("{nm}-each-length"), rule, (0..=128).collect(), 1, move |n| (0usize..1000, sig_noise()).prop_map(move |(k, sig)| Call { op, n, m: 0, k, sig }), cross);
    }
    r.prop("fft-f32-large", rule, 6, call(Op::Fft32, pow2(12, 15).boxed(), z(), z()), cross);
    r.prop("ifft-f32-large", rule, 4, call(Op::Ifft32, pow2(12, 15).boxed(), z(), z()), cross);
    r.prop("layouts-f32", rule, 300, call(Op::Layout32, prop_oneof![3 => len(300), 2 => p2(10)].boxed(), z(), z()), cross);
    r.prop("layouts-f64", rule, 300, call(Op::Layout64, prop_oneof![3 => len(300), 2 => p2(10)].boxed(), z(), z()), cross);
    r.prop("real-f32", rule, 300, call(Op::Rfft32, prop_oneof![3 => len(300), 2 => p2(10)].boxed(), z(), z()), cross);
    r.prop("real-f64", rule, 300, call(Op::Rfft64, prop_oneof![3 => len(300), 2 => p2(10)].boxed(), z(), z()), cross);
    let dim = || prop_oneof![2 => 1usize..=9, 2 => (0u32..=4).prop_map(|e| 1usize << e)].boxed();
    r.prop("multidimensional-f32", rule, 200, call(Op::Nd32, dim(), dim(), dim()), cross);
    r.prop("multidimensional-f64", rule, 200, call(Op::Nd64, dim(), dim(), dim()), cross);
    r.prop("batches", rule, 200, call(Op::Batch, len(130), len(130), len(130)), cross);
    r.prop("stack", rule, 300, call(Op::Stack, z(), z(), z()), cross);
    r.prop("stft", rule, 200, call(Op::Stft, (0usize..=300).boxed(), prop_oneof![2 => p2(6), 1 => len(50)].boxed(), (1usize..=70).boxed()), cross);
    r.prop("trig", rule, 200, (prop_oneof![1 => 0usize..=3, 6 => 2usize..=80], sig_plain()).prop_map(|(n, sig)| Call { op: Op::Trig, n, m: 0, k: 0, sig }), cross);
    r.prop("signal", rule, 300, call(Op::Signal, prop_oneof![2 => len(100), 2 => p2(8)].boxed(), z(), z()), cross);
    r.prop("wavelets", rule, 300, call(Op::Wavelet, (0usize..=80).boxed(), z(), z()), cross);
    r.prop("windows", rule, 300, call(Op::Window, (0usize..=200).boxed(), z(), z()), cross);
    r.sweep("twiddles-each-size", rule, (1..=400).collect(), 1, |n| Just(Call { op: Op::Twiddle, n, m: 0, k: 0, sig: Sig { kind: Kind::Const, exp: 0 } }), cross);
}
