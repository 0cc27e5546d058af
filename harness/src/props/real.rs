//! C10 real FFT, C09 stack transforms, C11 twiddle tables, C12 multidimensional.
use super::fft_core::*;
use crate::core::*;
use crate::oracle::*;
use crate::sig::*;
use kofft::fft::*;
use kofft::ndfft::*;
use kofft::rfft::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

pub trait Rn: El + RealFftNum {}
impl Rn for f32 {}
impl Rn for f64 {}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RfCase {
    /// (half length m, signal, path)
    pub ops: Vec<(usize, Sig, u8)>,
}
fn spectrum<T: El>(sig: &Sig, m: usize) -> Vec<Cx<T>> {
    // a half spectrum of a real signal: real first and last bins
    let mut s = to_t::<T>(&sig.complex(m + 1));
    s[0].im = T::zero();
    s[m].im = T::zero();
    s
}
fn dirty<T: El>(n: usize, seed: u64) -> Vec<Cx<T>> {
    to_t::<T>(&Sig { kind: Kind::Noise(seed), exp: 4 }.complex(n))
}
fn fwd_one<T: Rn>(pl: &mut RfftPlanner<T>, f: &ScalarFftImpl<T>, m: usize, sig: &Sig, path: u8) -> Result<f64, String> {
    let n = 2 * m;
    let mut x: Vec<T> = sig.real(n).into_iter().map(T::of).collect();
    let xr: Vec<C> = x.iter().map(|v| (v.f(), 0.0)).collect();
    let mut out = dirty::<T>(m + 1, 5);
    let (what, r) = match path % 6 {
        0 => ("planner.rfft", pl.rfft(f, &mut x, &mut out)),
        1 => {
            let mut sc = dirty::<T>(m, 6);
            ("planner.rfft_with_scratch", pl.rfft_with_scratch(f, &mut x, &mut out, &mut sc))
        }
        2 => ("trait rfft", RealFftImpl::rfft(f, &mut x, &mut out)),
        3 => {
            let mut sc = dirty::<T>(m, 7);
            ("trait rfft_with_scratch", RealFftImpl::rfft_with_scratch(f, &mut x, &mut out, &mut sc))
        }
        4 => {
            let mut sc = dirty::<T>(m, 8);
            ("rfft_packed", rfft_packed(pl, f, &mut x, &mut out, &mut sc))
        }
        _ => {
            // longer scratch is allowed
            let mut sc = dirty::<T>(m + 3, 9);
            ("rfft_packed (long scratch)", rfft_packed(pl, f, &mut x, &mut out, &mut sc))
        }
    };
    let what = format!("{what} n={n} {}", T::NAME);
    if !supported(m) {
        ensure!(r == Err(FftError::NonPowerOfTwoNoStd), "{what}: unsupported length gave {r:?}");
        return Ok(0.0);
    }
    ensure!(r.is_ok(), "{what}: returned {r:?}");
    let full = dft(&xr);
    close(&what, &from_t(&out), &full[..=m], 2.0 * tol_fft::<T>(n), 1e-300)
}
fn inv_one<T: Rn>(pl: &mut RfftPlanner<T>, f: &ScalarFftImpl<T>, m: usize, sig: &Sig, path: u8) -> Result<f64, String> {
    let n = 2 * m;
    let mut s = spectrum::<T>(sig, m);
    let sr = from_t(&s);
    let mut full = sr.clone();
    for k in 1..m {
        full.push((sr[m - k].0, -sr[m - k].1));
    }
    let mut out: Vec<T> = vec![T::of(9.0); n];
    let (what, r) = match path % 6 {
        0 => ("planner.irfft", pl.irfft(f, &mut s, &mut out)),
        1 => {
            let mut sc = dirty::<T>(m, 6);
            ("planner.irfft_with_scratch", pl.irfft_with_scratch(f, &mut s, &mut out, &mut sc))
        }
        2 => ("trait irfft", RealFftImpl::irfft(f, &mut s, &mut out)),
        3 => {
            let mut sc = dirty::<T>(m, 7);
            ("trait irfft_with_scratch", RealFftImpl::irfft_with_scratch(f, &mut s, &mut out, &mut sc))
        }
        4 => {
            let mut sc = dirty::<T>(m, 8);
            ("irfft_packed", irfft_packed(pl, f, &mut s, &mut out, &mut sc))
        }
        _ => {
            let mut sc = dirty::<T>(m + 2, 9);
            ("irfft_packed (long scratch)", irfft_packed(pl, f, &mut s, &mut out, &mut sc))
        }
    };
    let what = format!("{what} n={n} {}", T::NAME);
    if !supported(m) {
        ensure!(r == Err(FftError::NonPowerOfTwoNoStd), "{what}: unsupported length gave {r:?}");
        return Ok(0.0);
    }
    ensure!(r.is_ok(), "{what}: returned {r:?}");
    let want: Vec<f64> = idft(&full).into_iter().map(|z| z.0).collect();
    rclose(&what, &v64(&out), &want, 2.0 * tol_fft::<T>(n), 1e-300)
}
fn rf_hist<T: Rn>(c: &RfCase) -> Res {
    let mut pl = if c.ops.len() % 2 == 0 { RfftPlanner::<T>::new() } else { Default::default() };
    let f = ScalarFftImpl::<T>::default();
    let mut ratio = 0f64;
    for (k, (m, sig, path)) in c.ops.iter().enumerate() {
        let r = if path & 0x80 == 0 { fwd_one(&mut pl, &f, *m, sig, *path) } else { inv_one(&mut pl, &f, *m, sig, *path) };
        ratio = ratio.max(r.map_err(|e| format!("operation {k}: {e}"))?);
    }
    let lens: std::collections::BTreeSet<_> = c.ops.iter().map(|o| o.0).collect();
    let v = if c.ops.iter().any(|o| o.0 > 1) { nt(format!("{} lengths", lens.len().min(5))) } else { triv("length two only") };
    Ok(v.r(ratio))
}
fn rf_all<T: Rn>(c: &LenSig) -> Res {
    // c.n is the half length
    let mut pl = RfftPlanner::<T>::new();
    let f = ScalarFftImpl::<T>::default();
    let mut ratio = 0f64;
    for p in 0..6 {
        ratio = ratio.max(fwd_one(&mut pl, &f, c.n, &c.sig, p)?);
        ratio = ratio.max(inv_one(&mut pl, &f, c.n, &c.sig, p)?);
    }
    // round trip
    if supported(c.n) {
        let x: Vec<T> = c.sig.real(2 * c.n).into_iter().map(T::of).collect();
        let (mut a, mut s, mut b) = (x.clone(), vec![Cx::zero(); c.n + 1], vec![T::zero(); 2 * c.n]);
        pl.rfft(&f, &mut a, &mut s).map_err(|e| format!("rfft: {e:?}"))?;
        pl.irfft(&f, &mut s, &mut b).map_err(|e| format!("irfft: {e:?}"))?;
        ratio = ratio.max(rclose(&format!("rfft/irfft round trip n={}", 2 * c.n), &v64(&b), &v64(&x), 4.0 * tol_fft::<T>(2 * c.n), 1e-300)?);
        if T::NAME == "f32" {
            let auto = new_fft_impl();
            let x32: Vec<f32> = x.iter().map(|v| v.f() as f32).collect();
            let mut a = x32.clone();
            let mut out = vec![Cx::<f32>::zero(); c.n + 1];
            let mut p2 = RfftPlanner::<f32>::new();
            let r = p2.rfft(auto.as_ref(), &mut a, &mut out);
            ensure!(r.is_ok(), "rfft through the auto-selected backend n={}: {r:?}", 2 * c.n);
            let xr: Vec<C> = x32.iter().map(|v| (*v as f64, 0.0)).collect();
            ratio = ratio.max(close("rfft through the auto-selected backend", &from_t(&out), &dft(&xr)[..=c.n], 2.0 * tol_fft::<f32>(2 * c.n), 1e-300)?);
            let mut back = vec![0f32; 2 * c.n];
            let r = p2.irfft(auto.as_ref(), &mut out, &mut back);
            ensure!(r.is_ok(), "irfft through the auto-selected backend n={}: {r:?}", 2 * c.n);
            ratio = ratio.max(rclose("irfft through the auto-selected backend", &v64(&back), &v64(&x32), 4.0 * tol_fft::<f32>(2 * c.n), 1e-300)?);
        }
    }
    let v = if c.n > 1 && !c.sig.trivial() { nt(lenclass(c.n)) } else { triv(lenclass(c.n)) };
    Ok(v.r(ratio))
}
fn rf_strat(max: usize, k: usize) -> impl Strategy<Value = RfCase> + Clone {
    proptest::collection::vec((len_any(max), sig_nz(), any::<u8>()), 1..k).prop_map(|ops| RfCase { ops })
}
fn rf_wide(max: usize) -> impl Strategy<Value = RfCase> + Clone {
    proptest::collection::vec((1..=max, sig_nz(), any::<u8>()), 60..900).prop_map(|ops| RfCase { ops })
}
pub fn c10(r: &mut Reg) {
    const R: &str = "case = (half length, signal): every forward and inverse path (planner, trait, packed, with dirty scratch) against the DFT, plus the round trip; non-trivial: half length > 1, signal non-zero";
    const R2: &str = "case = sequence of (half length, signal, path/direction) on one planner; non-trivial: some length > 2";
    r.sweep("all-paths-f32", R, (1..=260).collect(), 3, at, rf_all::<f32>);
    r.sweep("all-paths-f64", R, (1..=260).collect(), 3, at, rf_all::<f64>);
    r.sweep("all-paths-pow2-f32", R, (0..=15).map(|e| 1usize << e).collect(), 4, at, rf_all::<f32>);
    r.sweep("all-paths-pow2-f64", R, (0..=15).map(|e| 1usize << e).collect(), 4, at, rf_all::<f64>);
    r.prop("all-paths-random-f32", R, 200, over(len_any(5000)), rf_all::<f32>);
    r.prop("all-paths-random-f64", R, 200, over(len_any(5000)), rf_all::<f64>);
    r.prop("all-paths-far-f64", R, 100, far(len_any(1000)), rf_all::<f64>);
    r.prop("history-f32", R2, 800, rf_strat(300, 10), rf_hist::<f32>);
    r.prop("history-f64", R2, 800, rf_strat(300, 10), rf_hist::<f64>);
    r.prop("history-wide-f32", R2, 6, rf_wide(500), rf_hist::<f32>);
    r.prop("history-wide-f64", R2, 6, rf_wide(500), rf_hist::<f64>);
    r.prop("history-big-f32", R2, 40, rf_strat(20_000, 8), rf_hist::<f32>);
    r.prop("history-big-f64", R2, 40, rf_strat(20_000, 8), rf_hist::<f64>);
}

// ------------------------------------------------------------------ C09
/// The stack kernels step their twiddles by recurrence, so their error grows
/// with the size; still far below any wrong-value error.
fn stack_tol(n: usize) -> f64 {
    f32::EPSILON as f64 * (8.0 * ((n.max(2) as f64).log2() + 1.0) + 0.5 * n as f64)
}
fn st_fft<const N: usize>(sig: &Sig) -> Result<f64, String> {
    let x = to_t::<f32>(&sig.complex(N));
    let mut ratio = 0f64;
    for inv in [false, true] {
        let mut buf = [Cx::<f32>::zero(); N];
        buf.copy_from_slice(&x);
        let r = if inv { ifft_inplace_stack(&mut buf) } else { fft_inplace_stack(&mut buf) };
        let what = format!("{}fft_inplace_stack N={N}", if inv { "i" } else { "" });
        if N == 0 {
            ensure!(r == Err(FftError::EmptyInput), "{what}: {r:?}");
            continue;
        }
        if !N.is_power_of_two() {
            ensure!(r == Err(FftError::NonPowerOfTwoNoStd), "{what}: {r:?}");
            ensure!(bits(&buf) == bits(&x), "{what}: refused call changed its data");
            continue;
        }
        ensure!(r.is_ok(), "{what}: {r:?}");
        let xr = from_t(&x);
        let want = if inv { idft(&xr) } else { dft(&xr) };
        ratio = ratio.max(close(&what, &from_t(&buf), &want, stack_tol(N), 1e-300)?);
        let mut h = x.clone();
        let hr = if inv { ScalarFftImpl::<f32>::default().ifft(&mut h) } else { ScalarFftImpl::<f32>::default().fft(&mut h) };
        ensure!(hr.is_ok(), "heap transform of length {N}: {hr:?}");
        ratio = ratio.max(close(&format!("{what} vs heap"), &from_t(&buf), &from_t(&h), stack_tol(N), 1e-300)?);
        // round trip
        let r = if inv { fft_inplace_stack(&mut buf) } else { ifft_inplace_stack(&mut buf) };
        ensure!(r.is_ok(), "{what} back: {r:?}");
        ratio = ratio.max(close(&format!("{what} round trip"), &from_t(&buf), &xr, 2.0 * stack_tol(N), 1e-300)?);
    }
    Ok(ratio)
}
fn st_rfft<const N: usize, const M: usize>(sig: &Sig) -> Result<f64, String> {
    let mut ratio = 0f64;
    let xs = sig.real32(N);
    let mut x = [0f32; N];
    x.copy_from_slice(&xs);
    let out0 = dirty::<f32>(M, 3);
    let mut out = [Cx::<f32>::zero(); M];
    out.copy_from_slice(&out0);
    let r = rfft_stack(&x, &mut out);
    let what = format!("rfft_stack N={N} M={M}");
    if N > 0 && N.is_power_of_two() && M == N / 2 + 1 {
        ensure!(r.is_ok(), "{what}: {r:?}");
        let xr: Vec<C> = xs.iter().map(|v| (*v as f64, 0.0)).collect();
        ratio = ratio.max(close(&what, &from_t(&out), &dft(&xr)[..M], 1.5 * stack_tol(N), 1e-300)?);
        let mut back = [7f32; N];
        let r = irfft_stack(&out, &mut back);
        ensure!(r.is_ok(), "irfft_stack N={N}: {r:?}");
        ratio = ratio.max(rclose(&format!("irfft_stack(rfft_stack) N={N}"), &v64(&back), &v64(&xs), 2.5 * stack_tol(N), 1e-300)?);
        // arbitrary half spectrum
        if N >= 2 {
            let s = spectrum::<f32>(sig, N / 2);
            let mut sp = [Cx::<f32>::zero(); M];
            sp.copy_from_slice(&s);
            let sr = from_t(&s);
            let mut full = sr.clone();
            for k in 1..N / 2 {
                full.push((sr[N / 2 - k].0, -sr[N / 2 - k].1));
            }
            let r = irfft_stack(&sp, &mut back);
            ensure!(r.is_ok(), "irfft_stack N={N}: {r:?}");
            let want: Vec<f64> = idft(&full).iter().map(|z| z.0).collect();
            ratio = ratio.max(rclose(&format!("irfft_stack N={N}"), &v64(&back), &want, 1.5 * stack_tol(N), 1e-300)?);
        }
    } else {
        let want = if N == 0 {
            FftError::EmptyInput
        } else if M != N / 2 + 1 {
            FftError::MismatchedLengths
        } else {
            FftError::NonPowerOfTwoNoStd
        };
        ensure!(r == Err(want), "{what}: returned {r:?}, expected Err({want:?})");
        ensure!(bits(&out) == bits(&out0), "{what}: refused call changed its output");
        let mut back = [7f32; N];
        let r = irfft_stack(&out, &mut back);
        ensure!(r == Err(want), "irfft_stack N={N} M={M}: returned {r:?}, expected Err({want:?})");
        ensure!(back.iter().all(|v| *v == 7.0), "irfft_stack N={N} M={M}: refused call changed its output");
    }
    Ok(ratio)
}
macro_rules! stack_table {
    ($f:ident; $($n:literal),* ; $s:expr, $x:expr) => { match $s { $($n => $f::<$n>($x),)* _ => Err("size not instantiated".into()) } };
}
macro_rules! rstack_table {
    ($(($n:literal, $m:literal)),* ; $s:expr, $x:expr) => {{ let mut r = Ok(0f64); $( if $s.0 == $n && $s.1 == $m { r = st_rfft::<$n, $m>($x); } )* r }};
}
const RST: &[(usize, usize)] = &[
    (0, 0), (0, 1), (1, 1), (1, 0), (1, 2), (2, 2), (2, 1), (2, 3), (3, 2), (3, 3), (4, 3), (4, 2), (4, 4), (4, 5), (5, 3), (6, 4), (6, 3), (7, 4), (8, 5), (8, 4), (8, 8),
    (9, 5), (10, 6), (12, 7), (16, 9), (16, 8), (16, 16), (20, 11), (24, 13), (32, 17), (32, 16), (33, 17), (48, 25), (64, 33), (64, 32), (96, 49), (100, 51), (128, 65), (256, 129), (512, 257), (1024, 513), (2048, 1025), (4096, 2049),
];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RsCase {
    idx: usize,
    sig: Sig,
}
const STN: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 36, 40, 48, 60, 63, 64, 65, 72, 96, 100, 128, 192, 255, 256, 257, 384, 512, 1000, 1024, 2048, 4096,
];
fn stack_fft(c: &LenSig) -> Res {
    let r = stack_table!(st_fft; 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,36,40,48,60,63,64,65,72,96,100,128,192,255,256,257,384,512,1000,1024,2048,4096; c.n, &c.sig)?;
    let v = if c.n < 2 || c.sig.trivial() { triv("degenerate") } else if c.n.is_power_of_two() { nt("power of two") } else { nt("refused size") };
    Ok(v.r(r))
}
fn stack_rfft(c: &RsCase) -> Res {
    let s = RST[c.idx % RST.len()];
    let r = rstack_table!((0, 0), (0, 1), (1, 1), (1, 0), (1, 2), (2, 2), (2, 1), (2, 3), (3, 2), (3, 3), (4, 3), (4, 2), (4, 4), (4, 5), (5, 3), (6, 4), (6, 3), (7, 4), (8, 5), (8, 4), (8, 8),
    (9, 5), (10, 6), (12, 7), (16, 9), (16, 8), (16, 16), (20, 11), (24, 13), (32, 17), (32, 16), (33, 17), (48, 25), (64, 33), (64, 32), (96, 49), (100, 51), (128, 65), (256, 129), (512, 257), (1024, 513), (2048, 1025), (4096, 2049); s, &c.sig)?;
    let good = s.0 > 0 && s.0.is_power_of_two() && s.1 == s.0 / 2 + 1;
    let v = if c.sig.trivial() { triv("zero signal") } else if good { nt("supported") } else { nt("refused") };
    Ok(v.r(r))
}
pub fn c09(r: &mut Reg) {
    r.sweep("stack-fft", "case = (size, signal) for every instantiated compile-time size; non-trivial: size > 1 and signal non-zero", STN.to_vec(), 40, at, stack_fft);
    r.sweep("stack-rfft", "case = (size pair N,M, signal); non-trivial: signal non-zero", (0..RST.len()).collect(), 40, |idx| sig().prop_map(move |sig| RsCase { idx, sig }), stack_rfft);
}

// ------------------------------------------------------------------ C11
fn root(sign: f64, num: u64, den: u64) -> C {
    // exp(sign * 2 pi i num/den), reduced exactly
    let num = num % den;
    let th = 2.0 * PI * num as f64 / den as f64;
    (th.cos(), sign * th.sin())
}
fn table_close<T: El>(what: &str, got: &[Cx<T>], want: impl Fn(usize) -> C, tol: f64) -> Result<f64, String> {
    let mut worst = 0f64;
    for (k, z) in got.iter().enumerate() {
        let w = want(k);
        let e = (z.re.f() - w.0).abs().max((z.im.f() - w.1).abs());
        ensure!(e <= tol, "{what}: entry {k} is {:?}, exact value {:?} (error {e:.3e})", (z.re.f(), z.im.f()), w);
        worst = worst.max(e / tol);
    }
    Ok(worst)
}
/// one table entry: half an ulp from rounding plus the angle rounding of the
/// sine argument (angle up to 2 pi, in the element precision for f32 buffers)
fn entry_tol<T: El>() -> f64 {
    6.0 * T::EPS
}
fn tables<T: Rn>(order: &[usize]) -> Result<f64, String> {
    let (mut p, mut rp) = if order.len() % 2 == 0 { (FftPlanner::<T>::new(), RfftPlanner::<T>::new()) } else { Default::default() };
    let mut ratio = 0f64;
    let mut seen: Vec<(usize, Vec<(u64, u64)>, Vec<(u64, u64)>)> = vec![];
    for &n in order {
        let len = n.next_power_of_two().max(2);
        let t = p.get_twiddles(len);
        ensure!(t.len() >= len / 2, "get_twiddles({len}) has {} entries, needs {}", t.len(), len / 2);
        ratio = ratio.max(table_close(&format!("FftPlanner::get_twiddles({len}) {}", T::NAME), &t[..len / 2], |k| root(-1.0, k as u64, len as u64), entry_tol::<T>())?);
        #[cfg(feature = "k-std")]
        {
            let t = p.get_twiddles(n);
            ratio = ratio.max(table_close(&format!("FftPlanner::get_twiddles({n}) {}", T::NAME), &t[..n / 2], |k| root(-1.0, k as u64, n as u64), entry_tol::<T>())?);
            let (chirp, bf) = p.get_bluestein(n);
            let m = (2 * n - 1).next_power_of_two();
            ensure!(chirp.len() == n && bf.len() >= 2 * n - 1 && bf.len().is_power_of_two(), "get_bluestein({n}): table sizes {} and {}", chirp.len(), bf.len());
            ratio = ratio.max(table_close(&format!("get_bluestein({n}) chirp {}", T::NAME), &chirp, |k| root(-1.0, (k as u64) * (k as u64), 2 * n as u64), entry_tol::<T>())?);
            if bf.len() == m {
                let mut b = vec![(0.0, 0.0); m];
                for k in 0..n {
                    let w = root(1.0, (k as u64) * (k as u64), 2 * n as u64);
                    b[k] = w;
                    if k > 0 {
                        b[m - k] = w;
                    }
                }
                ratio = ratio.max(close(&format!("get_bluestein({n}) filter {}", T::NAME), &from_t(&bf), &dft(&b), tol_fft::<T>(m), 1e-300)?);
            }
        }
        let a = rp.get_twiddles(n);
        let b = rp.get_pack_twiddles(n);
        for (nm, t) in [("get_twiddles", &a), ("get_pack_twiddles", &b)] {
            ensure!(t.len() >= n, "RfftPlanner::{nm}({n}) has {} entries", t.len());
            // real transform of length 2n: exp(-i pi k / n)
            ratio = ratio.max(table_close(&format!("RfftPlanner::{nm}({n}) {}", T::NAME), &t[..n], |k| root(-1.0, k as u64, 2 * n as u64), entry_tol::<T>())?);
        }
        seen.push((n, bits(&p.get_twiddles(len)), bits(&a)));
    }
    for (n, t, a) in &seen {
        let len = n.next_power_of_two().max(2);
        ensure!(&bits(&p.get_twiddles(len)) == t, "get_twiddles({len}) changed after other sizes were requested");
        ensure!(&bits(&rp.get_twiddles(*n)) == a, "RfftPlanner::get_twiddles({n}) changed after other sizes were requested");
        ensure!(bits(&FftPlanner::<T>::new().get_twiddles(len)) == *t, "get_twiddles({len}) depends on earlier requests");
        ensure!(bits(&RfftPlanner::<T>::new().get_twiddles(*n)) == *a, "RfftPlanner::get_twiddles({n}) depends on earlier requests");
    }
    Ok(ratio)
}
fn buffer(n: usize) -> Result<f64, String> {
    #[cfg(feature = "k-std")]
    {
        let b = TwiddleFactorBuffer::new(n);
        ensure!(b.n == n && b.twiddles.len() == n / 2, "TwiddleFactorBuffer::new({n}) shape");
        let got: Vec<Cx<f32>> = (0..n / 2).map(|k| b.get(k)).collect();
        return table_close(&format!("TwiddleFactorBuffer::get, n={n}"), &got, |k| root(-1.0, k as u64, n as u64), entry_tol::<f32>());
    }
    #[cfg(not(feature = "k-std"))]
    {
        let _ = n;
        Ok(0.0)
    }
}
fn tab_case(c: &Vec<usize>) -> Res {
    let mut r = tables::<f32>(c)?.max(tables::<f64>(c)?);
    for &n in c {
        r = r.max(buffer(n)?);
    }
    let d: std::collections::BTreeSet<_> = c.iter().collect();
    let v = if c.iter().any(|&n| n > 2) { nt(format!("{} sizes", d.len().min(6))) } else { triv("size <= 2") };
    Ok(v.r(r))
}
pub fn c11(r: &mut Reg) {
    const R: &str = "case = order in which sizes are requested; every table entry compared with the exact root of unity; non-trivial: some size > 2";
    r.sweep("each-size", R, (1..=1200).collect(), 1, |n| Just(vec![n]), tab_case);
    r.sweep("large-sizes", R, (11..=20).map(|e| 1usize << e).chain([3000, 4095, 4096, 10007, 65537, 100_000]).collect(), 1, |n| Just(vec![n]), tab_case);
    r.prop("orders", R, 600, proptest::collection::vec(len_any(3000), 1..8), tab_case);
    r.prop("orders-wide", R, 15, proptest::collection::vec(prop_oneof![8 => 1usize..=500, 1 => len_any(3000)], 40..700), tab_case);
}

// ------------------------------------------------------------------ C12
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shape {
    pub d: usize,
    pub r: usize,
    pub c: usize,
    pub sig: Sig,
    pub warm: usize,
}
fn sep(x: &[C], d: usize, r: usize, c: usize) -> Vec<C> {
    // independent order: x, then z, then y
    let mut v = x.to_vec();
    for z in 0..d {
        for y in 0..r {
            let s = (z * r + y) * c;
            let t = dft(&v[s..s + c]);
            v[s..s + c].copy_from_slice(&t);
        }
    }
    for y in 0..r {
        for k in 0..c {
            let col: Vec<C> = (0..d).map(|z| v[(z * r + y) * c + k]).collect();
            for (z, w) in dft(&col).into_iter().enumerate() {
                v[(z * r + y) * c + k] = w;
            }
        }
    }
    for z in 0..d {
        for k in 0..c {
            let col: Vec<C> = (0..r).map(|y| v[(z * r + y) * c + k]).collect();
            for (y, w) in dft(&col).into_iter().enumerate() {
                v[(z * r + y) * c + k] = w;
            }
        }
    }
    v
}
fn nd_tol<T: El>(d: usize, r: usize, c: usize) -> f64 {
    tol_fft::<T>(d) + tol_fft::<T>(r) + tol_fft::<T>(c)
}
pub fn nd<T: El>(s: &Shape) -> Res {
    let (d, r, c) = (s.d, s.r, s.c);
    let f = ScalarFftImpl::<T>::default();
    if s.warm > 0 && supported(s.warm) {
        let mut w = dirty::<T>(s.warm, 4);
        f.fft(&mut w).map_err(|e| format!("{e:?}"))?;
    }
    let ok = supported(d) && supported(r) && supported(c);
    let mut ratio = 0f64;
    // 3-D through the nested form
    let x = to_t::<T>(&s.sig.complex(d * r * c));
    let xr = from_t(&x);
    let nested: Vec<Vec<Vec<Cx<T>>>> = (0..d).map(|z| (0..r).map(|y| x[(z * r + y) * c..(z * r + y + 1) * c].to_vec()).collect()).collect();
    let (mut flat, a, b, e) = flatten_3d(nested).map_err(|e| format!("flatten_3d: {e:?}"))?;
    ensure!((a, b, e) == (d, r, c), "flatten_3d reports {:?} for {:?}", (a, b, e), (d, r, c));
    ensure!(bits(&flat) == bits(&x), "flatten_3d does not keep row-major order for {:?}", (d, r, c));
    let (mut t, mut rw, mut cl) = (dirty::<T>(d, 1), dirty::<T>(r, 2), dirty::<T>(c, 3));
    let res = fft3d_inplace(&mut flat, d, r, c, &f, &mut Fft3dScratch { tube: &mut t, row: &mut rw, col: &mut cl });
    if ok {
        ensure!(res.is_ok(), "fft3d_inplace {:?}: {res:?}", (d, r, c));
        ratio = ratio.max(close(&format!("fft3d_inplace {:?} {}", (d, r, c), T::NAME), &from_t(&flat), &sep(&xr, d, r, c), nd_tol::<T>(d, r, c), 1e-300)?);
    } else {
        ensure!(res == Err(FftError::NonPowerOfTwoNoStd), "fft3d_inplace {:?}: {res:?}", (d, r, c));
    }
    // 2-D on (d*r) x c
    let rows = d * r;
    let nested: Vec<Vec<Cx<T>>> = x.chunks(c).map(|v| v.to_vec()).collect();
    let (mut flat, a, b) = flatten_2d(nested).map_err(|e| format!("flatten_2d: {e:?}"))?;
    ensure!((a, b) == (rows, c) && bits(&flat) == bits(&x), "flatten_2d of {rows}x{c}");
    let mut sc = dirty::<T>(rows, 5);
    let res = fft2d_inplace(&mut flat, rows, c, &f, &mut sc);
    if supported(rows) && supported(c) {
        ensure!(res.is_ok(), "fft2d_inplace {rows}x{c}: {res:?}");
        ratio = ratio.max(close(&format!("fft2d_inplace {rows}x{c} {}", T::NAME), &from_t(&flat), &sep(&xr, 1, rows, c), nd_tol::<T>(1, rows, c), 1e-300)?);
    } else {
        ensure!(res == Err(FftError::NonPowerOfTwoNoStd), "fft2d_inplace {rows}x{c}: {res:?}");
    }
    let dims = [d, r, c].iter().filter(|v| **v > 1).count();
    let v = if dims >= 2 && d * r * c > 4 { nt(format!("{dims} axes {}", if ok && d.is_power_of_two() && r.is_power_of_two() && c.is_power_of_two() { "pow2" } else { "general" })) } else { triv("one axis") };
    Ok(v.r(ratio))
}
fn dim() -> impl Strategy<Value = usize> + Clone {
    prop_oneof![5 => 1usize..8, 2 => (0u32..6).prop_map(|e| 1usize << e), 2 => 1usize..24]
}
pub fn shape() -> impl Strategy<Value = Shape> + Clone {
    (dim(), dim(), dim(), sig_nz(), 0usize..70).prop_map(|(d, r, c, sig, warm)| Shape { d, r, c, sig, warm })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ragged {
    pub rows: Vec<Vec<usize>>,
}
fn ragged(c: &Ragged) -> Res {
    let nested: Vec<Vec<Vec<Cx<f64>>>> = c.rows.iter().map(|p| p.iter().map(|&n| dirty::<f64>(n, n as u64)).collect()).collect();
    let r0 = c.rows.first().map(|p| p.len()).unwrap_or(0);
    let c0 = c.rows.first().and_then(|p| p.first()).copied().unwrap_or(0);
    let good3 = c.rows.iter().all(|p| p.len() == r0 && p.iter().all(|&n| n == c0));
    let flat: Vec<(u64, u64)> = nested.iter().flatten().flat_map(|v| bits(v)).collect();
    match flatten_3d(nested.clone()) {
        Ok((v, d, r, cc)) => {
            ensure!(good3, "flatten_3d accepted a ragged array {:?}", c.rows);
            ensure!(bits(&v) == flat, "flatten_3d changed the order");
            ensure!(v.len() == d * r * cc && (c.rows.is_empty() || (d, r, cc) == (c.rows.len(), r0, c0)), "flatten_3d dims {:?}", (d, r, cc));
        }
        Err(e) => ensure!(!good3 && e == FftError::MismatchedLengths, "flatten_3d refused {:?} with {e:?}", c.rows),
    }
    let mut good_any = false;
    for p in nested {
        let w: Vec<usize> = p.iter().map(|v| v.len()).collect();
        let good = w.iter().all(|n| *n == w[0]);
        good_any |= good;
        let flat: Vec<(u64, u64)> = p.iter().flat_map(|v| bits(v)).collect();
        let rows = p.len();
        match flatten_2d(p) {
            Ok((v, r, cc)) => ensure!(good && r == rows && r * cc == v.len() && bits(&v) == flat, "flatten_2d of row lengths {w:?}: {r}x{cc}"),
            Err(e) => ensure!(!good && e == FftError::MismatchedLengths, "flatten_2d refused {w:?} with {e:?}"),
        }
    }
    Ok(if c.rows.iter().map(|p| p.len()).sum::<usize>() > 1 { nt(if good3 { "rectangular" } else { "ragged" }) } else { triv("tiny") })
}
fn ragged_strat() -> impl Strategy<Value = Ragged> + Clone {
    let uniform = (0usize..4, 0usize..4, 0usize..5, any::<u8>(), any::<u8>(), 0usize..3).prop_map(|(d, r, c, a, b, dl)| {
        let mut rows = vec![vec![c; r]; d];
        if d > 0 && r > 0 && dl > 0 {
            let (i, j) = (a as usize % d, b as usize % r);
            if dl == 1 {
                rows[i][j] = c + 1;
            } else {
                rows[i].pop();
            }
        }
        Ragged { rows }
    });
    // several changes to a larger array, often leaving the element count alone
    let wide = (1usize..=12, 1usize..=60, 0usize..=40, proptest::collection::vec((any::<u16>(), any::<u16>(), any::<u16>(), 0u8..6), 0..3)).prop_map(|(d, r, c, edits)| {
        let mut rows = vec![vec![c; r]; d];
        for (a, b, k, kind) in edits {
            let (i, j) = (a as usize % d, (a as usize / 16) % d);
            let (p, q) = (b as usize, k as usize);
            match kind {
                // moved from one row to another
                0 | 1 if !rows[i].is_empty() && !rows[j].is_empty() => {
                    let (p, q) = (p % rows[i].len(), q % rows[j].len());
                    if rows[i][p] > 0 {
                        rows[i][p] -= 1;
                        rows[j][q] += 1;
                    }
                }
                // a row moved from one plane to another
                2 => {
                    if let Some(v) = rows[i].pop() {
                        rows[j].push(v);
                    }
                }
                3 if !rows[i].is_empty() => {
                    let p = p % rows[i].len();
                    rows[i][p] = rows[i][p] + 1 + q % 3;
                }
                4 if !rows[i].is_empty() => {
                    let p = p % rows[i].len();
                    rows[i][p] = 0;
                }
                // a whole plane of another width with the same number of elements
                _ => {
                    if c % 2 == 0 && r > 0 {
                        rows[i] = vec![c / 2; 2 * r];
                    }
                }
            }
        }
        Ragged { rows }
    });
    prop_oneof![
        3 => uniform,
        2 => wide,
        1 => proptest::collection::vec(proptest::collection::vec(0usize..3, 0..4), 0..4).prop_map(|rows| Ragged { rows }),
    ]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadShape {
    pub len: usize,
    pub d: usize,
    pub r: usize,
    pub c: usize,
    pub s: [usize; 3],
}
fn bad_shape(b: &BadShape) -> Res {
    let x = dirty::<f32>(b.len, 11);
    let f = ScalarFftImpl::<f32>::default();
    let mut v = x.clone();
    let (mut t, mut rw, mut cl) = (dirty::<f32>(b.s[0], 1), dirty::<f32>(b.s[1], 2), dirty::<f32>(b.s[2], 3));
    let size = b.d.checked_mul(b.r).and_then(|p| p.checked_mul(b.c));
    // a zero dimension may make the checked product 0 in any order
    let zero = b.d == 0 || b.r == 0 || b.c == 0;
    let res = no_panic("fft3d_inplace", || fft3d_inplace(&mut v, b.d, b.r, b.c, &f, &mut Fft3dScratch { tube: &mut t, row: &mut rw, col: &mut cl }))?;
    let bad3 = if zero { b.len != 0 } else { size != Some(b.len) || b.s != [b.d, b.r, b.c] };
    if bad3 {
        ensure!(res == Err(FftError::MismatchedLengths) && bits(&v) == bits(&x), "fft3d_inplace with {b:?} returned {res:?} (data changed: {})", bits(&v) != bits(&x));
    } else if zero {
        ensure!(bits(&v) == bits(&x), "fft3d of an empty array changed something");
    } else if supported(b.d) && supported(b.r) && supported(b.c) {
        ensure!(res.is_ok(), "fft3d_inplace refused the valid shape {b:?}: {res:?}");
    }
    let mut v = x.clone();
    let mut sc = dirty::<f32>(b.s[1], 2);
    let size = b.r.checked_mul(b.c);
    let zero = b.r == 0 || b.c == 0;
    let res = no_panic("fft2d_inplace", || fft2d_inplace(&mut v, b.r, b.c, &f, &mut sc))?;
    let bad = if zero { b.len != 0 } else { size != Some(b.len) || b.s[1] != b.r };
    if bad {
        ensure!(res == Err(FftError::MismatchedLengths) && bits(&v) == bits(&x), "fft2d_inplace with {b:?} returned {res:?} (data changed: {})", bits(&v) != bits(&x));
    } else if !zero && supported(b.r) && supported(b.c) {
        ensure!(res.is_ok(), "fft2d_inplace refused the valid shape {b:?}: {res:?}");
    }
    Ok(if bad || bad3 { nt("refused") } else { triv("valid") })
}
pub fn bad_shapes() -> impl Strategy<Value = BadShape> + Clone {
    let dim = || prop_oneof![10 => 0usize..6, 1 => Just(usize::MAX), 1 => Just(1usize << 63), 1 => Just(1usize << 32)];
    (dim(), dim(), dim(), 0usize..4, -1i64..=1, proptest::array::uniform3(prop_oneof![4 => Just(0i64), 1 => Just(-1i64), 1 => Just(1i64)])).prop_map(|(d, r, c, mode, dl, ds)| {
        let size = match mode {
            0 => r.checked_mul(c),
            _ => d.checked_mul(r).and_then(|p| p.checked_mul(c)),
        };
        let len = match size {
            Some(s) if s < 1000 => (s as i64 + if mode == 2 { dl } else { 0 }).max(0) as usize,
            _ => 0,
        };
        let adj = |v: usize, k: usize| if v < 100 { (v as i64 + ds[k]).max(0) as usize } else { 3 };
        BadShape { len, d, r, c, s: [adj(d, 0), adj(r, 1), adj(c, 2)] }
    })
}
pub fn nd_refusals(r: &mut Reg) {
    r.prop("nd-shapes", "case = (data length, dims incl. zero and overflowing products, scratch lengths); non-trivial: refused", 3000, bad_shapes(), bad_shape);
}
pub fn c12(r: &mut Reg) {
    const R: &str = "case = (depth, rows, cols, signal, size transformed earlier on the instance); non-trivial: at least two axes longer than one";
    let axis = || prop_oneof![4 => 1usize..=4, 2 => 1usize..=40, 2 => len_any(3000)];
    let long = || (axis(), axis(), axis(), sig_nz(), 0usize..70).prop_filter("at most 40000 elements", |s| s.0 * s.1 * s.2 <= 40_000).prop_map(|(d, r, c, sig, warm)| Shape { d, r, c, sig, warm });
    r.prop("nd-long-f32", R, 60, long(), nd::<f32>);
    r.prop("nd-long-f64", R, 60, long(), nd::<f64>);
    r.prop("nd-f32", R, 1500, shape(), nd::<f32>);
    r.prop("nd-f64", R, 1500, shape(), nd::<f64>);
    let one = |n: usize| (sig_nz(), Just(n)).prop_map(|(sig, n)| Shape { d: 1 + n % 5, r: 1 + (n / 5) % 9, c: 1 + n / 45, sig, warm: n });
    r.sweep("nd-sweep-f32", R, (0..45 * 12).collect(), 1, one, nd::<f32>);
    r.sweep("nd-sweep-f64", R, (0..45 * 12).collect(), 1, one, nd::<f64>);
    r.prop("flatten", "case = nested row lengths, rectangular or ragged; non-trivial: more than one row", 3000, ragged_strat(), ragged);
    nd_refusals(r);
}
