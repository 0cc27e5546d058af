use crate::core::*;
use crate::oracle::*;
use crate::sig::*;
use kofft::fft::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LenSig {
    pub n: usize,
    pub sig: Sig,
}
pub fn at(n: usize) -> impl Strategy<Value = LenSig> + Clone {
    sig().prop_map(move |sig| LenSig { n, sig })
}
pub fn over<S: Strategy<Value = usize> + Clone>(s: S) -> impl Strategy<Value = LenSig> + Clone {
    (s, sig()).prop_map(|(n, sig)| LenSig { n, sig })
}
/// double precision, far outside the single-precision range
pub fn far<S: Strategy<Value = usize> + Clone>(s: S) -> impl Strategy<Value = LenSig> + Clone {
    (s, sig_far()).prop_map(|(n, sig)| LenSig { n, sig })
}
pub const STD: bool = cfg!(feature = "k-std");
pub fn supported(n: usize) -> bool {
    STD || n.is_power_of_two()
}
pub fn lenclass(n: usize) -> &'static str {
    if n == 1 {
        "len1"
    } else if n.is_power_of_two() {
        if n <= 16 {
            "pow2-kernel"
        } else {
            "pow2-stockham"
        }
    } else if n % 2 == 1 {
        "odd"
    } else {
        "even-nonpow2"
    }
}
fn verdict(c: &LenSig, ratio: f64) -> Verdict {
    let v = if c.n > 1 && !c.sig.trivial() { nt(lenclass(c.n)) } else { triv(lenclass(c.n)) };
    v.r(ratio)
}

/// Result of a transform on x must match DFT, or be the documented refusal
/// (no_std, other lengths) with the data untouched.
pub fn check_fwd<T: El>(what: &str, x: &[C], r: Result<(), FftError>, before: &[Cx<T>], after: &[Cx<T>]) -> Result<f64, String> {
    let n = x.len();
    if !supported(n) {
        ensure!(r == Err(FftError::NonPowerOfTwoNoStd), "{what}: length {n} without std gave {r:?}");
        ensure!(bits(before) == bits(after), "{what}: refused call modified its data (len {n})");
        return Ok(0.0);
    }
    ensure!(r.is_ok(), "{what}: length {n} returned {r:?}");
    close(&format!("{what} n={n} {}", T::NAME), &from_t(after), &dft(x), tol_fft::<T>(n), 1e-300)
}
pub fn check_inv<T: El>(what: &str, x: &[C], r: Result<(), FftError>, before: &[Cx<T>], after: &[Cx<T>]) -> Result<f64, String> {
    let n = x.len();
    if !supported(n) {
        ensure!(r == Err(FftError::NonPowerOfTwoNoStd), "{what}: length {n} without std gave {r:?}");
        let _ = before;
        return Ok(0.0);
    }
    ensure!(r.is_ok(), "{what}: length {n} returned {r:?}");
    close(&format!("{what} n={n} {}", T::NAME), &from_t(after), &idft(x), tol_fft::<T>(n), 1e-300)
}

pub fn fwd<T: El>(c: &LenSig) -> Res {
    let x = to_t::<T>(&c.sig.complex(c.n));
    let xr = from_t(&x);
    let mut y = x.clone();
    let r = ScalarFftImpl::<T>::default().fft(&mut y);
    let mut ratio = check_fwd("fft", &xr, r, &x, &y)?;
    let mut y2 = x.clone();
    if c.n > 1 {
        let r = ScalarFftImpl::<T>::default().stockham_fft(&mut y2);
        ratio = ratio.max(check_fwd("stockham_fft", &xr, r, &x, &y2)?);
    }
    #[cfg(feature = "k-std")]
    {
        let v = ScalarFftImpl::<T>::default().fft_vec(&x).map_err(|e| format!("fft_vec: {e:?}"))?;
        ratio = ratio.max(close("fft_vec", &from_t(&v), &from_t(&y), tol_fft::<T>(c.n), 1e-300)?);
    }
    Ok(verdict(c, ratio))
}

fn huge() -> impl Strategy<Value = usize> + Clone {
    prop_oneof![1 => pow2(19, 21), 2 => 150_000usize..700_000]
}
const R1: &str = "case = (length, signal); non-trivial: length > 1 and the signal is not all zero; distinct by (length, signal description)";

pub fn c01(r: &mut Reg) {
    r.sweep("sweep-f32", R1, (1..=520).collect(), 4, at, fwd::<f32>);
    r.sweep("sweep-f64", R1, (1..=520).collect(), 4, at, fwd::<f64>);
    r.sweep("pow2-f32", R1, (0..=18).map(|e| 1usize << e).collect(), 6, at, fwd::<f32>);
    r.sweep("pow2-f64", R1, (0..=18).map(|e| 1usize << e).collect(), 6, at, fwd::<f64>);
    r.prop("random-f32", R1, 1500, over(len_any(6000)), fwd::<f32>);
    r.prop("random-f64", R1, 1500, over(len_any(6000)), fwd::<f64>);
    r.prop("far-f64", R1, 400, far(len_any(4000)), fwd::<f64>);
    r.prop("large-f32", R1, 40, over(5000usize..150_000), fwd::<f32>);
    r.prop("large-f64", R1, 40, over(5000usize..150_000), fwd::<f64>);
    r.prop("huge-f32", R1, 6, over(huge()), fwd::<f32>);
    r.prop("huge-f64", R1, 6, over(huge()), fwd::<f64>);
}

pub fn inv<T: El>(c: &LenSig) -> Res {
    let x = to_t::<T>(&c.sig.complex(c.n));
    let xr = from_t(&x);
    let mut y = x.clone();
    let r = ScalarFftImpl::<T>::default().ifft(&mut y);
    let ratio = check_inv("ifft", &xr, r, &x, &y)?;
    #[cfg(feature = "k-std")]
    {
        let v = ScalarFftImpl::<T>::default().ifft_vec(&x).map_err(|e| format!("ifft_vec: {e:?}"))?;
        close("ifft_vec", &from_t(&v), &from_t(&y), tol_fft::<T>(c.n), 1e-300)?;
    }
    Ok(verdict(c, ratio))
}
pub fn roundtrip<T: El>(c: &LenSig) -> Res {
    let x = to_t::<T>(&c.sig.complex(c.n));
    let xr = from_t(&x);
    if !supported(c.n) {
        return Ok(triv("unsupported"));
    }
    let f = ScalarFftImpl::<T>::default();
    let mut ratio = 0f64;
    for dir in 0..2 {
        let mut y = x.clone();
        let (a, b) = if dir == 0 { (f.fft(&mut y), f.ifft(&mut y)) } else { (f.ifft(&mut y), f.fft(&mut y)) };
        ensure!(a.is_ok() && b.is_ok(), "round trip order {dir} len {}: {a:?} {b:?}", c.n);
        ratio = ratio.max(close(&format!("round trip order {dir} {}", T::NAME), &from_t(&y), &xr, 2.0 * tol_fft::<T>(c.n), 1e-300)?);
    }
    Ok(verdict(c, ratio))
}
/// Lengths that single precision cannot even count (thorough only: several
/// gigabytes): the inverse of an impulse is 1/N everywhere.
#[cfg(feature = "k-std")]
pub fn beyond(c: &LenSig) -> Res {
    let n = c.n;
    let one = Cx::<f64>::new(1.0, 0.0);
    let mut y = vec![Cx::<f64>::zero(); n];
    y[0] = one;
    let r = match c.sig.exp.rem_euclid(2) {
        0 => ScalarFftImpl::<f64>::default().ifft(&mut y),
        _ => FftPlan::<f64>::new(n, FftStrategy::Auto).ifft(&mut y),
    };
    ensure!(r.is_ok(), "inverse of length {n}: {r:?}");
    let mut worst = 0f64;
    for (i, z) in y.iter().enumerate() {
        let e = (z.re * n as f64 - 1.0).abs().max((z.im * n as f64).abs());
        ensure!(e <= 1e-11, "inverse of the impulse of length {n}: element {i} is {z:?}, {e:e} away from 1/N relative to it");
        worst = worst.max(e);
    }
    Ok(nt("beyond 2^24").r(worst / 1e-11))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Laws {
    n: usize,
    a: Sig,
    b: Sig,
    shift: usize,
    k: i8,
}
pub fn laws<T: El>(c: &Laws) -> Res {
    if !supported(c.n) {
        return Ok(triv("unsupported"));
    }
    let n = c.n;
    let f = |v: &[C]| -> Result<Vec<C>, String> {
        let mut t = to_t::<T>(v);
        ScalarFftImpl::<T>::default().fft(&mut t).map_err(|e| format!("fft len {n}: {e:?}"))?;
        Ok(from_t(&t))
    };
    // values exactly representable with headroom, so sums are exact inputs
    let q = |v: Vec<C>| -> Vec<C> { v.into_iter().map(|z| ((z.0 * 4096.0).round() / 4096.0, (z.1 * 4096.0).round() / 4096.0)).collect() };
    let a = q(c.a.complex(n));
    let b = q(c.b.complex(n));
    let kk = c.k as f64;
    let (ar, br) = (from_t(&to_t::<T>(&a)), from_t(&to_t::<T>(&b)));
    let fa = f(&ar)?;
    let fb = f(&br)?;
    let tol = tol_fft::<T>(n);
    let mut ratio = 0f64;
    // Parseval
    let (ea, ef) = (norm(&ar), norm(&fa) / (n as f64).sqrt());
    ensure!((ea - ef).abs() <= tol * ea, "Parseval broken at n={n} {}: {ea} vs {ef}", T::NAME);
    // linearity (error relative to the operands)
    let sum: Vec<C> = ar.iter().zip(&br).map(|(x, y)| (x.0 + kk * y.0, x.1 + kk * y.1)).collect();
    let sum_t = from_t(&to_t::<T>(&sum));
    let fs = f(&sum_t)?;
    let want: Vec<C> = fa.iter().zip(&fb).map(|(x, y)| (x.0 + kk * y.0, x.1 + kk * y.1)).collect();
    let fl = norm(&fa) + kk.abs() * norm(&fb);
    ratio = ratio.max(close("linearity", &fs, &want, 2.0 * tol, fl.max(1e-300))?);
    // circular shift
    let s = c.shift % n;
    let sh: Vec<C> = (0..n).map(|i| ar[(i + s) % n]).collect();
    let fsh = f(&sh)?;
    let want: Vec<C> = (0..n)
        .map(|k| {
            let th = 2.0 * std::f64::consts::PI * (((k as u64 * s as u64) % n as u64) as f64) / n as f64;
            cmul(fa[k], (th.cos(), th.sin()))
        })
        .collect();
    ratio = ratio.max(close("shift theorem", &fsh, &want, 2.0 * tol, 1e-300)?);
    // conjugation: F(conj x)[k] = conj F(x)[-k]
    let cj: Vec<C> = ar.iter().map(|z| (z.0, -z.1)).collect();
    let fc = f(&cj)?;
    let want: Vec<C> = (0..n).map(|k| (fa[(n - k) % n].0, -fa[(n - k) % n].1)).collect();
    ratio = ratio.max(close("conjugate symmetry", &fc, &want, 2.0 * tol, 1e-300)?);
    let v = if n > 1 && !c.a.trivial() && !c.b.trivial() { nt(lenclass(n)) } else { triv("degenerate") };
    Ok(v.r(ratio))
}
pub fn laws_at<S: Strategy<Value = usize> + Clone>(s: S) -> impl Strategy<Value = Laws> + Clone {
    (s, sig_unit(), sig_unit(), any::<u16>(), -8i8..=8).prop_map(|(n, a, b, sh, k)| Laws { n, a, b, shift: sh as usize, k })
}
pub fn c02(r: &mut Reg) {
    r.sweep("inv-sweep-f32", R1, (1..=520).collect(), 3, at, inv::<f32>);
    r.sweep("inv-sweep-f64", R1, (1..=520).collect(), 3, at, inv::<f64>);
    r.sweep("rt-sweep-f32", R1, (1..=1100).collect(), 2, at, roundtrip::<f32>);
    r.sweep("rt-sweep-f64", R1, (1..=1100).collect(), 2, at, roundtrip::<f64>);
    r.sweep("rt-pow2-f32", R1, (0..=20).map(|e| 1usize << e).collect(), 4, at, roundtrip::<f32>);
    r.sweep("rt-pow2-f64", R1, (0..=20).map(|e| 1usize << e).collect(), 4, at, roundtrip::<f64>);
    r.prop("inv-random-f32", R1, 600, over(len_any(20_000)), inv::<f32>);
    r.prop("inv-random-f64", R1, 600, over(len_any(20_000)), inv::<f64>);
    r.prop("inv-far-f64", R1, 400, far(len_any(4000)), inv::<f64>);
    r.prop("rt-far-f64", R1, 400, far(len_any(4000)), roundtrip::<f64>);
    const R2: &str = "case = (length, two signals, shift, factor); checks Parseval, linearity, shift and conjugation theorems; non-trivial: length > 1 and both signals non-zero";
    r.prop("laws-f32", R2, 1000, laws_at(len_any(4096)), laws::<f32>);
    r.prop("laws-f64", R2, 1000, laws_at(len_any(4096)), laws::<f64>);
    r.prop("laws-large-f32", R2, 20, laws_at(20_000usize..300_000), laws::<f32>);
    r.prop("laws-large-f64", R2, 20, laws_at(20_000usize..300_000), laws::<f64>);
    r.prop("inv-huge-f32", R1, 6, over(huge()), inv::<f32>);
    r.prop("inv-huge-f64", R1, 6, over(huge()), inv::<f64>);
    #[cfg(feature = "k-std")]
    if r.thorough {
        r.prop_serial("inv-beyond-f64", "case = (odd length above 2^24, path); every case", 1, (0usize..3000, -5i16..5).prop_map(|(k, exp)| LenSig { n: (1 << 24) + 1 + 2 * k, sig: Sig { kind: Kind::Zero, exp } }), beyond);
    }
}
