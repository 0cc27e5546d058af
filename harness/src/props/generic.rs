//! C33: number types and transform backends supplied by the user.
//!
//! `Float` and `FftImpl` are public traits.  Two number types of our own (one
//! that answers every method, one that relies on the trait's defaults) and a
//! backend of our own go through the same checks as the built-in ones.
use super::fft_core::*;
use super::hist::{hist, hist_wide, history};
use super::layout::*;
use super::plans::strategies;
use super::real::{nd, shape};
use super::trig::{dst_tables, tab_ops};
use crate::core::*;
use crate::oracle::*;
use crate::sig::*;
use kofft::fft::*;
use kofft::num::Float;
use kofft::rfft::*;
use proptest::prelude::*;
use std::ops::{Add, Div, Mul, Neg, Sub};

macro_rules! number {
    ($w:ident, $t:ty) => {
        #[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
        pub struct $w($t);
        impl Add for $w {
            type Output = $w;
            fn add(self, o: $w) -> $w {
                $w(self.0 + o.0)
            }
        }
        impl Sub for $w {
            type Output = $w;
            fn sub(self, o: $w) -> $w {
                $w(self.0 - o.0)
            }
        }
        impl Mul for $w {
            type Output = $w;
            fn mul(self, o: $w) -> $w {
                $w(self.0 * o.0)
            }
        }
        impl Div for $w {
            type Output = $w;
            fn div(self, o: $w) -> $w {
                $w(self.0 / o.0)
            }
        }
        impl Neg for $w {
            type Output = $w;
            fn neg(self) -> $w {
                $w(-self.0)
            }
        }
        impl El for $w {
            const EPS: f64 = <$t>::EPSILON as f64;
            const NAME: &'static str = stringify!($w);
            fn of(x: f64) -> $w {
                $w(x as $t)
            }
            fn f(self) -> f64 {
                self.0 as f64
            }
            fn mixed(i: &ScalarFftImpl<$w>, x: &mut [Cx<$w>]) -> Result<(), FftError> {
                i.fft(x)
            }
        }
    };
}
number!(Double, f64);
number!(Single, f32);
impl Float for Double {
    fn zero() -> Self {
        Double(0.0)
    }
    fn one() -> Self {
        Double(1.0)
    }
    fn from_f32(x: f32) -> Self {
        Double(x as f64)
    }
    fn from_f64(x: f64) -> Self {
        Double(x)
    }
    fn cos(self) -> Self {
        Double(self.0.cos())
    }
    fn sin(self) -> Self {
        Double(self.0.sin())
    }
    fn sin_cos(self) -> (Self, Self) {
        (self.sin(), self.cos())
    }
    fn pi() -> Self {
        Double(std::f64::consts::PI)
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        Double(self.0.mul_add(a.0, b.0))
    }
}
/// relies on the default `from_f64` and `mul_add`
impl Float for Single {
    fn zero() -> Self {
        Single(0.0)
    }
    fn one() -> Self {
        Single(1.0)
    }
    fn from_f32(x: f32) -> Self {
        Single(x)
    }
    fn cos(self) -> Self {
        Single(self.0.cos())
    }
    fn sin(self) -> Self {
        Single(self.0.sin())
    }
    fn sin_cos(self) -> (Self, Self) {
        (self.sin(), self.cos())
    }
    fn pi() -> Self {
        Single(std::f32::consts::PI)
    }
}

/// A backend that answers only what the trait requires, by definition.
#[derive(Clone, Copy)]
pub struct Direct;
fn put<T: El>(d: &mut [Cx<T>], v: Vec<C>) {
    d.copy_from_slice(&to_t::<T>(&v));
}
impl<T: El> FftImpl<T> for Direct {
    fn fft(&self, x: &mut [Cx<T>]) -> Result<(), FftError> {
        if x.is_empty() {
            return Err(FftError::EmptyInput);
        }
        let v = dft(&from_t(x));
        put(x, v);
        Ok(())
    }
    fn ifft(&self, x: &mut [Cx<T>]) -> Result<(), FftError> {
        if x.is_empty() {
            return Err(FftError::EmptyInput);
        }
        let v = idft(&from_t(x));
        put(x, v);
        Ok(())
    }
    fn fft_strided(&self, x: &mut [Cx<T>], stride: usize, scratch: &mut [Cx<T>]) -> Result<(), FftError> {
        strided(x, stride, scratch, |s| self.fft(s))
    }
    fn ifft_strided(&self, x: &mut [Cx<T>], stride: usize, scratch: &mut [Cx<T>]) -> Result<(), FftError> {
        strided(x, stride, scratch, |s| self.ifft(s))
    }
    fn fft_out_of_place_strided(&self, x: &[Cx<T>], s: usize, o: &mut [Cx<T>], t: usize) -> Result<(), FftError> {
        out_strided(x, s, o, t, |b| self.fft(b))
    }
    fn ifft_out_of_place_strided(&self, x: &[Cx<T>], s: usize, o: &mut [Cx<T>], t: usize) -> Result<(), FftError> {
        out_strided(x, s, o, t, |b| self.ifft(b))
    }
    fn fft_with_strategy(&self, x: &mut [Cx<T>], _: FftStrategy) -> Result<(), FftError> {
        self.fft(x)
    }
}
fn strided<T: El>(x: &mut [Cx<T>], stride: usize, scratch: &mut [Cx<T>], f: impl Fn(&mut [Cx<T>]) -> Result<(), FftError>) -> Result<(), FftError> {
    let n = scratch.len();
    if stride == 0 {
        return Err(FftError::InvalidStride);
    }
    if n == 0 {
        return Ok(());
    }
    if x.len() < (n - 1) * stride + 1 {
        return Err(FftError::MismatchedLengths);
    }
    for i in 0..n {
        scratch[i] = x[i * stride];
    }
    f(scratch)?;
    for i in 0..n {
        x[i * stride] = scratch[i];
    }
    Ok(())
}
fn out_strided<T: El>(x: &[Cx<T>], s: usize, o: &mut [Cx<T>], t: usize, f: impl Fn(&mut [Cx<T>]) -> Result<(), FftError>) -> Result<(), FftError> {
    if s == 0 || t == 0 || x.len() % s != 0 || o.len() % t != 0 {
        return Err(FftError::InvalidStride);
    }
    if x.len() / s != o.len() / t {
        return Err(FftError::MismatchedLengths);
    }
    let mut b: Vec<Cx<T>> = x.iter().step_by(s).copied().collect();
    f(&mut b)?;
    for (i, v) in b.into_iter().enumerate() {
        o[i * t] = v;
    }
    Ok(())
}
fn l_number<T: El>(c: &Lay) -> Res {
    let r = layouts_of::<T>("scalar", &ScalarFftImpl::<T>::default(), c)?;
    Ok(l_verdict(c, r.max(free_fns::<T>(c)?)))
}
/// the default methods of the trait, on a backend that does not override them
fn l_backend<T: El>(c: &Lay) -> Res {
    // the reference backend takes every length, also without std
    if !supported(c.n) {
        return Ok(triv("unsupported"));
    }
    Ok(l_verdict(c, layouts_of::<T>("user backend", &Direct, c)?))
}
fn b_backend<T: El>(c: &Batch) -> Res {
    if c.items.iter().any(|i| i.0 > 0 && !supported(i.0)) {
        return Ok(triv("unsupported"));
    }
    batches_on::<T, _>(&Direct, c)
}
fn real_backend<T: super::real::Rn>(c: &LenSig) -> Res {
    // c.n is the half length
    if !supported(c.n) {
        return Ok(triv("unsupported"));
    }
    let n = 2 * c.n;
    let x: Vec<T> = c.sig.real(n).into_iter().map(T::of).collect();
    let xr: Vec<C> = x.iter().map(|v| (v.f(), 0.0)).collect();
    let want = dft(&xr);
    let mut ratio = 0f64;
    let mut pl = RfftPlanner::<T>::default();
    for path in 0..4 {
        let mut a = x.clone();
        let mut s = vec![Cx::new(T::of(7.0), T::of(-3.0)); c.n + 1];
        let mut b = vec![T::of(9.0); n];
        let mut sc = vec![Cx::new(T::of(5.0), T::of(1.0)); c.n];
        let r = match path {
            0 => pl.rfft(&Direct, &mut a, &mut s),
            1 => pl.rfft_with_scratch(&Direct, &mut a, &mut s, &mut sc),
            2 => RealFftImpl::<T>::rfft(&Direct, &mut a, &mut s),
            _ => rfft_packed(&mut pl, &Direct, &mut a, &mut s, &mut sc),
        };
        ensure!(r.is_ok(), "real transform path {path} on a user backend, n={n}: {r:?}");
        ratio = ratio.max(close(&format!("real transform path {path} on a user backend n={n} {}", T::NAME), &from_t(&s), &want[..=c.n], 2.0 * tol_fft::<T>(n), 1e-300)?);
        let r = match path {
            0 => pl.irfft(&Direct, &mut s, &mut b),
            1 => pl.irfft_with_scratch(&Direct, &mut s, &mut b, &mut sc),
            2 => RealFftImpl::<T>::irfft(&Direct, &mut s, &mut b),
            _ => irfft_packed(&mut pl, &Direct, &mut s, &mut b, &mut sc),
        };
        ensure!(r.is_ok(), "inverse real transform path {path} on a user backend, n={n}: {r:?}");
        let (g, w): (Vec<f64>, Vec<f64>) = (b.iter().map(|v| v.f()).collect(), x.iter().map(|v| v.f()).collect());
        ratio = ratio.max(rclose(&format!("real round trip path {path} on a user backend n={n} {}", T::NAME), &g, &w, 4.0 * tol_fft::<T>(n), 1e-300)?);
    }
    let v = if c.n > 1 && !c.sig.trivial() { nt(lenclass(c.n)) } else { triv(lenclass(c.n)) };
    Ok(v.r(ratio))
}
pub fn c33(r: &mut Reg) {
    const R: &str = "case = (length, signal) on a number type defined outside the library; non-trivial: length > 1 and the signal is not all zero";
    r.sweep("sweep-single", R, (1..=400).collect(), 2, at, fwd::<Single>);
    r.sweep("sweep-double", R, (1..=400).collect(), 2, at, fwd::<Double>);
    r.sweep("pow2-single", R, (0..=16).map(|e| 1usize << e).collect(), 4, at, fwd::<Single>);
    r.sweep("pow2-double", R, (0..=16).map(|e| 1usize << e).collect(), 4, at, fwd::<Double>);
    r.sweep("inverse-single", R, (1..=300).collect(), 2, at, inv::<Single>);
    r.sweep("inverse-double", R, (1..=300).collect(), 2, at, inv::<Double>);
    r.sweep("round-trip-double", R, (0..=16).map(|e| 1usize << e).collect(), 3, at, roundtrip::<Double>);
    r.prop("random-single", R, 200, over(len_any(6000)), fwd::<Single>);
    r.prop("random-double", R, 200, over(len_any(6000)), fwd::<Double>);
    r.prop("strategies-single", R, 800, over(len_any(2000)), strategies::<Single>);
    r.prop("strategies-double", R, 800, over(len_any(2000)), strategies::<Double>);
    r.prop("parallel-fns-double", R, 200, over(len_any(2000)), parallel_fns::<Double>);
    const RL: &str = "case = (n, stride, extra tail elements, output stride, direction, signal) on a user-defined number type or backend; non-trivial: n > 1 and stride > 1";
    r.prop("layouts-single", RL, 800, lay(160), l_number::<Single>);
    r.prop("layouts-double", RL, 800, lay(160), l_number::<Double>);
    r.prop("layouts-backend-f32", RL, 600, lay(120), l_backend::<f32>);
    r.prop("layouts-backend-double", RL, 600, lay(120), l_backend::<Double>);
    const RB: &str = "case = (items with lengths and signals, direction, batch or multi-channel form) on a user-defined number type or backend; non-trivial: at least two different lengths";
    r.prop("batch-double", RB, 400, batch_strat(200), batches::<Double>);
    r.prop("batch-backend", RB, 400, batch_strat(100), b_backend::<f32>);
    const RH: &str = "case = (planner history, sequence of calls) on one instance over a user-defined number type, each call repeated on a new instance; non-trivial: two operations with different lengths";
    r.prop("history-single", RH, 400, hist(300, 14), history::<Single>);
    r.prop("history-wide", RH, 8, hist_wide(200), history::<Single>);
    r.prop("history-double", RH, 400, hist(300, 14), history::<Double>);
    r.prop("nd-double", "case = (depth, rows, columns, signal) over a user-defined number type; non-trivial: two axes longer than 1", 400, shape(), nd::<Double>);
    const RT: &str = "case = sequence of table requests on one DstPlanner over a user-defined number type; non-trivial: several lengths";
    r.prop("dst-tables-single", RT, 300, tab_ops(), dst_tables::<Single>);
    r.prop("dst-tables-double", RT, 300, tab_ops(), dst_tables::<Double>);
    const RR: &str = "case = (half length, signal): every real-transform path on a user-defined backend; non-trivial: half length > 1, signal non-zero";
    r.sweep("real-backend-f32", RR, (1..=150).collect(), 2, at, real_backend::<f32>);
    r.sweep("real-backend-f64", RR, (1..=150).collect(), 2, at, real_backend::<f64>);
}
