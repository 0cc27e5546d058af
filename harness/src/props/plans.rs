//! C04: strategies, plans and named radix routines.
use super::fft_core::*;
use super::hist::strategy_of;
use crate::core::*;
use crate::oracle::*;
use crate::sig::*;
use kofft::fft::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const R: &str = "case = (length, signal), every strategy is applied; non-trivial: length > 1 and signal not all zero";

pub fn strategies<T: El>(c: &LenSig) -> Res {
    let x = to_t::<T>(&c.sig.complex(c.n));
    let xr = from_t(&x);
    let mut ratio = 0f64;
    for k in 0..4u8 {
        let mut y = x.clone();
        let r = ScalarFftImpl::<T>::default().fft_with_strategy(&mut y, strategy_of(k));
        ratio = ratio.max(check_fwd(&format!("fft_with_strategy({:?})", strategy_of(k)), &xr, r, &x, &y)?);
    }
    let mut y = x.clone();
    let r = ScalarFftImpl::<T>::default().stockham_fft(&mut y);
    if c.n > 1 {
        ratio = ratio.max(check_fwd("stockham_fft", &xr, r, &x, &y)?);
    }
    #[cfg(feature = "k-std")]
    {
        let mut y = x.clone();
        let r = ScalarFftImpl::<T>::default().fft_radix4(&mut y);
        ratio = ratio.max(check_fwd("fft_radix4", &xr, r, &x, &y)?);
    }
    let v = if c.n > 1 && !c.sig.trivial() { nt(lenclass(c.n)) } else { triv(lenclass(c.n)) };
    Ok(v.r(ratio))
}
fn named(c: &LenSig) -> Res {
    let x = to_t::<f32>(&c.sig.complex(c.n));
    let xr = from_t(&x);
    let mut ratio = 0f64;
    let f = ScalarFftImpl::<f32>::default();
    let mut y = x.clone();
    let r = f.fft_mixed_radix(&mut y);
    ratio = ratio.max(check_fwd("fft_mixed_radix", &xr, r, &x, &y)?);
    #[cfg(feature = "k-std")]
    {
        let tw = TwiddleFactorBuffer::new(c.n);
        for k in 0..3 {
            let mut y = x.clone();
            let (w, r) = match k {
                0 => ("fft_radix2_with_twiddles", f.fft_radix2_with_twiddles(&mut y, &tw)),
                1 => ("fft_radix4_with_twiddles", f.fft_radix4_with_twiddles(&mut y, &tw)),
                _ => ("fft_mixed_radix_with_twiddles", f.fft_mixed_radix_with_twiddles(&mut y, &tw)),
            };
            ratio = ratio.max(check_fwd(w, &xr, r, &x, &y)?);
        }
    }
    let v = if c.n > 1 && !c.sig.trivial() { nt(lenclass(c.n)) } else { triv(lenclass(c.n)) };
    Ok(v.r(ratio))
}

#[cfg(feature = "k-std")]
mod plan {
    use super::*;
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct PlanCase {
        pub n: usize,
        pub strat: u8,
        /// (method, signal, length error in -1/0/+1)
        pub calls: Vec<(u8, Sig, i8)>,
    }
    pub fn run<T: El>(c: &PlanCase) -> Res {
        let n = c.n;
        let p = FftPlan::<T>::new(n, strategy_of(c.strat));
        ensure!(p.n == n && p.strategy == strategy_of(c.strat), "plan does not remember its parameters");
        let mut ratio = 0f64;
        let mut bad = false;
        for (k, (m, sig, d)) in c.calls.iter().enumerate() {
            let d = if *d > 1 { 1 } else if *d < -1 { -1 } else { 0 };
            let len = (n as i64 + d as i64).max(0) as usize;
            let x = to_t::<T>(&sig.complex(len));
            let xr = from_t(&x);
            let what = format!("plan(n={n}, {:?}) call {k} method {}", strategy_of(c.strat), m % 6);
            let inv = m % 2 == 1;
            let mut re: Vec<T> = x.iter().map(|c| c.re).collect();
            let mut im: Vec<T> = x.iter().map(|c| c.im).collect();
            let (r, y) = match (m % 6) / 2 {
                0 => {
                    let mut y = x.clone();
                    (if inv { p.ifft(&mut y) } else { p.fft(&mut y) }, y)
                }
                1 => {
                    let mut o = x.clone();
                    for z in &mut o {
                        z.re = z.re + T::one();
                    }
                    let o0 = o.clone();
                    let r = if inv { p.ifft_out_of_place(&x, &mut o) } else { p.fft_out_of_place(&x, &mut o) };
                    if r.is_err() {
                        ensure!(bits(&o) == bits(&o0), "{what}: refused call changed the output");
                        (r, x.clone())
                    } else {
                        (r, o)
                    }
                }
                _ => {
                    let r = if inv { p.ifft_split(&mut re, &mut im) } else { p.fft_split(&mut re, &mut im) };
                    (r, re.iter().zip(&im).map(|(a, b)| Cx::new(*a, *b)).collect())
                }
            };
            if len != n {
                bad = true;
                ensure!(r == Err(FftError::MismatchedLengths), "{what}: data of length {len} gave {r:?}");
                ensure!(bits(&x) == bits(&y), "{what}: refused data were changed");
            } else if n == 0 {
                ensure!(r == Err(FftError::EmptyInput), "{what}: {r:?}");
            } else if inv {
                ratio = ratio.max(check_inv(&what, &xr, r, &x, &y)?);
            } else {
                ratio = ratio.max(check_fwd(&what, &xr, r, &x, &y)?);
            }
        }
        let v = if n > 1 && c.calls.len() > 1 { nt(if bad { "with-bad-length" } else { "good" }) } else { triv("small") };
        Ok(v.r(ratio))
    }
    pub fn many() -> impl Strategy<Value = PlanCase> + Clone {
        (strat(), proptest::collection::vec((any::<u8>(), sig_nz(), prop_oneof![9 => Just(0i8), 1 => Just(1i8)]), 40..300)).prop_map(|(mut p, calls)| {
            p.calls = calls;
            p
        })
    }
    pub fn strat() -> impl Strategy<Value = PlanCase> + Clone {
        (
            prop_oneof![6 => len_any(600), 2 => (0u32..7).prop_map(|e| 1usize << (2 * e)), 1 => Just(0usize)],
            any::<u8>(),
            proptest::collection::vec((any::<u8>(), sig_nz(), prop_oneof![5 => Just(0i8), 1 => Just(2i8), 1 => Just(-2i8)]), 1..9),
        )
            .prop_map(|(n, strat, calls)| PlanCase { n, strat, calls })
    }
}

pub fn c04(r: &mut Reg) {
    r.sweep("strategies-f32", R, (1..=300).collect(), 2, at, strategies::<f32>);
    r.sweep("strategies-f64", R, (1..=300).collect(), 2, at, strategies::<f64>);
    r.sweep("strategies-pow2-f32", R, (0..=18).map(|e| 1usize << e).collect(), 5, at, strategies::<f32>);
    r.sweep("strategies-pow2-f64", R, (0..=18).map(|e| 1usize << e).collect(), 5, at, strategies::<f64>);
    r.prop("strategies-random-f32", R, 300, over(len_any(9000)), strategies::<f32>);
    r.prop("strategies-random-f64", R, 300, over(len_any(9000)), strategies::<f64>);
    r.sweep("named-radix", R, (1..=300).collect(), 2, at, named);
    r.sweep("named-radix-pow2", R, (0..=16).map(|e| 1usize << e).collect(), 5, at, named);
    r.prop("named-radix-random", R, 400, over(len_any(5000)), named);
    #[cfg(feature = "k-std")]
    {
        const RP: &str = "case = (planned length, strategy, calls of fft/ifft/out-of-place/split methods with right and wrong lengths on one plan); non-trivial: planned length > 1 and at least two calls";
        r.prop("plan-f32", RP, 1500, plan::strat(), plan::run::<f32>);
        r.prop("plan-many-calls", RP, 20, plan::many(), plan::run::<f64>);
        r.prop("plan-f64", RP, 1500, plan::strat(), plan::run::<f64>);
    }
}
