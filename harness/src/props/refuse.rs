//! C07: refusals of invalid arguments.
use super::fft_core::*;
use super::hist::strategy_of;
use super::real::{nd_refusals, Rn};
use crate::core::*;
use crate::oracle::*;
use crate::sig::*;
use kofft::fft::*;
use kofft::rfft::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Args {
    pub a: usize,
    pub b: usize,
    pub s: usize,
    pub t: usize,
    pub inv: bool,
    pub sig: Sig,
}
use FftError::*;

struct Judge<'a> {
    refused: &'a mut usize,
    ctx: String,
}
impl Judge<'_> {
    /// `want`: Some(e) must be refused with e; None must succeed.
    fn call(&mut self, what: &str, want: Option<FftError>, f: impl FnOnce() -> Result<(), FftError>, unchanged: impl FnOnce() -> bool) -> Result<(), String> {
        let _ = unchanged;
        let r = no_panic(&format!("{what} ({})", self.ctx), f)?;
        match want {
            Some(e) => {
                *self.refused += 1;
                ensure!(r == Err(e), "{what} ({}): returned {r:?}, expected Err({e:?})", self.ctx);
            }
            None => ensure!(r.is_ok(), "{what} ({}): returned {r:?} for valid arguments", self.ctx),
        }
        Ok(())
    }
}
macro_rules! judged {
    ($j:expr, $what:expr, $want:expr, $call:expr, $($buf:expr => $orig:expr),*) => {{
        let want: Option<FftError> = $want;
        $j.call($what, want, || $call, || true)?;
        if want.is_some() {
            $( ensure!($buf == $orig, "{} ({}): refused call changed the caller's data", $what, $j.ctx); )*
        }
    }};
}
fn eqc<T: El>(a: &[Cx<T>], b: &[Cx<T>]) -> bool {
    bits(a) == bits(b)
}
/// the plain length rule
fn len_rule(n: usize) -> Option<FftError> {
    if n == 0 {
        Some(EmptyInput)
    } else if !supported(n) {
        Some(NonPowerOfTwoNoStd)
    } else {
        None
    }
}
fn impl_calls<T: El>(name: &str, f: &dyn FftImpl<T>, c: &Args, refused: &mut usize) -> Result<(), String> {
    let x = to_t::<T>(&c.sig.complex(c.a));
    let y = to_t::<T>(&c.sig.complex(c.b));
    let mut j = Judge { refused, ctx: format!("{name} a={} b={} s={} t={} inv={} {}", c.a, c.b, c.s, c.t, c.inv, T::NAME) };
    {
        let mut v = x.clone();
        judged!(j, "fft/ifft", len_rule(c.a), if c.inv { f.ifft(&mut v) } else { f.fft(&mut v) }, eqc(&v, &x) => true);
    }
    for k in 0..4 {
        let mut v = x.clone();
        judged!(j, "fft_with_strategy", len_rule(c.a), f.fft_with_strategy(&mut v, strategy_of(k)), eqc(&v, &x) => true);
    }
    {
        let mut o = y.clone();
        let want = if c.a != c.b { Some(MismatchedLengths) } else { len_rule(c.a) };
        let v = x.clone();
        judged!(j, "out_of_place", want, if c.inv { f.ifft_out_of_place(&v, &mut o) } else { f.fft_out_of_place(&v, &mut o) }, eqc(&v, &x) => true);
        if c.a != c.b {
            ensure!(eqc(&o, &y), "out_of_place ({}): refused call changed the output", j.ctx);
        }
    }
    {
        // scratch length b decides how many samples are addressed
        let mut v = x.clone();
        let mut sc = y.clone();
        let n = c.b;
        if c.s == 0 || n > 0 {
            let want = if c.s == 0 {
                Some(InvalidStride)
            } else if (c.a as u128) < (n as u128 - 1) * c.s as u128 + 1 {
                Some(MismatchedLengths)
            } else {
                len_rule(n)
            };
            judged!(j, "strided", want, if c.inv { f.ifft_strided(&mut v, c.s, &mut sc) } else { f.fft_strided(&mut v, c.s, &mut sc) }, eqc(&v, &x) => true);
        } else {
            // nothing addressed: only "no panic, no change" is promised
            let _ = no_panic("strided with empty scratch", || f.fft_strided(&mut v, c.s, &mut sc))?;
            ensure!(eqc(&v, &x), "strided ({}): empty scratch but data changed", j.ctx);
        }
    }
    {
        let mut v = x.clone();
        if c.s == 0 {
            judged!(j, "strided_alloc", Some(InvalidStride), if c.inv { f.ifft_strided_alloc(&mut v, 0) } else { f.fft_strided_alloc(&mut v, 0) }, eqc(&v, &x) => true);
        } else if c.a / c.s > 0 {
            judged!(j, "strided_alloc", len_rule(c.a / c.s), if c.inv { f.ifft_strided_alloc(&mut v, c.s) } else { f.fft_strided_alloc(&mut v, c.s) }, eqc(&v, &x) => true);
        } else {
            let _ = no_panic("strided_alloc with no samples", || f.fft_strided_alloc(&mut v, c.s))?;
            ensure!(eqc(&v, &x), "strided_alloc ({}): nothing addressed but data changed", j.ctx);
        }
    }
    {
        let v = x.clone();
        let mut o = y.clone();
        let want = if c.s == 0 || c.t == 0 || c.a % c.s != 0 || c.b % c.t != 0 {
            Some(InvalidStride)
        } else if c.a / c.s != c.b / c.t {
            Some(MismatchedLengths)
        } else {
            len_rule(c.a / c.s)
        };
        judged!(j, "out_of_place_strided", want,
            if c.inv { f.ifft_out_of_place_strided(&v, c.s, &mut o, c.t) } else { f.fft_out_of_place_strided(&v, c.s, &mut o, c.t) },
            eqc(&v, &x) => true, eqc(&o, &y) => true);
    }
    {
        let mut re: Vec<T> = x.iter().map(|z| z.re).collect();
        let mut im: Vec<T> = y.iter().map(|z| z.im).collect();
        let (r0, i0) = (rbits(&re), rbits(&im));
        let want = if c.a != c.b { Some(MismatchedLengths) } else { len_rule(c.a) };
        judged!(j, "split", want, if c.inv { f.ifft_split(&mut re, &mut im) } else { f.fft_split(&mut re, &mut im) }, rbits(&re) => r0, rbits(&im) => i0);
    }
    Ok(())
}
fn scalar_calls<T: Rn>(c: &Args, refused: &mut usize) -> Result<(), String> {
    let f = ScalarFftImpl::<T>::default();
    let x = to_t::<T>(&c.sig.complex(c.a));
    let y = to_t::<T>(&c.sig.complex(c.b));
    let mut j = Judge { refused, ctx: format!("a={} b={} s={} t={} inv={} {}", c.a, c.b, c.s, c.t, c.inv, T::NAME) };
    {
        let mut v = x.clone();
        judged!(j, "stockham_fft", len_rule(c.a), f.stockham_fft(&mut v), eqc(&v, &x) => true);
        judged!(j, "fft_parallel", len_rule(c.a), { v = x.clone(); if c.inv { ifft_parallel(&mut v) } else { fft_parallel(&mut v) } }, eqc(&v, &x) => true);
    }
    {
        let mut re: Vec<T> = x.iter().map(|z| z.re).collect();
        let mut im: Vec<T> = y.iter().map(|z| z.im).collect();
        let (r0, i0) = (rbits(&re), rbits(&im));
        let want = if c.a != c.b { Some(MismatchedLengths) } else { len_rule(c.a) };
        judged!(j, "fft_split function", want, if c.inv { ifft_split(&mut re, &mut im) } else { fft_split(&mut re, &mut im) }, rbits(&re) => r0, rbits(&im) => i0);
    }
    #[cfg(feature = "k-std")]
    {
        ensure!((f.fft_vec(&x).err() == len_rule(c.a)) && (f.ifft_vec(&x).err() == len_rule(c.a)), "fft_vec/ifft_vec of length {}", c.a);
        let mut v = x.clone();
        judged!(j, "fft_radix4", len_rule(c.a), f.fft_radix4(&mut v), eqc(&v, &x) => true);
        let p = FftPlan::<T>::new(c.b, strategy_of(c.s as u8));
        let want = if c.a != c.b { Some(MismatchedLengths) } else { len_rule(c.a) };
        let mut v = x.clone();
        judged!(j, "plan.fft/ifft", want, if c.inv { p.ifft(&mut v) } else { p.fft(&mut v) }, eqc(&v, &x) => true);
        for (la, lb) in [(c.a, c.b), (c.b, c.a)] {
            let v = to_t::<T>(&c.sig.complex(la));
            let v0 = v.clone();
            let o0 = to_t::<T>(&c.sig.complex(lb));
            let mut o = o0.clone();
            judged!(j, "plan out_of_place", want, if c.inv { p.ifft_out_of_place(&v, &mut o) } else { p.fft_out_of_place(&v, &mut o) }, eqc(&v, &v0) => true, eqc(&o, &o0) => true);
            let mut re: Vec<T> = v.iter().map(|z| z.re).collect();
            let mut im: Vec<T> = o0.iter().map(|z| z.im).collect();
            let (r0, i0) = (rbits(&re), rbits(&im));
            judged!(j, "plan split", want, if c.inv { p.ifft_split(&mut re, &mut im) } else { p.fft_split(&mut re, &mut im) }, rbits(&re) => r0, rbits(&im) => i0);
        }
    }
    // real FFT: a = real length, b = bins, t = scratch shortage/excess
    {
        let n = c.a;
        let m = n / 2;
        let bins = if c.s % 2 == 0 { m + 1 } else { c.b };
        let sc_len = match c.t % 3 {
            0 => m,
            1 => m + c.t,
            _ => m.saturating_sub(c.t),
        };
        let real0: Vec<T> = c.sig.real(n).into_iter().map(T::of).collect();
        let spec0 = to_t::<T>(&c.sig.complex(bins));
        let rule = |sc: usize| {
            if n == 0 {
                Some(EmptyInput)
            } else if n % 2 == 1 {
                Some(InvalidValue)
            } else if bins != m + 1 || sc < m {
                Some(MismatchedLengths)
            } else {
                len_rule(m)
            }
        };
        let mut pl = RfftPlanner::<T>::new();
        let mk = || (real0.clone(), spec0.clone(), vec![Cx::<T>::zero(); sc_len]);
        let rb = rbits(&real0);
let unsup = !supported(m);
                // forward: input must survive a refusal; the output too, unless the
        // refusal is the no_std one for an otherwise valid shape
        {
            let (mut x, mut o, mut sc) = mk();
            judged!(j, "planner rfft_with_scratch", rule(sc_len), pl.rfft_with_scratch(&f, &mut x, &mut o, &mut sc), rbits(&x) => rb, (unsup || eqc(&o, &spec0)) => true);
            let (mut x, mut o, mut sc) = mk();
            judged!(j, "trait rfft_with_scratch", rule(sc_len), RealFftImpl::rfft_with_scratch(&f, &mut x, &mut o, &mut sc), rbits(&x) => rb, (unsup || eqc(&o, &spec0)) => true);
            let (mut x, mut o, mut sc) = mk();
            judged!(j, "rfft_packed", rule(sc_len), rfft_packed(&mut pl, &f, &mut x, &mut o, &mut sc), rbits(&x) => rb, (unsup || eqc(&o, &spec0)) => true);
            let (mut x, mut o, _) = mk();
            judged!(j, "planner rfft", rule(m), pl.rfft(&f, &mut x, &mut o), rbits(&x) => rb, (unsup || eqc(&o, &spec0)) => true);
            let (mut x, mut o, _) = mk();
            judged!(j, "trait rfft", rule(m), RealFftImpl::rfft(&f, &mut x, &mut o), rbits(&x) => rb, (unsup || eqc(&o, &spec0)) => true);
        }
        {
            let (mut x, mut o, mut sc) = mk();
            judged!(j, "planner irfft_with_scratch", rule(sc_len), pl.irfft_with_scratch(&f, &mut o, &mut x, &mut sc), rbits(&x) => rb, eqc(&o, &spec0) => true);
            let (mut x, mut o, mut sc) = mk();
            judged!(j, "trait irfft_with_scratch", rule(sc_len), RealFftImpl::irfft_with_scratch(&f, &mut o, &mut x, &mut sc), rbits(&x) => rb, eqc(&o, &spec0) => true);
            let (mut x, mut o, mut sc) = mk();
            judged!(j, "irfft_packed", rule(sc_len), irfft_packed(&mut pl, &f, &mut o, &mut x, &mut sc), rbits(&x) => rb, eqc(&o, &spec0) => true);
            let (mut x, mut o, _) = mk();
            judged!(j, "planner irfft", rule(m), pl.irfft(&f, &mut o, &mut x), rbits(&x) => rb, eqc(&o, &spec0) => true);
            let (mut x, mut o, _) = mk();
            judged!(j, "trait irfft", rule(m), RealFftImpl::irfft(&f, &mut o, &mut x), rbits(&x) => rb, eqc(&o, &spec0) => true);
        }
    }
    Ok(())
}
fn f32_only(c: &Args, refused: &mut usize) -> Result<(), String> {
    let f = ScalarFftImpl::<f32>::default();
    let x = to_t::<f32>(&c.sig.complex(c.a));
    let mut j = Judge { refused, ctx: format!("a={}", c.a) };
    let mut v = x.clone();
    judged!(j, "fft_mixed_radix", len_rule(c.a), f.fft_mixed_radix(&mut v), eqc(&v, &x) => true);
    #[cfg(feature = "k-std")]
    {
        let tw = TwiddleFactorBuffer::new(c.a);
        judged!(j, "fft_radix2_with_twiddles", len_rule(c.a), { v = x.clone(); f.fft_radix2_with_twiddles(&mut v, &tw) }, eqc(&v, &x) => true);
        judged!(j, "fft_radix4_with_twiddles", len_rule(c.a), { v = x.clone(); f.fft_radix4_with_twiddles(&mut v, &tw) }, eqc(&v, &x) => true);
        judged!(j, "fft_mixed_radix_with_twiddles", len_rule(c.a), { v = x.clone(); f.fft_mixed_radix_with_twiddles(&mut v, &tw) }, eqc(&v, &x) => true);
    }
    let auto = new_fft_impl();
    impl_calls::<f32>("auto-selected", auto.as_ref(), c, refused)?;
    #[cfg(target_arch = "x86_64")]
    impl_calls::<f32>("SimdFftX86_64Impl", &SimdFftX86_64Impl, c, refused)?;
    Ok(())
}
fn all(c: &Args) -> Res {
    let mut refused = 0;
    impl_calls::<f32>("scalar", &ScalarFftImpl::<f32>::default(), c, &mut refused)?;
    impl_calls::<f64>("scalar", &ScalarFftImpl::<f64>::default(), c, &mut refused)?;
    scalar_calls::<f32>(c, &mut refused)?;
    scalar_calls::<f64>(c, &mut refused)?;
    f32_only(c, &mut refused)?;
    Ok(if refused > 0 { nt(format!("{}+ refusals", refused / 20 * 20)) } else { triv("all valid") })
}
fn strided_only(c: &Args) -> Res {
    let mut refused = 0;
    impl_calls::<f32>("scalar", &ScalarFftImpl::<f32>::default(), c, &mut refused)?;
    impl_calls::<f64>("scalar", &ScalarFftImpl::<f64>::default(), c, &mut refused)?;
    impl_calls::<f32>("auto-selected", new_fft_impl().as_ref(), c, &mut refused)?;
    #[cfg(target_arch = "x86_64")]
    impl_calls::<f32>("SimdFftX86_64Impl", &SimdFftX86_64Impl, c, &mut refused)?;
    Ok(if refused > 0 { nt("refusals") } else { triv("all valid") })
}
fn args(max: usize) -> impl Strategy<Value = Args> + Clone {
    let l = move || prop_oneof![1 => Just(0usize), 6 => 0..=max, 2 => (0u32..6).prop_map(|e| 1usize << e)];
    (l(), l(), any::<bool>(), 0usize..7, 0usize..7, any::<bool>(), sig_nz()).prop_map(|(a, b, eq, s, t, inv, sig)| {
        let (mut a, mut b) = (a, b);
        if eq && s > 0 && t > 0 {
            // make the strided shapes match
            let n = a / s;
            a = n * s;
            b = n * t;
        }
        Args { a, b, s, t, inv, sig }
    })
}
/// Strides and lengths whose products wrap around the machine word.
fn wrapping_args() -> impl Strategy<Value = Args> + Clone {
    let stride = || {
        prop_oneof![
            2 => 1usize..8,
            3 => (1u32..64, -3i64..4).prop_map(|(e, d)| (1usize << e).wrapping_add(d as usize).max(1)),
            3 => (1usize..40, 0usize..4).prop_map(|(k, d)| (usize::MAX / k).wrapping_add(d).max(1)),
            1 => any::<usize>(),
        ]
    };
    (0usize..40, 0usize..40, stride(), stride(), any::<bool>(), sig_nz()).prop_map(|(a, b, s, t, inv, sig)| Args { a, b, s, t, inv, sig })
}
pub fn c07(r: &mut Reg) {
    const R: &str = "case = (two buffer lengths, two strides, direction, signal) pushed through every fallible entry point; the required outcome (success or one error value) is computed from the shapes alone; non-trivial: at least one call must be refused";
    r.prop("shapes", R, 4000, args(64), all);
    r.sweep("small-shapes", R, (0..12 * 12 * 4).collect(), 2, |k| (any::<bool>(), sig_nz()).prop_map(move |(inv, sig)| Args { a: k % 12, b: (k / 12) % 12, s: (k / 144) % 4, t: (k / 36) % 4, inv, sig }), all);
    r.prop("wrapping-strides", R, 4000, wrapping_args(), strided_only);
    nd_refusals(r);
}
