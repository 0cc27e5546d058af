//! C26 spectrogram scaling, C27 song index, C28 complex arithmetic.
use crate::core::*;
use crate::oracle::*;
use crate::sig::*;
use kofft::num::{self, Complex, ComplexVec, Float, SplitComplex};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---- complex arithmetic -------------------------------------------------------
/// a + b as an exact pair
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let t = s - a;
    (s, (a - (s - t)) + (b - t))
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, a.mul_add(b, -p))
}
/// a*b + c*d in about twice double precision
fn dot2(a: f64, b: f64, c: f64, d: f64) -> (f64, f64) {
    let (p, e) = two_prod(a, b);
    let (q, f) = two_prod(c, d);
    let (s, g) = two_sum(p, q);
    (s, e + f + g)
}
/// |got - (hi + lo)|
fn dist(got: f64, hi: f64, lo: f64) -> f64 {
    let (s, e) = two_sum(got, -hi);
    (s + (e - lo)).abs()
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Num {
    Bits(u64),
    Small(i32),
    Zero,
    NegZero,
    Tiny(u64),
    One,
}
fn number() -> impl Strategy<Value = Num> + Clone {
    prop_oneof![8 => any::<u64>().prop_map(Num::Bits), 3 => (-1000i32..=1000).prop_map(Num::Small), 1 => Just(Num::Zero), 1 => Just(Num::NegZero), 1 => any::<u64>().prop_map(Num::Tiny), 1 => Just(Num::One)]
}
impl Num {
    /// finite, exponents kept where products neither overflow nor underflow
    fn get<T: El>(&self, span: i32) -> T {
        match self {
            Num::Bits(s) => {
                let mut s = *s;
                let e = (splitmix(&mut s) % (2 * span as u64 + 1)) as i32 - span;
                let m = 1.0 + (splitmix(&mut s) >> 12) as f64 / (1u64 << 52) as f64;
                let sg = if splitmix(&mut s) % 2 == 0 { 1.0 } else { -1.0 };
                T::of(sg * m * 2f64.powi(e))
            }
            Num::Small(k) => T::of(*k as f64 / 8.0),
            Num::Zero => T::of(0.0),
            Num::NegZero => T::of(-0.0),
            Num::Tiny(s) => T::of((1.0 + (*s % 1000) as f64) * 2f64.powi(-span)),
            Num::One => T::of(1.0),
        }
    }
}
type Four = (Num, Num, Num, Num);
fn arith<T: El>(c: &Four) -> Res {
    let span = if T::NAME == "f32" { 50 } else { 400 };
    let (a, b) = (Cx::<T>::new(c.0.get(span), c.1.get(span)), Cx::<T>::new(c.2.get(span), c.3.get(span)));
    let (ar, ai, br, bi) = (a.re.f(), a.im.f(), b.re.f(), b.im.f());
    let u = T::EPS / 2.0;
    let mut ratio = 0f64;
    let b1 = |what: &str, g: T, hi: f64, lo: f64, bound: f64| -> Result<f64, String> {
        let d = dist(g.f(), hi, lo);
        ensure!(g.f().is_finite() && d <= bound, "{what} of {:?} and {:?} in {}: {} is off by {d:.3e}, allowed {bound:.3e}", a, b, T::NAME, g.f());
        Ok(if bound > 0.0 { d / bound } else { 0.0 })
    };
    let eq = |what: &str, p: Cx<T>, q: Cx<T>| -> Result<(), String> {
        ensure!(bits(&[p]) == bits(&[q]), "{what} of {a:?} and {b:?}: {p:?} instead of {q:?}");
        Ok(())
    };
    let s = a.add(b);
    let (h, l) = two_sum(ar, br);
    ratio = ratio.max(b1("re of the sum", s.re, h, l, u * (h + l).abs())?);
    let (h, l) = two_sum(ai, bi);
    ratio = ratio.max(b1("im of the sum", s.im, h, l, u * (h + l).abs())?);
    eq("+", a + b, s)?;
    let d = a.sub(b);
    let (h, l) = two_sum(ar, -br);
    ratio = ratio.max(b1("re of the difference", d.re, h, l, u * (h + l).abs())?);
    let (h, l) = two_sum(ai, -bi);
    ratio = ratio.max(b1("im of the difference", d.im, h, l, u * (h + l).abs())?);
    eq("-", a - b, d)?;
    eq("negation", -a, Cx::new(T::of(-ar), T::of(-ai)))?;
    let p = a.mul(b);
    // at most one rounding for each product and one for the sum
    let (h, l) = dot2(ar, br, -ai, bi);
    let den = if T::NAME == "f32" { 2f64.powi(-148) } else { 2f64.powi(-1072) };
    ratio = ratio.max(b1("re of the product", p.re, h, l, u * 1.000001 * ((ar * br).abs() + (ai * bi).abs() + h.abs()) + den)?);
    let (h, l) = dot2(ar, bi, ai, br);
    ratio = ratio.max(b1("im of the product", p.im, h, l, u * 1.000001 * ((ar * bi).abs() + (ai * br).abs() + h.abs()) + den)?);
    eq("*", a * b, p)?;
    eq("one times", Cx::new(T::one(), T::zero()) + Cx::zero(), Cx::new(T::of(1.0), T::of(0.0)))?;
    // scalar helpers of the element type
    let (x, y, z) = (a.re, b.re, a.im);
    let (h, l) = dot2(x.f(), y.f(), 1.0, z.f());
    ratio = ratio.max(b1("mul_add", Float::mul_add(x, y, z), h, l, u * 1.000001 * ((x.f() * y.f()).abs() + h.abs()) + den)?);
    ensure!(T::from_f64(ar).f() == ar && T::from_f32(0.15625).f() == 0.15625 && T::pi().f() == T::of(std::f64::consts::PI).f(), "constants or conversions of {}", T::NAME);
    let nz = [c.0, c.1, c.2, c.3].iter().filter(|n| matches!(n, Num::Bits(_) | Num::Small(_))).count();
    Ok(if nz >= 3 { nt(T::NAME) } else { triv("mostly special values") }.r(ratio))
}
fn expi<T: El>(theta: &f64) -> Res {
    let t = T::of(*theta);
    let z = Complex::<T>::expi(t);
    let th = t.f();
    let tol = 2.0 * T::EPS;
    let (c, s) = (z.re.f(), z.im.f());
    ensure!((c - th.cos()).abs() <= tol && (s - th.sin()).abs() <= tol, "expi({th}) in {} is ({c}, {s})", T::NAME);
    ensure!((c * c + s * s - 1.0).abs() <= 4.0 * T::EPS, "expi({th}) in {} has modulus {}", T::NAME, c.hypot(s));
    let (sn, cs) = Float::sin_cos(t);
    ensure!((Float::cos(t).f() - th.cos()).abs() <= tol && (Float::sin(t).f() - th.sin()).abs() <= tol && (sn.f() - th.sin()).abs() <= tol && (cs.f() - th.cos()).abs() <= tol, "sin/cos/sin_cos of {th} in {}", T::NAME);
    Ok(if th != 0.0 { nt(T::NAME) } else { triv("zero angle") })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Store {
    n: usize,
    seed: u64,
}
fn any_bits<T: El>(s: &mut u64) -> T {
    // any finite bit pattern plus infinities and negative zero
    let k = splitmix(s);
    match k % 16 {
        0 => T::of(-0.0),
        1 => T::of(f64::INFINITY),
        2 => T::of(f64::NEG_INFINITY),
        3 => T::of(f32::MIN_POSITIVE as f64 / 1024.0),
        _ => T::of((f32::from_bits((splitmix(s) as u32) & 0xBF7F_FFFF)) as f64),
    }
}
fn storage<T: El>(c: &Store) -> Res {
    let mut s = c.seed;
    let v: Vec<Cx<T>> = (0..c.n).map(|_| Cx::new(any_bits(&mut s), any_bits(&mut s))).collect();
    let (mut re, mut im) = (vec![T::of(7.0); c.n], vec![T::of(7.0); c.n]);
    no_panic("copy_from_complex", || num::copy_from_complex(&v, &mut re, &mut im))?;
    ensure!((0..c.n).all(|i| re[i].f().to_bits() == v[i].re.f().to_bits() && im[i].f().to_bits() == v[i].im.f().to_bits()), "copy_from_complex of {} values is not lossless", c.n);
    let mut back = vec![Cx::new(T::of(3.0), T::of(3.0)); c.n];
    no_panic("copy_to_complex", || num::copy_to_complex(&re, &im, &mut back))?;
    ensure!(bits(&back) == bits(&v), "copy_to_complex of {} values is not lossless", c.n);
    let (mut re2, mut im2) = (vec![T::of(7.0); c.n], vec![T::of(7.0); c.n]);
    let sp = SplitComplex::copy_from_complex(&v, &mut re2, &mut im2);
    ensure!(sp.len() == c.n && sp.is_empty() == (c.n == 0), "SplitComplex length");
    let mut back = vec![Cx::new(T::of(3.0), T::of(3.0)); c.n];
    sp.copy_to_complex(&mut back);
    ensure!(bits(&back) == bits(&v), "SplitComplex round trip of {} values", c.n);
    let sp = SplitComplex::new(&mut re, &mut im);
    ensure!(sp.len() == c.n, "SplitComplex::new length");
    Ok(if c.n > 1 { nt(T::NAME) } else { triv("at most one element") })
}
fn complexvec(c: &Store) -> Res {
    let mut s = c.seed;
    let v: Vec<Cx<f32>> = (0..c.n).map(|_| Cx::new(any_bits(&mut s), any_bits(&mut s))).collect();
    let a = ComplexVec::from_complex_vec(&v);
    let b = ComplexVec::from(v.clone());
    ensure!(a.len() == c.n && a.is_empty() == (c.n == 0) && b.len() == c.n, "ComplexVec length");
    let t = |x: &ComplexVec| -> Vec<u64> { rbits(&x.re).into_iter().chain(rbits(&x.im)).collect() };
    ensure!(t(&a) == t(&b), "ComplexVec::from and from_complex_vec differ");
    ensure!((0..c.n).all(|i| a.re[i].to_bits() == v[i].re.to_bits() && a.im[i].to_bits() == v[i].im.to_bits()), "ComplexVec is not lossless");
    ensure!(bits(&a.to_complex_vec()) == bits(&v), "to_complex_vec is not lossless");
    let (p, q) = a.as_slices();
    ensure!(rbits(p) == rbits(&a.re) && rbits(q) == rbits(&a.im), "as_slices");
    let mut m = ComplexVec::new(a.re.clone(), a.im.clone());
    {
        let (p, q) = m.as_mut_slices();
        for i in 0..c.n {
            std::mem::swap(&mut p[i], &mut q[i]);
        }
    }
    let w: Vec<Cx<f32>> = m.into();
    ensure!((0..c.n).all(|i| w[i].re.to_bits() == v[i].im.to_bits() && w[i].im.to_bits() == v[i].re.to_bits()), "as_mut_slices / into Vec");
    let u: Vec<Cx<f32>> = b.into();
    ensure!(bits(&u) == bits(&v), "ComplexVec into Vec is not lossless");
    Ok(if c.n > 1 { nt("ComplexVec") } else { triv("at most one element") })
}
pub fn c28(r: &mut Reg) {
    let four = || (number(), number(), number(), number());
    r.prop("arithmetic-f32", "three or more operands that are not special values", 60_000, four(), arith::<f32>);
    r.prop("arithmetic-f64", "three or more operands that are not special values", 60_000, four(), arith::<f64>);
    let ang = || prop_oneof![6 => -7f64..=7.0, 2 => -1000f64..=1000.0, 2 => (-64i32..=64, 1i32..=64).prop_map(|(p, q)| std::f64::consts::PI * p as f64 / q as f64), 1 => (-60f64..=-1.0).prop_map(|e| 2f64.powf(e)), 1 => Just(0.0), 1 => -1e9f64..=1e9];
    r.prop("expi-f32", "angle not zero", 40_000, ang(), expi::<f32>);
    r.prop("expi-f64", "angle not zero", 40_000, ang(), expi::<f64>);
    let st = || (prop_oneof![4 => 0usize..=64, 1 => 0usize..=2000], any::<u64>()).prop_map(|(n, seed)| Store { n, seed });
    let long = || (prop_oneof![2000usize..=20_000, 65_000usize..=140_000], any::<u64>()).prop_map(|(n, seed)| Store { n, seed });
    r.prop("storage-f32", "two or more elements", 2000, st(), storage::<f32>);
    r.prop("storage-f64", "two or more elements", 2000, st(), storage::<f64>);
    r.prop("storage-long", "two or more elements", 6, long(), storage::<f32>);
    r.prop("complexvec-long", "two or more elements", 6, long(), complexvec);
    r.prop("complexvec", "two or more elements", 2000, st(), complexvec);
}

#[cfg(feature = "k-std")]
pub use with_std::{c26, c27};

#[cfg(feature = "k-std")]
mod with_std {
    use super::*;
    use kofft::fft::FftError;
    use kofft::visual::spectrogram::{self as sp, Colormap};
    use std::collections::HashMap;

    // ---- spectrogram ------------------------------------------------------------
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct MagCase {
        n: usize,
        wl: usize,
        hop: usize,
        sig: Sig,
    }
    fn mag_case() -> impl Strategy<Value = MagCase> + Clone {
        (
            prop_oneof![1 => Just(0usize), 8 => 1usize..=500],
            prop_oneof![3 => 1usize..=40, 4 => (0u32..=8).prop_map(|e| 1usize << e), 2 => 1usize..=200],
            prop_oneof![1 => Just(0usize), 3 => 1usize..=64, 6 => Just(9999usize)],
            (kind(), -12i16..=12).prop_map(|(kind, exp)| Sig { kind, exp }),
        )
            .prop_map(|(n, wl, hop, sig)| MagCase { n, wl, hop: if hop == 9999 { (wl / 2).max(1) } else { hop }, sig })
    }
    fn mags(c: &MagCase) -> Res {
        let x = c.sig.real32(c.n);
        let got = no_panic("stft_magnitudes", || sp::stft_magnitudes(&x, c.wl, c.hop))?;
        if c.hop == 0 {
            ensure!(got.as_ref().err() == Some(&FftError::InvalidHopSize), "stft_magnitudes with hop 0 returned {:?}", got.map(|g| g.1));
            return Ok(nt("refused hop"));
        }
        let (m, mx) = got.map_err(|e| format!("stft_magnitudes: {e:?}"))?;
        let frames = (c.n + c.hop - 1) / c.hop;
        ensure!(m.len() == frames, "{} magnitude frames instead of {frames}", m.len());
        let mut big = 0f32;
        let mut ratio = 0f64;
        for (f, row) in m.iter().enumerate() {
            ensure!(row.len() == c.wl / 2, "magnitude frame {f} has {} bins instead of {}", row.len(), c.wl / 2);
            let seg: Vec<C> = (0..c.wl)
                .map(|i| {
                    let p = f * c.hop + i;
                    let w = 0.5 - 0.5 * (2.0 * std::f64::consts::PI * i as f64 / c.wl as f64).cos();
                    (if p < c.n { x[p] as f64 * w } else { 0.0 }, 0.0)
                })
                .collect();
            let sc: f64 = (0..c.wl).map(|i| if f * c.hop + i < c.n { (x[f * c.hop + i] as f64).powi(2) } else { 0.0 }).sum::<f64>().sqrt();
            let spec = dft(&seg);
            // windows are single precision (absolute error ~1e-6), then the FFT's rounding
            let tol = (sc * 2e-6 + norm(&seg) * tol_fft::<f32>(c.wl)) * (c.wl as f64).sqrt() + 1e-18;
            for (k, g) in row.iter().enumerate() {
                let w = spec[k].0.hypot(spec[k].1);
                let d = (*g as f64 - w).abs();
                ensure!(g.is_finite() && *g >= 0.0 && d <= tol, "frame {f} bin {k}: magnitude {g} instead of {w} (n={} win={} hop={})", c.n, c.wl, c.hop);
                ratio = ratio.max(d / tol);
                big = big.max(*g);
            }
        }
        ensure!(mx == big, "reported maximum {mx}, largest magnitude {big}");
        Ok(if frames > 1 && c.wl > 3 && !c.sig.trivial() { nt("frames") } else { triv("at most one frame, tiny window or silence") }.r(ratio))
    }
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Db {
        mags: Vec<f32>,
        max: f32,
        range: f32,
    }
    fn db_case() -> impl Strategy<Value = Db> + Clone {
        let mag = || prop_oneof![1 => Just(0f32), 6 => (-12f32..=0.2).prop_map(|e| 10f32.powf(e)), 1 => Just(1f32), 1 => -1f32..=0.0, 1 => (-44f32..=0.0).prop_map(|e| 10f32.powf(e))];
        (proptest::collection::vec(mag(), 2..12), prop_oneof![3 => Just(1f32), 4 => (-6f32..=6.0).prop_map(|e| 10f32.powf(e)), 1 => Just(0f32), 1 => Just(1e-30f32), 1 => Just(1e30f32)], prop_oneof![4 => 1f32..=200.0, 1 => 0.001f32..=1.0, 1 => 200f32..=5000.0, 2 => Just(120f32)])
            .prop_map(|(rel, max, range)| Db { mags: rel.into_iter().map(|r| if max > 0.0 { r * max } else { r }).collect(), max, range })
    }
    fn db(c: &Db) -> Res {
        let mut m = c.mags.clone();
        m.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let floor = -c.range;
        // single-precision rounding of the decibel value (up to ~900 dB) and of the range
        let db_tol = |e: f64| 6e-5 + 3e-7 * e.abs().min(1000.0);
        let slack = db_tol(c.range as f64) / c.range as f64 + 1e-6;
        let (mut last_t, mut last_db) = (f32::NEG_INFINITY, f32::NEG_INFINITY);
        let mut used = 0;
        for &v in &m {
            let t = no_panic("db_scale", || sp::db_scale(v, c.max, c.range))?;
            let d = no_panic("magnitude_to_db", || sp::magnitude_to_db(v, c.max, floor))?;
            ensure!((0.0..=1.0).contains(&t), "db_scale({v}, {}, {}) = {t} is outside 0..=1", c.max, c.range);
            ensure!(d.is_finite() && d >= floor, "magnitude_to_db({v}, {}, {floor}) = {d} is below the floor", c.max);
            ensure!(t as f64 >= last_t as f64 - slack, "db_scale falls from {last_t} to {t} at {v}");
            ensure!(d as f64 >= last_db as f64 - db_tol(last_db as f64).min(1.0), "magnitude_to_db falls from {last_db} to {d} at {v}");
            (last_t, last_db) = (t, d);
            if c.max > 0.0 && v > 0.0 {
                let q = v / c.max;
                let e = 20.0 * (q as f64).log10();
                let wd = e.max(floor as f64);
                ensure!((d as f64 - wd).abs() <= db_tol(wd), "magnitude_to_db({v}, {}, {floor}) = {d} instead of {wd}", c.max);
                let wt = ((e.max(-200.0) + c.range as f64) / c.range as f64).clamp(0.0, 1.0);
                ensure!((t as f64 - wt).abs() <= slack, "db_scale({v}, {}, {}) = {t} instead of {wt}", c.max, c.range);
                used += 1;
            } else if v <= 0.0 {
                ensure!(d == floor, "magnitude_to_db({v}, {}, {floor}) = {d}, a silent bin is at the floor", c.max);
                if c.range < 199.0 {
                    ensure!(t == 0.0, "db_scale({v}, {}, {}) = {t}, a silent bin is at 0", c.max, c.range);
                }
            } else {
                ensure!(d == floor, "magnitude_to_db({v}, {}, {floor}) = {d} without a reference maximum", c.max);
            }
        }
        if c.max > 0.0 {
            ensure!(sp::db_scale(c.max, c.max, c.range) == 1.0, "the peak does not map to 1");
            ensure!(sp::magnitude_to_db(c.max, c.max, floor) == 0.0, "the peak is not 0 dB");
        }
        Ok(if used > 1 { nt("scaled") } else { triv("no positive magnitude or maximum") })
    }
    const MAPS: [(&str, Colormap); 7] = [
        ("fire", Colormap::Fire),
        ("legacy", Colormap::Legacy),
        ("gray", Colormap::Gray),
        ("viridis", Colormap::Viridis),
        ("plasma", Colormap::Plasma),
        ("inferno", Colormap::Inferno),
        ("rainbow", Colormap::Rainbow),
    ];
    fn stops(t: f64, s: &[(f64, [f64; 3])]) -> [f64; 3] {
        for w in s.windows(2) {
            if t <= w[1].0 {
                let l = (t - w[0].0) / (w[1].0 - w[0].0);
                return [0, 1, 2].map(|k| w[0].1[k] + (w[1].1[k] - w[0].1[k]) * l);
            }
        }
        s[s.len() - 1].1
    }
    fn colour_ref(t: f64, m: usize) -> [f64; 3] {
        let t = t.clamp(0.0, 1.0);
        let c = |c: colorous::Color| [c.r as f64, c.g as f64, c.b as f64];
        match m {
            0 => stops(t, &[(0.0, [0.0; 3]), (0.25, [128.0, 0.0, 128.0]), (0.5, [255.0, 165.0, 0.0]), (0.75, [255.0, 255.0, 0.0]), (1.0, [255.0; 3])]),
            1 => [64.0 + 191.0 * t, 255.0 * t, 64.0 + 160.0 * t],
            2 => [255.0 * t; 3],
            3 => c(colorous::VIRIDIS.eval_continuous(t)),
            4 => c(colorous::PLASMA.eval_continuous(t)),
            5 => c(colorous::INFERNO.eval_continuous(t)),
            _ => stops(t, &[(0.0, [0.0; 3]), (0.25, [0.0, 0.0, 255.0]), (0.5, [0.0, 255.0, 255.0]), (0.75, [255.0, 255.0, 0.0]), (0.9, [255.0, 0.0, 0.0]), (1.0, [255.0; 3])]),
        }
    }
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Col {
        t: f32,
        map: usize,
        mag: f32,
        max: f32,
        range: f32,
        name: u64,
    }
    fn col_case() -> impl Strategy<Value = Col> + Clone {
        let t = prop_oneof![6 => 0f32..=1.0, 2 => (0u8..=40).prop_map(|k| k as f32 / 40.0), 1 => -3f32..=4.0, 1 => (0u8..=255).prop_map(|k| k as f32 / 255.0), 1 => prop::sample::select(vec![f32::INFINITY, f32::NEG_INFINITY, -0.0, 1.0, 0.0, 1e-40, 0.99999994])];
        (t, 0usize..7, prop_oneof![(-8f32..=0.1).prop_map(|e| 10f32.powf(e)), Just(0f32), Just(1f32)], prop_oneof![4 => (-3f32..=3.0).prop_map(|e| 10f32.powf(e)), 1 => Just(0f32)], 1f32..=180.0, any::<u64>()).prop_map(|(t, map, rel, max, range, name)| Col { t, map, mag: if max > 0.0 { rel * max } else { rel }, max, range, name })
    }
    fn colour(c: &Col) -> Res {
        let (nm, cm) = MAPS[c.map];
        let g = no_panic("map_color_u8", || sp::map_color_u8(c.t, cm))?;
        let want = colour_ref(c.t as f64, c.map);
        for k in 0..3 {
            ensure!((g[k] as f64 - want[k]).abs() <= 1.001, "{nm} colour of {} is {g:?} instead of {want:?}", c.t);
        }
        // the ends of the range are exact
        for (t, e) in [(0f32, "lowest"), (1.0, "highest")] {
            let (g, w) = (sp::map_color_u8(t, cm), colour_ref(t as f64, c.map));
            ensure!([0, 1, 2].iter().all(|&k| g[k] as f64 == w[k]), "{nm}: the {e} colour is {g:?} instead of {w:?}");
            ensure!(sp::map_color_u8(if t > 0.0 { 7.5 } else { -2.0 }, cm) == g, "{nm}: positions beyond the range do not take the {e} colour");
        }
        let wide = |v: [u8; 3]| v.map(|b| b as u16 * 257);
        let h = no_panic("map_color_u16", || sp::map_color_u16(c.t, cm))?;
        ensure!(h == wide(g), "{nm} 16-bit colour of {} is {h:?}, 8-bit is {g:?}", c.t);
        // magnitude -> colour
        let floor = -c.range;
        let a = no_panic("color_from_magnitude_u8", || sp::color_from_magnitude_u8(c.mag, c.max, floor, cm))?;
        let b = no_panic("color_from_magnitude_u16", || sp::color_from_magnitude_u16(c.mag, c.max, floor, cm))?;
        ensure!(b == wide(a), "{nm} 16-bit colour of magnitude {} is {b:?}, 8-bit is {a:?}", c.mag);
        let t = if c.mag > 0.0 && c.max > 0.0 { ((20.0 * (c.mag as f64 / c.max as f64).log10()).max(floor as f64) + c.range as f64) / c.range as f64 } else { 0.0 };
        // the position is rounded: allow the colours reachable within that rounding
        let e = (6e-5 + 3e-7 * (c.range as f64).min(1000.0)) / c.range as f64 + 1e-6;
        for k in 0..3 {
            let cand: Vec<f64> = [-e, 0.0, e].iter().map(|d| colour_ref(t + d, c.map)[k]).collect();
            let (lo, hi) = cand.iter().fold((f64::MAX, f64::MIN), |m, v| (m.0.min(*v), m.1.max(*v)));
            ensure!(a[k] as f64 >= lo - 1.001 && a[k] as f64 <= hi + 1.001, "{nm} colour of magnitude {} (max {}, floor {floor}) is {a:?} instead of {:?}", c.mag, c.max, colour_ref(t, c.map));
        }
        // command-line names, in any case
        let mut s = c.name;
        let name: String = nm.chars().map(|ch| if splitmix(&mut s) % 2 == 0 { ch.to_ascii_uppercase() } else { ch }).collect();
        ensure!(Colormap::parse(&name) == cm, "Colormap::parse({name:?}) is {:?}", Colormap::parse(&name));
        ensure!(Colormap::parse(&format!("{name}x")) == Colormap::Fire, "unknown names fall back to fire");
        Ok(if c.t > 0.0 && c.t < 1.0 { nt(nm) } else { triv("end of the range") })
    }
    fn monotone(c: &Col) -> Res {
        // lightness of the sequential maps never falls along the range
        let (nm, cm) = MAPS[c.map];
        let lum = |t: f32| { let g = sp::map_color_u8(t, cm); 0.2126 * g[0] as f64 + 0.7152 * g[1] as f64 + 0.0722 * g[2] as f64 };
        let (a, b) = (c.t.clamp(0.0, 1.0), (c.mag.clamp(0.0, 1.0)));
        let (a, b) = (a.min(b), a.max(b));
        if matches!(cm, Colormap::Fire | Colormap::Rainbow) {
            return Ok(triv("not a sequential lightness map"));
        }
        ensure!(lum(a) <= lum(b) + 3.0, "{nm} gets darker from {a} to {b}");
        Ok(if b > a { nt(nm) } else { triv("equal positions") })
    }
    fn bins(max: &usize) -> Res {
        let max = *max;
        let mut last = 0;
        for b in 0..=max {
            let p = no_panic("map_bin_to_pixel", || sp::map_bin_to_pixel(b, max))?;
            ensure!(p <= max, "bin {b} of {max} maps to pixel {p}");
            ensure!(p >= last, "bin {b} of {max} maps to {p}, below its predecessor's {last}");
            if max > 0 {
                let x = max as f64 * (b as f64 + 1.0).ln() / (max as f64 + 1.0).ln();
                let t = 1e-6 * (x + 1.0);
                ensure!(p as f64 <= x + t && p as f64 + 1.0 >= x - t, "bin {b} of {max} maps to {p} instead of {x}");
            }
            last = p;
        }
        ensure!(sp::map_bin_to_pixel(0, max) == 0, "bin 0 of {max} does not map to pixel 0");
        ensure!(last == max, "the last bin of {max} maps to pixel {last}, not to the end");
        Ok(if max > 1 { nt("mapping") } else { triv("degenerate") })
    }
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct LogBins {
        max: usize,
        n: usize,
        sig: Sig,
    }
    fn logbins(c: &LogBins) -> Res {
        let n = c.n.min(c.max + 1);
        let v = c.sig.real32(n);
        let got = no_panic("log_scale_bins", || sp::log_scale_bins(&v, c.max))?;
        ensure!(got.len() == c.max + 1, "log_scale_bins returned {} pixels instead of {}", got.len(), c.max + 1);
        let mut acc = vec![(0f64, 0u32, 0f64); c.max + 1];
        for (b, x) in v.iter().enumerate() {
            let p = sp::map_bin_to_pixel(b, c.max);
            acc[p].0 += *x as f64;
            acc[p].1 += 1;
            acc[p].2 += x.abs() as f64;
        }
        for (p, (s, k, a)) in acc.iter().enumerate() {
            let want = if *k > 0 { s / *k as f64 } else { 0.0 };
            let tol = f32::EPSILON as f64 * (a * 1.5 + want.abs()) + 1e-42;
            ensure!((got[p] as f64 - want).abs() <= tol, "pixel {p} is {} instead of the mean {want} of its {k} bins", got[p]);
        }
        Ok(if n > 2 && !c.sig.trivial() { nt("averaged") } else { triv("tiny or silent") })
    }
    pub fn c26(r: &mut Reg) {
        r.prop("magnitudes", "two or more frames, window above 3, not silent (or refused hop)", 1500, mag_case(), mags);
        r.prop("magnitudes-long", "two or more frames, window above 3, not silent (or refused hop)", 30, mag_case().prop_map(|mut c| { c.n *= 40; c.wl *= 4; c.hop *= 4; c }), mags);
        r.prop("decibels", "two or more positive magnitudes under a positive maximum", 10_000, db_case(), db);
        r.prop("colours", "position inside the range", 30_000, col_case(), colour);
        r.prop("lightness", "two different positions of a sequential map", 10_000, col_case(), monotone);
        let top = if r.thorough { 3000 } else { 1100 };
        r.sweep("log-bins-each-size", "two or more bins", (0..=top).collect(), 1, |n| Just(n), bins);
        r.prop("log-bins-large", "two or more bins", 60, prop_oneof![1000usize..=40_000, (10u32..=15).prop_map(|e| 1usize << e), (10u32..=15).prop_map(|e| (1usize << e) - 1)], bins);
        r.prop("log-average", "three or more bins, not silent", 3000, (0usize..=600, 0usize..=601, sig()).prop_map(|(max, n, sig)| LogBins { max, n, sig }), logbins);
    }

    // ---- song index ---------------------------------------------------------------
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub enum Op {
        /// write content `c` to file slot `f`
        Write(u8, u8),
        Delete(u8),
        Rename(u8, u8),
        Copy(u8, u8),
        Index(u8),
        Identify(u8),
        /// ask about the same file through another spelling of its path
        IdentifyDotted(u8),
        Mkdir(u8),
        Symlink(u8, u8),
    }
    fn op() -> impl Strategy<Value = Op> + Clone {
        let f = || 0u8..12;
        let c = prop_oneof![16 => 0u8..16, 3 => 16u8..20];
        prop_oneof![
            6 => (f(), c).prop_map(|(f, c)| Op::Write(f, c)),
            2 => f().prop_map(Op::Delete),
            2 => (f(), f()).prop_map(|(a, b)| Op::Rename(a, b)),
            2 => (f(), f()).prop_map(|(a, b)| Op::Copy(a, b)),
            5 => f().prop_map(Op::Index),
            8 => f().prop_map(Op::Identify),
            1 => f().prop_map(Op::IdentifyDotted),
            1 => f().prop_map(Op::Mkdir),
            1 => (f(), f()).prop_map(|(a, b)| Op::Symlink(a, b)),
        ]
    }
    /// contents around the hashing buffer size, sharing prefixes, differing in one byte
    fn content(c: u8) -> Vec<u8> {
        let base = |n: usize| -> Vec<u8> { (0..n).map(|i| (i * 31 % 251) as u8).collect() };
        match c {
            0 => vec![],
            1 => vec![0],
            2 => vec![0, 0],
            3 => b"song".to_vec(),
            4 => b"sonh".to_vec(),
            5 => base(8191),
            6 => base(8192),
            7 => base(8193),
            8 => {
                let mut v = base(8193);
                v[8192] ^= 1;
                v
            }
            9 => {
                let mut v = base(8192);
                v[0] ^= 1;
                v
            }
            10 => base(16384),
            11 => {
                let mut v = base(16384);
                v[8192] ^= 0x80;
                v
            }
            12 => base(20000),
            13 => {
                let mut v = base(20000);
                v[19999] ^= 1;
                v
            }
            14 => {
                let mut v = base(20000);
                v.swap(5000, 15001);
                v
            }
            16 | 17 => {
                let mut v = base(200_000);
                v[150_000] ^= (c == 17) as u8;
                v
            }
            18 | 19 => {
                let mut v = base(1_500_000);
                v[1_200_000] ^= (c == 19) as u8;
                v
            }
            _ => vec![0; 8192],
        }
    }
    /// two directories, repeated names, unicode, non-UTF-8, upper case
    fn slot(dir: &std::path::Path, f: u8) -> std::path::PathBuf {
        use std::os::unix::ffi::OsStrExt;
        match f {
            0 => dir.join("a/song.wav"),
            1 => dir.join("b/song.wav"),
            2 => dir.join("a/Song.wav"),
            3 => dir.join("b/other.flac"),
            4 => dir.join("a/other.flac"),
            5 => dir.join("a/ünï çødé.mp3"),
            6 => dir.join("a").join(std::ffi::OsStr::from_bytes(b"bad\xff.wav")),
            7 => dir.join("b").join(std::ffi::OsStr::from_bytes(b"bad\xff.wav")),
            8 => dir.join("b/song"),
            9 => dir.join("a/song.wav.bak"),
            10 => dir.join("a/x"),
            _ => dir.join("b").join(std::ffi::OsStr::from_bytes(b"\xfe")),
        }
    }
    static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    struct Scratch(std::path::PathBuf);
    impl Drop for Scratch {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    fn index(ops: &Vec<Op>) -> Res {
        use kofft::media::index::{SongId, SongIndex};
        let k = COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let dir = std::env::temp_dir().join(format!("vpk-idx-{}-{k}", std::process::id()));
        std::fs::create_dir_all(dir.join("a")).map_err(|e| e.to_string())?;
        std::fs::create_dir_all(dir.join("b")).map_err(|e| e.to_string())?;
        let _guard = Scratch(dir.clone());
        let mut idx = SongIndex::new();
        // model: identities are numbered by first appearance of their path
        let mut by_name: HashMap<String, usize> = HashMap::new();
        let mut by_data: HashMap<Vec<u8>, usize> = HashMap::new();
        let mut paths: Vec<std::path::PathBuf> = vec![];
        let mut seen: Vec<(SongId, usize)> = vec![];
        let id_of = |p: &std::path::Path, paths: &mut Vec<std::path::PathBuf>| -> usize {
            match paths.iter().position(|q| q.as_os_str() == p.as_os_str()) {
                Some(i) => i,
                None => {
                    paths.push(p.to_path_buf());
                    paths.len() - 1
                }
            }
        };
        let (mut hits, mut stale) = (0, 0);
        for (step, o) in ops.iter().enumerate() {
            let p = |f: &u8| slot(&dir, *f);
            match o {
                Op::Write(f, c) => {
                    let _ = std::fs::write(p(f), content(*c));
                }
                Op::Delete(f) => {
                    if p(f).is_dir() {
                        let _ = std::fs::remove_dir(p(f));
                    } else {
                        let _ = std::fs::remove_file(p(f));
                    }
                }
                Op::Rename(a, b) => {
                    let _ = std::fs::rename(p(a), p(b));
                }
                Op::Copy(a, b) => {
                    if a != b {
                        let _ = std::fs::copy(p(a), p(b));
                    }
                }
                Op::Mkdir(f) => {
                    let _ = std::fs::create_dir(p(f));
                }
                Op::Symlink(a, b) => {
                    let _ = std::os::unix::fs::symlink(p(a), p(b));
                }
                Op::Index(f) | Op::Identify(f) | Op::IdentifyDotted(f) => {
                    let mut path = p(f);
                    if let Op::IdentifyDotted(_) = o {
                        path = path.parent().unwrap().join("../a/../b/.").join("../").join(path.parent().unwrap().file_name().unwrap()).join(path.file_name().unwrap());
                    }
                    let data = std::fs::read(&path).ok();
                    let name = path.file_name().and_then(|s| s.to_str()).map(|s| s.to_string());
                    let (got, want) = if let Op::Index(_) = o {
                        let g = no_panic("index_song", || idx.index_song(&path))?;
                        let w = data.map(|d| {
                            let id = id_of(&path, &mut paths);
                            if let Some(n) = &name {
                                by_name.insert(n.clone(), id);
                            }
                            by_data.insert(d, id);
                            id
                        });
                        (g, w)
                    } else {
                        let g = no_panic("identify", || idx.identify(&path))?;
                        let known = name.as_ref().and_then(|n| by_name.get(n)).copied();
                        let w = match known {
                            Some(id) => {
                                hits += 1;
                                stale += (data.as_ref().and_then(|d| by_data.get(d)) != Some(&id)) as usize;
                                Some(id)
                            }
                            None => data.map(|d| match by_data.get(&d) {
                                Some(id) => {
                                    hits += 1;
                                    *id
                                }
                                None => {
                                    let id = id_of(&path, &mut paths);
                                    if let Some(n) = &name {
                                        by_name.insert(n.clone(), id);
                                    }
                                    by_data.insert(d, id);
                                    id
                                }
                            }),
                        };
                        (g, w)
                    };
                    match (got, want) {
                        (Ok(id), Some(w)) => {
                            for (other, m) in &seen {
                                ensure!((*other == id) == (*m == w), "step {step} {o:?}: the identity returned {} that of an earlier answer, the index says otherwise", if *other == id { "equals" } else { "differs from" });
                            }
                            seen.push((id, w));
                        }
                        (Err(_), None) => {}
                        (Ok(_), None) => return Err(format!("step {step} {o:?}: an identity for a file that cannot be read")),
                        (Err(e), Some(_)) => return Err(format!("step {step} {o:?}: error {e} for a file the index knows or can read")),
                    }
                }
            }
        }
        Ok(if hits > 1 { nt(if stale > 0 { "remembered name with other content" } else { "matches" }) } else { triv("fewer than two matches") })
    }
    pub fn c27(r: &mut Reg) {
        r.prop("histories", "two or more identifications answered from the index", 600, proptest::collection::vec(op(), 8..60), index);
        r.prop("long-histories", "two or more identifications answered from the index", 60, proptest::collection::vec(op(), 60..200), index);
    }
}
