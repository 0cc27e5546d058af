//! C20/C21 wavelets, C22 windows, C23 Hilbert, C24 cepstrum/MFCC, C25 CZT/Goertzel.
use crate::core::*;
use crate::oracle::*;
use crate::sig::*;
use kofft::fft::FftError;
use kofft::{wavelet as wv, window as wn, window_more as wm};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

const U: f64 = f32::EPSILON as f64 / 2.0;
type Pair = (Vec<f32>, Vec<f32>);

/// `scale`: size of the data both were computed from
fn same(what: &str, a: &[f32], b: &[f32], scale: f64) -> Result<(), String> {
    // two ways to the same values: a different order of operations may round differently
    let tol = 16.0 * f32::EPSILON as f64 * scale.max(maxabs(a)).max(maxabs(b)) + 1e-43;
    let eq = a.len() == b.len() && a.iter().zip(b).all(|(p, q)| p.to_bits() == q.to_bits() || (*p as f64 - *q as f64).abs() <= tol);
    ensure!(eq, "{what}: {:?} instead of {:?}", short(a), short(b));
    Ok(())
}
fn same_levels(what: &str, a: &[Vec<f32>], b: &[Vec<f32>], scale: f64) -> Result<(), String> {
    ensure!(a.len() == b.len(), "{what}: {} levels instead of {}", a.len(), b.len());
    a.iter().zip(b).enumerate().try_for_each(|(k, (p, q))| same(&format!("{what}, level {k}"), p, q, scale))
}
fn short(a: &[f32]) -> Vec<f32> {
    a.iter().take(12).copied().collect()
}
fn near(what: &str, got: &[f32], want: &[f64], tol: f64) -> Result<f64, String> {
    ensure!(got.len() == want.len(), "{what}: {} values instead of {}", got.len(), want.len());
    let mut r = 0f64;
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let d = (*g as f64 - w).abs();
        ensure!(d <= tol && g.is_finite(), "{what}: element {i} is {g} instead of {w} (allowed error {tol:.2e})");
        if d > 0.0 {
            r = r.max(d / tol);
        }
    }
    Ok(r)
}
fn maxabs(x: &[f32]) -> f64 {
    x.iter().fold(0.0, |m, v| m.max(v.abs() as f64))
}

// ---- Haar -------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lv {
    n: usize,
    levels: usize,
    sig: Sig,
}
fn lv(max: usize, lmax: usize) -> impl Strategy<Value = Lv> + Clone {
    (prop_oneof![1 => Just(0usize), 6 => 1..=40usize.min(max), 4 => 1..=max], 0..=lmax, sig()).prop_map(|(n, levels, sig)| Lv { n, levels, sig })
}
fn haar_ref(x: &[f64]) -> (Vec<f64>, Vec<f64>) {
    x.chunks_exact(2).map(|c| ((c[0] + c[1]) / 2.0, (c[0] - c[1]) / 2.0)).unzip()
}
fn haar(c: &Lv) -> Res {
    let x = c.sig.real32(c.n);
    let m = maxabs(&x);
    let (a, d) = no_panic("haar_forward", || wv::haar_forward(&x))?;
    let (ra, rd) = haar_ref(&v64(&x));
    let tol = 2.0 * U * m + 1e-44;
    let mut r = near("haar averages", &a, &ra, tol)?.max(near("haar differences", &d, &rd, tol)?);
    let y = no_panic("haar_inverse", || wv::haar_inverse(&a, &d))?;
    r = r.max(near("haar round trip", &y, &v64(&x[..c.n / 2 * 2]), 6.0 * U * m + 1e-44)?);
    // arbitrary coefficients (not from a forward call) restore too
    let co = c.sig.real32(c.n + 7);
    let (ca, cd) = (&co[..c.n / 2], &co[7..7 + c.n / 2]);
    let z = wv::haar_inverse(ca, cd);
    let (a2, d2) = wv::haar_forward(&z);
    r = r.max(near("haar analysis of a synthesis (averages)", &a2, &v64(ca), 6.0 * U * (maxabs(ca) + maxabs(cd)) + 1e-44)?);
    r = r.max(near("haar analysis of a synthesis (differences)", &d2, &v64(cd), 6.0 * U * (maxabs(ca) + maxabs(cd)) + 1e-44)?);
    Ok(if c.n > 1 && !c.sig.trivial() { nt(if c.n % 2 == 1 { "odd" } else { "even" }) } else { triv("no pair") }.r(r))
}
/// Reference multi-level shape and values for a given single-level step.
fn levels_ref(x: &[f32], levels: usize, step: &dyn Fn(&[f32]) -> Pair) -> (Vec<f32>, Vec<Vec<f32>>) {
    let mut cur = x.to_vec();
    let mut det = vec![];
    for _ in 0..levels {
        if cur.len() % 2 == 1 {
            cur.push(*cur.last().unwrap());
        }
        let (a, d) = step(&cur);
        det.push(d);
        cur = a;
    }
    (cur, det)
}
fn haar_multi(c: &Lv) -> Res {
    let x = c.sig.real32(c.n);
    let m = maxabs(&x);
    let (a, d) = no_panic("haar_forward_multi", || wv::haar_forward_multi(&x, c.levels))?;
    let (ra, rd) = levels_ref(&x, c.levels, &|s| wv::haar_forward(s));
    same("multi-level averages", &a, &ra, maxabs(&x))?;
    ensure!(d.len() == c.levels, "{} detail levels instead of {}", d.len(), c.levels);
    for (k, (p, q)) in d.iter().zip(&rd).enumerate() {
        same(&format!("details of level {k}"), p, q, maxabs(&x))?;
    }
    let y = no_panic(&format!("haar_inverse_multi (n={} levels={})", c.n, c.levels), || wv::haar_inverse_multi(&a, &d))?;
    ensure!(y.len() >= c.n && y.len() <= c.n + 1, "{} samples restored from {} at {} levels", y.len(), c.n, c.levels);
    let r = near(&format!("multi-level round trip (n={} levels={})", c.n, c.levels), &y[..c.n], &v64(&x), (8.0 * c.levels as f64 + 1.0) * U * m + 1e-44)?;
    if c.levels > 0 && y.len() > c.n {
        near("padding", &y[c.n..], &[*x.last().unwrap() as f64], (8.0 * c.levels as f64 + 1.0) * U * m + 1e-44)?;
    }
    // generic entry points agree with the named ones
    let (ga, gd) = wv::multi_level_forward(&x, c.levels, wv::haar_forward);
    same("multi_level_forward", &ga, &a, maxabs(&x))?;
    same_levels(&format!("multi_level_forward details differ from haar_forward_multi"), &gd, &d, maxabs(&x))?;
    same("multi_level_inverse", &wv::multi_level_inverse(&a, &d, wv::haar_inverse), &y, maxabs(&x))?;
    let mut odd = false;
    let mut l = c.n;
    for k in 0..c.levels {
        odd |= l % 2 == 1 && k > 0 && l > 1;
        l = (l + 1) / 2;
    }
    Ok(if c.n > 1 && c.levels > 0 && !c.sig.trivial() { nt(if odd { "odd intermediate length" } else { "even lengths" }) } else { triv("no decomposition") }.r(r))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Items {
    items: Vec<(usize, Sig)>,
    levels: usize,
}
fn items(max: usize) -> impl Strategy<Value = Items> + Clone {
    items_upto(max, 6)
}
fn items_upto(max: usize, count: usize) -> impl Strategy<Value = Items> + Clone {
    (proptest::collection::vec((prop_oneof![1 => Just(0usize), 6 => 1..=max], sig_nz()), 0..count), 0usize..6).prop_map(|(items, levels)| Items { items, levels })
}
fn items_crowd() -> impl Strategy<Value = Items> + Clone {
    (crowd(8), 0usize..4).prop_map(|(items, levels)| Items { items, levels })
}
fn vecs(c: &Items) -> Vec<Vec<f32>> {
    c.items.iter().map(|(n, s)| s.real32(*n)).collect()
}
fn items_verdict(c: &Items) -> Verdict {
    let l: std::collections::BTreeSet<_> = c.items.iter().map(|i| i.0).collect();
    if l.len() > 1 {
        nt("mixed lengths")
    } else {
        triv("uniform or empty")
    }
}
fn haar_batch(c: &Items) -> Res {
    let xs = vecs(c);
    let (a, d) = no_panic("batch_forward", || wv::batch_forward(&xs))?;
    ensure!(a.len() == xs.len() && d.len() == xs.len(), "batch_forward returned {} and {} items for {}", a.len(), d.len(), xs.len());
    for (k, x) in xs.iter().enumerate() {
        let (p, q) = wv::haar_forward(x);
        same(&format!("batch item {k} averages"), &a[k], &p, maxabs(x))?;
        same(&format!("batch item {k} differences"), &d[k], &q, maxabs(x))?;
    }
    let y = no_panic("batch_inverse", || wv::batch_inverse(&a, &d))?;
    ensure!(y.len() == xs.len(), "batch_inverse returned {} items for {}", y.len(), xs.len());
    for k in 0..xs.len() {
        same(&format!("batch inverse item {k}"), &y[k], &wv::haar_inverse(&a[k], &d[k]), maxabs(&xs[k]))?;
    }
    let (a, d) = no_panic("multi_level_forward_batch", || wv::multi_level_forward_batch(&xs, c.levels, wv::haar_forward))?;
    ensure!(a.len() == xs.len() && d.len() == xs.len(), "multi_level_forward_batch item count");
    let y = no_panic("multi_level_inverse_batch", || wv::multi_level_inverse_batch(&a, &d, wv::haar_inverse))?;
    ensure!(y.len() == xs.len(), "multi_level_inverse_batch item count");
    for (k, x) in xs.iter().enumerate() {
        let (p, q) = wv::haar_forward_multi(x, c.levels);
        same(&format!("multi-level batch item {k}"), &a[k], &p, maxabs(x))?;
        same_levels(&format!("multi-level batch item {k}: details differ from the single form"), &d[k], &q, maxabs(x))?;
        same(&format!("multi-level batch inverse item {k}"), &y[k], &wv::haar_inverse_multi(&p, &q), maxabs(x))?;
        near(&format!("multi-level batch round trip item {k}"), &y[k][..x.len()], &v64(x), (8.0 * c.levels as f64 + 1.0) * U * maxabs(x) + 1e-44)?;
    }
    Ok(items_verdict(c))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StackCase {
    pick: usize,
    sig: Sig,
}
fn stack_case(k: usize) -> impl Strategy<Value = StackCase> + Clone {
    (0..k, sig()).prop_map(|(pick, sig)| StackCase { pick, sig })
}
fn haar_stack_n<const N: usize>(s: &Sig) -> Res {
    let x = s.real32(N);
    let arr: [f32; N] = x.clone().try_into().unwrap();
    let h = N / 2;
    let (mut a, mut d) = (vec![f32::NAN; h], vec![f32::NAN; h]);
    no_panic("haar_forward_inplace_stack", || wv::haar_forward_inplace_stack::<N>(&arr, &mut a, &mut d))?;
    let (p, q) = wv::haar_forward(&x);
    same("stack averages", &a, &p, maxabs(&x))?;
    same("stack differences", &d, &q, maxabs(&x))?;
    let mut o = vec![f32::NAN; 2 * h];
    no_panic("haar_inverse_inplace_stack", || wv::haar_inverse_inplace_stack::<N>(&a, &d, &mut o))?;
    same("stack inverse", &o, &wv::haar_inverse(&p, &q), maxabs(&x))?;
    Ok(if N > 1 && !s.trivial() { nt("stack") } else { triv("empty") })
}
macro_rules! sizes {
    ($f:ident, $c:expr, $($n:literal),*) => {{
        let fs: &[fn(&Sig) -> Res] = &[$($f::<$n>),*];
        fs[$c.pick % fs.len()](&$c.sig)
    }};
}
fn haar_stack(c: &StackCase) -> Res {
    sizes!(haar_stack_n, c, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 18, 20, 31, 32, 64, 100, 128, 256)
}
pub fn c20(r: &mut Reg) {
    r.prop("haar-single", "at least one pair, signal not silent", 4000, lv(600, 0), haar);
    r.prop("haar-multi", "at least one pair and one level, signal not silent", 4000, lv(600, 12), haar_multi);
    r.prop("haar-multi-long", "at least one pair and one level, signal not silent", 40, lv(40_000, 20), haar_multi);
    r.prop("haar-batch", "at least two different item lengths", 1500, items(60), haar_batch);
    r.prop("haar-batch-long", "at least two different item lengths", 30, items_upto(5000, 6), haar_batch);
    r.prop("haar-batch-many", "at least two different item lengths", 30, items_upto(12, 200), haar_batch);
    r.prop("haar-batch-crowd", "at least two different item lengths", 8, items_crowd(), haar_batch);
    r.prop("haar-stack", "size above 1, signal not silent", 1500, stack_case(21), haar_stack);
}

// ---- orthonormal filter banks ----------------------------------------------
struct Bank {
    name: &'static str,
    fwd: fn(&[f32]) -> Pair,
    inv: fn(&[f32], &[f32]) -> Vec<f32>,
    fwd_multi: fn(&[f32], usize) -> (Vec<f32>, Vec<Vec<f32>>),
    inv_multi: fn(&[f32], &[Vec<f32>]) -> Vec<f32>,
    lo: &'static [f64],
    hi: &'static [f64],
    /// vanishing moments of the detail filter
    moments: usize,
}
// published orthonormal filter pairs, in the order the analysis correlates with
const BANKS: &[Bank] = &[
    Bank {
        name: "db2",
        fwd: wv::db2_forward,
        inv: wv::db2_inverse,
        fwd_multi: wv::db2_forward_multi,
        inv_multi: wv::db2_inverse_multi,
        lo: &[0.48296291314469025, 0.836516303737469, 0.22414386804185735, -0.12940952255092145],
        hi: &[-0.12940952255092145, -0.22414386804185735, 0.836516303737469, -0.48296291314469025],
        moments: 2,
    },
    Bank {
        name: "db4",
        fwd: wv::db4_forward,
        inv: wv::db4_inverse,
        fwd_multi: wv::db4_forward_multi,
        inv_multi: wv::db4_inverse_multi,
        lo: &[-0.010597401784997278, 0.032883011666982945, 0.030841381835986965, -0.18703481171888114, -0.02798376941698385, 0.6308807679295904, 0.7148465705525415, 0.23037781330885523],
        hi: &[-0.23037781330885523, 0.7148465705525415, -0.6308807679295904, -0.02798376941698385, 0.18703481171888114, 0.030841381835986965, -0.032883011666982945, -0.010597401784997278],
        moments: 4,
    },
    Bank {
        name: "sym4",
        fwd: wv::sym4_forward,
        inv: wv::sym4_inverse,
        fwd_multi: wv::sym4_forward_multi,
        inv_multi: wv::sym4_inverse_multi,
        lo: &[-0.07576571478927333, -0.02963552764599851, 0.49761866763201545, 0.8037387518059161, 0.29785779560527736, -0.09921954357684722, -0.012603967262037833, 0.0322231006040427],
        hi: &[-0.0322231006040427, -0.012603967262037833, 0.09921954357684722, 0.29785779560527736, -0.8037387518059161, 0.49761866763201545, 0.02963552764599851, -0.07576571478927333],
        moments: 4,
    },
    Bank {
        name: "coif1",
        fwd: wv::coif1_forward,
        inv: wv::coif1_inverse,
        fwd_multi: wv::coif1_forward_multi,
        inv_multi: wv::coif1_inverse_multi,
        lo: &[-0.01565572813546454, -0.0727326195128539, 0.38486484686420286, 0.8525720202122554, 0.3378976624578092, -0.0727326195128539],
        hi: &[0.0727326195128539, 0.3378976624578092, -0.8525720202122554, 0.38486484686420286, 0.0727326195128539, -0.01565572813546454],
        moments: 2,
    },
];
fn mirror(x: &[f64], i: usize) -> f64 {
    // whole-sample symmetric extension past the right end
    let n = x.len();
    if n == 1 {
        return x[0];
    }
    let p = 2 * (n - 1);
    let k = i % p;
    x[if k < n { k } else { p - k }]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WvCase {
    n: usize,
    bank: usize,
    a: Sig,
    b: Sig,
    levels: usize,
}
fn wv_case(max: usize) -> impl Strategy<Value = WvCase> + Clone {
    (prop_oneof![1 => Just(0usize), 5 => 1..=40usize.min(max), 4 => 1..=max], 0..BANKS.len(), sig(), sig(), 0usize..5).prop_map(|(n, bank, a, b, levels)| WvCase { n, bank, a, b, levels })
}
fn bank_fwd(c: &WvCase) -> Res {
    let b = &BANKS[c.bank];
    let x = c.a.real32(c.n);
    let xd = v64(&x);
    let m = maxabs(&x);
    let tol = 12.0 * f32::EPSILON as f64 * m + 1e-43;
    let (a, d) = no_panic(&format!("{}_forward n={}", b.name, c.n), || (b.fwd)(&x))?;
    let h = c.n / 2;
    let corr = |f: &[f64]| -> Vec<f64> { (0..h).map(|i| f.iter().enumerate().map(|(k, w)| w * mirror(&xd, 2 * i + k)).sum()).collect() };
    let mut r = near(&format!("{} approximation n={}", b.name, c.n), &a, &corr(b.lo), tol)?;
    r = r.max(near(&format!("{} detail n={}", b.name, c.n), &d, &corr(b.hi), tol)?);
    // interior reconstruction
    let y = no_panic(&format!("{}_inverse", b.name), || (b.inv)(&a, &d))?;
    ensure!(y.len() == 2 * h, "{}_inverse gave {} samples from {h} pairs", b.name, y.len());
    let l = b.lo.len();
    let mut interior = 0;
    for i in l.saturating_sub(2)..(2 * h).saturating_sub(l) {
        interior += 1;
        let e = (y[i] as f64 - xd[i]).abs();
        ensure!(e <= 2.0 * tol, "{} round trip n={}: interior sample {i} is {} instead of {}", b.name, c.n, y[i], x[i]);
        r = r.max(e / (2.0 * tol));
    }
    // vanishing moments: constants, and polynomials below the family's order away from the right border
    let k = c.a.complex(1).first().map(|z| z.0).unwrap_or(1.0) as f32;
    let cst = vec![k; c.n];
    let (_, dc) = (b.fwd)(&cst);
    near(&format!("{} detail of a constant", b.name), &dc, &vec![0.0; h], 12.0 * f32::EPSILON as f64 * (k.abs() as f64) + 1e-43)?;
    for p in 1..b.moments {
        let poly: Vec<f32> = (0..c.n).map(|i| (i as f32 / 8.0).powi(p as i32)).collect();
        let (_, dp) = (b.fwd)(&poly);
        for i in 0..h {
            if 2 * i + l <= c.n {
                let t = 40.0 * f32::EPSILON as f64 * maxabs(&poly[..2 * i + l]);
                ensure!((dp[i] as f64).abs() <= t, "{} detail {i} of the degree-{p} polynomial is {}, the family has {} vanishing moments", b.name, dp[i], b.moments);
            }
        }
    }
    Ok(if interior > 2 && !c.a.trivial() { nt(b.name) } else { triv("no interior or silence") }.r(r))
}
fn bank_synth(c: &WvCase) -> Res {
    // the synthesis is the transpose of the analysis inside, and energy is kept
    let b = &BANKS[c.bank];
    let l = b.lo.len();
    let h = c.n / 2;
    let (a, d) = (c.a.real32(h), c.b.real32(h));
    let m = maxabs(&a) + maxabs(&d);
    let y = no_panic(&format!("{}_inverse", b.name), || (b.inv)(&a, &d))?;
    let mut r = 0f64;
    let mut inside = 0;
    for i in 0..2 * h {
        // contributions that wrap at the right border are outside the property
        if i + l >= 2 * h {
            break;
        }
        let mut s = 0.0;
        for j in 0..h {
            if 2 * j <= i && i - 2 * j < l {
                s += b.lo[i - 2 * j] * a[j] as f64 + b.hi[i - 2 * j] * d[j] as f64;
            }
        }
        let tol = 16.0 * f32::EPSILON as f64 * m + 1e-43;
        let e = (y[i] as f64 - s).abs();
        ensure!(e <= tol, "{} synthesis n={}: sample {i} is {} instead of {s}", b.name, c.n, y[i]);
        r = r.max(e / tol);
        inside += 1;
    }
    // linearity of both directions
    let (x1, x2) = (c.a.real32(c.n), c.b.real32(c.n));
    let sc = 0.5f32;
    let mix: Vec<f32> = x1.iter().zip(&x2).map(|(p, q)| p + sc * q).collect();
    let ((a1, d1), (a2, d2), (am, dm)) = ((b.fwd)(&x1), (b.fwd)(&x2), (b.fwd)(&mix));
    let mm = maxabs(&x1) + maxabs(&x2);
    let t = 40.0 * f32::EPSILON as f64 * mm + 1e-43;
    let lin = |p: &[f32], q: &[f32]| -> Vec<f64> { p.iter().zip(q).map(|(p, q)| *p as f64 + sc as f64 * *q as f64).collect() };
    near(&format!("{} linearity (approximation)", b.name), &am, &lin(&a1, &a2), t)?;
    near(&format!("{} linearity (detail)", b.name), &dm, &lin(&d1, &d2), t)?;
    let (y1, y2, ym) = ((b.inv)(&a1, &d1), (b.inv)(&a2, &d2), (b.inv)(&am, &dm));
    near(&format!("{} synthesis linearity", b.name), &ym, &lin(&y1, &y2), 8.0 * t)?;
    Ok(if inside > 2 && !(c.a.trivial() && c.b.trivial()) { nt(b.name) } else { triv("no interior or silence") }.r(r))
}
fn bank_multi(c: &WvCase) -> Res {
    let b = &BANKS[c.bank];
    let x = c.a.real32(c.n);
    let (a, d) = no_panic(&format!("{}_forward_multi n={} levels={}", b.name, c.n, c.levels), || (b.fwd_multi)(&x, c.levels))?;
    let (ra, rd) = levels_ref(&x, c.levels, &|s| (b.fwd)(s));
    same(&format!("{} multi-level approximation", b.name), &a, &ra, maxabs(&x))?;
    same_levels(&format!("{} multi-level details differ from repeated single-level calls", b.name), &d, &rd, maxabs(&x))?;
    let y = no_panic(&format!("{}_inverse_multi n={} levels={}", b.name, c.n, c.levels), || (b.inv_multi)(&a, &d))?;
    let mut cur = a.clone();
    for dk in d.iter().rev() {
        cur.truncate(dk.len());
        cur = (b.inv)(&cur, dk);
    }
    same(&format!("{} multi-level synthesis", b.name), &y, &cur, maxabs(&x))?;
    Ok(if c.n > 3 && c.levels > 1 && !c.a.trivial() { nt(b.name) } else { triv("fewer than two levels") })
}
fn db2_batch(c: &Items) -> Res {
    let xs = vecs(c);
    let (a, d) = no_panic("db2_forward_batch", || wv::db2_forward_batch(&xs))?;
    ensure!(a.len() == xs.len() && d.len() == xs.len(), "db2_forward_batch item count");
    let y = no_panic("db2_inverse_batch", || wv::db2_inverse_batch(&a, &d))?;
    ensure!(y.len() == xs.len(), "db2_inverse_batch item count");
    for (k, x) in xs.iter().enumerate() {
        let (p, q) = wv::db2_forward(x);
        same(&format!("db2 batch item {k} approximation"), &a[k], &p, maxabs(x))?;
        same(&format!("db2 batch item {k} detail"), &d[k], &q, maxabs(x))?;
        same(&format!("db2 batch inverse item {k}"), &y[k], &wv::db2_inverse(&p, &q), maxabs(x))?;
    }
    // the generic batch drives any family
    for b in BANKS {
        let (a, d) = no_panic("multi_level_forward_batch", || wv::multi_level_forward_batch(&xs, c.levels, b.fwd))?;
        let y = no_panic("multi_level_inverse_batch", || wv::multi_level_inverse_batch(&a, &d, b.inv))?;
        for (k, x) in xs.iter().enumerate() {
            let (p, q) = (b.fwd_multi)(x, c.levels);
            same(&format!("{} multi-level batch item {k}", b.name), &a[k], &p, maxabs(x))?;
            same_levels(&format!("{} multi-level batch item {k}: details differ", b.name), &d[k], &q, maxabs(x))?;
            same(&format!("{} multi-level batch inverse item {k}", b.name), &y[k], &(b.inv_multi)(&p, &q), maxabs(x))?;
        }
    }
    Ok(items_verdict(c))
}
pub fn c21(r: &mut Reg) {
    r.prop("analysis-and-interior", "more than two interior samples, signal not silent", 5000, wv_case(300), bank_fwd);
    r.prop("synthesis-and-linearity", "more than two samples inside, not silent", 4000, wv_case(300), bank_synth);
    r.prop("multi-level", "two or more levels on four or more samples", 3000, wv_case(300), bank_multi);
    r.prop("analysis-long", "more than two interior samples, signal not silent", 40, wv_case(10_000), bank_fwd);
    r.prop("synthesis-long", "more than two samples inside, not silent", 10, wv_case(1500), bank_synth);
    r.prop("multi-level-deep", "two or more levels on four or more samples", 200, wv_case(5000).prop_map(|mut c| { c.levels *= 4; c }), bank_multi);
    r.prop("batches", "at least two different item lengths", 800, items(60), db2_batch);
    r.prop("batches-long", "at least two different item lengths", 20, items_upto(3000, 6), db2_batch);
    r.prop("batches-many", "at least two different item lengths", 30, items_upto(12, 200), db2_batch);
    r.prop("batches-crowd", "at least two different item lengths", 4, items_crowd(), db2_batch);
}

// ---- windows ----------------------------------------------------------------
fn i0e(x: f64) -> f64 {
    // exp(-x) I0(x) by its integral (1/pi) int exp(x (cos t - 1)) dt; periodic
    // integrand, so the trapezoidal rule converges geometrically
    let x = x.abs();
    if x > 1e5 {
        return (1.0 + 1.0 / (8.0 * x)) / (2.0 * PI * x).sqrt();
    }
    let m = 64 + (16.0 * x.sqrt()) as usize;
    (0..m).map(|k| (x * ((2.0 * PI * k as f64 / m as f64).cos() - 1.0)).exp()).sum::<f64>() / m as f64
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WinCase {
    len: usize,
    p: f32,
}
fn periodic(c: &WinCase) -> Res {
    let n = c.len;
    let th = |i: usize, k: f64| (2.0 * PI * k * i as f64 / n as f64).cos();
    let fam: [(&str, Vec<f32>, Vec<f64>); 3] = [
        ("hann", no_panic("hann", || wn::hann(n))?, (0..n).map(|i| 0.5 - 0.5 * th(i, 1.0)).collect()),
        ("hamming", no_panic("hamming", || wn::hamming(n))?, (0..n).map(|i| 0.54 - 0.46 * th(i, 1.0)).collect()),
        ("blackman", no_panic("blackman", || wn::blackman(n))?, (0..n).map(|i| 0.42 - 0.5 * th(i, 1.0) + 0.08 * th(i, 2.0)).collect()),
    ];
    let mut r = 0f64;
    for (nm, got, want) in &fam {
        r = r.max(near(&format!("{nm}({n})"), got, want, 2e-6)?);
        for i in 0..n {
            ensure!(got[i] <= 1.0 + 1e-6 && got[i] >= -1e-6, "{nm}({n})[{i}] = {} is outside 0..=1", got[i]);
            if i > 0 {
                ensure!((got[i] - got[n - i]).abs() <= 2e-6, "{nm}({n}) is not periodic-symmetric at {i}: {} vs {}", got[i], got[n - i]);
            }
        }
    }
    Ok(if n > 2 { nt("periodic") } else { triv("degenerate length") }.r(r))
}
fn symmetric(nm: &str, n: usize, w: &[f32], tol: f32) -> Result<(), String> {
    ensure!(w.len() == n, "{nm} returned {} coefficients", w.len());
    for i in 0..n {
        ensure!(w[i].is_finite() && w[i] <= 1.0 + 1e-5 && w[i] >= -1e-5, "{nm}[{i}] = {} is outside 0..=1", w[i]);
        ensure!((w[i] - w[n - 1 - i]).abs() <= tol, "{nm} is not symmetric at {i}: {} vs {}", w[i], w[n - 1 - i]);
    }
    Ok(())
}
fn fixed(c: &WinCase) -> Res {
    let n = c.len;
    let d = (n as f64 - 1.0).max(1.0);
    let u = |i: usize| 2.0 * i as f64 / d - 1.0;
    let one = |v: Vec<f64>| if n == 1 { vec![1.0] } else { v };
    let fam: [(&str, Vec<f32>, Vec<f64>); 3] = [
        ("bartlett", no_panic("bartlett", || wm::bartlett(n))?, one((0..n).map(|i| 1.0 - u(i).abs()).collect())),
        ("bohman", no_panic("bohman", || wm::bohman(n))?, one((0..n).map(|i| { let x = u(i).abs(); (1.0 - x) * (PI * x).cos() + (PI * x).sin() / PI }).collect())),
        (
            "nuttall",
            no_panic("nuttall", || wm::nuttall(n))?,
            one((0..n)
                .map(|i| {
                    let x = 2.0 * PI * i as f64 / d;
                    0.355768 - 0.487396 * x.cos() + 0.144232 * (2.0 * x).cos() - 0.012604 * (3.0 * x).cos()
                })
                .collect()),
        ),
    ];
    let mut r = 0f64;
    for (nm, got, want) in &fam {
        r = r.max(near(&format!("{nm}({n})"), got, want, 3e-6)?);
        symmetric(&format!("{nm}({n})"), n, got, 4e-6)?;
    }
    Ok(if n > 2 { nt("symmetric") } else { triv("degenerate length") }.r(r))
}
fn kaiser(c: &WinCase) -> Res {
    let (n, beta) = (c.len, c.p);
    let w = no_panic("kaiser", || wn::kaiser(n, beta))?;
    symmetric(&format!("kaiser({n}, {beta})"), n, &w, 1e-5)?;
    let b = beta.abs() as f64;
    let d = i0e(b);
    let m = (n as f64 - 1.0) / 2.0;
    let want: Vec<f64> = (0..n)
        .map(|i| {
            if n == 1 || b == 0.0 {
                return 1.0;
            }
            let rr = (i as f64 - m) / m;
            let s = (1.0 - rr * rr).max(0.0).sqrt();
            (-rr * rr / (1.0 + s) * b).exp() * i0e(b * s) / d
        })
        .collect();
    // the exponent, at most about 90 where the window is not zero, is rounded
    let mut r = 0f64;
    for i in 0..n {
        let t = 4e-5 * want[i] + 1e-6;
        let e = (w[i] as f64 - want[i]).abs();
        ensure!(e <= t, "kaiser({n}, {beta})[{i}] is {} instead of {}", w[i], want[i]);
        r = r.max(e / t);
    }
    Ok(if n > 2 && beta != 0.0 { nt(if b > 90.0 { "beta above 90" } else { "kaiser" }) } else { triv("degenerate length or beta 0") }.r(r))
}
fn tukey(c: &WinCase) -> Res {
    let (n, alpha) = (c.len, c.p);
    let w = no_panic("tukey", || wm::tukey(n, alpha))?;
    symmetric(&format!("tukey({n}, {alpha})"), n, &w, 1e-5)?;
    let a = (alpha as f64).clamp(0.0, 1.0);
    let mut r = 0f64;
    for i in 0..n {
        let want = if n == 1 || a == 0.0 {
            1.0
        } else {
            let k = i.min(n - 1 - i) as f64;
            let width = a * (n as f64 - 1.0) / 2.0;
            if k <= width {
                0.5 * (1.0 + (PI * (k / width - 1.0)).cos())
            } else {
                1.0
            }
        };
        let e = (w[i] as f64 - want).abs();
        ensure!(e <= 4e-6, "tukey({n}, {alpha})[{i}] is {} instead of {want}", w[i]);
        r = r.max(e / 4e-6);
    }
    Ok(if n > 2 && a > 0.0 { nt(if a * (n as f64 - 1.0) < 2.0 { "narrow taper" } else { "tukey" }) } else { triv("degenerate length or alpha 0") }.r(r))
}
fn win_stack_n<const N: usize>(_: &Sig) -> Res {
    let mut a = [f32::NAN; N];
    wn::hann_inplace_stack(&mut a);
    near(&format!("stack hann({N})"), &a, &v64(&wn::hann(N)), 1e-6)?;
    let mut a = [f32::NAN; N];
    wn::hamming_inplace_stack(&mut a);
    near(&format!("stack hamming({N})"), &a, &v64(&wn::hamming(N)), 1e-6)?;
    let mut a = [f32::NAN; N];
    wn::blackman_inplace_stack(&mut a);
    near(&format!("stack blackman({N})"), &a, &v64(&wn::blackman(N)), 1e-6)?;
    Ok(if N > 1 { nt(format!("N={N}")) } else { triv("degenerate") })
}
fn win_stack(c: &StackCase) -> Res {
    sizes!(win_stack_n, c, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 200, 256, 400, 512, 1000, 1024)
}
pub fn c22(r: &mut Reg) {
    let all: Vec<usize> = (0..=if r.thorough { 3000 } else { 700 }).collect();
    let wlen = || prop_oneof![5 => 0usize..=200, 2 => 0usize..=3000, 1 => 3000usize..=70_000];
    r.sweep("periodic-each-length", "length above 2", all.clone(), 1, |len| Just(WinCase { len, p: 0.0 }), periodic);
    r.sweep("symmetric-each-length", "length above 2", all, 1, |len| Just(WinCase { len, p: 0.0 }), fixed);
    r.prop("periodic-long", "length above 2", 60, (3000usize..=70_000).prop_map(|len| WinCase { len, p: 0.0 }), periodic);
    r.prop("symmetric-long", "length above 2", 60, (3000usize..=70_000).prop_map(|len| WinCase { len, p: 0.0 }), fixed);
    let beta = prop_oneof![1 => Just(0f32), 6 => 0f32..=30.0, 1 => 18f32..=22.0, 2 => 30f32..=120.0, 1 => -20f32..=0.0, 1 => (1f32..=38.0).prop_map(|e| 10f32.powf(e.min(37.0)))];
    r.prop("kaiser", "length above 2 and beta not 0", 2500, (prop_oneof![4 => 0usize..=80, 1 => 0usize..=1500], beta.clone()).prop_map(|(len, p)| WinCase { len, p }), kaiser);
    r.prop("kaiser-long", "length above 2 and beta not 0", 20, (1500usize..=20_000, beta.clone()).prop_map(|(len, p)| WinCase { len, p }), kaiser);
    let alpha = prop_oneof![1 => Just(0f32), 1 => Just(1f32), 6 => 0f32..=1.0, 2 => (-20f32..=0.0).prop_map(|e| 2f32.powf(e)), 1 => -2f32..=3.0, 2 => (1u8..=16, 1u8..=16).prop_map(|(p, q)| p as f32 / q as f32)];
    r.prop("tukey", "length above 2 and alpha not 0", 4000, (wlen(), alpha).prop_map(|(len, p)| WinCase { len, p }), tukey);
    r.sweep("stack", "size above 1", (0..34).collect(), 1, |pick| Just(StackCase { pick, sig: Sig { kind: Kind::Zero, exp: 0 } }), win_stack);
}

// ---- Hilbert ----------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LenSig {
    n: usize,
    sig: Sig,
}
fn ls(n: impl Strategy<Value = usize> + Clone, s: impl Strategy<Value = Sig> + Clone) -> impl Strategy<Value = LenSig> + Clone {
    (n, s).prop_map(|(n, sig)| LenSig { n, sig })
}
fn hilbert(c: &LenSig) -> Res {
    let n = c.n;
    let x = c.sig.real32(n);
    let y = no_panic("hilbert_analytic", || kofft::hilbert::hilbert_analytic(&x))?;
    if n == 0 {
        ensure!(y.as_ref().err() == Some(&FftError::EmptyInput), "hilbert_analytic of nothing returned {y:?}");
        return Ok(triv("empty"));
    }
    if !n.is_power_of_two() {
        ensure!(y.as_ref().err() == Some(&FftError::NonPowerOfTwoNoStd), "hilbert_analytic of length {n} returned Ok or another error");
        return Ok(nt("refused length"));
    }
    let y = y.map_err(|e| format!("hilbert_analytic of length {n}: {e:?}"))?;
    ensure!(y.len() == n, "analytic signal has {} samples instead of {n}", y.len());
    let xc: Vec<C> = x.iter().map(|v| (*v as f64, 0.0)).collect();
    let sc = norm(&xc);
    let tol = 2.0 * tol_fft::<f32>(n);
    let re: Vec<C> = y.iter().map(|z| (z.re as f64, 0.0)).collect();
    let mut r = close(&format!("real part n={n}"), &re, &xc, tol, 1e-30)?;
    let spec = dft(&from_t(&y));
    let xs = dft(&xc);
    let want: Vec<C> = (0..n)
        .map(|k| {
            if k == 0 || 2 * k == n {
                xs[k]
            } else if 2 * k < n {
                (2.0 * xs[k].0, 2.0 * xs[k].1)
            } else {
                (0.0, 0.0)
            }
        })
        .collect();
    r = r.max(close(&format!("analytic spectrum n={n}"), &spec, &want, tol, sc * (n as f64).sqrt() + 1e-30)?);
    let neg = norm(&spec[n / 2 + 1..]);
    ensure!(neg <= tol * sc * (n as f64).sqrt() + 1e-30, "negative-frequency energy {neg:.3e} for n={n}");
    Ok(if n > 2 && !c.sig.trivial() { nt("analytic") } else { triv("length 1/2 or silence") }.r(r))
}
pub fn c23(r: &mut Reg) {
    r.prop("long", "refused length, or above 2 and not silent", 40, ls(prop_oneof![3 => pow2(13, 17), 1 => 5000usize..=140_000], sig()), hilbert);
    r.sweep("each-power-of-two", "length above 2, not silent", (0..=if r.thorough { 15 } else { 13 }).map(|e| 1 << e).collect(), 60, |n| ls(Just(n), sig()), hilbert);
    r.prop("any-length", "refused length, or above 2 and not silent", 2500, ls(prop_oneof![1 => Just(0usize), 4 => 1usize..=300, 1 => 1usize..=5000], sig()), hilbert);
}

// ---- cepstrum, mel, MFCC ------------------------------------------------------
/// signals whose spectrum can be squared in single precision
fn sig_mid() -> impl Strategy<Value = Sig> + Clone {
    (kind(), -12i16..=12).prop_map(|(kind, exp)| Sig { kind, exp })
}
fn cepstrum(c: &LenSig) -> Res {
    let n = c.n;
    let x = c.sig.real32(n);
    let y = no_panic("real_cepstrum", || kofft::cepstrum::real_cepstrum(&x))?;
    if n == 0 {
        ensure!(y.as_ref().err() == Some(&FftError::EmptyInput), "real_cepstrum of nothing returned {y:?}");
        return Ok(triv("empty"));
    }
    if !n.is_power_of_two() {
        ensure!(y.as_ref().err() == Some(&FftError::NonPowerOfTwoNoStd), "real_cepstrum of length {n} returned Ok or another error");
        return Ok(nt("refused length"));
    }
    let y = y.map_err(|e| format!("real_cepstrum of length {n}: {e:?}"))?;
    ensure!(y.iter().all(|v| v.is_finite()), "cepstrum of a finite signal of length {n} is not finite");
    let xc: Vec<C> = x.iter().map(|v| (*v as f64, 0.0)).collect();
    let xs = dft(&xc);
    // per-bin interval for the log magnitude given the transform's rounding
    let e = 2.0 * tol_fft::<f32>(n) * norm(&xc) + 1e-19;
    let mut slack = 0.0;
    let mut mag_log = vec![];
    for z in &xs {
        let m = (z.0 * z.0 + z.1 * z.1).sqrt();
        let mid = (m + 1e-12).ln();
        let hi = (m + e + 1e-12).ln() - mid;
        let lo = mid - ((m - e).max(0.0) + 1e-12).ln();
        slack += hi.max(lo);
        mag_log.push((mid, 0.0));
    }
    slack /= n as f64;
    let want = idft(&mag_log);
    let tol = slack + tol_fft::<f32>(n) * (norm(&mag_log) / (n as f64).sqrt() + 1.0) * 2.0;
    let mut worst = 0f64;
    for i in 0..n {
        let d = (y[i] as f64 - want[i].0).abs();
        ensure!(d <= tol, "cepstrum n={n}: coefficient {i} is {} instead of {} (allowed {tol:.2e})", y[i], want[i].0);
        worst = worst.max(d / tol);
    }
    Ok(if n > 2 && slack < 0.05 { nt("sharp reference") } else { triv("tiny length, or bins at rounding level") }.r(worst))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MelCase {
    n: usize,
    sr: f32,
    filters: usize,
    coeffs: usize,
    sig: Sig,
    batch: usize,
}
fn mel_case() -> impl Strategy<Value = MelCase> + Clone {
    (
        prop_oneof![1 => Just(0usize), 4 => 1usize..=64, 5 => 1usize..=600],
        prop_oneof![3 => prop::sample::select(vec![8000f32, 11025.0, 16000.0, 22050.0, 44100.0, 48000.0]), 2 => 100f32..=100_000.0, 1 => 0.5f32..=100.0, 1 => (5f32..=38.5).prop_map(|e| 10f32.powf(e))],
        0usize..=40,
        0usize..=45,
        sig_mid(),
        0usize..4,
    )
        .prop_map(|(n, sr, filters, coeffs, sig, batch)| MelCase { n, sr, filters, coeffs, sig, batch })
}
fn mel_wide() -> impl Strategy<Value = MelCase> + Clone {
    (mel_case(), prop_oneof![3 => 500usize..=5000, 1 => 60_000usize..=70_000], prop_oneof![40usize..=200, 250usize..=700], 0usize..=300).prop_map(|(c, n, filters, coeffs)| MelCase { n, filters, coeffs, ..c })
}
/// exact (real-valued) bin positions
fn mel_pos(n: usize, sr: f64, filters: usize) -> Vec<f64> {
    let mel_max = 2595.0 * (1.0 + sr / 2.0 / 700.0).log10();
    (0..filters + 2)
        .map(|i| {
            let m = mel_max * i as f64 / (filters + 1) as f64;
            700.0 * (10f64.powf(m / 2595.0) - 1.0) * (n as f64 + 1.0) / sr
        })
        .collect()
}
fn mel_energy(mags: &[f32], bins: &[usize]) -> Vec<f64> {
    (1..bins.len() - 1)
        .map(|m| {
            let (l, c, r) = (bins[m - 1], bins[m], bins[m + 1]);
            if l == c || c == r {
                return 0.0;
            }
            let mut e = 0.0;
            for k in l..r {
                let w = if k < c { (k - l) as f64 / (c - l) as f64 } else { (r - k) as f64 / (r - c) as f64 };
                e += w * mags.get(k).map_or(0.0, |v| *v as f64);
            }
            e
        })
        .collect()
}
/// all bin vectors reachable when positions within rounding of an integer may fall either way
fn mel_choices(pos: &[f64], n: usize, sr: f64) -> Option<Vec<Vec<usize>>> {
    let mut out = vec![vec![]];
    for (i, p) in pos.iter().enumerate() {
        // 1 + hz / 700 is formed in f32: an absolute error in hz
        let t = 2e-5 * (1.0 + sr.log10().max(0.0) / 8.0) * (p.abs() + 1.0) + 1e-4 + 700.0 * 4.0 * U * (n as f64 + 1.0) / sr;
        let near = p.round();
        let opts: Vec<usize> = if i == 0 {
            vec![0]
        } else if (p - near).abs() <= t {
            vec![(near - 1.0).max(0.0) as usize, near as usize]
        } else {
            vec![p.floor() as usize]
        };
        out = out.into_iter().flat_map(|v: Vec<usize>| opts.iter().map(move |o| { let mut w = v.clone(); w.push(*o); w }).collect::<Vec<_>>()).collect();
        if out.len() > 64 {
            return None;
        }
    }
    Some(out)
}
fn mags(c: &MelCase, salt: usize) -> Vec<f32> {
    let s = c.sig.complex(c.n + salt);
    s[salt..].iter().map(|z| (z.0 * z.0 + z.1 * z.1).sqrt() as f32).collect()
}
fn mel(c: &MelCase) -> Res {
    let m = mags(c, 0);
    let got = no_panic("mel_filterbank", || kofft::cepstrum::mel_filterbank(&m, c.sr, c.filters))?;
    ensure!(got.len() == c.filters, "mel_filterbank returned {} energies instead of {}", got.len(), c.filters);
    ensure!(got.iter().all(|e| e.is_finite() && *e >= 0.0), "mel energies {:?} of non-negative magnitudes", short(&got));
    let pos = mel_pos(c.n, c.sr as f64, c.filters);
    let Some(choices) = mel_choices(&pos, c.n, c.sr as f64) else { return Ok(triv("bins on rounding boundaries")) };
    let tol = |e: f64| (c.n as f64 + 8.0) * 2.0 * U * e + 1e-42;
    let mut best: Option<(f64, String)> = None;
    for bins in &choices {
        let want = mel_energy(&m, bins);
        let bad = got.iter().zip(&want).enumerate().find(|(_, (g, w))| (**g as f64 - **w).abs() > tol(**w));
        match bad {
            None => {
                let used = want.iter().filter(|e| **e > 0.0).count();
                // linear in the magnitudes
                let m2: Vec<f32> = m.iter().map(|v| v * 4.0).collect();
                let g2 = kofft::cepstrum::mel_filterbank(&m2, c.sr, c.filters);
                ensure!(got.iter().zip(&g2).all(|(a, b)| a * 4.0 == *b), "mel energies are not linear in the magnitudes");
                return Ok(if used > 0 { nt("energies") } else { triv("all filters empty or silence") });
            }
            Some((i, (g, w))) => best = Some((0.0, format!("mel filter {i} of {} (n={} sr={}): energy {g} instead of {w}", c.filters, c.n, c.sr))),
        }
    }
    Err(best.unwrap().1)
}
fn mel_shape(c: &MelCase) -> Res {
    // impulse magnitudes reveal the weights: triangles, peaks increasing
    if c.n == 0 || c.filters == 0 {
        return Ok(triv("nothing to probe"));
    }
    let mut w = vec![vec![0f32; c.n]; c.filters];
    for k in 0..c.n {
        let mut m = vec![0f32; c.n];
        m[k] = 1.0;
        for (f, e) in kofft::cepstrum::mel_filterbank(&m, c.sr, c.filters).into_iter().enumerate() {
            w[f][k] = e;
        }
    }
    let mut last = None;
    let mut shown = 0;
    for f in 0..c.filters {
        ensure!(w[f].iter().all(|v| (0.0..=1.0).contains(v)), "mel filter {f} has a weight outside 0..=1");
        let peak = (0..c.n).max_by(|a, b| w[f][*a].partial_cmp(&w[f][*b]).unwrap()).unwrap();
        if w[f][peak] == 0.0 {
            continue;
        }
        shown += 1;
        // single rise then single fall
        for k in 1..c.n {
            if k <= peak && w[f][k] < w[f][k - 1] {
                return Err(format!("mel filter {f} (n={} sr={}) falls at bin {k} before its peak {peak}", c.n, c.sr));
            }
            if k > peak && w[f][k] > w[f][k - 1] {
                return Err(format!("mel filter {f} (n={} sr={}) rises at bin {k} after its peak {peak}", c.n, c.sr));
            }
        }
        if let Some(l) = last {
            ensure!(peak > l, "mel filter {f} peaks at bin {peak}, not after its predecessor's {l}");
        }
        // a peak inside the magnitudes has weight exactly one
        last = Some(peak);
    }
    Ok(if shown > 1 { nt("several filters") } else { triv("at most one non-empty filter") })
}
fn mfcc(c: &MelCase) -> Res {
    let m = mags(c, 0);
    let got = no_panic("mfcc", || kofft::cepstrum::mfcc(&m, c.sr, c.filters, c.coeffs))?;
    if c.coeffs > c.filters {
        ensure!(got.as_ref().err() == Some(&FftError::InvalidValue), "mfcc with {} coefficients of {} filters returned {got:?}", c.coeffs, c.filters);
    } else {
        let got = got.as_ref().map_err(|e| format!("mfcc: {e:?}"))?;
        ensure!(got.len() == c.coeffs, "{} coefficients instead of {}", got.len(), c.coeffs);
        let e = kofft::cepstrum::mel_filterbank(&m, c.sr, c.filters);
        let l: Vec<f64> = e.iter().map(|v| (*v as f64 + 1e-12).ln()).collect();
        let n = l.len() as f64;
        let big = l.iter().fold(1f64, |a, b| a.max(b.abs()));
        for (k, g) in got.iter().enumerate() {
            let w: f64 = l.iter().enumerate().map(|(i, v)| v * (PI / n * (i as f64 + 0.5) * k as f64).cos()).sum();
            let tol = (n + 4.0) * big * f32::EPSILON as f64 * (4.0 + n);
            ensure!(g.is_finite() && (*g as f64 - w).abs() <= tol, "mfcc coefficient {k} is {g} instead of {w} (filters {}, n={}, sr={})", c.filters, c.n, c.sr);
        }
    }
    let frames: Vec<Vec<f32>> = (0..c.batch).map(|b| mags(c, b)).collect();
    let b = no_panic("mfcc_batch", || kofft::cepstrum::mfcc_batch(&frames, c.sr, c.filters, c.coeffs))?;
    let one: Result<Vec<Vec<f32>>, FftError> = frames.iter().map(|f| kofft::cepstrum::mfcc(f, c.sr, c.filters, c.coeffs)).collect();
    match (&b, &one) {
        (Ok(p), Ok(q)) => {
            ensure!(p.len() == q.len(), "mfcc_batch item count");
            for (k, (p, q)) in p.iter().zip(q).enumerate() {
                same(&format!("mfcc_batch item {k}"), p, q, maxabs(p))?;
            }
        }
        (Err(p), Err(q)) => ensure!(p == q, "mfcc_batch failed with {p:?} instead of {q:?}"),
        _ => return Err(format!("mfcc_batch gave {b:?}, frame by frame {one:?}")),
    }
    Ok(if c.coeffs > 0 && c.coeffs <= c.filters && c.n > 4 { nt(if c.sig.trivial() { "silence" } else { "coefficients" }) } else if c.coeffs > c.filters { nt("refused count") } else { triv("no coefficients") })
}
pub fn c24(r: &mut Reg) {
    r.sweep("cepstrum-each-size", "length above 2 and bins above rounding level", (0..=11).map(|e| 1 << e).collect(), 80, |n| ls(Just(n), sig_mid()), cepstrum);
    r.prop("cepstrum-any", "refused length, or bins above rounding level", 1500, ls(prop_oneof![1 => Just(0usize), 5 => 1usize..=300], sig_mid()), cepstrum);
    r.prop("cepstrum-long", "refused length, or bins above rounding level", 30, ls(prop_oneof![3 => pow2(10, 16), 1 => 300usize..=20_000], sig_mid()), cepstrum);
    r.prop("mel-energies", "some filter has energy", 4000, mel_case(), mel);
    r.prop("mel-wide", "some filter has energy", 60, mel_wide(), mel);
    r.prop("mfcc-wide", "coefficients requested", 30, mel_wide(), mfcc);
    r.prop("mel-triangles", "at least two non-empty filters", 250, mel_case().prop_map(|mut c| { c.n = c.n % 200; c }), mel_shape);
    r.prop("mfcc", "coefficients requested", 3000, mel_case(), mfcc);
}

// ---- chirp-Z, Goertzel --------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CztCase {
    n: usize,
    m: usize,
    w: (f32, f32),
    a: (f32, f32),
    sig: Sig,
}
fn cpowi(z: C, mut e: usize) -> C {
    let (mut r, mut b) = ((1.0, 0.0), z);
    while e > 0 {
        if e & 1 == 1 {
            r = cmul(r, b);
        }
        b = cmul(b, b);
        e >>= 1;
    }
    r
}
fn cinv(z: C) -> C {
    let d = z.0 * z.0 + z.1 * z.1;
    (z.0 / d, -z.1 / d)
}
fn cabs(z: C) -> f64 {
    z.0.hypot(z.1)
}
fn czt(c: &CztCase) -> Res {
    let x = c.sig.real32(c.n);
    let got = no_panic("czt_f32", || kofft::czt::czt_f32(&x, c.m, c.w, c.a))?;
    ensure!(got.len() == c.m, "czt returned {} points instead of {}", got.len(), c.m);
    let w: C = (c.w.0 as f64, c.w.1 as f64);
    let a: C = (c.a.0 as f64, c.a.1 as f64);
    let ai = cinv(a);
    let mut r = 0f64;
    for k in 0..c.m {
        let wk = cpowi(w, k);
        let z = cmul(ai, wk);
        let mut p: C = (1.0, 0.0);
        let (mut s, mut bound) = ((0.0, 0.0), 1e-37);
        for (i, v) in x.iter().enumerate() {
            let v = *v as f64;
            let t = cabs(p);
            if t > 1e25 || i as f64 * cabs(wk).log10() > 25.0 || i as f64 * cabs(ai).log10() > 25.0 {
                return Ok(triv("powers leave the single-precision range"));
            }
            s = (s.0 + v * p.0, s.1 + v * p.1);
            // each stored power carries its own rounding: w^k after k products, to the n-th power
            let steps = (i * (k + 2)) as f64 + 3.0 * i as f64 + 4.0;
            bound += v.abs() * t.max(1e-30) * steps * 3.0 * U * 2.0;
            p = cmul(p, z);
        }
        bound += cabs(s) * x.len() as f64 * U + x.len() as f64 * U * x.iter().map(|v| v.abs() as f64).sum::<f64>().min(1e30) * 1e-3;
        let g = (got[k].0 as f64, got[k].1 as f64);
        let d = cabs((g.0 - s.0, g.1 - s.1));
        ensure!(d <= bound, "czt point {k} of {} (n={} w={:?} a={:?}) is {g:?} instead of {s:?} (allowed {bound:.2e})", c.m, c.n, c.w, c.a);
        r = r.max(d / bound);
    }
    Ok(if c.n > 1 && c.m > 1 && !c.sig.trivial() { nt("points") } else { triv("at most one sample or point") }.r(r))
}
fn unit(th: f64) -> (f32, f32) {
    (th.cos() as f32, th.sin() as f32)
}
fn czt_dft(c: &LenSig) -> Res {
    // w = exp(-2 pi i / n), a = 1: the DFT itself
    let n = c.n;
    let x = c.sig.real32(n);
    let got = kofft::czt::czt_f32(&x, n, unit(-2.0 * PI / n as f64), (1.0, 0.0));
    let g: Vec<C> = got.iter().map(|z| (z.0 as f64, z.1 as f64)).collect();
    let xc: Vec<C> = x.iter().map(|v| (*v as f64, 0.0)).collect();
    // rounding of w grows with n*k
    let tol = 4.0 * U * (n * n) as f64 + 1e-6;
    let r = close(&format!("czt on the unit circle n={n}"), &g, &dft(&xc), tol, norm(&xc) * (n as f64).sqrt() + 1e-30)?;
    Ok(if n > 1 && !c.sig.trivial() { nt("DFT bins") } else { triv("length 1 or silence") }.r(r))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GoeCase {
    n: usize,
    bin: usize,
    frac: f32,
    sr: f32,
    sig: Sig,
}
fn goertzel(c: &GoeCase) -> Res {
    let x = c.sig.real32(c.n);
    // mostly a bin below the sample rate, sometimes an alias of one
    let turn = [0i64, 0, 0, 0, -2, -1, 1, 3][c.bin / c.n % 8];
    let k = (c.bin % c.n) as i64 + turn * c.n as i64;
    let f = ((k as f64 + c.frac as f64) * c.sr as f64 / c.n as f64) as f32;
    // the bin this frequency belongs to, skipped when rounding could move it
    let pos = f as f64 * c.n as f64 / c.sr as f64;
    if (pos - pos.round()).abs() < 1e-6 * (c.n as f64 * (1.0 + turn.abs() as f64) + 1.0) && !(c.frac == 0.0 && c.n.is_power_of_two() && c.sr.log2().fract() == 0.0) {
        return Ok(triv("frequency on a bin boundary"));
    }
    let got = no_panic("goertzel_f32", || kofft::goertzel::goertzel_f32(&x, c.sr, f))?.map_err(|e| format!("goertzel: {e:?}"))?;
    ensure!(got.is_finite() && got >= 0.0, "goertzel magnitude {got} for a finite signal of {} samples", c.n);
    let th = 2.0 * PI * (c.bin % c.n) as f64 / c.n as f64;
    let mut s: C = (0.0, 0.0);
    let (mut s1, mut s2, mut smax) = (0f64, 0f64, 0f64);
    for (i, v) in x.iter().enumerate() {
        let v = *v as f64;
        let a = th * (i as f64);
        s = (s.0 + v * a.cos(), s.1 - v * a.sin());
        let s0 = v + 2.0 * th.cos() * s1 - s2;
        s2 = s1;
        s1 = s0;
        smax = smax.max(s0.abs());
    }
    let want = s.0 * s.0 + s.1 * s.1;
    // the recurrence's state bounds the cancellation in the power
    let tol = 16.0 * f32::EPSILON as f64 * (c.n as f64 + 4.0) * (1.0 + turn.abs() as f64) * smax * smax + 1e-30;
    let d = ((got as f64) * (got as f64) - want).abs();
    ensure!(d <= tol + 1e-5 * want, "goertzel at {f} Hz of {} (n={}): magnitude {got} instead of {} at bin {k}", c.sr, c.n, want.sqrt());
    Ok(if c.n > 2 && want > tol { nt("bin above rounding level") } else { triv("tiny length or empty bin") }.r(d / (tol + 1e-5 * want)))
}
fn goertzel_bad(c: &GoeCase) -> Res {
    let x = c.sig.real32(c.n);
    for sr in [0.0f32, -c.sr, f32::NEG_INFINITY, -0.0] {
        let r = no_panic("goertzel_f32", || kofft::goertzel::goertzel_f32(&x, sr, 1.0))?;
        ensure!(r == Err(FftError::InvalidValue), "goertzel with sample rate {sr} returned {r:?}");
    }
    for (sr, f) in [(f32::NAN, 1.0f32), (c.sr, f32::NAN), (c.sr, f32::INFINITY), (c.sr, f32::NEG_INFINITY)] {
        let r = no_panic("goertzel_f32", || kofft::goertzel::goertzel_f32(&x, sr, f))?;
        ensure!(r == Err(FftError::InvalidValue), "goertzel at {f} Hz of {sr} returned {r:?}");
    }
    let r = no_panic("goertzel_f32", || kofft::goertzel::goertzel_f32(&[], c.sr, 1.0))?;
    ensure!(r == Err(FftError::EmptyInput), "goertzel of nothing returned {r:?}");
    let r = no_panic("goertzel_f32", || kofft::goertzel::goertzel_f32(&[], -1.0, 1.0))?;
    ensure!(r.is_err(), "goertzel of nothing at a negative rate returned {r:?}");
    Ok(nt("refused"))
}
pub fn c25(r: &mut Reg) {
    let circle = (-1000i32..=1000).prop_map(|t| unit(t as f64 * PI / 500.0));
    let w = prop_oneof![4 => circle.clone(), 2 => (1u32..=80).prop_map(|n| unit(-2.0 * PI / n as f64)), 2 => (0.7f32..=1.2, -3.2f32..=3.2).prop_map(|(r, t)| (r * t.cos(), r * t.sin())), 1 => Just((1f32, 0f32)), 1 => Just((0f32, 0f32)), 1 => Just((0f32, 1f32))];
    let (wu, au) = (circle.clone(), circle.clone());
    let a = prop_oneof![3 => Just((1f32, 0f32)), 3 => circle, 2 => (0.6f32..=1.6, -3.2f32..=3.2).prop_map(|(r, t)| (r * t.cos(), r * t.sin()))];
    r.prop("czt-points", "two or more samples and points, not silent", 5000, (prop_oneof![1 => Just(0usize), 9 => 1usize..=40], 0usize..=40, w.clone(), a.clone(), sig_plain()).prop_map(|(n, m, w, a, sig)| CztCase { n, m, w, a, sig }), czt);
    r.prop("czt-longer", "two or more samples and points, not silent", 100, (1usize..=400, 1usize..=200, w, a, sig_plain()).prop_map(|(n, m, w, a, sig)| CztCase { n, m, w, a, sig }), czt);
    r.prop("czt-vast", "two or more samples and points, not silent", 6, (prop_oneof![400usize..=3000, 1usize..=8, 30_000usize..=70_000], 1usize..=1000, wu, au, sig_plain(), any::<u8>()).prop_map(|(n, m, w, a, sig, k)| {
        let (n, m) = if n > 3000 { (n, 1 + m % 20) } else if k % 2 == 0 { (n, m) } else { (m, n) };
        CztCase { n, m, w, a, sig }
    }), czt);
    r.prop("czt-dft-bins", "two or more samples, not silent", 600, ls(1usize..=64, sig_plain()), czt_dft);
    let sr = || prop_oneof![2 => prop::sample::select(vec![1f32, 2.0, 64.0, 1024.0, 8192.0]), 2 => prop::sample::select(vec![8000f32, 44100.0, 48000.0]), 2 => 1f32..=1e5, 1 => (-40i32..=60).prop_map(|e| (e as f32).exp2())];
    let frac = || prop_oneof![2 => Just(0f32), 4 => 0.05f32..=0.95, 2 => (4i32..=14).prop_map(|e| 1.0 - (-e as f32).exp2()), 1 => (4i32..=14).prop_map(|e| (-e as f32).exp2())];
    r.prop("goertzel", "magnitude above rounding level", 6000, (prop_oneof![4 => 1usize..=64, 2 => (0u32..=9).prop_map(|e| 1usize << e), 2 => 1usize..=600], any::<u16>(), frac(), sr(), sig_mid()).prop_map(|(n, bin, frac, sr, sig)| GoeCase { n, bin: bin as usize, frac, sr, sig }), goertzel);
    r.prop("goertzel-long", "magnitude above rounding level", 200, (600usize..=40_000, any::<u16>(), frac(), sr(), sig_mid()).prop_map(|(n, bin, frac, sr, sig)| GoeCase { n, bin: bin as usize, frac, sr, sig }), goertzel);
    r.prop("goertzel-refusals", "every case", 100, (1usize..=40, sr(), sig_mid()).prop_map(|(n, sr, sig)| GoeCase { n, bin: 0, frac: 0.0, sr, sig }), goertzel_bad);
}
