//! C13 DCT, C14 DST, C15 planned DCT-II, C16 Hartley.
use super::fft_core::{at, lenclass, over, supported, LenSig};
use crate::core::*;
use crate::oracle::*;
use crate::sig::*;
use kofft::{dct, dst, fft::FftError, hartley};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

/// exact cos(pi * num / den) for integer num, den
fn cpi(num: u64, den: u64) -> f64 {
    let num = num % (2 * den);
    (PI * num as f64 / den as f64).cos()
}
fn spi(num: u64, den: u64) -> f64 {
    let num = num % (2 * den);
    (PI * num as f64 / den as f64).sin()
}
type Kernel = fn(&[f64]) -> Vec<f64>;
fn sum(x: &[f64], f: impl Fn(u64, u64) -> f64) -> Vec<f64> {
    (0..x.len() as u64).map(|k| x.iter().enumerate().map(|(i, v)| v * f(i as u64, k)).sum()).collect()
}
fn r_dct1(x: &[f64]) -> Vec<f64> {
    let n = x.len() as u64;
    if n == 1 {
        return vec![2.0 * x[0]];
    }
    sum(x, |i, k| if i == 0 { 1.0 } else if i == n - 1 { if k % 2 == 0 { 1.0 } else { -1.0 } } else { 2.0 * cpi(i * k, n - 1) })
}
fn r_dct2(x: &[f64]) -> Vec<f64> {
    let n = x.len() as u64;
    sum(x, |i, k| cpi((2 * i + 1) * k, 2 * n))
}
/// the same through the reference DFT of the signal with zeros behind it
fn f_dct2(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    let mut y: Vec<C> = x.iter().map(|v| (*v, 0.0)).collect();
    y.resize(2 * n, (0.0, 0.0));
    dft(&y)[..n].iter().enumerate().map(|(k, z)| cpi(k as u64, 2 * n as u64) * z.0 + spi(k as u64, 2 * n as u64) * z.1).collect()
}
fn r_dct3(x: &[f64]) -> Vec<f64> {
    let n = x.len() as u64;
    sum(x, |i, k| if i == 0 { 0.5 } else { cpi(i * (2 * k + 1), 2 * n) })
}
fn r_dct4(x: &[f64]) -> Vec<f64> {
    let n = x.len() as u64;
    sum(x, |i, k| cpi((2 * i + 1) * (2 * k + 1), 4 * n))
}
fn r_dst1(x: &[f64]) -> Vec<f64> {
    let n = x.len() as u64;
    sum(x, |i, k| spi((i + 1) * (k + 1), n + 1))
}
fn r_dst2(x: &[f64]) -> Vec<f64> {
    let n = x.len() as u64;
    sum(x, |i, k| spi((2 * i + 1) * (k + 1), 2 * n))
}
fn r_dst3(x: &[f64]) -> Vec<f64> {
    let n = x.len() as u64;
    sum(x, |i, k| if i == n - 1 { if k % 2 == 0 { 0.5 } else { -0.5 } } else { spi((i + 1) * (2 * k + 1), 2 * n) })
}
fn r_dst4(x: &[f64]) -> Vec<f64> {
    let n = x.len() as u64;
    sum(x, |i, k| spi((2 * i + 1) * (2 * k + 1), 4 * n))
}
fn r_dht(x: &[f64]) -> Vec<f64> {
    let n = x.len() as u64;
    sum(x, |i, k| cpi(2 * (i * k), n) + spi(2 * (i * k), n))
}
/// Direct single-precision summation: the angle itself (up to n*pi) is rounded.
fn tol(n: usize) -> f64 {
    f32::EPSILON as f64 * (16.0 + 4.0 * n as f64)
}
struct Fam {
    name: &'static str,
    single: fn(&[f32]) -> Vec<f32>,
    batch: fn(&mut [Vec<f32>]),
    multi: fn(&mut [Vec<f32>]),
    reference: Kernel,
    /// twice applied / inverse pair: (index of the inverse, scale(n))
    inverse: (usize, fn(f64) -> f64),
}
const DCT: &[Fam] = &[
    Fam { name: "dct1", single: dct::dct1, batch: dct::batch_i, multi: dct::multi_channel_i, reference: r_dct1, inverse: (0, |n| 2.0 * (n - 1.0)) },
    Fam { name: "dct2", single: dct::dct2, batch: dct::batch_ii, multi: dct::multi_channel_ii, reference: r_dct2, inverse: (2, |n| n / 2.0) },
    Fam { name: "dct3", single: dct::dct3, batch: dct::batch_iii, multi: dct::multi_channel_iii, reference: r_dct3, inverse: (1, |n| n / 2.0) },
    Fam { name: "dct4", single: dct::dct4, batch: dct::batch_iv, multi: dct::multi_channel_iv, reference: r_dct4, inverse: (3, |n| n / 2.0) },
];
const DST: &[Fam] = &[
    Fam { name: "dst1", single: dst::dst1, batch: dst::batch_i, multi: dst::multi_channel_i, reference: r_dst1, inverse: (0, |n| (n + 1.0) / 2.0) },
    Fam { name: "dst2", single: dst::dst2, batch: dst::batch_ii, multi: dst::multi_channel_ii, reference: r_dst2, inverse: (2, |n| n / 2.0) },
    Fam { name: "dst3", single: dst::dst3, batch: dst::batch_iii, multi: dst::multi_channel_iii, reference: r_dst3, inverse: (1, |n| n / 2.0) },
    Fam { name: "dst4", single: dst::dst4, batch: dst::batch_iv, multi: dst::multi_channel_iv, reference: r_dst4, inverse: (3, |n| n / 2.0) },
];
const DHT: &[Fam] = &[Fam { name: "dht", single: hartley::dht, batch: hartley::batch, multi: hartley::multi_channel, reference: r_dht, inverse: (0, |n| n) }];

fn single(fams: &[Fam], c: &LenSig) -> Res {
    let n = c.n;
    let x = c.sig.real32(n);
    let xd = v64(&x);
    let mut ratio = 0f64;
    for f in fams {
        let y = no_panic(f.name, || (f.single)(&x))?;
        ensure!(y.len() == n, "{} of length {n} returned {} values", f.name, y.len());
        // the transforms are all within a factor of sqrt(n) of orthogonal; an
        // output that cancels is measured against the input's size
        let floor = rnorm(&xd) * 0.5;
        let t = if f.name == "dht" { 2.0 * tol(n) } else { tol(n) };
        ratio = ratio.max(rclose(&format!("{} n={n}", f.name), &v64(&y), &(f.reference)(&xd), t, floor.max(1e-300))?);
        // inverse relation, decided on the library's own output
        let (j, scale) = (f.inverse.0, (f.inverse.1)(n as f64));
        if n > 1 || f.name.ends_with(['2', '3', '4']) || f.name == "dht" || f.name == "dst1" {
            let z = (fams[j].single)(&y);
            let want: Vec<f64> = xd.iter().map(|v| v * scale).collect();
            // dct1 is not orthogonal at the end points: allow its condition
            let cond = if f.name == "dct1" { 2.0 } else { 1.0 };
            ratio = ratio.max(rclose(&format!("{} undone by {} n={n}", f.name, fams[j].name), &v64(&z), &want, cond * 2.5 * t, 1e-300)?);
        }
    }
    let v = if n > 1 && !c.sig.trivial() { nt(lenclass(n)) } else { triv("length 0/1 or zero signal") };
    Ok(v.r(ratio))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Items {
    items: Vec<(usize, Sig)>,
}
fn items(max: usize) -> impl Strategy<Value = Items> + Clone {
    items_upto(max, 6)
}
fn items_upto(max: usize, count: usize) -> impl Strategy<Value = Items> + Clone {
    proptest::collection::vec((prop_oneof![1 => Just(0usize), 6 => 1..=max], sig_nz()), 0..count).prop_map(|items| Items { items })
}
fn items_crowd() -> impl Strategy<Value = Items> + Clone {
    crowd(8).prop_map(|items| Items { items })
}
fn batches(fams: &[Fam], c: &Items) -> Res {
    let orig: Vec<Vec<f32>> = c.items.iter().map(|(n, s)| s.real32(*n)).collect();
    let mut ratio = 0f64;
    for f in fams {
        for (nm, g) in [("batch", f.batch), ("multi-channel", f.multi)] {
            let mut b = orig.clone();
            no_panic(&format!("{nm} {}", f.name), || g(&mut b))?;
            ensure!(b.len() == orig.len(), "{nm} {} changed the number of items", f.name);
            for (k, (x, y)) in orig.iter().zip(&b).enumerate() {
                let want = (f.single)(x);
                ratio = ratio.max(rclose(&format!("{nm} {} item {k}", f.name), &v64(y), &v64(&want), 2.0 * tol(x.len()), rnorm(&v64(x)).max(1e-300))?);
            }
        }
    }
    let lens: std::collections::BTreeSet<_> = c.items.iter().map(|i| i.0).collect();
    Ok(if lens.len() > 1 { nt("mixed lengths") } else { triv("uniform or empty") }.r(ratio))
}
// ---- stack forms
macro_rules! sizes {
    ($f:ident, $n:expr, $x:expr) => {
        match $n { 0 => $f::<0>($x), 1 => $f::<1>($x), 2 => $f::<2>($x), 3 => $f::<3>($x), 4 => $f::<4>($x), 5 => $f::<5>($x), 6 => $f::<6>($x), 7 => $f::<7>($x), 8 => $f::<8>($x),
            9 => $f::<9>($x), 10 => $f::<10>($x), 12 => $f::<12>($x), 14 => $f::<14>($x), 15 => $f::<15>($x), 16 => $f::<16>($x), 17 => $f::<17>($x), 20 => $f::<20>($x), 24 => $f::<24>($x), 31 => $f::<31>($x), 32 => $f::<32>($x), 33 => $f::<33>($x),
            48 => $f::<48>($x), 64 => $f::<64>($x), 96 => $f::<96>($x), 100 => $f::<100>($x), 128 => $f::<128>($x), 256 => $f::<256>($x), 512 => $f::<512>($x), _ => Err("size not instantiated".into()) }
    };
}
const SIZES: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 20, 24, 31, 32, 33, 48, 64, 96, 100, 128, 256, 512];
type StackFn<const N: usize> = fn(&[f32; N], &mut [f32; N]) -> Result<(), FftError>;
fn stack_one<const N: usize>(what: &str, f: StackFn<N>, heap: fn(&[f32]) -> Vec<f32>, reference: Kernel, sig: &Sig) -> Result<f64, String> {
    let xs = sig.real32(N);
    let mut x = [0f32; N];
    x.copy_from_slice(&xs);
    let mut out = [4.25f32; N];
    let r = no_panic(what, || f(&x, &mut out))?;
    let ok = N >= 2 && N.is_power_of_two();
    if !ok {
        ensure!(r == Err(FftError::NonPowerOfTwoNoStd), "{what} N={N}: returned {r:?}");
        ensure!(out.iter().all(|v| *v == 4.25), "{what} N={N}: refused call changed its output");
        return Ok(0.0);
    }
    ensure!(r.is_ok(), "{what} N={N}: returned {r:?}");
    let floor = (rnorm(&v64(&xs)) * 0.5).max(1e-300);
    let a = rclose(&format!("{what} N={N} vs definition"), &v64(&out), &reference(&v64(&xs)), tol(N), floor)?;
    let b = rclose(&format!("{what} N={N} vs heap version"), &v64(&out), &v64(&heap(&xs)), 2.0 * tol(N), floor)?;
    Ok(a.max(b))
}
fn dct_stack<const N: usize>(sig: &Sig) -> Result<f64, String> {
    Ok(stack_one::<N>("dct1_inplace_stack", dct::dct1_inplace_stack, dct::dct1, r_dct1, sig)?.max(stack_one::<N>("dct2_inplace_stack", dct::dct2_inplace_stack, dct::dct2, r_dct2, sig)?))
}
fn dst_stack<const N: usize>(sig: &Sig) -> Result<f64, String> {
    let mut r = stack_one::<N>("dst2_inplace_stack", dst::dst2_inplace_stack, dst::dst2, r_dst2, sig)?;
    r = r.max(stack_one::<N>("dst2_inplace_stack_fft", dst::dst2_inplace_stack_fft, dst::dst2, r_dst2, sig)?);
    r = r.max(stack_one::<N>("dst3_inplace_stack_fft", dst::dst3_inplace_stack_fft, dst::dst3, r_dst3, sig)?);
    r = r.max(stack_one::<N>("dst4_inplace_stack", dst::dst4_inplace_stack, dst::dst4, r_dst4, sig)?);
    Ok(r)
}
fn sv(c: &LenSig, r: f64) -> Verdict {
    if c.n > 1 && !c.sig.trivial() { nt(if c.n.is_power_of_two() { "supported" } else { "refused" }) } else { triv("degenerate") }.r(r)
}
const R: &str = "case = (length, signal): all four types against their defining sums and inverse relations; non-trivial: length > 1 and signal non-zero";
const RB: &str = "case = items of mixed lengths; non-trivial: at least two different lengths";
const RS: &str = "case = (compile-time size, signal), every stack variant; non-trivial: size > 1, signal non-zero";
pub fn c13(r: &mut Reg) {
    r.sweep("dct-sweep", R, (0..=256).collect(), 6, at, |c| single(DCT, c));
    r.prop("dct-random", R, 1000, over(1usize..=300), |c| single(DCT, c));
    r.prop("dct-long", R, 20, over(300usize..=2100), |c| single(DCT, c));
    r.prop("dct-batch-many", RB, 20, items_upto(12, 200), |c| batches(DCT, c));
    r.prop("dct-batch-crowd", RB, 6, items_crowd(), |c| batches(DCT, c));
    r.prop("dct-vast", R, 1, over(4000usize..=9000), |c| single(DCT, c));
    r.prop("dct-batch-long", RB, 6, items_upto(900, 5), |c| batches(DCT, c));
    r.prop("dct-batch", RB, 800, items(80), |c| batches(DCT, c));
    r.sweep("dct-stack", RS, SIZES.to_vec(), 40, at, |c| Ok(sv(c, sizes!(dct_stack, c.n, &c.sig)?)));
    #[cfg(feature = "k-slow")]
    r.prop("dct-slow", R, 600, over(1usize..=200), |c: &LenSig| {
        let x = c.sig.real32(c.n);
        let fl = (rnorm(&v64(&x)) * 0.5).max(1e-300);
        let mut m = 0f64;
        for (w, f, k) in [("slow::dct2", dct::slow::dct2 as fn(&[f32]) -> Vec<f32>, r_dct2 as Kernel), ("slow::dct3", dct::slow::dct3, r_dct3), ("slow::dct4", dct::slow::dct4, r_dct4)] {
            m = m.max(rclose(&format!("{w} n={}", c.n), &v64(&f(&x)), &k(&v64(&x)), tol(c.n), fl)?);
        }
        Ok(if c.n > 1 && !c.sig.trivial() { nt(lenclass(c.n)) } else { triv("degenerate") }.r(m))
    });
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TabOps {
    ops: Vec<(u8, usize)>,
}
pub fn dst_tables<T: El + Default>(c: &TabOps) -> Res {
    let mut p = if c.ops.len() % 2 == 0 { dst::DstPlanner::<T>::new() } else { Default::default() };
    let mut worst = 0f64;
    for (k, (kind, n)) in c.ops.iter().enumerate() {
        let n = *n;
        let what = format!("request {k}: table kind {} length {n} {}", kind % 4, T::NAME);
        if kind % 4 == 3 {
            let s = p.scratch(n);
            ensure!(s.len() == n, "{what}: scratch has {} elements", s.len());
            for v in s.iter_mut() {
                *v = T::of(7.0);
            }
            continue;
        }
        let t: Vec<T> = match kind % 4 {
            0 => p.plan_dst2(n).to_vec(),
            1 => p.plan_dst3(n).to_vec(),
            _ => p.plan_dst4(n).to_vec(),
        };
        ensure!(t.len() == n, "{what}: {} entries", t.len());
        for (i, v) in t.iter().enumerate() {
            let want = if kind % 4 == 1 { spi(2 * i as u64, 2 * n as u64) } else { spi(2 * i as u64 + 1, 2 * n as u64) };
            let e = (v.f() - want).abs();
            let lim = 8.0 * T::EPS;
            ensure!(e <= lim, "{what}: entry {i} is {}, exact {want}", v.f());
            worst = worst.max(e / lim);
        }
    }
    let d: std::collections::BTreeSet<_> = c.ops.iter().map(|o| o.1).collect();
    Ok(if d.len() > 1 || c.ops[0].1 > 1 << 24 { nt("several lengths, or beyond 2^24") } else { triv("one length") }.r(worst))
}
pub fn tab_ops() -> impl Strategy<Value = TabOps> + Clone {
    proptest::collection::vec((any::<u8>(), prop_oneof![5 => 0usize..=200, 1 => 0usize..=5000]), 1..12).prop_map(|ops| TabOps { ops })
}
pub fn c14(r: &mut Reg) {
    r.sweep("dst-sweep", R, (0..=256).collect(), 6, at, |c| single(DST, c));
    r.prop("dst-random", R, 1000, over(1usize..=300), |c| single(DST, c));
    r.prop("dst-long", R, 20, over(300usize..=2100), |c| single(DST, c));
    r.prop("dst-batch-many", RB, 20, items_upto(12, 200), |c| batches(DST, c));
    r.prop("dst-batch-crowd", RB, 6, items_crowd(), |c| batches(DST, c));
    r.prop("dst-vast", R, 1, over(4000usize..=9000), |c| single(DST, c));
    r.prop("dst-batch-long", RB, 6, items_upto(900, 5), |c| batches(DST, c));
    r.prop("dst-batch", RB, 800, items(80), |c| batches(DST, c));
    r.sweep("dst-stack", RS, SIZES.to_vec(), 40, at, |c| Ok(sv(c, sizes!(dst_stack, c.n, &c.sig)?)));
    const RT: &str = "case = sequence of table and scratch requests on one planner, every entry against the exact sine; non-trivial: at least two lengths";
    r.prop("dst-tables-f32", RT, 600, tab_ops(), dst_tables::<f32>);
    r.prop("dst-tables-f64", RT, 600, tab_ops(), dst_tables::<f64>);
    r.prop("dst-tables-wide", RT, 30, proptest::collection::vec((any::<u8>(), 0usize..=300), 40..500).prop_map(|ops| TabOps { ops }), dst_tables::<f64>);
    r.prop_serial("dst-tables-vast-f64", RT, 1, (0usize..40_000, 0u8..3).prop_map(|(k, kind)| TabOps { ops: vec![(kind, 16_777_217 + k)] }), dst_tables::<f64>);
}
// ---- C15
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PlanOps {
    /// (length, runs of the plan: signal + length error)
    ops: Vec<(usize, Vec<(Sig, i8)>)>,
}
fn plan_ops(max: usize, k: usize) -> impl Strategy<Value = PlanOps> + Clone {
    proptest::collection::vec(
        (len_any(max), proptest::collection::vec((sig_nz(), prop_oneof![6 => Just(0i8), 1 => -1i8..=1]), 1..4)),
        1..k,
    )
    .prop_map(|ops| PlanOps { ops })
}
fn planned(c: &PlanOps) -> Res {
    let mut p = if c.ops.len() % 2 == 0 { dct::DctPlanner::new() } else { Default::default() };
    let mut ratio = 0f64;
    for (k, (n, runs)) in c.ops.iter().enumerate() {
        let n = *n;
        let mut plan = p.plan_dct2(n);
        for (q, (sig, d)) in runs.iter().enumerate() {
            let len = (n as i64 + *d as i64) as usize;
            let x = sig.real32(len);
            let mut a = x.clone();
            // output holds unrelated values before the call
            let mut out: Vec<f32> = (0..len).map(|i| 1e3 + i as f32).collect();
            let what = format!("plan {k} (n={n}) run {q}");
            let r = no_panic(&what, || plan(&mut a, &mut out))?;
            if len != n {
                ensure!(r == Err(FftError::MismatchedLengths), "{what}: data of length {len} gave {r:?}");
                ensure!(rbits(&a) == rbits(&x), "{what}: refused call changed its data");
                continue;
            }
            // both lengths must match
            let mut short = vec![0f32; n + 1];
            let mut b = x.clone();
            let r2 = no_panic(&what, || plan(&mut b, &mut short))?;
            ensure!(r2 == Err(FftError::MismatchedLengths), "{what}: output of length {} gave {r2:?}", n + 1);
            if !supported(n) {
                ensure!(r == Err(FftError::NonPowerOfTwoNoStd), "{what}: {r:?}");
                continue;
            }
            ensure!(r.is_ok(), "{what}: {r:?}");
            let xd = v64(&x);
            let floor = (rnorm(&xd) * 0.5).max(1e-300);
            ratio = ratio.max(rclose(&format!("{what} vs definition"), &v64(&out), &if n > 4000 { f_dct2(&xd) } else { r_dct2(&xd) }, 3.0 * tol_fft::<f32>(2 * n), floor)?);
            if n > 9000 {
                continue;
            }
            ratio = ratio.max(rclose(&format!("{what} vs dct2"), &v64(&out), &v64(&dct::dct2(&x)), tol(n) + 3.0 * tol_fft::<f32>(2 * n), floor)?);
        }
    }
    let d: std::collections::BTreeSet<_> = c.ops.iter().map(|o| o.0).collect();
    Ok(if d.iter().any(|n| *n > 1) { nt(format!("{} lengths", d.len().min(5))) } else { triv("length one") }.r(ratio))
}
pub fn c15(r: &mut Reg) {
    const R: &str = "case = sequence of plans (length) each run on several signals, right and wrong lengths, dirty outputs, one planner; non-trivial: some length > 1";
    r.prop("plan-history", R, 2000, plan_ops(300, 8), planned);
    r.prop("plan-history-wide", R, 8, proptest::collection::vec((1usize..=500, proptest::collection::vec((sig_nz(), Just(0i8)), 1..2)), 40..700).prop_map(|ops| PlanOps { ops }), planned);
    r.prop("plan-history-huge", R, 4, plan_ops(8000, 3), planned);
    r.prop("plan-history-vast", R, 4, proptest::collection::vec((prop_oneof![1 => pow2(12, 18), 1 => (1usize << 13..=1 << 18)], proptest::collection::vec((sig_nz(), Just(0i8)), 1..3)), 1..4).prop_map(|ops| PlanOps { ops }), planned);
    r.prop("plan-history-big", R, 60, plan_ops(2000, 6), planned);
    r.sweep("plan-each-length", R, (1..=300).collect(), 3, |n| (sig_nz(), sig_nz()).prop_map(move |(a, b)| PlanOps { ops: vec![(n, vec![(a.clone(), 0), (b.clone(), 0)]), (n / 2 + 1, vec![(b, 0)]), (n, vec![(a, 0)])] }), planned);
}
// ---- C16
fn hartley_case(c: &LenSig) -> Res {
    let v = single(DHT, c)?;
    // equals Re - Im of the DFT
    let x = c.sig.real32(c.n);
    let xr: Vec<C> = x.iter().map(|v| (*v as f64, 0.0)).collect();
    let want: Vec<f64> = dft(&xr).iter().map(|z| z.0 - z.1).collect();
    let y = hartley::dht(&x);
    let r = rclose(&format!("dht vs Re-Im of the DFT n={}", c.n), &v64(&y), &want, 2.0 * tol(c.n), (rnorm(&v64(&x)) * 0.5).max(1e-300))?;
    Ok(v.r(r))
}
pub fn c16(r: &mut Reg) {
    const R: &str = "case = (length, signal): definition, DFT relation, double application; non-trivial: length > 1 and signal non-zero";
    r.sweep("dht-sweep", R, (0..=256).collect(), 6, at, hartley_case);
    r.prop("dht-random", R, 600, over(1usize..=512), hartley_case);
    r.prop("dht-long", R, 10, over(500usize..=3000), hartley_case);
    r.prop("dht-batch-many", RB, 20, items_upto(12, 200), |c| batches(DHT, c));
    r.prop("dht-batch-crowd", RB, 6, items_crowd(), |c| batches(DHT, c));
    r.prop("dht-vast", R, 2, over(4000usize..=9000), hartley_case);
    r.prop("dht-batch-long", RB, 6, items_upto(900, 5), |c| batches(DHT, c));
    r.prop("dht-batch", RB, 800, items(120), |c| batches(DHT, c));
}
