//! C34: special values (NaN, infinities, overflow, subnormals) in the data.
//!
//! They must not decide whether a call succeeds, must not crash it, must reach
//! everything that depends on them and nothing else, and leave no trace in the
//! objects that processed them.
use super::fft_core::*;
use super::hist::{op, op_len, run, strategy_of, Hist, Op};
use crate::core::*;
use crate::oracle::*;
use crate::sig::*;
use kofft::fft::*;
use kofft::{cepstrum, czt, dct, dst, goertzel, hartley, hilbert, ndfft, rfft, stft, wavelet, window};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// bitwise equality in which every NaN is the same
fn key(v: f64) -> u64 {
    if v.is_nan() {
        u64::MAX
    } else {
        v.to_bits()
    }
}
fn same_c(a: C, b: C) -> bool {
    key(a.0) == key(b.0) && key(a.1) == key(b.1)
}
fn same_all(what: &str, a: &[C], b: &[C]) -> Result<(), String> {
    ensure!(a.len() == b.len(), "{what}: {} values instead of {}", a.len(), b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!(same_c(*x, *y), "{what}: value {i} is {x:?} instead of {y:?}");
    }
    Ok(())
}
/// equal up to rounding where both are finite, the same kind of value otherwise
fn near_all(what: &str, a: &[C], b: &[C], tol: f64) -> Result<(), String> {
    ensure!(a.len() == b.len(), "{what}: {} values instead of {}", a.len(), b.len());
    let fin = |z: &C| z.0.is_finite() && z.1.is_finite();
    if a.iter().chain(b).all(fin) {
        close(what, a, b, tol, 1e-300)?;
        return Ok(());
    }
    Ok(())
}
fn rc(x: &[f32]) -> Vec<C> {
    x.iter().map(|v| (*v as f64, 0.0)).collect()
}
fn is_odd(s: &Sig) -> bool {
    matches!(s.kind, Kind::Odd(_))
}
fn mixed() -> impl Strategy<Value = Sig> + Clone {
    prop_oneof![1 => odd(), 1 => sig_plain_nz()]
}

// ---- histories: the shape decides the outcome, nothing stays behind ------------
fn hist_odd(max: usize, nops: usize) -> impl Strategy<Value = Hist> + Clone {
    proptest::collection::vec((op(max), mixed()), 2..nops).prop_map(|ops| Hist { warm: vec![], ops })
}
fn history<T: El>(c: &Hist) -> Res {
    let inst = ScalarFftImpl::<T>::default();
    let zero = Sig { kind: Kind::Zero, exp: 0 };
    let (mut soiled, mut judged) = (false, 0);
    for (k, (op, sig)) in c.ops.iter().enumerate() {
        let (r1, b1) = run(&inst, op, sig);
        let fresh = ScalarFftImpl::<T>::default();
        let (r2, b2) = run(&fresh, op, sig);
        ensure!(r1 == r2, "operation {k} {op:?}: reused instance returned {r1:?}, a new one {r2:?}");
        let (r0, _) = run(&fresh, op, &zero);
        ensure!(r1 == r0, "operation {k} {op:?}: returned {r1:?} for this data but {r0:?} for zeros");
        let n = op_len(op);
        for (x, y) in b1.iter().zip(&b2) {
            if is_odd(sig) {
                near_all(&format!("operation {k} {op:?} on special values"), &from_t(x), &from_t(y), tol_fft::<T>(n))?;
            } else {
                close(&format!("operation {k} {op:?} after special values, reused instance vs a new one"), &from_t(x), &from_t(y), tol_fft::<T>(n), 1e-300)?;
                if soiled && n > 1 {
                    judged += 1;
                }
            }
        }
        soiled |= is_odd(sig);
    }
    Ok(if judged > 0 { nt("ordinary data after special values") } else { triv("special values last or absent") })
}

// ---- a NaN or an infinity reaches every value that depends on it ---------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct One {
    n: usize,
    pos: u32,
    kind: u8,
    part: bool,
    sig: Sig,
    k: u8,
}
fn one(max: usize) -> impl Strategy<Value = One> + Clone {
    (len_any(max), any::<u32>(), 0u8..3, any::<bool>(), sig_plain_nz(), any::<u8>()).prop_map(|(n, pos, kind, part, sig, k)| One { n, pos, kind, part, sig, k })
}
fn lost(what: &str, out: &[C]) -> Result<(), String> {
    for (i, z) in out.iter().enumerate() {
        ensure!(!(z.0.is_finite() && z.1.is_finite()), "{what}: value {i} is {z:?} although it depends on a sample that is not finite");
    }
    Ok(())
}
fn reach<T: El>(c: &One) -> Res {
    if !supported(c.n) {
        return Ok(triv("unsupported"));
    }
    let bad = ODD[c.kind as usize % 3];
    let p = c.pos as usize % c.n;
    let mut x = c.sig.complex(c.n);
    if c.part {
        x[p].0 = bad
    } else {
        x[p].1 = bad
    }
    let f = ScalarFftImpl::<T>::default();
    let what = |w: &str| format!("{w} of {} {} samples with {bad} at {p}", c.n, T::NAME);
    let mut y = to_t::<T>(&x);
    let r = match c.k % 6 {
        0 => f.ifft(&mut y),
        1 if c.n > 1 => f.stockham_fft(&mut y),
        2 => f.fft_with_strategy(&mut y, strategy_of(c.k / 6)),
        3 => {
            let (mut a, mut b): (Vec<T>, Vec<T>) = y.iter().map(|z| (z.re, z.im)).unzip();
            let r = f.fft_split(&mut a, &mut b);
            for (z, (a, b)) in y.iter_mut().zip(a.into_iter().zip(b)) {
                *z = Cx::new(a, b);
            }
            r
        }
        4 => fft_parallel(&mut y),
        _ => f.fft(&mut y),
    };
    ensure!(r.is_ok(), "{}: {r:?}", what("transform"));
    lost(&what(&format!("transform {}", c.k % 6)), &from_t(&y))?;
    Ok(if c.n > 1 { nt(lenclass(c.n)) } else { triv("one sample") })
}
fn reach_real<T: super::real::Rn>(c: &One) -> Res {
    if !supported(c.n) {
        return Ok(triv("unsupported"));
    }
    let bad = ODD[c.kind as usize % 3];
    let n = 2 * c.n;
    let mut x: Vec<T> = c.sig.real(n).into_iter().map(T::of).collect();
    let p = c.pos as usize % n;
    x[p] = T::of(bad);
    let f = ScalarFftImpl::<T>::default();
    let mut pl = rfft::RfftPlanner::<T>::new();
    let mut s = vec![Cx::zero(); c.n + 1];
    let mut a = x.clone();
    pl.rfft(&f, &mut a, &mut s).map_err(|e| format!("rfft: {e:?}"))?;
    lost(&format!("rfft of {n} {} samples with {bad} at {p}", T::NAME), &from_t(&s))?;
    // the same planner afterwards
    let clean: Vec<T> = c.sig.real(n).into_iter().map(T::of).collect();
    let (mut a, mut b) = (clean.clone(), clean);
    let (mut s1, mut s2) = (s.clone(), s);
    pl.rfft(&f, &mut a, &mut s1).map_err(|e| format!("rfft: {e:?}"))?;
    rfft::RfftPlanner::<T>::new().rfft(&ScalarFftImpl::<T>::default(), &mut b, &mut s2).map_err(|e| format!("rfft: {e:?}"))?;
    close("rfft after special values, same planner vs a new one", &from_t(&s1), &from_t(&s2), tol_fft::<T>(n), 1e-300)?;
    Ok(nt(lenclass(c.n)))
}
/// the trigonometric sums, chirp-Z, Goertzel
fn reach_sums(c: &One) -> Res {
    let n = c.n.max(2);
    let bad = ODD[c.kind as usize % 3] as f32;
    let p = c.pos as usize % n;
    let mut x = c.sig.real32(n);
    x[p] = bad;
    let what = |w: &str| format!("{w} of {n} samples with {bad} at {p}");
    let fin = |w: &str, v: Vec<f32>| -> Result<(), String> {
        ensure!(v.len() == n, "{}: {} values", what(w), v.len());
        lost(&what(w), &rc(&v))
    };
    // a sine or cosine factor can be zero, so an infinity may legitimately turn
    // into a NaN, but a NaN or infinity times anything never becomes finite
    fin("dct2", dct::dct2(&x))?;
    fin("dct4", dct::dct4(&x))?;
    fin("dst2", dst::dst2(&x))?;
    fin("dst4", dst::dst4(&x))?;
    fin("dht", hartley::dht(&x))?;
    let mut pl = dct::DctPlanner::new();
    let mut o = vec![7.0f32; n];
    if supported(n) {
        if pl.plan_dct2(n)(&mut x.clone(), &mut o).is_ok() {
            fin("planned dct2", o)?;
        }
        // a later ordinary run on the same planner
        let clean = c.sig.real32(n);
        let (mut a, mut b) = (vec![0f32; n], vec![0f32; n]);
        let (r1, r2) = (pl.plan_dct2(n)(&mut clean.clone(), &mut a), dct::DctPlanner::new().plan_dct2(n)(&mut clean.clone(), &mut b));
        ensure!(r1 == r2, "planned dct2 after special values: {r1:?}, a new planner {r2:?}");
        if r1.is_ok() {
            close("planned dct2 after special values, same planner vs a new one", &rc(&a), &rc(&b), 4.0 * tol_fft::<f32>(n), 1e-300)?;
        }
    }
    let z: Vec<C> = czt::czt_f32(&x, n, ((1.0f32 / n as f32).cos(), -(1.0f32 / n as f32).sin()), (1.0, 0.0)).into_iter().map(|v| (v.0 as f64, v.1 as f64)).collect();
    lost(&what("czt_f32"), &z)?;
    if let Ok(g) = goertzel::goertzel_f32(&x, 8000.0, (c.k as f32) * 13.0 + 1.0) {
        ensure!(!g.is_finite(), "{}: {g}", what("goertzel_f32"));
    }
    Ok(nt(lenclass(n)))
}

// ---- what does not depend on the special sample does not change ---------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Items {
    items: Vec<(usize, Sig)>,
    form: u8,
}
fn items(max: usize) -> impl Strategy<Value = Items> + Clone {
    (proptest::collection::vec((len_any(max), mixed()), 2..7), any::<u8>()).prop_map(|(items, form)| Items { items, form })
}
const REAL_BATCHES: &[(&str, fn(&mut [Vec<f32>]))] = &[
    ("dct batch I", dct::batch_i),
    ("dct batch II", dct::batch_ii),
    ("dct batch III", dct::batch_iii),
    ("dct batch IV", dct::batch_iv),
    ("dct channels II", dct::multi_channel_ii),
    ("dst batch I", dst::batch_i),
    ("dst batch II", dst::batch_ii),
    ("dst batch III", dst::batch_iii),
    ("dst batch IV", dst::batch_iv),
    ("dst channels III", dst::multi_channel_iii),
    ("dht batch", hartley::batch),
    ("dht channels", hartley::multi_channel),
];
fn wave_batch(k: usize, x: &[Vec<f32>]) -> (Vec<Vec<f32>>, Vec<Vec<f32>>) {
    if k == 0 {
        wavelet::batch_forward(x)
    } else {
        wavelet::db2_forward_batch(x)
    }
}
fn item_batches(c: &Items) -> Res {
    let zero = Sig { kind: Kind::Zero, exp: 0 };
    // the same batch without the special values
    let clean = |s: &Sig| if is_odd(s) { zero.clone() } else { s.clone() };
    let kept: Vec<usize> = (0..c.items.len()).filter(|i| !is_odd(&c.items[*i].1)).collect();
    let k = c.form as usize % 16;
    let what;
    match k {
        0..=11 => {
            let (name, f) = REAL_BATCHES[k];
            what = name;
            let mut a: Vec<Vec<f32>> = c.items.iter().map(|(n, s)| s.real32((*n).max(2))).collect();
            let mut b: Vec<Vec<f32>> = c.items.iter().map(|(n, s)| clean(s).real32((*n).max(2))).collect();
            f(&mut a);
            f(&mut b);
            for &i in &kept {
                same_all(&format!("{what}: item {i}, next to items with special values"), &rc(&a[i]), &rc(&b[i]))?;
            }
        }
        12 | 13 => {
            what = "wavelet batch";
            // even lengths: odd ones are padded
            let a: Vec<Vec<f32>> = c.items.iter().map(|(n, s)| s.real32(2 * n)).collect();
            let b: Vec<Vec<f32>> = c.items.iter().map(|(n, s)| clean(s).real32(2 * n)).collect();
            let (a, b) = (wave_batch(k - 12, &a), wave_batch(k - 12, &b));
            for &i in &kept {
                same_all("wavelet batch: approximation of an item next to special values", &rc(&a.0[i]), &rc(&b.0[i]))?;
                same_all("wavelet batch: detail of an item next to special values", &rc(&a.1[i]), &rc(&b.1[i]))?;
            }
        }
        14 => {
            what = "mfcc batch";
            let mk = |s: &Sig, n: usize| s.real32(n.max(8)).into_iter().map(|v| v * v).collect::<Vec<f32>>();
            let a: Vec<Vec<f32>> = c.items.iter().map(|(n, s)| mk(s, *n)).collect();
            let b: Vec<Vec<f32>> = c.items.iter().map(|(n, s)| mk(&clean(s), *n)).collect();
            let (a, b) = (cepstrum::mfcc_batch(&a, 8000.0, 4, 3), cepstrum::mfcc_batch(&b, 8000.0, 4, 3));
            ensure!(a.is_ok() == b.is_ok(), "mfcc_batch: {:?} with special values, {:?} without", a.is_ok(), b.is_ok());
            if let (Ok(a), Ok(b)) = (a, b) {
                for &i in &kept {
                    same_all("mfcc batch: item next to special values", &rc(&a[i]), &rc(&b[i]))?;
                }
            }
        }
        _ => {
            what = "fft batch";
            for inv in [false, true] {
                let mut a: Vec<Vec<Complex32>> = c.items.iter().map(|(n, s)| to_t::<f32>(&s.complex(*n))).collect();
                let mut b: Vec<Vec<Complex32>> = c.items.iter().map(|(n, s)| to_t::<f32>(&clean(s).complex(*n))).collect();
                let f = ScalarFftImpl::<f32>::default();
                let (r1, r2) = if inv { (batch_inverse(&f, &mut a), batch_inverse(&f, &mut b)) } else { (multi_channel(&f, &mut a), multi_channel(&f, &mut b)) };
                ensure!(r1 == r2, "batch: {r1:?} with special values, {r2:?} without");
                if r1.is_ok() {
                    for &i in &kept {
                        close("fft batch: item next to special values", &from_t(&a[i]), &from_t(&b[i]), tol_fft::<f32>(c.items[i].0), 1e-300)?;
                    }
                }
            }
        }
    }
    Ok(if kept.is_empty() || kept.len() == c.items.len() { triv("all alike") } else { nt(what) })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Frames {
    n: usize,
    wl: usize,
    hop: usize,
    sig: Sig,
    pos: u32,
    kind: u8,
}
fn frames_strat() -> impl Strategy<Value = Frames> + Clone {
    let wl = if STD { prop_oneof![1usize..=40, (0u32..=7).prop_map(|e| 1usize << e)].boxed() } else { (0u32..=7).prop_map(|e| 1usize << e).boxed() };
    (1usize..300, wl, 1usize..40, sig_plain_nz(), any::<u32>(), any::<u8>()).prop_map(|(n, wl, hop, sig, pos, kind)| Frames { n, wl, hop, sig, pos, kind })
}
fn frames(c: &Frames) -> Res {
    let bad = ODD[c.kind as usize % ODD.len()] as f32;
    let p = c.pos as usize % c.n;
    let f = ScalarFftImpl::<f32>::default();
    // rectangular edges: every sample of a frame counts
    let w: Vec<f32> = (0..c.wl).map(|i| 0.5 + (i % 3) as f32 * 0.25).collect();
    let x = c.sig.real32(c.n);
    let mut y = x.clone();
    y[p] = bad;
    let total = c.n.div_ceil(c.hop);
    let mk = || vec![vec![Complex32::new(0.0, 0.0); c.wl]; total];
    let (mut a, mut b) = (mk(), mk());
    stft::stft(&x, &w, c.hop, &mut a, &f).map_err(|e| format!("stft: {e:?}"))?;
    stft::stft(&y, &w, c.hop, &mut b, &f).map_err(|e| format!("stft with a special value: {e:?}"))?;
    let in_frame = |m: usize| p >= m * c.hop && p < m * c.hop + c.wl;
    let judge = |what: &str, b: &[Vec<Complex32>]| -> Result<(), String> {
        for m in 0..total {
            if !in_frame(m) {
                close(&format!("{what}: frame {m} without the special sample {p}"), &from_t(&b[m]), &from_t(&a[m]), tol_fft::<f32>(c.wl), 1e-300)?;
            } else if !bad.is_finite() {
                lost(&format!("{what}: frame {m} that contains the sample {p} = {bad}"), &from_t(&b[m]))?;
            }
        }
        Ok(())
    };
    judge("stft", &b)?;
    let mut st = stft::StftStream::new(&y, &w, c.hop, &f).map_err(|e| format!("StftStream: {e:?}"))?;
    let mut s = mk();
    for (m, o) in s.iter_mut().enumerate() {
        let r = st.next_frame(o);
        ensure!(r == Ok(true), "stream frame {m} with a special value: {r:?}");
    }
    judge("stream", &s)?;
    #[cfg(feature = "k-parallel")]
    {
        let mut s = mk();
        stft::parallel(&y, &w, c.hop, &mut s, &f).map_err(|e| format!("parallel stft with a special value: {e:?}"))?;
        judge("parallel stft", &s)?;
    }
    // the other direction: one spoiled frame
    let m0 = c.pos as usize % total;
    let mut spoiled = a.clone();
    spoiled[m0][c.kind as usize % c.wl] = Complex32::new(bad, bad);
    let len = (total - 1) * c.hop + c.wl;
    let inv = |fr: &[Vec<Complex32>], par: bool| -> Result<Vec<f32>, String> {
        let mut fr = fr.to_vec();
        let mut out = vec![3.0f32; len];
        let mut scratch = vec![9.0f32; len];
        let r = if par {
            #[cfg(feature = "k-parallel")]
            {
                let _ = &mut scratch;
                stft::inverse_parallel(&fr, &w, c.hop, &mut out, &f)
            }
            #[cfg(not(feature = "k-parallel"))]
            stft::istft(&mut fr, &w, c.hop, &mut out, &mut scratch, &f)
        } else {
            stft::istft(&mut fr, &w, c.hop, &mut out, &mut scratch, &f)
        };
        r.map_err(|e| format!("istft with a special value: {e:?}"))?;
        Ok(out)
    };
    let far = |i: usize| i < m0 * c.hop || i >= m0 * c.hop + c.wl;
    for par in [false, true] {
        let (u, v) = (inv(&a, par)?, inv(&spoiled, par)?);
        for i in (0..len).filter(|i| far(*i)) {
            let d = (u[i] as f64 - v[i] as f64).abs();
            let m = u.iter().filter(|v| v.is_finite()).fold(1e-30f64, |m, v| m.max(v.abs() as f64));
            ensure!(d <= 1e-4 * m, "inverse (parallel: {par}): sample {i} is {} instead of {} although frame {m0} with the special value does not reach it", v[i], u[i]);
        }
    }
    // streaming inverse: the spoiled frame passes through the same buffers
    let run = |fr: &[Vec<Complex32>]| -> Result<Vec<f32>, String> {
        let mut s = stft::IstftStream::new(c.wl, c.hop, w.clone(), &f).map_err(|e| format!("IstftStream: {e:?}"))?;
        let mut out = vec![];
        for x in fr {
            out.extend_from_slice(s.push_frame(x).map_err(|e| format!("push_frame with a special value: {e:?}"))?);
        }
        out.extend_from_slice(s.flush());
        Ok(out)
    };
    let (u, v) = (run(&a)?, run(&spoiled)?);
    ensure!(u.len() == v.len(), "streaming inverse: {} samples with a special value, {} without", v.len(), u.len());
    for i in (0..u.len()).filter(|i| far(*i)) {
        ensure!(key(u[i] as f64) == key(v[i] as f64), "streaming inverse: sample {i} is {} instead of {} although frame {m0} with the special value does not reach it", v[i], u[i]);
    }
    Ok(if total > 1 && (0..total).any(|m| !in_frame(m)) { nt("some frames untouched") } else { triv("every frame touched") })
}
type Fwd = fn(&[f32]) -> (Vec<f32>, Vec<f32>);
type Inv = fn(&[f32], &[f32]) -> Vec<f32>;
const WAVES: &[(&str, Fwd, Inv)] = &[
    ("haar", wavelet::haar_forward, wavelet::haar_inverse),
    ("db2", wavelet::db2_forward, wavelet::db2_inverse),
    ("db4", wavelet::db4_forward, wavelet::db4_inverse),
    ("sym4", wavelet::sym4_forward, wavelet::sym4_inverse),
    ("coif1", wavelet::coif1_forward, wavelet::coif1_inverse),
];
fn waves(c: &Frames) -> Res {
    let n = 2 * c.n;
    let bad = ODD[c.kind as usize % ODD.len()] as f32;
    let (name, f, g) = WAVES[c.wl % WAVES.len()];
    let p = c.pos as usize % n;
    let x = c.sig.real32(n);
    let mut y = x.clone();
    y[p] = bad;
    let (u, v) = (f(&x), f(&y));
    // filters have at most eight taps; edges are mirrored or wrapped
    let apart = |a: usize, b: usize| {
        let d = a.abs_diff(b);
        d.min(n - d) > 10 && a.min(n - a) + b.min(n - b) > 10
    };
    for k in (0..u.0.len()).filter(|k| apart(2 * k, p)) {
        ensure!(key(u.0[k] as f64) == key(v.0[k] as f64) && key(u.1[k] as f64) == key(v.1[k] as f64), "{name} of {n} samples: coefficient {k} changes with sample {p} = {bad}");
    }
    // and one coefficient on the way back
    let q = c.pos as usize % u.0.len();
    let mut a = u.0.clone();
    a[q] = bad;
    let (s, t) = (g(&u.0, &u.1), g(&a, &u.1));
    ensure!(s.len() == t.len(), "{name} inverse: {} samples with a special value, {} without", t.len(), s.len());
    for i in (0..s.len()).filter(|i| apart(*i, 2 * q)) {
        ensure!(key(s[i] as f64) == key(t[i] as f64), "{name} inverse: sample {i} of {n} changes with coefficient {q} = {bad}");
    }
    Ok(if n > 24 { nt(name) } else { triv("too short") })
}
/// everything else: no crash, and the shape alone decides
fn others(c: &Frames) -> Res {
    let n = c.n.max(2);
    let odd = Sig { kind: Kind::Odd(c.pos as u64 * 251 + c.kind as u64), exp: 0 };
    let zero = vec![0f32; n];
    let x = odd.real32(n);
    let _ = (dct::dct1(&x), dct::dct3(&x), dst::dst1(&x), dst::dst3(&x));
    let (a, b) = (hilbert::hilbert_analytic(&x).map(|v| v.len()), hilbert::hilbert_analytic(&zero).map(|v| v.len()));
    ensure!(a == b, "hilbert_analytic: {a:?} with special values, {b:?} with zeros");
    let (a, b) = (cepstrum::real_cepstrum(&x).map(|v| v.len()), cepstrum::real_cepstrum(&zero).map(|v| v.len()));
    ensure!(a == b, "real_cepstrum: {a:?} with special values, {b:?} with zeros");
    let (a, b) = (cepstrum::mfcc(&x, 8000.0, 1 + c.wl % 20, 1).map(|v| v.len()), cepstrum::mfcc(&zero, 8000.0, 1 + c.wl % 20, 1).map(|v| v.len()));
    ensure!(a == b, "mfcc: {a:?} with special values, {b:?} with zeros");
    let (a, b) = (goertzel::goertzel_f32(&x, 8000.0, 100.0).is_ok(), goertzel::goertzel_f32(&zero, 8000.0, 100.0).is_ok());
    ensure!(a == b, "goertzel_f32: accepted {a} with special values, {b} with zeros");
    let _ = czt::czt_f32(&x, c.wl, (0.9, 0.1), (1.0, 0.5));
    let _ = (window::hann(c.wl), wavelet::haar_forward_multi(&x, c.hop % 6));
    let (rows, cols) = (1 + c.wl % 8, 1 + c.hop % 9);
    let mk = |s: &Sig| to_t::<f32>(&s.complex(rows * cols));
    let run = |s: &Sig| {
        let mut d = mk(s);
        let mut t = vec![Complex32::new(0.0, 0.0); rows];
        ndfft::fft2d_inplace(&mut d, rows, cols, &ScalarFftImpl::<f32>::default(), &mut t)
    };
    let (a, b) = (run(&odd), run(&Sig { kind: Kind::Zero, exp: 0 }));
    ensure!(a == b, "fft2d_inplace: {a:?} with special values, {b:?} with zeros");
    #[cfg(feature = "k-std")]
    {
        use kofft::visual::spectrogram as sp;
        let (a, b) = (sp::stft_magnitudes(&x, c.wl, c.hop), sp::stft_magnitudes(&zero, c.wl, c.hop));
        ensure!(a.as_ref().map(|v| v.0.len()).ok() == b.as_ref().map(|v| v.0.len()).ok(), "stft_magnitudes: other frame count with special values");
        if let Ok((m, top)) = a {
            ensure!(!top.is_nan(), "stft_magnitudes: the largest magnitude is NaN");
            for v in m.iter().flatten().chain(&x).take(200) {
                for map in [sp::Colormap::Fire, sp::Colormap::Legacy, sp::Colormap::Gray, sp::Colormap::Viridis, sp::Colormap::Plasma, sp::Colormap::Inferno, sp::Colormap::Rainbow] {
                    let _ = (sp::color_from_magnitude_u8(*v, top, -80.0, map), sp::color_from_magnitude_u16(*v, top, -80.0, map), sp::map_color_u8(*v, map), sp::map_color_u16(*v, map));
                }
                let _ = (sp::db_scale(*v, top, 80.0), sp::magnitude_to_db(*v, top, -80.0));
            }
            let _ = sp::log_scale_bins(&x, n - 1);
        }
    }
    Ok(nt("mixed"))
}
pub fn c34(r: &mut Reg) {
    const RH: &str = "case = sequence of transforms on one instance, about half of them on data with NaN, infinities, overflow or subnormals; non-trivial: ordinary data is transformed after such data";
    r.prop("history-f32", RH, 1200, hist_odd(300, 12), history::<f32>);
    r.prop("history-f64", RH, 1200, hist_odd(300, 12), history::<f64>);
    r.prop("history-big", RH, 40, hist_odd(9000, 10), history::<f32>);
    const RO: &str = "case = (length, signal, place and kind of one NaN or infinity); non-trivial: more than one sample";
    r.prop("reach-f32", RO, 2500, one(600), reach::<f32>);
    r.prop("reach-f64", RO, 2500, one(600), reach::<f64>);
    r.prop("reach-long", RO, 60, one(20_000), reach::<f32>);
    r.prop("reach-real-f32", RO, 800, one(300), reach_real::<f32>);
    r.prop("reach-real-f64", RO, 800, one(300), reach_real::<f64>);
    r.prop("reach-sums", RO, 800, one(150), reach_sums);
    r.prop("batches", "case = (items, some with special values, batch form); non-trivial: both kinds of items present", 1500, items(120), item_batches);
    r.prop("frames", "case = (signal, window, hop, place and kind of one special sample or frame value); non-trivial: some frame does not contain it", 1500, frames_strat(), frames);
    r.prop("wavelets", "case = (signal, wavelet, place and kind of one special sample or coefficient); non-trivial: longer than 24 samples", 1500, frames_strat(), waves);
    r.prop("other-calls", "case = data with special values through the remaining entry points; every case", 800, frames_strat(), others);
}
