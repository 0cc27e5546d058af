//! C05: layouts.  C06: batches, tuning, threads.
use super::fft_core::*;
use super::hist::strategy_of;
use crate::core::*;
use crate::oracle::*;
use crate::sig::*;
use kofft::fft::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lay {
    pub n: usize,
    pub stride: usize,
    pub tail: usize,
    pub ostride: usize,
    pub inv: bool,
    pub sig: Sig,
}
pub fn lay(max: usize) -> impl Strategy<Value = Lay> + Clone {
    (len_any(max), 1usize..9, 0usize..9, 1usize..9, any::<bool>(), sig_nz())
        .prop_map(|(n, stride, tail, ostride, inv, sig)| Lay { n, stride, tail, ostride, inv, sig })
}
/// The in-place transform of `x` by the same implementation; the refusal of
/// unsupported lengths is returned as the error.
fn base<T: El>(f: &dyn FftImpl<T>, x: &[Cx<T>], inv: bool) -> Result<Vec<Cx<T>>, FftError> {
    let mut y = x.to_vec();
    if inv {
        f.ifft(&mut y)?
    } else {
        f.fft(&mut y)?
    }
    Ok(y)
}
fn same<T: El>(what: &str, n: usize, r: Result<(), FftError>, got: &[Cx<T>], want: &Result<Vec<Cx<T>>, FftError>) -> Result<f64, String> {
    match want {
        Ok(w) => {
            ensure!(r.is_ok(), "{what}: returned {r:?} although the in-place transform succeeds");
            close(what, &from_t(got), &from_t(w), tol_fft::<T>(n), 1e-300)
        }
        Err(e) => {
            ensure!(r == Err(*e), "{what}: returned {r:?}, the in-place transform {e:?}");
            Ok(0.0)
        }
    }
}
fn untouched<T: El>(what: &str, before: &[Cx<T>], after: &[Cx<T>], addressed: impl Fn(usize) -> bool) -> Result<(), String> {
    for (k, (a, b)) in before.iter().zip(after).enumerate() {
        if !addressed(k) {
            ensure!(
                a.re.f().to_bits() == b.re.f().to_bits() && a.im.f().to_bits() == b.im.f().to_bits(),
                "{what}: element {k} outside the addressed set changed from {:?} to {:?}", (a.re.f(), a.im.f()), (b.re.f(), b.im.f())
            );
        }
    }
    Ok(())
}
pub fn layouts_of<T: El>(name: &str, f: &dyn FftImpl<T>, c: &Lay) -> Result<f64, String> {
    let (n, s) = (c.n, c.stride);
    let mut ratio = 0f64;
    let full = to_t::<T>(&c.sig.complex(n * s + c.tail));
    let w = |m: &str| format!("{name}.{m} n={n} stride={s} tail={} ostride={} inv={} {}", c.tail, c.ostride, c.inv, T::NAME);

    // strided, caller scratch: n elements at k*stride
    let g: Vec<Cx<T>> = (0..n).map(|k| full[k * s]).collect();
    let want = base(f, &g, c.inv);
    {
        // shortest legal buffer up to the full one
        let minlen = (n - 1) * s + 1;
        for len in [minlen, full.len()] {
            let mut v = full[..len].to_vec();
            let mut scratch = vec![Cx::new(T::of(3.5), T::of(-1.0)); n];
            let r = if c.inv { f.ifft_strided(&mut v, s, &mut scratch) } else { f.fft_strided(&mut v, s, &mut scratch) };
            let got: Vec<Cx<T>> = (0..n).map(|k| v[k * s]).collect();
            ratio = ratio.max(same(&w("strided"), n, r, &got, &want)?);
            let ok = r.is_ok();
            untouched(&w("strided"), &full[..len], &v, |k| ok && k % s == 0 && k / s < n)?;
        }
    }
    // strided, internal scratch: len/stride elements
    {
        let mut v = full.clone();
        let m = full.len() / s;
        let gm: Vec<Cx<T>> = (0..m).map(|k| full[k * s]).collect();
        let wantm = base(f, &gm, c.inv);
        let r = if c.inv { f.ifft_strided_alloc(&mut v, s) } else { f.fft_strided_alloc(&mut v, s) };
        let got: Vec<Cx<T>> = (0..m).map(|k| v[k * s]).collect();
        ratio = ratio.max(same(&w("strided_alloc"), m, r, &got, &wantm)?);
        let ok = r.is_ok();
        untouched(&w("strided_alloc"), &full, &v, |k| ok && k % s == 0 && k / s < m)?;
    }
    // strided to strided
    {
        let inp = &full[..n * s];
        let mut out = to_t::<T>(&Sig { kind: Kind::Noise(99), exp: 0 }.complex(n * c.ostride));
        let out0 = out.clone();
        let r = if c.inv {
            f.ifft_out_of_place_strided(inp, s, &mut out, c.ostride)
        } else {
            f.fft_out_of_place_strided(inp, s, &mut out, c.ostride)
        };
        let got: Vec<Cx<T>> = (0..n).map(|k| out[k * c.ostride]).collect();
        ratio = ratio.max(same(&w("out_of_place_strided"), n, r, &got, &want)?);
        let ok = r.is_ok();
        untouched(&w("out_of_place_strided"), &out0, &out, |k| ok && k % c.ostride == 0)?;
    }
    // out of place, contiguous
    {
        let mut out = to_t::<T>(&Sig { kind: Kind::Noise(98), exp: 3 }.complex(n));
        let r = if c.inv { f.ifft_out_of_place(&g, &mut out) } else { f.fft_out_of_place(&g, &mut out) };
        ratio = ratio.max(same(&w("out_of_place"), n, r, &out, &want)?);
    }
    // split storage
    {
        let mut re: Vec<T> = g.iter().map(|z| z.re).collect();
        let mut im: Vec<T> = g.iter().map(|z| z.im).collect();
        let r = if c.inv { f.ifft_split(&mut re, &mut im) } else { f.fft_split(&mut re, &mut im) };
        let got: Vec<Cx<T>> = re.iter().zip(&im).map(|(a, b)| Cx::new(*a, *b)).collect();
        ratio = ratio.max(same(&w("split"), n, r, &got, &want)?);
        if want.is_err() {
            ensure!(bits(&got) == bits(&g), "{}: refused call changed its data", w("split"));
        }
    }
    Ok(ratio)
}
pub fn free_fns<T: El>(c: &Lay) -> Result<f64, String> {
    let n = c.n;
    let x = to_t::<T>(&c.sig.complex(n));
    let f = ScalarFftImpl::<T>::default();
    let want = base(&f, &x, c.inv);
    let mut ratio = 0f64;
    for k in 0..2 {
        let mut re: Vec<T> = x.iter().map(|z| z.re).collect();
        let mut im: Vec<T> = x.iter().map(|z| z.im).collect();
        let r = match (k, c.inv) {
            (0, false) => fft_split(&mut re, &mut im),
            (0, true) => ifft_split(&mut re, &mut im),
            (_, false) => fft_split_complex(SplitComplex::new(&mut re, &mut im)),
            (_, true) => ifft_split_complex(SplitComplex::new(&mut re, &mut im)),
        };
        let got: Vec<Cx<T>> = re.iter().zip(&im).map(|(a, b)| Cx::new(*a, *b)).collect();
        ratio = ratio.max(same(&format!("free split function {k} n={n}"), n, r, &got, &want)?);
    }
    // lossless conversions
    let mut re = vec![T::zero(); n];
    let mut im = vec![T::zero(); n];
    copy_from_complex(&x, &mut re, &mut im);
    for k in 0..n {
        ensure!(re[k].f().to_bits() == x[k].re.f().to_bits() && im[k].f().to_bits() == x[k].im.f().to_bits(), "copy_from_complex: element {k} differs");
    }
    let mut back = vec![Cx::zero(); n];
    copy_to_complex(&re, &im, &mut back);
    ensure!(bits(&back) == bits(&x), "copy_from/to_complex does not round-trip (n={n})");
    let (mut r2, mut i2) = (vec![T::zero(); n], vec![T::zero(); n]);
    let sc = SplitComplex::copy_from_complex(&x, &mut r2, &mut i2);
    ensure!(sc.len() == n && sc.is_empty() == (n == 0), "SplitComplex length");
    let mut back = vec![Cx::zero(); n];
    sc.copy_to_complex(&mut back);
    ensure!(bits(&back) == bits(&x), "SplitComplex copy does not round-trip (n={n})");
    Ok(ratio)
}
fn soa(c: &Lay) -> Result<f64, String> {
    let n = c.n;
    let x = to_t::<f32>(&c.sig.complex(n));
    #[allow(unused_mut)]
    let mut ratio = 0f64;
    let (mut re, mut im) = (vec![0f32; n], vec![0f32; n]);
    let sc = complex32_to_split(&x, &mut re, &mut im);
    let mut back = vec![Cx::zero(); n];
    split_to_complex32(&sc, &mut back);
    ensure!(bits(&back) == bits(&x), "complex32_to_split round trip (n={n})");
    use kofft::num::ComplexVec;
    let cv = ComplexVec::from_complex_vec(&x);
    ensure!(cv.len() == n && cv.is_empty() == (n == 0), "ComplexVec length");
    for k in 0..n {
        ensure!(cv.re[k].to_bits() == x[k].re.to_bits() && cv.im[k].to_bits() == x[k].im.to_bits(), "ComplexVec element {k}");
    }
    ensure!(bits(&cv.to_complex_vec()) == bits(&x), "ComplexVec round trip");
    let cv2: ComplexVec = x.clone().into();
    let v2: Vec<Cx<f32>> = cv2.into();
    ensure!(bits(&v2) == bits(&x), "ComplexVec From round trip");
    #[cfg(feature = "k-simd")]
    {
        let f = ScalarFftImpl::<f32>::default();
        let want = base(&f, &x, c.inv);
        let mut v = ComplexVec::from_complex_vec(&x);
        let r = if c.inv { ifft_complex_vec(&mut v) } else { fft_complex_vec(&mut v) };
        ratio = ratio.max(same("fft_complex_vec", n, r, &v.to_complex_vec(), &want)?);
        #[cfg(feature = "k-std")]
        {
            let p = FftPlan::<f32>::new(n, strategy_of(c.stride as u8));
            let mut v = ComplexVec::from_complex_vec(&x);
            let r = if c.inv { p.ifft_complex_vec(&mut v) } else { p.fft_complex_vec(&mut v) };
            ratio = ratio.max(same("plan.fft_complex_vec", n, r, &v.to_complex_vec(), &want)?);
            let mut w = ComplexVec::from_complex_vec(&x[..n - 1]);
            let r = if c.inv { p.ifft_complex_vec(&mut w) } else { p.fft_complex_vec(&mut w) };
            ensure!(r == Err(FftError::MismatchedLengths) && bits(&w.to_complex_vec()) == bits(&x[..n - 1]), "plan.fft_complex_vec with a wrong length: {r:?}");
        }
    }
    let _ = strategy_of;
    Ok(ratio)
}
pub fn l_verdict(c: &Lay, ratio: f64) -> Verdict {
    let v = if c.n > 1 && c.stride > 1 { nt(format!("{}-tail{}", lenclass(c.n), c.tail.min(1))) } else { triv("contiguous or length one") };
    v.r(ratio)
}
fn l64(c: &Lay) -> Res {
    let mut r = layouts_of::<f64>("scalar", &ScalarFftImpl::<f64>::default(), c)?;
    r = r.max(free_fns::<f64>(c)?);
    Ok(l_verdict(c, r))
}
fn l32(c: &Lay) -> Res {
    let mut r = layouts_of::<f32>("scalar", &ScalarFftImpl::<f32>::default(), c)?;
    r = r.max(free_fns::<f32>(c)?);
    r = r.max(soa(c)?);
    Ok(l_verdict(c, r))
}
fn l_auto(c: &Lay) -> Res {
    let b = new_fft_impl();
    let mut r = layouts_of::<f32>("auto-selected", b.as_ref(), c)?;
    #[cfg(target_arch = "x86_64")]
    {
        r = r.max(layouts_of::<f32>("SimdFftX86_64Impl", &SimdFftX86_64Impl, c)?);
    }
    Ok(l_verdict(c, r))
}
pub fn c05(r: &mut Reg) {
    const R: &str = "case = (n, stride, extra tail elements, output stride, direction, signal) run through every layout; non-trivial: n > 1 and stride > 1";
    r.prop("layouts-f32", R, 2500, lay(160), l32);
    r.prop("layouts-f64", R, 2500, lay(160), l64);
    r.prop("layouts-auto", R, 2000, lay(160), l_auto);
    r.prop("layouts-wide-f32", R, 200, lay(60).prop_map(|mut c| { c.stride = c.stride * c.stride * 9 + c.tail; c.ostride *= 13; c }), l32);
    r.prop("layouts-wide-f64", R, 200, lay(60).prop_map(|mut c| { c.stride = c.stride * c.stride * 9 + c.tail; c.ostride *= 13; c }), l64);
    r.prop("layouts-big-f32", R, 120, lay(5000), l32);
    r.prop("layouts-big-f64", R, 120, lay(5000), l64);
    let one = |n: usize| (1usize..4, 0usize..4, 1usize..4, any::<bool>(), sig_nz()).prop_map(move |(stride, tail, ostride, inv, sig)| Lay { n, stride, tail, ostride, inv, sig });
    r.sweep("layouts-sweep-f32", R, (1..=200).collect(), 3, one, l32);
    r.sweep("layouts-sweep-f64", R, (1..=200).collect(), 3, one, l64);
    r.sweep("layouts-sweep-auto", R, (1..=200).collect(), 2, one, l_auto);
    let one = |n: usize| (1usize..4, 0usize..4, 1usize..4, any::<bool>(), sig_nz()).prop_map(move |(stride, tail, ostride, inv, sig)| Lay { n, stride, tail, ostride, inv, sig });
    r.sweep("layouts-pow2-f32", R, (0..=15).map(|e| 1usize << e).collect(), 3, one, l32);
    r.sweep("layouts-pow2-f64", R, (0..=15).map(|e| 1usize << e).collect(), 3, one, l64);
}

// ---------------------------------------------------------------- C06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Batch {
    pub items: Vec<(usize, Sig)>,
    pub inv: bool,
    pub channels: bool,
}
pub fn batch_strat(max: usize) -> impl Strategy<Value = Batch> + Clone {
    batch_upto(max, 8)
}
pub fn batch_upto(max: usize, count: usize) -> impl Strategy<Value = Batch> + Clone {
    (
        proptest::collection::vec((prop_oneof![12 => len_any(max), 1 => Just(0usize)], sig_nz()), 0..count),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(items, inv, channels)| Batch { items, inv, channels })
}
pub fn batch_crowd() -> impl Strategy<Value = Batch> + Clone {
    (crowd(9), any::<bool>(), any::<bool>()).prop_map(|(items, inv, channels)| Batch { items, inv, channels })
}
pub fn batches<T: El>(c: &Batch) -> Res {
    batches_on::<T, _>(&ScalarFftImpl::<T>::default(), c)
}
pub fn batches_on<T: El, F: FftImpl<T>>(f: &F, c: &Batch) -> Res {
    let orig: Vec<Vec<Cx<T>>> = c.items.iter().map(|(n, s)| to_t::<T>(&s.complex(*n))).collect();
    let mut b = orig.clone();
    let r = match (c.inv, c.channels) {
        (false, false) => batch(f, &mut b),
        (false, true) => multi_channel(f, &mut b),
        (true, false) => batch_inverse(f, &mut b),
        (true, true) => multi_channel_inverse(f, &mut b),
    };
    let mut ratio = 0f64;
    let mut expect = Ok(());
    for (k, x) in orig.iter().enumerate() {
        match base(&ScalarFftImpl::<T>::default(), x, c.inv) {
            Ok(w) => {
                if expect.is_ok() {
                    ratio = ratio.max(close(&format!("batch item {k} of {}", orig.len()), &from_t(&b[k]), &from_t(&w), tol_fft::<T>(x.len()), 1e-300)?);
                }
            }
            Err(e) => {
                if expect.is_ok() {
                    expect = Err(e);
                }
            }
        }
        ensure!(b[k].len() == x.len(), "batch item {k} changed its length");
    }
    ensure!(r == expect, "batch returned {r:?}, item by item the first result is {expect:?} (lengths {:?})", c.items.iter().map(|i| i.0).collect::<Vec<_>>());
    let lens: std::collections::BTreeSet<usize> = c.items.iter().map(|i| i.0).collect();
    let v = if lens.len() > 1 { nt(if expect.is_err() { "mixed lengths with refusal" } else { "mixed lengths" }) } else { triv("uniform") };
    Ok(v.r(ratio))
}
pub fn parallel_fns<T: El>(c: &LenSig) -> Res {
    let x = to_t::<T>(&c.sig.complex(c.n));
    let mut ratio = 0f64;
    for inv in [false, true] {
        let want = base(&ScalarFftImpl::<T>::default(), &x, inv);
        let mut y = x.clone();
        let r = if inv { ifft_parallel(&mut y) } else { fft_parallel(&mut y) };
        ratio = ratio.max(same("fft_parallel/ifft_parallel", c.n, r, &y, &want)?);
    }
    let v = if c.n > 1 && !c.sig.trivial() { nt(lenclass(c.n)) } else { triv(lenclass(c.n)) };
    Ok(v.r(ratio))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Knob {
    Threshold(usize),
    L1(usize),
    PerCore(usize),
    Threads(usize),
    Block(usize),
    Run(usize, Sig, u8),
}
#[cfg(feature = "k-parallel")]
pub mod tuned {
    use super::*;
    fn val() -> impl Strategy<Value = usize> + Clone {
        prop_oneof![3 => Just(0usize), 3 => 1usize..200, 1 => 200usize..1_000_000, 1 => (0u32..64, -2i64..3).prop_map(|(e, d)| (1usize << e).wrapping_add(d as usize))]
    }
    pub fn knobs() -> impl Strategy<Value = Vec<Knob>> + Clone {
        knobs_of(2000, 14)
    }
    pub fn knobs_of(max: usize, count: usize) -> impl Strategy<Value = Vec<Knob>> + Clone {
        proptest::collection::vec(
            prop_oneof![
                2 => val().prop_map(Knob::Threshold),
                1 => val().prop_map(Knob::L1),
                1 => val().prop_map(Knob::PerCore),
                1 => val().prop_map(Knob::Threads),
                1 => val().prop_map(Knob::Block),
                5 => (len_any(max), sig_nz(), any::<u8>()).prop_map(|(n, s, k)| Knob::Run(n, s, k)),
            ],
            2..count,
        )
    }
    fn reset() {
        set_parallel_fft_threshold(0);
        set_parallel_fft_l1_cache(0);
        set_parallel_fft_per_core_work(0);
        set_parallel_fft_threads(0);
        set_parallel_fft_block_size(0);
    }
    fn one<T: El>(f: &ScalarFftImpl<T>, n: usize, s: &Sig, k: u8) -> Result<f64, String> {
        let x = to_t::<T>(&s.complex(n));
        let xr = from_t(&x);
        let inv = k & 1 == 1;
        let mut y = x.clone();
        let r = match (k >> 1) % 4 {
            0 => if inv { f.ifft(&mut y) } else { f.fft(&mut y) },
            1 => if inv { ifft_parallel(&mut y) } else { fft_parallel(&mut y) },
            2 => {
                let mut v = vec![y.clone()];
                let r = if inv { batch_inverse(f, &mut v) } else { batch(f, &mut v) };
                y = v.pop().unwrap();
                r
            }
            _ => {
                let p = FftPlan::<T>::new(n, FftStrategy::Auto);
                if inv { p.ifft(&mut y) } else { p.fft(&mut y) }
            }
        };
        if inv { check_inv("tuned inverse", &xr, r, &x, &y) } else { check_fwd("tuned forward", &xr, r, &x, &y) }
    }
    pub fn run(c: &Vec<Knob>) -> Res {
        reset();
        let f32i = ScalarFftImpl::<f32>::default();
        let f64i = ScalarFftImpl::<f64>::default();
        let mut ratio = 0f64;
        let (mut set, mut runs) = (0, 0);
        for k in c {
            match k {
                Knob::Threshold(v) => set_parallel_fft_threshold(*v),
                Knob::L1(v) => set_parallel_fft_l1_cache(*v),
                Knob::PerCore(v) => set_parallel_fft_per_core_work(*v),
                Knob::Threads(v) => set_parallel_fft_threads(*v),
                Knob::Block(v) => set_parallel_fft_block_size(*v),
                Knob::Run(n, s, m) => {
                    runs += 1;
                    let res = one::<f32>(&f32i, *n, s, *m).and_then(|a| Ok(a.max(one::<f64>(&f64i, *n, s, *m)?)));
                    match res {
                        Ok(r) => ratio = ratio.max(r),
                        Err(e) => {
                            reset();
                            return Err(format!("after {set} tuning calls: {e}"));
                        }
                    }
                    continue;
                }
            }
            set += 1;
        }
        reset();
        let v = if set > 0 && runs > 0 { nt("tuned") } else { triv("no transform or no tuning") };
        Ok(v.r(ratio))
    }
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Conc {
        pub jobs: Vec<Vec<(usize, Sig, u8)>>,
        pub knobs: Vec<usize>,
    }
    pub fn conc_wide() -> impl Strategy<Value = Conc> + Clone {
        (
            proptest::collection::vec(proptest::collection::vec((len_any(6000), sig_nz(), any::<u8>()), 1..25), 5..24),
            proptest::collection::vec(val(), 0..60),
        )
            .prop_map(|(jobs, knobs)| Conc { jobs, knobs })
    }
    pub fn conc() -> impl Strategy<Value = Conc> + Clone {
        (
            proptest::collection::vec(proptest::collection::vec((len_any(1500), sig_nz(), any::<u8>()), 1..8), 2..6),
            proptest::collection::vec(val(), 0..12),
        )
            .prop_map(|(jobs, knobs)| Conc { jobs, knobs })
    }
    /// A process of its own, started with the given environment, runs the jobs.
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct EnvCase {
        pub vars: Vec<(u8, String)>,
        pub jobs: Vec<Knob>,
    }
    const VARS: [&str; 5] = ["KOFFT_PAR_FFT_THRESHOLD", "KOFFT_PAR_FFT_CACHE_BYTES", "KOFFT_PAR_FFT_PER_CORE_WORK", "KOFFT_PAR_FFT_BLOCK_SIZE", "KOFFT_PAR_FFT_THREADS"];
    pub fn env_case() -> impl Strategy<Value = EnvCase> + Clone {
        let text = prop_oneof![
            6 => val().prop_map(|v| v.to_string()),
            1 => Just(String::new()),
            1 => "[ 0-9a-z.+-]{1,6}",
            1 => Just("99999999999999999999999".to_string()),
        ];
        (proptest::collection::vec((0u8..5, text), 1..6), knobs()).prop_map(|(vars, jobs)| EnvCase { vars, jobs })
    }
    pub fn with_env(c: &EnvCase) -> Res {
        use std::io::Write;
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let mut cmd = std::process::Command::new(exe);
        cmd.arg("--jobs").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
        for v in VARS {
            cmd.env_remove(v);
        }
        for (k, v) in &c.vars {
            cmd.env(VARS[*k as usize % 5], v);
        }
        let mut ch = cmd.spawn().map_err(|e| e.to_string())?;
        ch.stdin.take().unwrap().write_all(serde_json::to_string(&c.jobs).unwrap().as_bytes()).map_err(|e| e.to_string())?;
        let o = ch.wait_with_output().map_err(|e| e.to_string())?;
        let t = String::from_utf8_lossy(&o.stdout).to_string();
        let ctx = c.vars.iter().map(|(k, v)| format!("{}={v:?}", VARS[*k as usize % 5])).collect::<Vec<_>>().join(" ");
        match t.strip_prefix("ok ") {
            Some(r) => Ok(nt(format!("{} variables", c.vars.len())).r(r.trim().parse().unwrap_or(0.0))),
            None if t.is_empty() => Err(format!("with {ctx}: the process ended with {:?}", o.status)),
            None => Err(format!("with {ctx}: {t}")),
        }
    }
    /// `--jobs`: the child's side
    pub fn jobs_main() {
        let mut s = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
        let jobs: Vec<Knob> = serde_json::from_str(&s).unwrap();
        match no_panic("jobs", || run(&jobs)) {
            Ok(Ok(v)) => println!("ok {}", v.ratio),
            Ok(Err(e)) | Err(e) => println!("{e}"),
        }
    }
    /// several threads transform while another turns the knobs
    pub fn concurrent(c: &Conc) -> Res {
        reset();
        let res: Vec<Result<f64, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = c
                .jobs
                .iter()
                .map(|job| {
                    s.spawn(move || {
                        let a = ScalarFftImpl::<f32>::default();
                        let b = ScalarFftImpl::<f64>::default();
                        let mut r = 0f64;
                        for (n, sig, k) in job {
                            r = r.max(one::<f32>(&a, *n, sig, *k)?);
                            r = r.max(one::<f64>(&b, *n, sig, *k)?);
                        }
                        Ok(r)
                    })
                })
                .collect();
            for (i, v) in c.knobs.iter().enumerate() {
                match i % 5 {
                    0 => set_parallel_fft_threshold(*v),
                    1 => set_parallel_fft_l1_cache(*v),
                    2 => set_parallel_fft_per_core_work(*v),
                    3 => set_parallel_fft_threads(*v),
                    _ => set_parallel_fft_block_size(*v),
                }
                std::thread::yield_now();
            }
            hs.into_iter().map(|h| h.join().unwrap_or_else(|e| Err(format!("thread panicked: {}", panic_text(e))))).collect()
        });
        reset();
        let mut ratio = 0f64;
        for r in res {
            ratio = ratio.max(r.map_err(|e| format!("concurrent transforms: {e}"))?);
        }
        Ok(nt(format!("{} threads", c.jobs.len())).r(ratio))
    }
}
pub fn c06(r: &mut Reg) {
    const R: &str = "case = (items with lengths and signals, direction, batch or multi-channel form); oracle: each item transformed alone on a new instance; non-trivial: at least two different lengths";
    r.prop("batch-f32", R, 1500, batch_strat(300), batches::<f32>);
    r.prop("batch-f64", R, 1500, batch_strat(300), batches::<f64>);
    r.prop("batch-many-f32", R, 60, batch_upto(24, 200), batches::<f32>);
    r.prop("batch-many-f64", R, 60, batch_upto(24, 200), batches::<f64>);
    r.prop("batch-crowd-f32", R, 12, batch_crowd(), batches::<f32>);
    r.prop("batch-crowd-f64", R, 12, batch_crowd(), batches::<f64>);
    r.prop("batch-big-f32", R, 60, batch_strat(8000), batches::<f32>);
    const R2: &str = "case = (length, signal); non-trivial: length > 1 and signal non-zero";
    r.prop("parallel-fns-f32", R2, 500, over(len_any(4000)), parallel_fns::<f32>);
    r.prop("parallel-fns-f64", R2, 500, over(len_any(4000)), parallel_fns::<f64>);
    #[cfg(feature = "k-parallel")]
    {
        r.prop_serial("tuning", "case = sequence of tuning calls and transforms (single, parallel, batch, plan) checked against the DFT; non-trivial: contains both", 600, tuned::knobs(), tuned::run);
        r.prop_serial("tuning-long", "case = sequence of tuning calls and transforms of lengths to 60000; non-trivial: contains both", 25, tuned::knobs_of(60_000, 30), tuned::run);
        r.prop_serial("tuning-wide", "case = sequence of up to 400 tuning calls and transforms; non-trivial: contains both", 4, tuned::knobs_of(400, 400), tuned::run);
        r.prop_serial("threads", "case = per-thread job lists run at once while the tuning knobs move; non-trivial: always (2..5 threads)", 150, tuned::conc(), tuned::concurrent);
        r.prop_serial("threads-wide", "case = job lists of 5..23 threads run at once while the tuning knobs move; non-trivial: always", 4, tuned::conc_wide(), tuned::concurrent);
        r.prop("environment", "case = values of the KOFFT_PAR_FFT_* variables (numbers of every size, also no numbers) and a sequence of tuning calls and transforms, run in a process of its own; non-trivial: always", 400, tuned::env_case(), tuned::with_env);
    }
}
