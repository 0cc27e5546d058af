//! C37: stack-only calls use no heap.  C38: memory use stays bounded.
//! Both read a counting allocator; the counters belong to the calling thread.
use crate::core::*;
use crate::sig::*;
use kofft::fft::*;
use kofft::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn note(calls: u64, bytes: i64) {
    let _ = CALLS.try_with(|c| c.set(c.get() + calls));
    let now = LIVE.try_with(|l| {
        l.set(l.get() + bytes);
        l.get()
    });
    if let Ok(now) = now {
        let _ = PEAK.try_with(|p| p.set(p.get().max(now)));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(0, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(1, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
/// Allocations made by `f`.
fn allocations<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let a = CALLS.with(|c| c.get());
    let r = f();
    (r, CALLS.with(|c| c.get()) - a)
}
/// Bytes `f` held at its worst moment beyond what was held before.
fn peak<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let before = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, PEAK.with(|p| p.get()) - before)
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}
fn none(what: &str, n: usize, a: u64) -> Result<(), String> {
    ensure!(a == 0, "{what} on {n} samples made {a} heap allocations");
    Ok(())
}

// ---- C37 -----------------------------------------------------------------
#[cfg(feature = "c37")]
mod stack {
    use super::*;
    use kofft::num::Complex as Cx;

    fn cplx<const N: usize>(s: &Sig) -> [Complex32; N] {
        let v = s.complex(N);
        core::array::from_fn(|i| Complex32::new(v[i].0 as f32, v[i].1 as f32))
    }
    fn real<const N: usize>(s: &Sig) -> [f32; N] {
        let v = s.real32(N);
        core::array::from_fn(|i| v[i])
    }
    /// every function that takes nothing but an array size
    fn one<const N: usize>(s: &Sig) -> Result<(), String> {
        let mut c = Box::new(cplx::<N>(s));
        let (_, a) = allocations(|| fft_inplace_stack(&mut *c).is_ok());
        none("fft_inplace_stack", N, a)?;
        let (_, a) = allocations(|| ifft_inplace_stack(&mut *c).is_ok());
        none("ifft_inplace_stack", N, a)?;
        let x = Box::new(real::<N>(s));
        let mut o = Box::new([0f32; N]);
        let fs: [(&str, fn(&[f32; N], &mut [f32; N]) -> Result<(), FftError>); 6] = [
            ("dct1_inplace_stack", dct::dct1_inplace_stack),
            ("dct2_inplace_stack", dct::dct2_inplace_stack),
            ("dst2_inplace_stack", dst::dst2_inplace_stack),
            ("dst2_inplace_stack_fft", dst::dst2_inplace_stack_fft),
            ("dst3_inplace_stack_fft", dst::dst3_inplace_stack_fft),
            ("dst4_inplace_stack", dst::dst4_inplace_stack),
        ];
        for (what, f) in fs {
            let (_, a) = allocations(|| f(&x, &mut o).is_ok());
            none(what, N, a)?;
        }
        let ws: [(&str, fn(&mut [f32; N])); 3] = [("hann_inplace_stack", window::hann_inplace_stack), ("hamming_inplace_stack", window::hamming_inplace_stack), ("blackman_inplace_stack", window::blackman_inplace_stack)];
        for (what, f) in ws {
            let (_, a) = allocations(|| f(&mut o));
            none(what, N, a)?;
        }
        let mut avg = vec![0f32; N / 2];
        let mut diff = vec![0f32; N / 2];
        let mut back = vec![0f32; N / 2 * 2];
        let (_, a) = allocations(|| wavelet::haar_forward_inplace_stack(&x, &mut avg, &mut diff));
        none("haar_forward_inplace_stack", N, a)?;
        let (_, a) = allocations(|| wavelet::haar_inverse_inplace_stack::<N>(&avg, &diff, &mut back));
        none("haar_inverse_inplace_stack", N, a)
    }
    fn two<const N: usize, const M: usize>(s: &Sig) -> Result<(), String> {
        let mut x = Box::new(real::<N>(s));
        let mut o = Box::new([Cx::<f32>::zero(); M]);
        let (_, a) = allocations(|| rfft::rfft_stack(&mut *x, &mut *o).is_ok());
        none("rfft_stack", N, a)?;
        let mut c = Box::new(cplx::<M>(s));
        let (_, a) = allocations(|| rfft::irfft_stack(&mut *c, &mut *x).is_ok());
        none("irfft_stack", N, a)
    }
    macro_rules! table1 {
        ($($n:literal),*) => { &[$(($n, one::<$n> as fn(&Sig) -> Result<(), String>)),*] };
    }
    macro_rules! table2 {
        ($(($n:literal, $m:literal)),*) => { &[$(($n, $m, two::<$n, $m> as fn(&Sig) -> Result<(), String>)),*] };
    }
    type F = fn(&Sig) -> Result<(), String>;
    const ONE: &[(usize, F)] = table1!(
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 30, 31, 32, 33, 48, 60, 63, 64, 65, 96, 100, 127, 128, 129, 192, 200, 255, 256, 257, 300, 384, 500, 511, 512, 513, 768, 1000, 1024, 1500, 2048, 3000, 4096
    );
    const TWO: &[(usize, usize, F)] = table2!(
        (0, 0), (0, 1), (1, 1), (1, 0), (1, 2), (2, 2), (2, 1), (2, 3), (3, 2), (4, 3), (4, 2), (4, 5), (5, 3), (6, 4), (7, 4), (8, 5), (8, 4), (8, 8), (9, 5), (10, 6), (12, 7), (16, 9), (16, 8), (20, 11), (32, 17), (32, 16), (33, 17), (48, 25), (64, 33), (64, 65),
        (96, 49), (100, 51), (128, 65), (256, 129), (512, 257), (1000, 501), (1024, 513), (1024, 512), (2048, 1025), (3000, 1501), (4096, 2049), (8192, 4097), (16384, 8193)
    );
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Pick {
        at: usize,
        sig: Sig,
    }
    fn pick(at: std::ops::Range<usize>) -> impl Strategy<Value = Pick> + Clone {
        (at, prop_oneof![4 => sig(), 1 => odd()]).prop_map(|(at, sig)| Pick { at, sig })
    }
    fn class(n: usize) -> Verdict {
        match n {
            0 | 1 => triv("at most one sample"),
            n if n.is_power_of_two() => nt("power of two"),
            _ => nt("other size"),
        }
    }
    fn run_one(c: &Pick) -> Res {
        let (n, f) = ONE[c.at % ONE.len()];
        f(&c.sig)?;
        Ok(class(n))
    }
    fn run_two(c: &Pick) -> Res {
        let (n, m, f) = TWO[c.at % TWO.len()];
        f(&c.sig)?;
        Ok(if m == n / 2 + 1 { class(n) } else { nt("refused spectrum length") })
    }

    /// A backend that needs no memory: whatever is allocated, the library allocated.
    pub struct Still {
        refuse: bool,
    }
    impl<T: Float> FftImpl<T> for Still {
        fn fft(&self, x: &mut [Cx<T>]) -> Result<(), FftError> {
            if self.refuse {
                return Err(FftError::InvalidValue);
            }
            x.reverse();
            Ok(())
        }
        fn ifft(&self, x: &mut [Cx<T>]) -> Result<(), FftError> {
            self.fft(x)
        }
        fn fft_strided(&self, _: &mut [Cx<T>], _: usize, _: &mut [Cx<T>]) -> Result<(), FftError> {
            Ok(())
        }
        fn ifft_strided(&self, _: &mut [Cx<T>], _: usize, _: &mut [Cx<T>]) -> Result<(), FftError> {
            Ok(())
        }
        fn fft_out_of_place_strided(&self, _: &[Cx<T>], _: usize, _: &mut [Cx<T>], _: usize) -> Result<(), FftError> {
            Ok(())
        }
        fn ifft_out_of_place_strided(&self, _: &[Cx<T>], _: usize, _: &mut [Cx<T>], _: usize) -> Result<(), FftError> {
            Ok(())
        }
        fn fft_with_strategy(&self, x: &mut [Cx<T>], _: FftStrategy) -> Result<(), FftError> {
            self.fft(x)
        }
    }
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct FrameCase {
        len: usize,
        win: usize,
        /// start of each frame
        starts: Vec<usize>,
        /// error of the frame buffer's length, in -1/0/1
        off: i8,
        refuse: bool,
        sig: Sig,
    }
    fn frames(maxlen: usize, maxwin: usize) -> impl Strategy<Value = FrameCase> + Clone {
        (0..=maxlen, 0..=maxwin, prop::collection::vec(prop_oneof![4 => 0..=maxlen + 10, 1 => Just(usize::MAX)], 1..12), prop_oneof![6 => Just(0i8), 1 => -1i8..=1], prop_oneof![6 => Just(false), 1 => Just(true)], prop_oneof![4 => sig(), 1 => odd()])
            .prop_map(|(len, win, starts, off, refuse, sig)| FrameCase { len, win, starts, off, refuse, sig })
    }
    fn run_frames(c: &FrameCase) -> Res {
        let mut x = c.sig.real32(c.len);
        let w = c.sig.real32(c.win);
        let mut f = vec![Complex32::new(0.0, 0.0); (c.win as i64 + c.off as i64).max(0) as usize];
        let fft = Still { refuse: c.refuse };
        for &s in &c.starts {
            let (_, a) = allocations(|| stft::frame(&x, &w, s, &mut f, &fft).is_ok());
            none("stft::frame", c.win, a)?;
            let (_, a) = allocations(|| stft::inverse_frame(&mut f, &w, s, &mut x, &fft).is_ok());
            none("stft::inverse_frame", c.win, a)?;
        }
        Ok(if c.win > 1 && c.len > 0 && c.off == 0 && !c.refuse { nt("framed") } else if c.off != 0 || c.refuse { nt("refused") } else { triv("empty") })
    }

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Warm {
        /// lengths the planner has seen before
        before: Vec<usize>,
        /// (which length, inverse, error of the output's length, error of the scratch's length)
        calls: Vec<(u16, bool, i8, i8)>,
        double: bool,
        sig: Sig,
    }
    fn warm(max: usize) -> impl Strategy<Value = Warm> + Clone {
        let d = || prop_oneof![8 => Just(0i8), 1 => -1i8..=1];
        (prop::collection::vec(len_any(max), 1..6), prop::collection::vec((any::<u16>(), any::<bool>(), d(), d()), 1..16), any::<bool>(), prop_oneof![4 => sig(), 1 => odd()])
            .prop_map(|(before, calls, double, sig)| Warm { before, calls, double, sig })
    }
    fn warm_t<T: rfft::RealFftNum>(c: &Warm) -> Res {
        let fft = Still { refuse: false };
        let mut p = rfft::RfftPlanner::<T>::new();
        let adj = |n: usize, d: i8| (n as i64 + d as i64).max(0) as usize;
        let run = |p: &mut rfft::RfftPlanner<T>, n: usize, inverse: bool, d: i8, e: i8| {
            let mut x: Vec<T> = c.sig.real(if inverse { adj(n, d) } else { n }).iter().map(|v| T::from_f64(*v)).collect();
            let m = if inverse { n / 2 + 1 } else { adj(n / 2 + 1, d) };
            let mut y: Vec<Cx<T>> = c.sig.complex(m).iter().map(|v| Cx::new(T::from_f64(v.0), T::from_f64(v.1))).collect();
            let mut s = vec![Cx::<T>::zero(); adj(n / 2, e)];
            if inverse {
                allocations(|| p.irfft_with_scratch(&fft, &mut y, &mut x, &mut s).is_ok())
            } else {
                allocations(|| p.rfft_with_scratch(&fft, &mut x, &mut y, &mut s).is_ok())
            }
        };
        for &n in &c.before {
            // both directions, and the neighbours a wrong length can ask for
            for m in [n.saturating_sub(1), n, n + 1] {
                run(&mut p, m, false, 0, 0);
                run(&mut p, m, true, 0, 0);
            }
        }
        let mut done = 0;
        for &(i, inv, d, e) in &c.calls {
            let n = c.before[i as usize % c.before.len()];
            let (ok, a) = run(&mut p, n, inv, d, e);
            none(if inv { "irfft_with_scratch with a planner that has seen the length" } else { "rfft_with_scratch with a planner that has seen the length" }, n, a)?;
            done += ok as usize;
        }
        Ok(if done > 0 { nt("planned before") } else { triv("all refused") })
    }
    fn run_warm(c: &Warm) -> Res {
        if c.double {
            warm_t::<f64>(c)
        } else {
            warm_t::<f32>(c)
        }
    }
    fn run_split(c: &(usize, Sig)) -> Res {
        let v = c.1.complex(c.0);
        let x: Vec<Complex32> = v.iter().map(|z| Complex32::new(z.0 as f32, z.1 as f32)).collect();
        let (mut re, mut im) = (vec![0f32; c.0], vec![0f32; c.0]);
        let mut back = x.clone();
        let (_, a) = allocations(|| {
            num::copy_from_complex(&x, &mut re, &mut im);
            num::copy_to_complex(&re, &im, &mut back);
        });
        none("copy_from_complex and copy_to_complex", c.0, a)?;
        let (_, a) = allocations(|| {
            let s = num::SplitComplex::copy_from_complex(&x, &mut re, &mut im);
            s.copy_to_complex(&mut back);
        });
        none("SplitComplex", c.0, a)?;
        Ok(if c.0 > 1 { nt("copied") } else { triv("at most one") })
    }
    pub fn register(r: &mut Reg) {
        let rule = "more than one sample; distinct: size and signal";
        let short = ONE.iter().filter(|o| o.0 <= 300).count();
        r.prop("array-size", rule, 1500, pick(0..short), run_one);
        r.prop("array-size-large", rule, 12, pick(short..ONE.len()), run_one);
        r.prop("array-sizes", rule, 1500, pick(0..TWO.len()), run_two);
        r.prop("frames", "a window of more than one sample, or a refused call", 2000, frames(300, 70), run_frames);
        r.prop("frames-wide", "a window of more than one sample, or a refused call", 60, frames(20_000, 9_000), run_frames);
        r.prop("planned", "at least one accepted call on a planned length", 1000, warm(400), run_warm);
        r.prop("planned-wide", "at least one accepted call on a planned length", 40, warm(20_000), run_warm);
        r.prop("split-copies", "more than one sample", 500, (prop_oneof![3 => 0usize..=70, 1 => 0usize..=20_000], prop_oneof![4 => sig(), 1 => odd()]), run_split);
    }
}
#[cfg(feature = "c37")]
pub fn c37(r: &mut Reg) {
    stack::register(r);
}

// ---- C38 -----------------------------------------------------------------
#[cfg(feature = "c38")]
mod bounded {
    use super::*;

    /// everything a long-running program would keep around
    struct Kept {
        f32: ScalarFftImpl<f32>,
        f64: ScalarFftImpl<f64>,
        r32: rfft::RfftPlanner<f32>,
        r64: rfft::RfftPlanner<f64>,
        dct: dct::DctPlanner,
        dst: dst::DstPlanner<f32>,
        #[cfg(feature = "k-std")]
        plan: FftPlanner<f32>,
    }
    impl Kept {
        fn new() -> Self {
            Kept {
                f32: Default::default(),
                f64: Default::default(),
                r32: rfft::RfftPlanner::new(),
                r64: rfft::RfftPlanner::new(),
                dct: dct::DctPlanner::new(),
                dst: dst::DstPlanner::new(),
                #[cfg(feature = "k-std")]
                plan: FftPlanner::new(),
            }
        }
    }
    fn c32(s: &Sig, n: usize) -> Vec<Complex32> {
        s.complex(n).iter().map(|z| Complex32::new(z.0 as f32, z.1 as f32)).collect()
    }
    fn c64(s: &Sig, n: usize) -> Vec<Complex64> {
        s.complex(n).iter().map(|z| Complex64::new(z.0, z.1)).collect()
    }
    /// the work per sample does not grow with the length
    const FAST: usize = 16;
    const OPS: usize = 30;
    fn op(k: &mut Kept, o: usize, n: usize, s: &Sig) -> (&'static str, i64) {
        let o = o % OPS;
        match o {
            0 | 1 => {
                let mut x = c32(s, n);
                if o == 0 { ("fft", peak(|| k.f32.fft(&mut x).is_ok()).1) } else { ("ifft", peak(|| k.f32.ifft(&mut x).is_ok()).1) }
            }
            2 | 3 => {
                let mut x = c64(s, n);
                if o == 2 { ("fft in double precision", peak(|| k.f64.fft(&mut x).is_ok()).1) } else { ("ifft in double precision", peak(|| k.f64.ifft(&mut x).is_ok()).1) }
            }
            4 => {
                let mut x = c32(s, n);
                ("fft_strided_alloc", peak(|| k.f32.fft_strided_alloc(&mut x, 1 + n % 5).is_ok()).1)
            }
            5 => {
                let x = c32(s, n);
                let mut y = x.clone();
                ("fft_out_of_place", peak(|| k.f32.fft_out_of_place(&x, &mut y).is_ok()).1)
            }
            6 | 7 => {
                let mut x = s.real32(n);
                let mut y = c32(s, n / 2 + 1);
                if o == 6 { ("RfftPlanner::rfft", peak(|| k.r32.rfft(&k.f32, &mut x, &mut y).is_ok()).1) } else { ("RfftPlanner::irfft", peak(|| k.r32.irfft(&k.f32, &mut y, &mut x).is_ok()).1) }
            }
            8 => {
                let mut x = s.real(n);
                let mut y = c64(s, n / 2 + 1);
                ("RfftPlanner::rfft in double precision", peak(|| k.r64.rfft(&k.f64, &mut x, &mut y).is_ok() && k.r64.irfft(&k.f64, &mut y, &mut x).is_ok()).1)
            }
            9 => {
                use rfft::RealFftImpl;
                let mut x = s.real32(n);
                let mut y = c32(s, n / 2 + 1);
                ("RealFftImpl::rfft", peak(|| RealFftImpl::rfft(&k.f32, &mut x, &mut y).is_ok() && RealFftImpl::irfft(&k.f32, &mut y, &mut x).is_ok()).1)
            }
            10 => {
                let mut x = s.real32(n);
                let mut y = x.clone();
                ("DctPlanner", peak(|| k.dct.plan_dct2(n)(&mut x, &mut y).is_ok()).1)
            }
            11 => (
                "DstPlanner",
                peak(|| {
                    let _ = k.dst.plan_dst2(n).len() + k.dst.plan_dst3(n).len() + k.dst.plan_dst4(n).len();
                    k.dst.scratch(n).len()
                })
                .1,
            ),
            12 => {
                let x = s.real32(n);
                ("hilbert_analytic", peak(|| hilbert::hilbert_analytic(&x).is_ok()).1)
            }
            13 => {
                let x = s.real32(n);
                ("real_cepstrum", peak(|| cepstrum::real_cepstrum(&x).is_ok()).1)
            }
            14 => {
                let x = s.real32(n);
                (
                    "multi-level wavelets",
                    peak(|| {
                        let (a, d) = wavelet::haar_forward_multi(&x, 20);
                        wavelet::haar_inverse_multi(&a, &d).len()
                    })
                    .1,
                )
            }
            15 => {
                let (rows, cols) = (1 + n % 7, n / (1 + n % 7));
                let mut x = c32(s, rows * cols);
                let mut col = c32(s, rows);
                ("fft2d_inplace", peak(|| ndfft::fft2d_inplace(&mut x, rows, cols, &k.f32, &mut col).is_ok()).1)
            }
            16..=23 => {
                let x = s.real32(n);
                let (w, f): (&'static str, fn(&[f32]) -> Vec<f32>) = [("dct1", dct::dct1 as fn(&[f32]) -> Vec<f32>), ("dct2", dct::dct2), ("dct3", dct::dct3), ("dct4", dct::dct4), ("dst1", dst::dst1), ("dst2", dst::dst2), ("dst3", dst::dst3), ("dst4", dst::dst4)][o - 16];
                (w, peak(|| f(&x).len()).1)
            }
            24 => {
                let x = s.real32(n);
                ("dht", peak(|| hartley::dht(&x).len()).1)
            }
            25 => {
                let x = s.real32(n);
                ("czt_f32", peak(|| czt::czt_f32(&x, n, (0.9, -0.1), (1.0, 0.0)).len()).1)
            }
            26 => {
                let x = s.real32(n);
                ("goertzel_f32", peak(|| goertzel::goertzel_f32(&x, 8000.0, 440.0).is_ok()).1)
            }
            27 => {
                // as many frame samples as signal samples
                let x = s.real32(n);
                let w = vec![1.0f32; 16];
                let mut fr = vec![vec![]; n.div_ceil(16)];
                ("stft", peak(|| stft::stft(&x, &w, 16, &mut fr, &k.f32).is_ok()).1)
            }
            28 => {
                let w = vec![1.0f32; 16];
                let mut fr = vec![c32(s, 16); n.div_ceil(16)];
                let (mut out, mut sc) = (vec![0f32; n], vec![0f32; n]);
                ("istft", peak(|| stft::istft(&mut fr, &w, 16, &mut out, &mut sc, &k.f32).is_ok()).1)
            }
            _ => ("windows", peak(|| window::hann(n).len() + window::kaiser(n, 5.0).len() + window_more::tukey(n, 0.5).len()).1),
        }
    }
    // ---- one call needs memory in proportion to its samples ----
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Call {
        op: usize,
        n: usize,
        sig: Sig,
    }
    const PER_SAMPLE: i64 = 1024;
    const ANYWAY: i64 = 64 << 10;
    fn one_call(c: &Call) -> Res {
        // what is set up once and for all does not count
        op(&mut Kept::new(), c.op, c.n, &c.sig);
        let mut k = Kept::new();
        let (what, held) = op(&mut k, c.op, c.n, &c.sig);
        let allowed = PER_SAMPLE * c.n as i64 + ANYWAY;
        ensure!(held <= allowed, "{what} on {} samples held {held} bytes at once, allowed {allowed}", c.n);
        let v = if c.n >= 256 { nt(what) } else { triv("short") };
        Ok(v.r(held as f64 / allowed as f64))
    }
    // ---- the same calls again need no more memory ----
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Rounds {
        calls: Vec<Call>,
        again: usize,
        /// new planners every round
        fresh: bool,
    }
    fn rounds(max: usize, slow: usize, most: usize) -> impl Strategy<Value = Rounds> + Clone {
        let call = (0..OPS, len_any(max), prop_oneof![6 => sig(), 1 => odd()]).prop_map(move |(op, n, sig)| Call { op, n: if op < FAST { n } else { n.min(slow) }, sig });
        (prop::collection::vec(call, 1..most), 1usize..8, any::<bool>()).prop_map(|(calls, again, fresh)| Rounds { calls, again, fresh })
    }
    fn same_again(c: &Rounds) -> Res {
        let mut k = Kept::new();
        let mut round = || {
            if c.fresh {
                k = Kept::new();
            }
            for x in &c.calls {
                op(&mut k, x.op, x.n, &x.sig);
            }
            live()
        };
        let first = round().max(round());
        for i in 0..c.again {
            let now = round();
            ensure!(now <= first + 1024, "repeating {} calls {} more times grew the memory held by {} bytes", c.calls.len(), i + 1, now - first);
        }
        Ok(if c.calls.iter().any(|x| x.n > 1) { nt(if c.fresh { "new planners" } else { "kept planners" }) } else { triv("short") })
    }
    // ---- a stream holds its window, not its past ----
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Long {
        wl: usize,
        hop: usize,
        frames: usize,
        sig: Sig,
        flush: u16,
    }
    fn long(wl: usize, frames: std::ops::RangeInclusive<usize>) -> impl Strategy<Value = Long> + Clone {
        (1..=wl, any::<u16>(), frames, sig(), any::<u16>()).prop_map(|(wl, h, frames, sig, flush)| Long { wl, hop: 1 + h as usize % (2 * wl), frames, sig, flush })
    }
    fn stream(c: &Long) -> Res {
        let fft = ScalarFftImpl::<f32>::default();
        let w = vec![0.5f32; c.wl];
        let f = c32(&c.sig, c.wl);
        // the transform's own tables
        for _ in 0..2 {
            let _ = fft.ifft(&mut f.clone());
        }
        let start = live();
        let allowed = 256 * (c.wl + c.hop) as i64 + ANYWAY;
        let mut st = stft::IstftStream::new(c.wl, c.hop, w, &fft).map_err(|e| format!("{e:?}"))?;
        let mut most = live() - start;
        for m in 0..c.frames {
            if let Err(e) = no_panic("push_frame", || st.push_frame(&f).map(|s| s.len()))? {
                // without std only powers of two are transformed
                ensure!(e == FftError::NonPowerOfTwoNoStd, "push_frame: {e:?}");
            }
            if c.flush > 60_000 && m % (c.flush as usize % 50 + 1) == 0 {
                no_panic("flush", || st.flush().len())?;
            }
            most = most.max(live() - start);
            ensure!(most <= allowed, "after {} frames of {} samples (hop {}) the inverse stream held {most} bytes, allowed {allowed}", m + 1, c.wl, c.hop);
        }
        drop(st);
        let left = live() - start;
        ensure!(left <= 4096, "a dropped inverse stream left {left} bytes behind");
        let signal = c.sig.real32((c.frames * c.hop).min(100_000));
        let win = vec![0.5f32; c.wl];
        let mut out = f.clone();
        let start = live();
        let mut st = stft::StftStream::new(&signal, &win, c.hop, &fft).map_err(|e| format!("{e:?}"))?;
        while let Ok(true) = st.next_frame(&mut out) {
            let held = live() - start;
            ensure!(held <= allowed, "a stream of frames of {} samples (hop {}) held {held} bytes, allowed {allowed}", c.wl, c.hop);
        }
        Ok(if c.frames * c.hop > 8 * (c.wl + c.hop) { nt("many windows long") } else { triv("few windows long") }.r(most as f64 / allowed as f64))
    }
    pub fn register(r: &mut Reg) {
        let call = |max: usize, slow: usize| (0..OPS, len_any(max), prop_oneof![6 => sig(), 1 => odd()]).prop_map(move |(op, n, sig)| Call { op, n: if op < FAST { n } else { n.min(slow) }, sig });
        r.prop("one-call", "at least 256 samples; distinct: operation, length and signal", 2000, call(6000, 600), one_call);
        r.prop("one-call-long", "at least 256 samples; distinct: operation, length and signal", 100, call(70_000, 3000), one_call);
        r.prop("same-again", "at least one call on more than one sample", 500, rounds(200, 100, 20), same_again);
        r.prop("same-again-long", "at least one call on more than one sample", 30, rounds(20_000, 500, 6), same_again);
        r.prop("streams", "the stream is more than eight times as long as its window and hop", 400, long(40, 1..=400), stream);
        r.prop("streams-wide", "the stream is more than eight times as long as its window and hop", 30, long(3000, 20..=80), stream);
        r.prop("streams-long", "the stream is more than eight times as long as its window and hop", 6, long(16, 20_000..=60_000), stream);
    }
}
#[cfg(feature = "c38")]
pub fn c38(r: &mut Reg) {
    bounded::register(r);
}
