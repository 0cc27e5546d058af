//! C03: reuse of one instance.
use super::fft_core::*;
use crate::core::*;
use crate::oracle::*;
use crate::sig::*;
use kofft::fft::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Fft(usize),
    Ifft(usize),
    Stockham(usize),
    Strategy(usize, u8),
    Radix4(usize),
    Mixed(usize),
    Split(usize, bool),
    Strided(usize, usize, bool),
    StridedAlloc(usize, usize, bool),
    OopStrided(usize, usize, usize, bool),
    Oop(usize, bool),
    Batch(Vec<usize>, bool),
    /// calls that must be refused
    BadStride(usize),
    BadOop(usize, usize),
    BadSplit(usize, usize),
    Empty,
}
pub fn strategy_of(k: u8) -> FftStrategy {
    match k % 4 {
        0 => FftStrategy::Radix2,
        1 => FftStrategy::Radix4,
        2 => FftStrategy::SplitRadix,
        _ => FftStrategy::Auto,
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    /// sizes requested from the planner the instance is built from
    pub warm: Vec<(usize, bool)>,
    pub ops: Vec<(Op, Sig)>,
}
pub type Out<T> = (Result<(), FftError>, Vec<Vec<Cx<T>>>);
/// Perform one operation; returns the result value and every buffer it touched.
pub fn run<T: El>(i: &ScalarFftImpl<T>, op: &Op, sig: &Sig) -> Out<T> {
    let x = |n: usize| to_t::<T>(&sig.complex(n));
    match op {
        Op::Fft(n) => {
            let mut v = x(*n);
            (i.fft(&mut v), vec![v])
        }
        Op::Ifft(n) => {
            let mut v = x(*n);
            (i.ifft(&mut v), vec![v])
        }
        Op::Stockham(n) => {
            let mut v = x(*n);
            (i.stockham_fft(&mut v), vec![v])
        }
        Op::Strategy(n, k) => {
            let mut v = x(*n);
            (i.fft_with_strategy(&mut v, strategy_of(*k)), vec![v])
        }
        Op::Radix4(n) => {
            let mut v = x(*n);
            #[cfg(feature = "k-std")]
            let r = i.fft_radix4(&mut v);
            #[cfg(not(feature = "k-std"))]
            let r = i.fft(&mut v);
            (r, vec![v])
        }
        Op::Mixed(n) => {
            let mut v = x(*n);
            (T::mixed(i, &mut v), vec![v])
        }
        Op::Split(n, inv) => {
            let v = x(*n);
            let mut re: Vec<T> = v.iter().map(|c| c.re).collect();
            let mut im: Vec<T> = v.iter().map(|c| c.im).collect();
            let r = if *inv { i.ifft_split(&mut re, &mut im) } else { i.fft_split(&mut re, &mut im) };
            (r, vec![re.iter().zip(&im).map(|(a, b)| Cx::new(*a, *b)).collect()])
        }
        Op::Strided(n, s, inv) => {
            let mut v = x(n * s);
            let mut scratch = vec![Cx::zero(); *n];
            let r = if *inv { i.ifft_strided(&mut v, *s, &mut scratch) } else { i.fft_strided(&mut v, *s, &mut scratch) };
            (r, vec![v])
        }
        Op::StridedAlloc(n, s, inv) => {
            let mut v = x(n * s);
            let r = if *inv { i.ifft_strided_alloc(&mut v, *s) } else { i.fft_strided_alloc(&mut v, *s) };
            (r, vec![v])
        }
        Op::OopStrided(n, s, t, inv) => {
            let v = x(n * s);
            let mut o = vec![Cx::zero(); n * t];
            let r = if *inv {
                i.ifft_out_of_place_strided(&v, *s, &mut o, *t)
            } else {
                i.fft_out_of_place_strided(&v, *s, &mut o, *t)
            };
            (r, vec![v, o])
        }
        Op::Oop(n, inv) => {
            let v = x(*n);
            let mut o = vec![Cx::zero(); *n];
            let r = if *inv { i.ifft_out_of_place(&v, &mut o) } else { i.fft_out_of_place(&v, &mut o) };
            (r, vec![v, o])
        }
        Op::Batch(ns, inv) => {
            let mut b: Vec<Vec<Cx<T>>> = ns.iter().map(|&n| x(n)).collect();
            let r = if *inv { batch_inverse(i, &mut b) } else { batch(i, &mut b) };
            (r, b)
        }
        Op::BadStride(n) => {
            let mut v = x(*n);
            (i.fft_strided_alloc(&mut v, 0), vec![v])
        }
        Op::BadOop(n, m) => {
            let v = x(*n);
            let mut o = vec![Cx::zero(); n + 1 + m];
            let r = i.fft_out_of_place_strided(&v, 1, &mut o, 1);
            (r, vec![v, o])
        }
        Op::BadSplit(n, m) => {
            let v = x(*n);
            let mut re: Vec<T> = v.iter().map(|c| c.re).collect();
            let mut im: Vec<T> = vec![T::zero(); n + 1 + m];
            let r = i.ifft_split(&mut re, &mut im);
            (r, vec![re.iter().map(|a| Cx::new(*a, T::zero())).collect()])
        }
        Op::Empty => {
            let mut v: Vec<Cx<T>> = vec![];
            (i.ifft(&mut v), vec![v])
        }
    }
}
pub fn op_len(op: &Op) -> usize {
    match op {
        Op::Fft(n) | Op::Ifft(n) | Op::Stockham(n) | Op::Strategy(n, _) | Op::Radix4(n) | Op::Mixed(n) | Op::Split(n, _)
        | Op::Strided(n, ..) | Op::StridedAlloc(n, ..) | Op::OopStrided(n, ..) | Op::Oop(n, _) => *n,
        Op::Batch(v, _) => v.iter().copied().max().unwrap_or(0),
        _ => 0,
    }
}
pub fn history<T: El>(c: &Hist) -> Res {
    let mut planner = if c.warm.len() % 2 == 0 { FftPlanner::<T>::new() } else { Default::default() };
    for &(n, b) in &c.warm {
        #[cfg(feature = "k-std")]
        if b {
            planner.get_bluestein(n);
        }
        let _ = b;
        planner.get_twiddles(n.next_power_of_two());
        planner.plan_strategy(n);
    }
    let inst = ScalarFftImpl::with_planner(planner);
    let mut ratio = 0f64;
    let mut lens = std::collections::BTreeSet::new();
    for (k, (op, sig)) in c.ops.iter().enumerate() {
        let (r1, b1) = run(&inst, op, sig);
        let fresh = ScalarFftImpl::<T>::default();
        let (r2, b2) = run(&fresh, op, sig);
        ensure!(r1 == r2, "op {k} {op:?}: reused instance returned {r1:?}, a new one {r2:?}");
        ensure!(b1.len() == b2.len(), "op {k} {op:?}: buffer count");
        for (x, y) in b1.iter().zip(&b2) {
            ratio = ratio.max(close(&format!("op {k} {op:?} on the reused instance vs a new one ({})", T::NAME), &from_t(x), &from_t(y), tol_fft::<T>(op_len(op)), 1e-300)?);
        }
        if op_len(op) > 1 {
            lens.insert(op_len(op));
        }
    }
    let v = if c.ops.len() >= 2 && lens.len() >= 2 {
        nt(format!("ops{}..", c.ops.len() / 4 * 4))
    } else {
        triv("single length")
    };
    Ok(v.r(ratio))
}
fn hlen(max: usize) -> impl Strategy<Value = usize> + Clone {
    len_any(max)
}
pub fn op(max: usize) -> impl Strategy<Value = Op> + Clone {
    let l = move || hlen(max);
    let s = move || hlen(max / 4);
    prop_oneof![
        8 => l().prop_map(Op::Fft),
        4 => l().prop_map(Op::Ifft),
        2 => l().prop_map(Op::Stockham),
        2 => (l(), any::<u8>()).prop_map(|(n, k)| Op::Strategy(n, k)),
        2 => prop_oneof![(0u32..6).prop_map(|e| 1usize << (2 * e)), l()].prop_map(Op::Radix4),
        1 => l().prop_map(Op::Mixed),
        4 => (l(), any::<bool>()).prop_map(|(n, i)| Op::Split(n, i)),
        2 => (s(), 1usize..5, any::<bool>()).prop_map(|(n, s, i)| Op::Strided(n, s, i)),
        3 => (s(), 1usize..5, any::<bool>()).prop_map(|(n, s, i)| Op::StridedAlloc(n, s, i)),
        3 => (s(), 1usize..5, 1usize..5, any::<bool>()).prop_map(|(n, s, t, i)| Op::OopStrided(n, s, t, i)),
        1 => (l(), any::<bool>()).prop_map(|(n, i)| Op::Oop(n, i)),
        1 => (proptest::collection::vec(s(), 0..4), any::<bool>()).prop_map(|(v, i)| Op::Batch(v, i)),
        1 => (1usize..40).prop_map(Op::BadStride),
        1 => (1usize..40, 0usize..5).prop_map(|(a, b)| Op::BadOop(a, b)),
        1 => (1usize..40, 0usize..5).prop_map(|(a, b)| Op::BadSplit(a, b)),
        1 => Just(Op::Empty),
    ]
}
/// many calls of many lengths
pub fn hist_wide(max: usize) -> impl Strategy<Value = Hist> + Clone {
    let l = move || prop_oneof![4 => 1usize..=max, 1 => hlen(max)];
    let o = prop_oneof![
        3 => l().prop_map(Op::Fft),
        1 => l().prop_map(Op::Ifft),
        1 => (l(), any::<bool>()).prop_map(|(n, i)| Op::Split(n, i)),
        1 => (l(), any::<u8>()).prop_map(|(n, k)| Op::Strategy(n, k)),
        1 => op(max),
    ];
    (proptest::collection::vec((1usize..2 * max, any::<bool>()), 0..700), proptest::collection::vec((o, sig_nz()), 60..400)).prop_map(|(warm, ops)| Hist { warm, ops })
}
pub fn hist(max: usize, nops: usize) -> impl Strategy<Value = Hist> + Clone {
    (
        proptest::collection::vec((1usize..max, any::<bool>()), 0..4),
        proptest::collection::vec((op(max), sig_nz()), 1..nops),
    )
        .prop_map(|(warm, ops)| Hist { warm, ops })
}
pub fn c03(r: &mut Reg) {
    const R: &str = "case = (sizes requested from the planner beforehand, sequence of transforms and failing calls on one instance); oracle: every call is repeated on a brand-new instance; non-trivial: at least two operations with two different lengths";
    r.prop("history-f32", R, 1500, hist(300, 14), history::<f32>);
    r.prop("history-f64", R, 1500, hist(300, 14), history::<f64>);
    r.prop("history-long-f32", R, 150, hist(4200, 30), history::<f32>);
    r.prop("history-long-f64", R, 150, hist(4200, 30), history::<f64>);
    r.prop("history-big-f32", R, 20, hist(40_000, 12), history::<f32>);
    r.prop("history-big-f64", R, 20, hist(40_000, 12), history::<f64>);
    r.prop("history-wide-f32", R, 16, hist_wide(330), history::<f32>);
    r.prop("history-wide-f64", R, 16, hist_wide(330), history::<f64>);
    // every ordered pair of small lengths, and triples through the planner
    const R2: &str = "case = (first length, all second lengths); transforms a signal of the first length, then one of each other length, then the first again, on one instance; non-trivial: always (first length > 1)";
    r.sweep("pairs-f32", R2, (1..=70).chain([96, 100, 128, 129, 200, 256, 257]).collect(), 1, at, pairs::<f32>);
    r.sweep("pairs-f64", R2, (1..=70).chain([96, 100, 128, 129, 200, 256, 257]).collect(), 1, at, pairs::<f64>);
    let _ = supported;
}
fn pairs<T: El>(c: &LenSig) -> Res {
    let a = c.n;
    let mut ratio = 0f64;
    for b in (1..=70).chain([96, 100, 128, 129, 200, 256, 257]) {
        for inv in [false, true] {
            let h = Hist {
                warm: vec![],
                ops: vec![
                    (Op::Fft(a), c.sig.clone()),
                    (if inv { Op::Ifft(b) } else { Op::Fft(b) }, c.sig.clone()),
                    (Op::Split(b, inv), c.sig.clone()),
                    (Op::Fft(a), c.sig.clone()),
                ],
            };
            ratio = ratio.max(history::<T>(&h).map_err(|e| format!("lengths {a} then {b}: {e}"))?.ratio);
        }
    }
    let v = if a > 1 && !c.sig.trivial() { nt(lenclass(a)) } else { triv(lenclass(a)) };
    Ok(v.r(ratio))
}
