//! Signals: compact, shrinkable descriptions expanded deterministically.
use crate::core::splitmix;
type C = (f64, f64);
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Zero,
    Impulse(u16),
    Const,
    Alt,
    Ramp,
    Tone(u16),
    Ints(u64),
    Sparse(u64),
    RealNoise(u64),
    Noise(u64),
    /// components spread over many orders of magnitude
    Mixed(u64),
    /// nothing but imaginary parts
    Imag(u64),
    /// noise, then zeros to the end
    Padded(u64),
    /// mirrored: x[n-i] = conj(x[i])
    Mirror(u64),
    /// a random pattern of the given period (at least one), repeated
    Periodic(u8, u64),
    /// constant stretches with jumps between them
    Steps(u64),
    /// noise with a few NaN, infinite, huge, subnormal or negative-zero parts (C34 only)
    Odd(u64),
}
/// the special values `Kind::Odd` plants
pub const ODD: [f64; 10] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -3e38, 3e38, f64::MIN_POSITIVE / 8.0, 1e-45, -0.0, f64::NAN];
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sig {
    pub kind: Kind,
    /// power-of-two amplitude
    pub exp: i16,
}
fn unit(s: &mut u64) -> f64 {
    (splitmix(s) >> 11) as f64 / (1u64 << 52) as f64 - 1.0
}
impl Sig {
    pub fn complex(&self, n: usize) -> Vec<(f64, f64)> {
        let a = (self.exp as f64).exp2();
        let mut v: Vec<(f64, f64)> = match &self.kind {
            Kind::Zero => vec![(0.0, 0.0); n],
            Kind::Impulse(p) => {
                let mut v = vec![(0.0, 0.0); n];
                if n > 0 {
                    v[*p as usize % n] = (1.0, 0.0);
                }
                v
            }
            Kind::Const => vec![(1.0, -0.5); n],
            Kind::Alt => (0..n).map(|i| if i % 2 == 0 { (1.0, 0.25) } else { (-1.0, -0.25) }).collect(),
            Kind::Ramp => (0..n).map(|i| (i as f64 - n as f64 / 3.0, 1.0 - i as f64 * 0.5)).collect(),
            Kind::Tone(b) => {
                let b = if n > 0 { *b as usize % n } else { 0 };
                (0..n)
                    .map(|i| {
                        let th = 2.0 * std::f64::consts::PI * ((i * b) % n) as f64 / n as f64;
                        (th.cos(), th.sin())
                    })
                    .collect()
            }
            Kind::Ints(s) => {
                let mut s = *s;
                (0..n).map(|_| ((splitmix(&mut s) % 17) as f64 - 8.0, (splitmix(&mut s) % 17) as f64 - 8.0)).collect()
            }
            Kind::Sparse(s) => {
                let mut s = *s;
                let mut v = vec![(0.0, 0.0); n];
                if n > 0 {
                    for _ in 0..(1 + splitmix(&mut s) % 4) {
                        let p = splitmix(&mut s) as usize % n;
                        v[p] = (unit(&mut s), unit(&mut s));
                    }
                }
                v
            }
            Kind::RealNoise(s) => {
                let mut s = *s;
                (0..n).map(|_| (unit(&mut s), 0.0)).collect()
            }
            Kind::Noise(s) => {
                let mut s = *s;
                (0..n).map(|_| (unit(&mut s), unit(&mut s))).collect()
            }
            Kind::Imag(s) => {
                let mut s = *s;
                (0..n).map(|_| (0.0, unit(&mut s))).collect()
            }
            Kind::Padded(s) => {
                let mut s = *s;
                let full = if n > 0 { splitmix(&mut s) as usize % n + 1 } else { 0 };
                (0..n).map(|i| if i < full { (unit(&mut s), unit(&mut s)) } else { (0.0, 0.0) }).collect()
            }
            Kind::Mirror(s) => {
                let mut s = *s;
                let mut v: Vec<(f64, f64)> = (0..n).map(|_| (unit(&mut s), unit(&mut s))).collect();
                for i in 0..n {
                    let j = (n - i) % n;
                    v[j] = if i == j { (v[i].0, 0.0) } else { (v[i].0, -v[i].1) };
                }
                v
            }
            Kind::Periodic(p, s) => {
                let mut s = *s;
                let m = (*p as usize).max(1);
                let pat: Vec<C> = (0..m).map(|_| (unit(&mut s), unit(&mut s))).collect();
                (0..n).map(|i| pat[i % m]).collect()
            }
            Kind::Steps(s) => {
                let mut s = *s;
                let mut at = (unit(&mut s), unit(&mut s));
                (0..n)
                    .map(|_| {
                        if splitmix(&mut s) % 8 == 0 {
                            at = (unit(&mut s), unit(&mut s));
                        }
                        at
                    })
                    .collect()
            }
            Kind::Odd(s) => {
                let mut s = *s;
                let mut v: Vec<(f64, f64)> = (0..n).map(|_| (unit(&mut s), unit(&mut s))).collect();
                for _ in 0..(1 + splitmix(&mut s) % 3) {
                    if n > 0 {
                        let p = splitmix(&mut s) as usize % n;
                        let o = ODD[splitmix(&mut s) as usize % ODD.len()];
                        match splitmix(&mut s) % 3 {
                            0 => v[p].0 = o,
                            1 => v[p].1 = o,
                            _ => v[p] = (o, o),
                        }
                    }
                }
                return v;
            }
            Kind::Mixed(s) => {
                let mut s = *s;
                (0..n)
                    .map(|_| {
                        let e = (splitmix(&mut s) % 20) as i32 - 10;
                        let m = 2f64.powi(e);
                        (unit(&mut s) * m, unit(&mut s) * m)
                    })
                    .collect()
            }
        };
        for z in &mut v {
            z.0 *= a;
            z.1 *= a;
        }
        v
    }
    pub fn real(&self, n: usize) -> Vec<f64> {
        let im = matches!(self.kind, Kind::Imag(_));
        self.complex(n).into_iter().map(|z| if im { z.1 } else { z.0 }).collect()
    }
    pub fn real32(&self, n: usize) -> Vec<f32> {
        self.real(n).into_iter().map(|z| z as f32).collect()
    }
    pub fn trivial(&self) -> bool {
        matches!(self.kind, Kind::Zero)
    }
}
pub fn kind() -> impl Strategy<Value = Kind> + Clone {
    prop_oneof![
        1 => Just(Kind::Zero),
        3 => any::<u16>().prop_map(Kind::Impulse),
        1 => Just(Kind::Const),
        1 => Just(Kind::Alt),
        1 => Just(Kind::Ramp),
        3 => any::<u16>().prop_map(Kind::Tone),
        3 => any::<u64>().prop_map(Kind::Ints),
        2 => any::<u64>().prop_map(Kind::Sparse),
        2 => any::<u64>().prop_map(Kind::RealNoise),
        10 => any::<u64>().prop_map(Kind::Noise),
        3 => any::<u64>().prop_map(Kind::Mixed),
        1 => any::<u64>().prop_map(Kind::Imag),
        2 => any::<u64>().prop_map(Kind::Padded),
        1 => any::<u64>().prop_map(Kind::Mirror),
        1 => (any::<u8>(), any::<u64>()).prop_map(|(p, s)| Kind::Periodic(p, s)),
        1 => any::<u64>().prop_map(Kind::Steps),
    ]
}
/// plain, very quiet (squares underflow in single precision) and very loud
/// signals; for operations that are linear in the signal
pub fn sig() -> impl Strategy<Value = Sig> + Clone {
    (kind(), prop_oneof![6 => Just(0i16), 2 => -20i16..=20, 1 => -95i16..=-60, 1 => 30i16..=60]).prop_map(|(kind, exp)| Sig { kind, exp })
}
/// amplitudes whose squares stay within single precision
pub fn sig_plain() -> impl Strategy<Value = Sig> + Clone {
    (kind(), prop_oneof![4 => Just(0i16), 1 => -20i16..=20]).prop_map(|(kind, exp)| Sig { kind, exp })
}
/// far outside the single-precision range; double precision only
pub fn sig_far() -> impl Strategy<Value = Sig> + Clone {
    (kind(), prop_oneof![1 => -930i16..=-130, 1 => 130i16..=800]).prop_map(|(kind, exp)| Sig { kind, exp })
}
pub fn odd() -> impl Strategy<Value = Sig> + Clone {
    any::<u64>().prop_map(|s| Sig { kind: Kind::Odd(s), exp: 0 })
}
/// never the all-zero signal
pub fn sig_nz() -> impl Strategy<Value = Sig> + Clone {
    sig().prop_map(|mut s| {
        if s.kind == Kind::Zero {
            s.kind = Kind::Noise(7);
        }
        s
    })
}
pub fn sig_plain_nz() -> impl Strategy<Value = Sig> + Clone {
    sig_plain().prop_map(|mut s| {
        if s.kind == Kind::Zero {
            s.kind = Kind::Noise(7);
        }
        s
    })
}
/// plain signals with amplitude about one
pub fn sig_unit() -> impl Strategy<Value = Sig> + Clone {
    kind().prop_map(|kind| Sig { kind, exp: 0 })
}
/// noisy signals only (every output is generically non-zero)
pub fn sig_noise() -> impl Strategy<Value = Sig> + Clone {
    any::<u64>().prop_map(|s| Sig { kind: Kind::Noise(s), exp: 0 })
}

/// hundreds to tens of thousands of short items, each with its own signal
pub fn crowd(max: usize) -> impl Strategy<Value = Vec<(usize, Sig)>> + Clone {
    let count = prop_oneof![8 => 200usize..=1500, 1 => 65_500usize..=66_500];
    (count, 1..=max, any::<u64>(), prop_oneof![3 => Just(0i16), 1 => -20i16..=20]).prop_map(|(count, max, mut s, exp)| {
        (0..count)
            .map(|_| {
                let n = (splitmix(&mut s) % (max as u64 + 1)) as usize;
                (n, Sig { kind: Kind::Noise(splitmix(&mut s)), exp })
            })
            .collect()
    })
}

// ---- lengths -------------------------------------------------------------
pub fn pow2(lo: u32, hi: u32) -> impl Strategy<Value = usize> + Clone {
    (lo..=hi).prop_map(|e| 1usize << e)
}
/// any length up to `max`, biased towards small, powers of two and neighbours
pub fn len_any(max: usize) -> impl Strategy<Value = usize> + Clone {
    let lg = usize::BITS - 1 - max.leading_zeros();
    prop_oneof![
        3 => 1usize..=max.min(40),
        3 => 1usize..=max,
        2 => (0..=lg).prop_map(|e| 1usize << e),
        1 => (1..=lg, -1i64..=1).prop_map(move |(e, d)| (((1i64 << e) + d).max(1) as usize).min(max)),
        1 => (1usize..=max.min(16), 0..=lg).prop_map(move |(m, e)| (m << e).min(max).max(1)),
    ]
}
