//! Independent reference computations in f64.
use std::f64::consts::PI;

pub type C = (f64, f64);
pub fn cmul(a: C, b: C) -> C {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
fn roots(n: usize, sign: f64) -> Vec<C> {
    (0..n)
        .map(|k| {
            // octant-accurate angle
            let th = sign * 2.0 * PI * (k as f64) / (n as f64);
            (th.cos(), th.sin())
        })
        .collect()
}
/// Unnormalised DFT, sign -1 forward, +1 inverse.
pub fn dft_sign(x: &[C], sign: f64) -> Vec<C> {
    let n = x.len();
    if n > 700 {
        return dft_big(x, sign);
    }
    let w = roots(n, sign);
    (0..n)
        .map(|k| {
            let mut re = 0.0;
            let mut im = 0.0;
            let mut j = 0usize;
            for &(a, b) in x {
                let (c, s) = w[j];
                re += a * c - b * s;
                im += a * s + b * c;
                j += k;
                if j >= n {
                    j -= n;
                }
            }
            (re, im)
        })
        .collect()
}
fn dft_big(x: &[C], sign: f64) -> Vec<C> {
    use rustfft::{num_complex::Complex, FftDirection, FftPlanner};
    let mut v: Vec<Complex<f64>> = x.iter().map(|z| Complex::new(z.0, z.1)).collect();
    let dir = if sign < 0.0 { FftDirection::Forward } else { FftDirection::Inverse };
    FftPlanner::new().plan_fft(v.len(), dir).process(&mut v);
    v.into_iter().map(|z| (z.re, z.im)).collect()
}
pub fn dft(x: &[C]) -> Vec<C> {
    dft_sign(x, -1.0)
}
/// normalised inverse
pub fn idft(x: &[C]) -> Vec<C> {
    let n = x.len().max(1) as f64;
    dft_sign(x, 1.0).into_iter().map(|z| (z.0 / n, z.1 / n)).collect()
}
/// Compensated sum: the oracle's own rounding must stay below one unit.
pub fn csum(it: impl Iterator<Item = f64>) -> f64 {
    let (mut s, mut e) = (0f64, 0f64);
    for v in it {
        let t = s + v;
        e += if s.abs() >= v.abs() { (s - t) + v } else { (v - t) + s };
        s = t;
    }
    if s.is_finite() { s + e } else { s }
}
pub fn norm(x: &[C]) -> f64 {
    csum(x.iter().map(|z| z.0 * z.0 + z.1 * z.1)).sqrt()
}
pub fn rnorm(x: &[f64]) -> f64 {
    csum(x.iter().map(|z| z * z)).sqrt()
}

/// Element types under test.
pub trait El: kofft::num::Float + Send + Sync + 'static {
    const EPS: f64;
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    /// f32-only routines; the f64 versions are the plain transform.
    fn mixed(i: &kofft::fft::ScalarFftImpl<Self>, x: &mut [Cx<Self>]) -> Result<(), kofft::fft::FftError>;
}
impl El for f32 {
    fn mixed(i: &kofft::fft::ScalarFftImpl<f32>, x: &mut [Cx<f32>]) -> Result<(), kofft::fft::FftError> {
        i.fft_mixed_radix(x)
    }
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}
impl El for f64 {
    fn mixed(i: &kofft::fft::ScalarFftImpl<f64>, x: &mut [Cx<f64>]) -> Result<(), kofft::fft::FftError> {
        kofft::fft::FftImpl::fft(i, x)
    }
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
}
pub type Cx<T> = kofft::num::Complex<T>;
pub fn to_t<T: El>(x: &[C]) -> Vec<Cx<T>> {
    x.iter().map(|z| Cx::new(T::of(z.0), T::of(z.1))).collect()
}
pub fn from_t<T: El>(x: &[Cx<T>]) -> Vec<C> {
    x.iter().map(|z| (z.re.f(), z.im.f())).collect()
}
pub fn bits<T: El>(x: &[Cx<T>]) -> Vec<(u64, u64)> {
    x.iter().map(|z| (z.re.f().to_bits(), z.im.f().to_bits())).collect()
}
pub fn rbits<T: El>(x: &[T]) -> Vec<u64> {
    x.iter().map(|z| z.f().to_bits()).collect()
}

/// Compare a transform result with its reference.
///
/// Error measure: ||got-want||_2 / ||want||_2 against `tol`; when the reference
/// is (numerically) zero the absolute error is compared with tol*floor.
/// Non-finite output is always an error.  Returns observed/allowed.
pub fn close(what: &str, got: &[C], want: &[C], tol: f64, floor: f64) -> Result<f64, String> {
    if got.len() != want.len() {
        return Err(format!("{what}: length {} instead of {}", got.len(), want.len()));
    }
    // Signals far from one would under- or overflow when squared.
    let top = want.iter().fold(0f64, |m, z| m.max(z.0.abs()).max(z.1.abs()));
    if (top > 0.0 && top < 1e-120) || (top > 1e120 && top.is_finite()) {
        let e = top.log2().floor();
        let by = |z: &C| ((z.0 * (-e / 2.0).floor().exp2()) * (-e - (-e / 2.0).floor()).exp2(), (z.1 * (-e / 2.0).floor().exp2()) * (-e - (-e / 2.0).floor()).exp2());
        let (g, w): (Vec<C>, Vec<C>) = (got.iter().map(by).collect(), want.iter().map(by).collect());
        return close(&format!("{what} (times 2^{})", -e), &g, &w, tol, floor);
    }
    let mut e2 = 0.0;
    let mut worst = (0usize, -1.0);
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if !(g.0.is_finite() && g.1.is_finite()) {
            return Err(format!("{what}: element {i} is {:?}, expected {:?}", g, w));
        }
        let d = (g.0 - w.0) * (g.0 - w.0) + (g.1 - w.1) * (g.1 - w.1);
        e2 += d;
        if d > worst.1 {
            worst = (i, d);
        }
    }
    let scale = norm(want).max(floor);
    let err = e2.sqrt();
    if err == 0.0 {
        return Ok(0.0);
    }
    let ratio = err / (tol * scale);
    if !(ratio <= 1.0) {
        let i = worst.0;
        return Err(format!(
            "{what}: relative error {:.3e} exceeds {:.3e} (len {}, worst element {i}: got {:?}, expected {:?})",
            err / scale, tol, got.len(), got[i], want[i]
        ));
    }
    Ok(ratio)
}
pub fn rclose(what: &str, got: &[f64], want: &[f64], tol: f64, floor: f64) -> Result<f64, String> {
    let g: Vec<C> = got.iter().map(|&x| (x, 0.0)).collect();
    let w: Vec<C> = want.iter().map(|&x| (x, 0.0)).collect();
    close(what, &g, &w, tol, floor)
}
pub fn v64<T: El>(x: &[T]) -> Vec<f64> {
    x.iter().map(|z| z.f()).collect()
}
/// FFT tolerance: generous multiple of the rounding level, slow growth with n.
pub fn tol_fft<T: El>(n: usize) -> f64 {
    T::EPS * TOL_C * ((n.max(2) as f64).log2() + 1.0)
}
pub const TOL_C: f64 = 8.0;
