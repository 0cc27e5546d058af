use crate::core::*;
pub mod cross;
mod extreme;
mod fft_core;
mod generic;
mod hist;
#[cfg(any(feature = "c37", feature = "c38"))]
pub mod heap;
pub mod layout;
mod misc;
mod plans;
mod real;
mod refuse;
mod signal;
mod stft;
mod trig;

pub fn register(p: &str, env: &Env, r: &mut Reg) -> bool {
    let _ = env;
    match p {
        #[cfg(feature = "c01")]
        "C01" => fft_core::c01(r),
        #[cfg(feature = "c02")]
        "C02" => fft_core::c02(r),
        #[cfg(feature = "c03")]
        "C03" => hist::c03(r),
        #[cfg(feature = "c04")]
        "C04" => plans::c04(r),
        #[cfg(feature = "c05")]
        "C05" => layout::c05(r),
        #[cfg(feature = "c06")]
        "C06" => layout::c06(r),
        #[cfg(feature = "c33")]
        "C33" => generic::c33(r),
        #[cfg(feature = "c34")]
        "C34" => extreme::c34(r),
        #[cfg(feature = "c37")]
        "C37" => heap::c37(r),
        #[cfg(feature = "c38")]
        "C38" => heap::c38(r),
        #[cfg(feature = "c08")]
        "C08" => cross::c08(r),
        #[cfg(feature = "c09")]
        "C09" => real::c09(r),
        #[cfg(feature = "c10")]
        "C10" => real::c10(r),
        #[cfg(feature = "c11")]
        "C11" => real::c11(r),
        #[cfg(feature = "c12")]
        "C12" => real::c12(r),
        #[cfg(feature = "c07")]
        "C07" => refuse::c07(r),
        #[cfg(feature = "c13")]
        "C13" => trig::c13(r),
        #[cfg(feature = "c14")]
        "C14" => trig::c14(r),
        #[cfg(feature = "c15")]
        "C15" => trig::c15(r),
        #[cfg(feature = "c16")]
        "C16" => trig::c16(r),
        #[cfg(feature = "c17")]
        "C17" => stft::c17(r),
        #[cfg(feature = "c18")]
        "C18" => stft::c18(r),
        #[cfg(feature = "c19")]
        "C19" => stft::c19(r),
        #[cfg(feature = "c20")]
        "C20" => signal::c20(r),
        #[cfg(feature = "c21")]
        "C21" => signal::c21(r),
        #[cfg(feature = "c22")]
        "C22" => signal::c22(r),
        #[cfg(feature = "c23")]
        "C23" => signal::c23(r),
        #[cfg(feature = "c24")]
        "C24" => signal::c24(r),
        #[cfg(feature = "c25")]
        "C25" => signal::c25(r),
        #[cfg(feature = "c28")]
        "C28" => misc::c28(r),
        #[cfg(feature = "k-std")]
        #[cfg(feature = "c26")]
        "C26" => misc::c26(r),
        #[cfg(feature = "k-std")]
        #[cfg(feature = "c27")]
        "C27" => misc::c27(r),
        _ => return false,
    }
    true
}
