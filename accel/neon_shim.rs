//! The NEON intrinsics the crate uses, lane by lane, following the Arm intrinsics reference.
#![allow(non_camel_case_types, clippy::missing_safety_doc)]
macro_rules! neon {
    ($t:ty, $n:literal, $q:ident, $d:ident, $dn:literal, $dup:ident, $ld:ident, $st:ident, $neg:ident, $add:ident, $sub:ident, $mul:ident, $div:ident,
     $fma:ident, $min:ident, $max:ident, $addv:ident, $minv:ident, $maxv:ident, $set:ident, $low:ident, $high:ident, $dmul:ident, $get:ident) => {
        #[derive(Clone, Copy, Debug)] #[repr(C, align(16))] pub struct $q(pub [$t; $n]);
        #[derive(Clone, Copy, Debug)] #[repr(C, align(8))] pub struct $d(pub [$t; $dn]);
        fn zip(a: $q, b: $q, f: impl Fn($t, $t) -> $t) -> $q { $q(std::array::from_fn(|i| f(a.0[i], b.0[i]))) }
        fn lo(a: $t, b: $t) -> $t { if a.is_nan() || b.is_nan() { <$t>::NAN } else if a < b || (a == b && a.is_sign_negative()) { a } else { b } }
        fn hi(a: $t, b: $t) -> $t { if a.is_nan() || b.is_nan() { <$t>::NAN } else if a > b || (a == b && a.is_sign_positive()) { a } else { b } }
        pub unsafe fn $dup(v: $t) -> $q { $q([v; $n]) }
        pub unsafe fn $ld(p: *const $t) -> $q { $q(std::array::from_fn(|i| p.add(i).read())) }
        pub unsafe fn $st(p: *mut $t, v: $q) { for i in 0..$n { p.add(i).write(v.0[i]); } }
        pub unsafe fn $neg(a: $q) -> $q { $q(a.0.map(|x| -x)) }
        pub unsafe fn $add(a: $q, b: $q) -> $q { zip(a, b, |x, y| x + y) }
        pub unsafe fn $sub(a: $q, b: $q) -> $q { zip(a, b, |x, y| x - y) }
        pub unsafe fn $mul(a: $q, b: $q) -> $q { zip(a, b, |x, y| x * y) }
        pub unsafe fn $div(a: $q, b: $q) -> $q { zip(a, b, |x, y| x / y) }
        pub unsafe fn $fma(s: $q, a: $q, b: $q) -> $q { $q(std::array::from_fn(|i| a.0[i].mul_add(b.0[i], s.0[i]))) }
        pub unsafe fn $min(a: $q, b: $q) -> $q { zip(a, b, lo) }
        pub unsafe fn $max(a: $q, b: $q) -> $q { zip(a, b, hi) }
        /// pairwise, as the instruction does
        pub unsafe fn $addv(a: $q) -> $t { let mut v: Vec<$t> = a.0.to_vec(); while v.len() > 1 { v = v.chunks(2).map(|c| c[0] + c[1]).collect(); } v[0] }
        pub unsafe fn $minv(a: $q) -> $t { a.0.into_iter().reduce(lo).unwrap() }
        pub unsafe fn $maxv(a: $q) -> $t { a.0.into_iter().reduce(hi).unwrap() }
        pub unsafe fn $set<const L: i32>(v: $t, mut a: $q) -> $q { a.0[L as usize] = v; a }
        pub unsafe fn $low(a: $q) -> $d { $d(std::array::from_fn(|i| a.0[i])) }
        pub unsafe fn $high(a: $q) -> $d { $d(std::array::from_fn(|i| a.0[$dn + i])) }
        pub unsafe fn $dmul(a: $d, b: $d) -> $d { $d(std::array::from_fn(|i| a.0[i] * b.0[i])) }
        pub unsafe fn $get<const L: i32>(a: $d) -> $t { a.0[L as usize] }
    };
}
mod single { neon!(f32, 4, float32x4_t, float32x2_t, 2, vdupq_n_f32, vld1q_f32, vst1q_f32, vnegq_f32, vaddq_f32, vsubq_f32, vmulq_f32, vdivq_f32,
    vfmaq_f32, vminq_f32, vmaxq_f32, vaddvq_f32, vminvq_f32, vmaxvq_f32, vsetq_lane_f32, vget_low_f32, vget_high_f32, vmul_f32, vget_lane_f32); }
mod double { neon!(f64, 2, float64x2_t, float64x1_t, 1, vdupq_n_f64, vld1q_f64, vst1q_f64, vnegq_f64, vaddq_f64, vsubq_f64, vmulq_f64, vdivq_f64,
    vfmaq_f64, vminq_f64, vmaxq_f64, vaddvq_f64, vminvq_f64, vmaxvq_f64, vsetq_lane_f64, vget_low_f64, vget_high_f64, vmul_f64, vget_lane_f64); }
pub use single::*;
pub use double::*;
