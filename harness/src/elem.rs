//! Element types: value generators, the scalar reference operators, and thin wrappers which call the
//! corresponding array operators of the library for a concrete element type.

use crate::engine::mix;
use redstone_ml::*;

pub type Nd<T> = NdArray<'static, T>;

/// Extends the lifetime of a borrow; the caller keeps the array alive.
pub unsafe fn forever<'x, T: RawDataType>(a: &'x NdArray<'x, T>) -> &'static Nd<T> {
    std::mem::transmute::<&NdArray<'x, T>, &'static Nd<T>>(a)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op { Add, Sub, Mul, Div, Rem, And, Or, Shl, Shr }

impl Op {
    pub fn sym(self) -> &'static str {
        match self { Op::Add => "+", Op::Sub => "-", Op::Mul => "*", Op::Div => "/", Op::Rem => "%",
                     Op::And => "&", Op::Or => "|", Op::Shl => "<<", Op::Shr => ">>" }
    }
}

/// Any element type, including bool.
pub trait Raw: RawDataType {
    const NAME: &'static str;
    /// mode 0: distinct where possible, 1: small, 2: edge values, 3: wide
    fn val(mode: u8, h: u64, i: usize) -> Self;
    /// bitwise equality up to NaN payloads
    fn same(a: Self, b: Self) -> bool;
    fn bits(a: Self) -> u64;
    fn zero_arr(a: &mut NdArray<'_, Self>);
    fn zeros_of(shape: Vec<usize>) -> Nd<Self>;
    fn ones_of(shape: Vec<usize>) -> Nd<Self>;
    fn ein_view(_a: &'static Nd<Self>, _sub: (&str, &str)) -> Option<Option<Nd<Self>>> {
        None
    }
    fn false_() -> Self;
    fn true_() -> Self;
    /// a value unequal to itself, and a zero of the other sign
    fn odd() -> Option<(Self, Self)> {
        None
    }
}

pub trait Elem: Raw + NumericDataType + PartialOrd {
    const FLOAT: bool;
    const SIGNED: bool;
    const OPS: &'static [Op];
    /// the scalar operator; None where it is undefined (overflow, zero divisor, oversized shift)
    fn op(op: Op, a: Self, b: Self) -> Option<Self>;
    fn neg(a: Self) -> Option<Self>;
    fn abs_(a: Self) -> Option<Self>;
    fn int(i: i64) -> Self;
    fn f(self) -> f64;
    fn arr(op: Op, own: usize, a: &Nd<Self>, b: &Nd<Self>) -> Nd<Self>;
    fn arr_s(op: Op, own: usize, a: &Nd<Self>, s: Self) -> Nd<Self>;
    fn assign(op: Op, own: usize, a: &mut Nd<Self>, b: &Nd<Self>);
    fn assign_s(op: Op, a: &mut Nd<Self>, s: Self);
    fn arr_neg(own: usize, a: &Nd<Self>) -> Option<Nd<Self>>;
    fn dot_(a: &Nd<Self>, b: &Nd<Self>) -> Nd<Self>;
    fn matmul_(a: &Nd<Self>, b: &Nd<Self>) -> Nd<Self>;
    fn bmm_(a: &Nd<Self>, b: &Nd<Self>) -> Nd<Self>;
    fn ein(ops: &[&Nd<Self>], subs: &[&str], out: &str) -> Nd<Self>;
    fn mean_(_a: &Nd<Self>, _axes: Option<Vec<isize>>) -> Option<Nd<Self>> {
        None
    }
}

/// An operand to be passed by value: a view of `a`, or an owning copy of it, contiguous or with its
/// axes stored in reverse order (own / 4 chooses).
fn cp<T: Raw>(own: usize, a: &Nd<T>) -> Nd<T> {
    let view = unsafe { forever(a) }.view();
    match own / 4 {
        0 => view,
        2 if a.ndims() > 1 => (&view).T().clone().T(),
        _ => view.clone(),
    }
}

/// How operands are passed: bit 0 the left (or only) one by value, bit 1 the right one; the rest see `cp`.
pub const OWNS: usize = 12;

macro_rules! call {
    ($own:expr, $a:expr, $b:expr, $o:tt) => {
        match $own & 3 { 0 => $a $o $b, 1 => cp($own, $a) $o $b, 2 => $a $o cp($own, $b), _ => cp($own, $a) $o cp($own, $b) }
    };
}
macro_rules! call_s {
    ($own:expr, $a:expr, $b:expr, $o:tt) => {
        if $own & 1 == 0 { $a $o $b } else { cp($own, $a) $o $b }
    };
}
macro_rules! call_a {
    ($own:expr, $a:expr, $b:expr, $o:tt) => {
        if $own & 1 == 0 { *$a $o $b } else { *$a $o cp($own, $b) }
    };
}

macro_rules! raw_common {
    ($t:ty) => {
        fn zero_arr(a: &mut NdArray<'_, Self>) { a.zero() }
        fn zeros_of(shape: Vec<usize>) -> Nd<Self> { NdArray::<Self>::zeros(shape) }
        fn ones_of(shape: Vec<usize>) -> Nd<Self> { NdArray::<Self>::ones(shape) }
        fn false_() -> Self { <$t>::from(false) }
        fn true_() -> Self { <$t>::from(true) }
    };
}

macro_rules! elem_common {
    ($t:ty) => {
        fn dot_(a: &Nd<Self>, b: &Nd<Self>) -> Nd<Self> { a.dot(b) }
        fn matmul_(a: &Nd<Self>, b: &Nd<Self>) -> Nd<Self> { a.matmul(b) }
        fn bmm_(a: &Nd<Self>, b: &Nd<Self>) -> Nd<Self> { a.bmm(b) }
        fn ein(ops: &[&Nd<Self>], subs: &[&str], out: &str) -> Nd<Self> { einsum(ops, (subs, out)) }
        fn int(i: i64) -> Self { i as $t }
        fn f(self) -> f64 { self as f64 }
    };
}

impl Raw for bool {
    const NAME: &'static str = "bool";
    fn val(_: u8, h: u64, i: usize) -> Self { mix(h ^ mix(i as u64)) & 1 == 1 }
    fn same(a: Self, b: Self) -> bool { a == b }
    fn bits(a: Self) -> u64 { a as u64 }
    raw_common!(bool);
}

macro_rules! int_elem {
    ($($t:ident $signed:expr, $neg:expr, $negarr:expr;)*) => {$(
        impl Raw for $t {
            const NAME: &'static str = stringify!($t);
            fn val(mode: u8, h: u64, i: usize) -> Self {
                let r = mix(h ^ mix(i as u64));
                match mode {
                    0 => (i as u64 % 127 + 1) as $t,
                    1 => if $signed { ((r % 17) as i64 - 8) as $t } else { (r % 17) as $t },
                    2 => match r % 10 {
                        0 => <$t>::MIN, 1 => <$t>::MAX, 2 => 0, 3 => 1, 4 => <$t>::MAX - 1, 5 => <$t>::MIN + 1,
                        6 => if $signed { (0 as $t).wrapping_sub(1) } else { 2 },
                        7 => ((1 as $t) << ((r >> 8) % (<$t>::BITS as u64 - 1))),
                        8 => (r % 8) as $t,
                        _ => (<$t>::MAX / 2),
                    },
                    _ => (((r as u128) << 64) | mix(r) as u128) as $t,
                }
            }
            fn same(a: Self, b: Self) -> bool { a == b }
            fn bits(a: Self) -> u64 { a as u64 }
            raw_common!($t);
            fn ein_view(a: &'static Nd<Self>, sub: (&str, &str)) -> Option<Option<Nd<Self>>> { Some(einsum_view(a, sub)) }
        }
        impl Elem for $t {
            const FLOAT: bool = false;
            const SIGNED: bool = $signed;
            const OPS: &'static [Op] = &[Op::Add, Op::Sub, Op::Mul, Op::Rem, Op::And, Op::Or, Op::Shl, Op::Shr];
            fn op(op: Op, a: Self, b: Self) -> Option<Self> {
                match op {
                    Op::Add => a.checked_add(b), Op::Sub => a.checked_sub(b), Op::Mul => a.checked_mul(b),
                    Op::Rem => a.checked_rem(b), Op::And => Some(a & b), Op::Or => Some(a | b), Op::Div => None,
                    Op::Shl | Op::Shr => {
                        let n: u32 = b.try_into().ok()?;
                        if n >= <$t>::BITS { return None; }
                        Some(if op == Op::Shl { a << n } else { a >> n })
                    }
                }
            }
            fn neg(a: Self) -> Option<Self> { let f: fn($t) -> Option<$t> = $neg; f(a) }
            fn abs_(a: Self) -> Option<Self> { if $signed && a < 0 as $t { a.checked_neg() } else { Some(a) } }
            fn arr(op: Op, own: usize, a: &Nd<Self>, b: &Nd<Self>) -> Nd<Self> {
                match op {
                    Op::Add => call!(own, a, b, +), Op::Sub => call!(own, a, b, -), Op::Mul => call!(own, a, b, *),
                    Op::Rem => call!(own, a, b, %), Op::And => call!(own, a, b, &), Op::Or => call!(own, a, b, |),
                    Op::Shl => call!(own, a, b, <<), Op::Shr => call!(own, a, b, >>), Op::Div => unreachable!(),
                }
            }
            fn arr_s(op: Op, own: usize, a: &Nd<Self>, b: Self) -> Nd<Self> {
                match op {
                    Op::Add => call_s!(own, a, b, +), Op::Sub => call_s!(own, a, b, -), Op::Mul => call_s!(own, a, b, *),
                    Op::Rem => call_s!(own, a, b, %), Op::And => call_s!(own, a, b, &), Op::Or => call_s!(own, a, b, |),
                    Op::Shl => call_s!(own, a, b, <<), Op::Shr => call_s!(own, a, b, >>), Op::Div => unreachable!(),
                }
            }
            fn assign(op: Op, own: usize, a: &mut Nd<Self>, b: &Nd<Self>) {
                match op {
                    Op::Add => call_a!(own, a, b, +=), Op::Sub => call_a!(own, a, b, -=), Op::Mul => call_a!(own, a, b, *=),
                    Op::Rem => call_a!(own, a, b, %=), Op::And => call_a!(own, a, b, &=), Op::Or => call_a!(own, a, b, |=),
                    Op::Shl => call_a!(own, a, b, <<=), Op::Shr => call_a!(own, a, b, >>=), Op::Div => unreachable!(),
                }
            }
            fn assign_s(op: Op, a: &mut Nd<Self>, b: Self) {
                match op {
                    Op::Add => *a += b, Op::Sub => *a -= b, Op::Mul => *a *= b, Op::Rem => *a %= b, Op::And => *a &= b,
                    Op::Or => *a |= b, Op::Shl => *a <<= b, Op::Shr => *a >>= b, Op::Div => unreachable!(),
                }
            }
            fn arr_neg(own: usize, a: &Nd<Self>) -> Option<Nd<Self>> {
                let f: fn(usize, &Nd<$t>) -> Option<Nd<$t>> = $negarr;
                f(own, a)
            }
            elem_common!($t);
        }
    )*};
}

macro_rules! negs {
    () => { |own, a| Some(if own & 1 == 0 { -a } else { -cp(own, a) }) };
}

int_elem! {
    i8 true, |a| a.checked_neg(), negs!();
    i16 true, |a| a.checked_neg(), negs!();
    i32 true, |a| a.checked_neg(), negs!();
    i64 true, |a| a.checked_neg(), negs!();
    i128 true, |a| a.checked_neg(), negs!();
    isize true, |a| a.checked_neg(), negs!();
    u8 false, |_| None, |_, _| None;
    u16 false, |_| None, |_, _| None;
    u32 false, |_| None, |_, _| None;
    u64 false, |_| None, |_, _| None;
    u128 false, |_| None, |_, _| None;
    usize false, |_| None, |_, _| None;
}

macro_rules! float_elem {
    ($($t:ident $bits:ident;)*) => {$(
        impl Raw for $t {
            const NAME: &'static str = stringify!($t);
            fn odd() -> Option<(Self, Self)> { Some(($t::NAN, -0.0)) }
            fn val(mode: u8, h: u64, i: usize) -> Self {
                let r = mix(h ^ mix(i as u64));
                match mode {
                    0 => (i + 1) as $t,
                    1 => ((r % 17) as i64 - 8) as $t,
                    2 => match r % 12 {
                        0 => <$t>::INFINITY, 1 => <$t>::NEG_INFINITY, 2 => 0.0, 3 => -0.0, 4 => <$t>::MAX, 5 => <$t>::MIN,
                        6 => <$t>::MIN_POSITIVE, 7 => -<$t>::MIN_POSITIVE / 2.0, 8 => <$t>::EPSILON, 9 => 1.0, 10 => -1.5,
                        _ => (r >> 8) as $t,
                    },
                    _ => ((r % 257) as i64 - 128) as $t / 4.0,
                }
            }
            fn same(a: Self, b: Self) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
            fn bits(a: Self) -> u64 { a.to_bits() as u64 }
            raw_common!($t);
            fn ein_view(a: &'static Nd<Self>, sub: (&str, &str)) -> Option<Option<Nd<Self>>> { Some(einsum_view(a, sub)) }
        }
        impl Elem for $t {
            const FLOAT: bool = true;
            const SIGNED: bool = true;
            const OPS: &'static [Op] = &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem];
            fn op(op: Op, a: Self, b: Self) -> Option<Self> {
                let (a, b) = (std::hint::black_box(a), std::hint::black_box(b));
                Some(match op { Op::Add => a + b, Op::Sub => a - b, Op::Mul => a * b, Op::Div => a / b, Op::Rem => a % b, _ => return None })
            }
            fn neg(a: Self) -> Option<Self> { Some(-a) }
            fn abs_(a: Self) -> Option<Self> { Some(a.abs()) }
            fn arr(op: Op, own: usize, a: &Nd<Self>, b: &Nd<Self>) -> Nd<Self> {
                match op {
                    Op::Add => call!(own, a, b, +), Op::Sub => call!(own, a, b, -), Op::Mul => call!(own, a, b, *),
                    Op::Div => call!(own, a, b, /), Op::Rem => call!(own, a, b, %), _ => unreachable!(),
                }
            }
            fn arr_s(op: Op, own: usize, a: &Nd<Self>, b: Self) -> Nd<Self> {
                match op {
                    Op::Add => call_s!(own, a, b, +), Op::Sub => call_s!(own, a, b, -), Op::Mul => call_s!(own, a, b, *),
                    Op::Div => call_s!(own, a, b, /), Op::Rem => call_s!(own, a, b, %), _ => unreachable!(),
                }
            }
            fn assign(op: Op, own: usize, a: &mut Nd<Self>, b: &Nd<Self>) {
                match op {
                    Op::Add => call_a!(own, a, b, +=), Op::Sub => call_a!(own, a, b, -=), Op::Mul => call_a!(own, a, b, *=),
                    Op::Div => call_a!(own, a, b, /=), Op::Rem => call_a!(own, a, b, %=), _ => unreachable!(),
                }
            }
            fn assign_s(op: Op, a: &mut Nd<Self>, b: Self) {
                match op { Op::Add => *a += b, Op::Sub => *a -= b, Op::Mul => *a *= b, Op::Div => *a /= b, Op::Rem => *a %= b, _ => unreachable!() }
            }
            fn arr_neg(own: usize, a: &Nd<Self>) -> Option<Nd<Self>> { Some(if own & 1 == 0 { -a } else { -cp(own, a) }) }
            fn mean_(a: &Nd<Self>, axes: Option<Vec<isize>>) -> Option<Nd<Self>> {
                Some(match axes { None => a.mean(), Some(x) => a.mean_along(x) })
            }
            elem_common!($t);
        }
    )*};
}

float_elem! { f32 u32; f64 u64; }

/// Runs `$body` with `$T` bound to the numeric element type chosen by `$i` (0 is i32).
#[cfg(feature = "c22")]
#[macro_export]
macro_rules! numeric {
    ($i:expr, $T:ident => $body:expr) => {
        match $i % 4 { // the types with accelerated kernels
            0 => { type $T = i32; $body } 1 => { type $T = f32; $body } 2 => { type $T = f64; $body } _ => { type $T = u32; $body }
        }
    };
}

#[cfg(not(feature = "c22"))]
#[macro_export]
macro_rules! numeric {
    ($i:expr, $T:ident => $body:expr) => {
        match $i % 14 {
            0 => { type $T = i32; $body } 1 => { type $T = f32; $body } 2 => { type $T = f64; $body }
            3 => { type $T = i64; $body } 4 => { type $T = u8; $body } 5 => { type $T = i8; $body }
            6 => { type $T = i16; $body } 7 => { type $T = u16; $body } 8 => { type $T = u32; $body }
            9 => { type $T = u64; $body } 10 => { type $T = i128; $body } 11 => { type $T = u128; $body }
            12 => { type $T = usize; $body } _ => { type $T = isize; $body }
        }
    };
}

#[cfg(feature = "c22")]
#[macro_export]
macro_rules! any_dtype {
    ($i:expr, $T:ident => $body:expr) => { $crate::numeric!($i, $T => $body) };
}

#[cfg(not(feature = "c22"))]
#[macro_export]
macro_rules! any_dtype {
    ($i:expr, $T:ident => $body:expr) => {
        match $i % 15 {
            14 => { type $T = bool; $body }
            n => $crate::numeric!(n, $T => $body),
        }
    };
}

/// A dtype index: half of the draws go to i32, f32, f64 (distinct kernels), the rest to any.
pub fn dtype(src: &mut crate::engine::Src, n: usize) -> usize {
    if src.chance(1, 2) { src.upto(n) } else { src.upto(3) }
}
