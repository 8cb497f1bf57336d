//! C19: element type conversion preserves every representable value.

use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, numeric};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C19",
    case,
    memory: false,
    quick: (8_000_000, 50),
    thorough: (100_000_000, 600),
    rule: "at least one element lies at or next to a range limit of the target type, is fractional or cannot be represented exactly, or the array is strided",
    assumptions: &["elements whose conversion is refused make the whole conversion panic",
                   "NaN and infinities convert between float types and are refused for integers"],
};

fn case(src: &mut Src) -> R {
    if src.chance(1, 150) { return super::empties::check(src, "C19"); }
    let d = dtype(src, 14);
    numeric!(d, A => from::<A>(src))
}

/// Exact value of an element: an integer scaled by a power of two, or a special float.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ex { Num { neg: bool, m: u128, e: i32 }, NegZero, Inf(bool), NaN }

trait Conv: Elem {
    fn exact(self) -> Ex;
    /// The conversion of an exact value to this type; None if it does not fit.
    fn convert(x: Ex) -> Option<Self>;
    /// Interesting values.
    fn edge(src: &mut Src) -> Self;
}

/// Integer part (toward zero) of an exact value, with its sign; None if it needs more than 128 bits.
fn truncate(neg: bool, m: u128, e: i32) -> Option<(bool, u128)> {
    if e >= 0 {
        if m == 0 { return Some((neg, 0)); }
        if e as u32 > m.leading_zeros() { return None; }
        return Some((neg, m << e));
    }
    let s = (-e) as u32;
    Some((neg, if s >= 128 { 0 } else { m >> s }))
}

macro_rules! conv_int {
    ($($t:ident)*) => {$(
        impl Conv for $t {
            fn exact(self) -> Ex { Ex::Num { neg: (self as i128) < 0 && <$t>::MIN != 0, m: mag_of(self as i128, <$t>::MIN == 0, self as u128), e: 0 } }
            fn convert(x: Ex) -> Option<Self> {
                let (neg, m) = match x { Ex::Num { neg, m, e } => truncate(neg, m, e)?, Ex::NegZero => (false, 0), _ => return None };
                if !neg || m == 0 { return if m <= <$t>::MAX as u128 { Some(m as $t) } else { None }; }
                if <$t>::MIN == 0 { return None; }
                let lim = (<$t>::MAX as u128) + 1;
                if m > lim { None } else if m == lim { Some(<$t>::MIN) } else { Some((m as $t).wrapping_neg()) }
            }
            fn edge(src: &mut Src) -> Self {
                let k = src.upto(6) as $t;
                let base: $t = match src.upto(10) {
                    0 => 0, 1 => <$t>::MAX - k, 2 => <$t>::MIN + k, 3 => i8::MAX as $t, 4 => u8::MAX as $t, 5 => i16::MAX as $t,
                    6 => u16::MAX as $t, 7 => ((1i128) << (src.upto(<$t>::BITS as usize - 1))) as $t,
                    8 => i32::MAX as $t, _ => u32::MAX as $t,
                };
                let base = if src.coin() { base.wrapping_add(src.upto(4) as $t) } else { base.wrapping_sub(src.upto(4) as $t) };
                if src.chance(1, 4) { base.wrapping_neg() } else { base }
            }
        }
    )*};
}

fn mag_of(i: i128, unsigned: bool, u: u128) -> u128 {
    if unsigned { u } else { i.unsigned_abs() }
}

conv_int!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);

macro_rules! conv_float {
    ($($t:ident $u:ident $mant:expr, $bias:expr;)*) => {$(
        impl Conv for $t {
            fn exact(self) -> Ex {
                if self.is_nan() { return Ex::NaN; }
                if self.is_infinite() { return Ex::Inf(self < 0.0); }
                if self == 0.0 { return if self.is_sign_negative() { Ex::NegZero } else { Ex::Num { neg: false, m: 0, e: 0 } }; }
                let b = self.to_bits();
                let frac = (b & ((1 << $mant) - 1)) as u128;
                let exp = ((b >> $mant) & ((1 << ($u::BITS as usize - 1 - $mant)) - 1)) as i32;
                let (m, e) = if exp == 0 { (frac, 1 - $bias - $mant) } else { (frac | (1 << $mant), exp - $bias - $mant) };
                Ex::Num { neg: self < 0.0, m, e }
            }
            /// Round to nearest, ties to even; too large becomes infinite.
            fn convert(x: Ex) -> Option<Self> {
                Some(match x {
                    Ex::NaN => <$t>::NAN,
                    Ex::Inf(neg) => if neg { <$t>::NEG_INFINITY } else { <$t>::INFINITY },
                    Ex::NegZero => -0.0,
                    Ex::Num { m: 0, .. } => 0.0,
                    Ex::Num { neg, m, e } => {
                        let top = 127 - m.leading_zeros() as i32 + e; // exponent of the leading bit
                        let lowest = (top - $mant).max(1 - $bias - $mant); // exponent of the last kept bit
                        let shift = lowest - e;
                        let q = if shift <= 0 { m << (-shift) as u32 } else if shift > 127 { 0 } else {
                            let q = m >> shift as u32;
                            let rest = m & ((1u128 << shift as u32) - 1);
                            let half = 1u128 << (shift - 1) as u32;
                            if rest > half || (rest == half && q & 1 == 1) { q + 1 } else { q }
                        };
                        // q * 2^lowest, exactly representable or overflowing
                        let v = scale(q, lowest);
                        let v = v as $t;
                        if neg { -v } else { v }
                    }
                })
            }
            fn edge(src: &mut Src) -> Self {
                let lim = [7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128, 24, 53, 0, 1];
                let v = match src.upto(9) {
                    0 => 0.0,
                    1 | 2 | 3 => {
                        let base = (2.0 as $t).powi(*src.pick(&lim) as i32);
                        match src.upto(6) { 0 => base, 1 => base - 1.0, 2 => base + 1.0, 3 => base - 0.5, 4 => $t::from_bits(base.to_bits() - 1), _ => $t::from_bits(base.to_bits() + 1) }
                    }
                    4 => src.below(4000) as $t / 16.0,
                    5 => <$t>::MAX, 6 => <$t>::MIN_POSITIVE / src.range(1, 4) as $t,
                    7 => *src.pick(&[<$t>::INFINITY, <$t>::NAN, 0.49999997, 0.5, 0.99999994]),
                    _ => $t::from_bits(src.next_word() as $u),
                };
                if src.chance(1, 3) { -v } else { v }
            }
        }
    )*};
}
conv_float! { f32 u32 23, 127; f64 u64 52, 1023; }

/// q * 2^e as f64, exact for the values that occur (q below 2^54), infinite if too large.
fn scale(q: u128, e: i32) -> f64 {
    let mut v = q as f64;
    let mut e = e;
    while e > 0 { let s = e.min(1000); v *= 2f64.powi(s); e -= s; }
    while e < 0 {
        // divide in steps that stay exact: the final result is representable
        let s = (-e).min(500);
        v /= 2f64.powi(s);
        e += s;
    }
    v
}

fn from<A: Conv>(src: &mut Src) -> R {
    let d = dtype(src, 14);
    numeric!(d, B => convert::<A, B>(src))
}

fn convert<A: Conv, B: Conv>(src: &mut Src) -> R {
    let mut l = gen_free::<A>(src, 3, 24, &[1, 3], true);
    let style = src.weighted(&[3, 3, 1]);
    // style 0: every element fits; 1: anything; 2: small values as generated
    let mut special = !l.nd.is_contiguous();
    if style < 2 {
        for i in 0..l.base.len() {
            // a large array gets edge values in places
            if (i < 200 || i % 997 == 0) && src.chance(2, 3) {
                let mut v = A::edge(src);
                if style == 0 { for _ in 0..3 { if B::convert(v.exact()).is_some() { break; } v = A::edge(src); } }
                if style == 0 && B::convert(v.exact()).is_none() { v = A::int(1); }
                l.poke(i, v);
                special = true;
            } else if style == 0 && B::convert(l.base[i].exact()).is_none() { l.poke(i, A::int(1)); }
        }
    }
    let vals = l.values();
    let want: Option<Vec<B>> = vals.iter().map(|v| B::convert(v.exact())).collect();
    src.tag(if want.is_some() { "fits" } else { "refused" });
    if special { src.nontrivial(); }
    src.note(|| format!("{} = {vals:?} as {}", l.text, B::NAME));
    let a = l.a();
    let r = catch(|| { let x = a.astype::<B>(); let v: Vec<B> = x.flatiter().collect(); (x.shape().to_vec(), v) });
    match (want, r) {
        (Some(w), Ok((s, g))) => {
            ensure!(s == l.m.shape, "{} as {}: shape {s:?}, expected {:?}", A::NAME, B::NAME, l.m.shape);
            ensure!(same_all(&g, &w), "{vals:?} ({}) as {} is {g:?}, expected {w:?}", A::NAME, B::NAME);
            // back again: what is exactly representable survives
            let back: Option<Vec<A>> = w.iter().map(|v| A::convert(v.exact())).collect();
            if let Some(back) = back {
                let x = a.astype::<B>().astype::<A>();
                expect(&format!("{} as {} and back", A::NAME, B::NAME), &x, &l.m.shape, &back)?;
                let g: Vec<A> = x.flatiter().collect();
                for k in 0..vals.len() {
                    if w[k].exact() == vals[k].exact() {
                        ensure!(A::same(g[k], vals[k]), "{:?} ({}) as {} and back is {:?}", vals[k], A::NAME, B::NAME, g[k]);
                    }
                }
            }
        }
        (Some(w), Err(e)) => ensure!(false, "{vals:?} ({}) as {} was refused ({e}), expected {w:?}", A::NAME, B::NAME),
        (None, Ok((_, g))) => ensure!(false, "{vals:?} ({}) as {} does not fit but gave {g:?}", A::NAME, B::NAME),
        (None, Err(_)) => {}
    }
    ensure!(same_all(&l.base_now(), &l.base), "astype changed its operand");
    Ok(())
}
