//! C06: reductions equal the fold over exactly the reduced elements.

use super::common::*;
use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, numeric};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C06",
    case,
    memory: false,
    quick: (4_000_000, 60),
    thorough: (60_000_000, 600),
    rule: "at least two elements are folded into some result element, and the layout is strided, multi-dimensional or long enough for the unrolled kernels",
    assumptions: &["values are chosen so that no partial sum or product, in any order, overflows or rounds; NaN occurs in sums, products and means only (min/max of NaN is not specified)",
                   "mean may differ from the correctly rounded quotient by two units in the last place",
                   "mean_along accepts only non-negative axes (documented restriction)",
                   "the sign of a zero result of min/max is not specified"],
};

fn case(src: &mut Src) -> R {
    if src.chance(1, 150) { return super::empties::check(src, "C06"); }
    let d = dtype(src, 14);
    numeric!(d, T => reduce::<T>(src))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Red { Sum, Product, Min, Max, MinMag, MaxMag, Mean }

fn fold<T: Elem>(r: Red, vs: &[T]) -> T {
    let mut acc = match r {
        Red::Sum | Red::Mean => T::int(0),
        Red::Product => T::int(1),
        Red::Min | Red::Max => vs[0],
        _ => T::abs_(vs[0]).unwrap(),
    };
    for &v in vs {
        acc = match r {
            Red::Sum | Red::Mean => T::op(Op::Add, acc, v).unwrap(),
            Red::Product => T::op(Op::Mul, acc, v).unwrap(),
            Red::Min => if v < acc { v } else { acc },
            Red::Max => if v > acc { v } else { acc },
            Red::MinMag => { let a = T::abs_(v).unwrap(); if a < acc { a } else { acc } }
            Red::MaxMag => { let a = T::abs_(v).unwrap(); if a > acc { a } else { acc } }
        };
    }
    acc
}

fn reduce<T: Elem>(src: &mut Src) -> R {
    let reds: &[Red] = if T::FLOAT { &[Red::Sum, Red::Product, Red::Min, Red::Max, Red::MinMag, Red::MaxMag, Red::Mean] }
                       else { &[Red::Sum, Red::Product, Red::Min, Red::Max, Red::MinMag, Red::MaxMag] };
    let red = *src.pick(reds);
    let modes: &[u8] = match red { Red::Min | Red::Max | Red::MinMag | Red::MaxMag => &[2, 3, 1], _ => &[3] };
    let mut l = if let Some(s) = rare_shape(src, 120, 20_000) { gen_exact::<T>(src, &s, modes, true) } else { match src.weighted(&[5, 2, 1]) {
        0 => gen_free::<T>(src, 5, 80, modes, true),
        1 => { let n = src.range(1, if src.thorough { 600 } else { 200 }); gen_exact::<T>(src, &[n], modes, true) }
        _ => { let (a, b) = (src.range(1, 6), src.range(1, 40)); let s = if src.coin() { [a, b] } else { [b, a] }; gen_exact::<T>(src, &s, modes, true) }
    } };
    match red {
        Red::Sum | Red::Mean => { let h = src.below(1 << 20); tame(&mut l, false, h); maybe_nan(src, &mut l) }
        Red::Product => { let h = src.below(1 << 20); tame(&mut l, true, h); maybe_nan(src, &mut l) }
        Red::MinMag | Red::MaxMag => for i in 0..l.base.len() { if T::abs_(l.base[i]).is_none() { l.poke(i, T::int(-7)); } },
        _ => {}
    }
    let a = &l.nd;
    let n = l.m.shape.len();
    let whole = src.chance(1, 3);
    let mut axes: Vec<usize> = vec![];
    if !whole {
        for x in 0..n { if src.coin() { let p = src.upto(axes.len() + 1); axes.insert(p, x); } }
    }
    let signed: Vec<isize> = axes.iter().map(|&x| if red == Red::Mean { x as isize } else { sign(src, x, n) }).collect();
    src.tag(match red { Red::Sum => "sum", Red::Product => "product", Red::Min => "min", Red::Max => "max", Red::MinMag => "min_magnitude", Red::MaxMag => "max_magnitude", Red::Mean => "mean" });
    src.tag(if whole { "whole array" } else { "along axes" });
    src.note(|| format!("{} (base {:?}) {red:?} {}", l.text, l.base, if whole { "all".into() } else { format!("{signed:?}") }));
    let single = axes.len() == 1 && src.coin();
    let how = if whole { 0 } else { 1 + src.upto(3) };
    macro_rules! go { ($w:ident, $x:ident) => { match how { 0 => a.$w(), 1 => a.$x(signed.clone()), 2 => a.$x(&signed[..]), _ => if single { a.$x(Axis(signed[0])) } else { a.$x(&signed) } } } }
    let r: Nd<T> = match red {
        Red::Sum => go!(sum, sum_along), Red::Product => go!(product, product_along), Red::Min => go!(min, min_along), Red::Max => go!(max, max_along),
        Red::MinMag => go!(min_magnitude, min_magnitude_along), Red::MaxMag => go!(max_magnitude, max_magnitude_along),
        Red::Mean => T::mean_(a, if whole { None } else { Some(signed.clone()) }).unwrap(),
    };
    let kept: Vec<usize> = if whole { vec![] } else { (0..n).filter(|x| !axes.contains(x)).collect() };
    let kshape: Vec<usize> = kept.iter().map(|&x| l.m.shape[x]).collect();
    let folded = l.m.size() / prod(&kshape);
    if folded > 1 && (n > 1 || !a.is_contiguous() || l.m.size() >= 16) { src.nontrivial(); }
    ensure!(r.shape() == kshape, "{red:?} along {signed:?} of shape {:?} has shape {:?}, expected {kshape:?}", l.m.shape, r.shape());
    let got: Vec<T> = r.flatiter().collect();
    ensure!(got.len() == prod(&kshape), "{red:?}: {} elements in shape {kshape:?}", got.len());
    for (k, c) in coords(&kshape).iter().enumerate() {
        let group: Vec<T> = l.m.fix(&kept, c).idx.iter().map(|&i| l.base[i]).collect();
        let want = fold(red, &group);
        if red == Red::Mean {
            let exact = want.f() / group.len() as f64;
            let eps = if std::mem::size_of::<T>() == 4 { f32::EPSILON as f64 } else { f64::EPSILON };
            ensure!((got[k].f() - exact).abs() <= 2.0 * eps * exact.abs() || (exact.is_nan() && got[k].f().is_nan()), "mean at {c:?} is {:?}, expected {exact} = mean of {group:?}: {}", got[k], l.text);
        } else {
            ensure!(got[k] == want || (want != want && got[k] != got[k]), "{red:?} along {signed:?} at {c:?} is {:?}, expected {want:?} = fold of {group:?}: {}", got[k], l.text);
        }
    }
    ensure!(same_all(&l.base_now(), &l.base), "{red:?} changed its operand");
    Ok(())
}
