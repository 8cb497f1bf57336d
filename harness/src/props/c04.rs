//! C04: elementwise operators equal scalar operators under NumPy broadcasting.

use super::common::*;
use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, numeric};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C04",
    case,
    memory: false,
    quick: (4_000_000, 60),
    thorough: (60_000_000, 600),
    rule: "the result has at least two elements and an operand is broadcast, strided or long enough for the unrolled kernels (>= 8 elements)",
    assumptions: &["integer operands for which the scalar operator itself is undefined (overflow, zero divisor, oversized shift) are not generated",
                   "NaN results are compared as NaN, not by payload"],
};

fn case(src: &mut Src) -> R {
    if src.chance(1, 150) { return super::empties::check(src, "C04"); }
    let d = dtype(src, 14);
    numeric!(d, T => ops::<T>(src))
}

fn ops<T: Elem>(src: &mut Src) -> R {
    let limit = if src.thorough { 150 } else { 80 };
    let op = *src.pick(T::OPS);
    let modes: &[u8] = if T::FLOAT { &[0, 1, 2, 3] } else { &[1, 2, 3] };
    let form = src.weighted(&[6, 2, 1]);
    let own = src.upto(OWNS);
    if form == 0 {
        let out = out_shape(src, limit);
        let (sa, sb) = operand_shapes(src, &out);
        let a = gen_exact::<T>(src, &sa, modes, true);
        let mut b = gen_exact::<T>(src, &sb, modes, true);
        let (am, bm) = (a.m.broadcast(&out).unwrap(), b.m.broadcast(&out).unwrap());
        patch(op, &a, &am, &mut b, &bm);
        src.tag(op.sym());
        src.tag(["&a.&b", "a.&b", "&a.b", "a.b"][own & 3]);
        src.note(|| format!("{} {} {} (shape {out:?}, base of right operand now {:?})", a.text, op.sym(), b.text, b.base));
        if prod(&out) > 1 && (sa != sb || prod(&out) >= 8 || !a.nd.is_contiguous() || !b.nd.is_contiguous()) { src.nontrivial(); }
        let want: Vec<T> = am.idx.iter().zip(&bm.idx).map(|(&i, &j)| T::op(op, a.base[i], b.base[j]).unwrap()).collect();
        let r = T::arr(op, own, &a.nd, &b.nd);
        expect(&format!("{:?} {} {:?}", sa, op.sym(), sb), &r, &out, &want)?;
        ensure!(same_all(&a.base_now(), &a.base) && same_all(&b.base_now(), &b.base), "operands of {} changed", op.sym());
    } else if form == 1 {
        let out = out_shape(src, limit);
        let a = gen_exact::<T>(src, &out, modes, true);
        let mode = *src.pick(modes);
        let h = src.below(1 << 16);
        let mut s = T::val(mode, h, 5);
        if a.m.idx.iter().any(|&i| T::op(op, a.base[i], s).is_none()) { s = safe(op); }
        src.tag("scalar operand");
        src.note(|| format!("{} {} {s:?}", a.text, op.sym()));
        if prod(&out) > 1 && (prod(&out) >= 8 || !a.nd.is_contiguous()) { src.nontrivial(); }
        let want: Vec<T> = a.values().iter().map(|&x| T::op(op, x, s).unwrap()).collect();
        expect(&format!("{out:?} {} {s:?}", op.sym()), &T::arr_s(op, own, &a.nd, s), &out, &want)?;
        ensure!(same_all(&a.base_now(), &a.base), "operand of {} changed", op.sym());
    } else {
        if !T::SIGNED { return Ok(()); }
        let out = out_shape(src, limit);
        let mut a = gen_exact::<T>(src, &out, modes, true);
        for i in 0..a.base.len() { if T::neg(a.base[i]).is_none() { a.poke(i, T::int(0)); } }
        src.tag("neg");
        src.note(|| format!("-({})", a.text));
        if prod(&out) > 1 && (prod(&out) >= 8 || !a.nd.is_contiguous()) { src.nontrivial(); }
        let want: Vec<T> = a.values().iter().map(|&x| T::neg(x).unwrap()).collect();
        let r = T::arr_neg(own, &a.nd).unwrap();
        expect(&format!("-{out:?}"), &r, &out, &want)?;
        ensure!(same_all(&a.base_now(), &a.base), "operand of negation changed");
    }
    Ok(())
}
