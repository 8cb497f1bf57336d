//! C11: matrix products, dot and trace match their algebraic definitions.

use super::common::*;
use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, numeric};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C11",
    case,
    memory: false,
    quick: (4_000_000, 60),
    thorough: (50_000_000, 600),
    rule: "some contraction has length at least two, and an operand is strided, transposed, broadcast or long enough for the unrolled kernels",
    assumptions: &["values are small integers (or NaN), so that every order of summation gives the exact result without overflow"],
};

fn case(src: &mut Src) -> R {
    if src.chance(1, 150) { return super::empties::check(src, "C11"); }
    let d = dtype(src, 14);
    numeric!(d, T => products::<T>(src))
}

fn dim(src: &mut Src, long: bool) -> usize {
    if long { src.range(1, 40) } else { src.weighted(&[2, 3, 3, 2, 1, 1]) + 1 }
}

fn products<T: Elem>(src: &mut Src) -> R {
    let kind = src.weighted(&[3, 4, 5, 4, 3]);
    let long = src.chance(1, 5);
    let huge = src.chance(1, 250);
    if huge { src.tag("large"); }
    match kind {
        0 => {
            let n = if huge { src.range(200, 20_000) } else if src.coin() { src.range(1, if src.thorough { 300 } else { 100 }) } else { dim(src, false) };
            let mut a = gen_exact::<T>(src, &[n], &[1], true);
            let mut b = gen_exact::<T>(src, &[n], &[1], true);
            tame_pair(src, &mut a, &mut b, n);
            src.tag("dot");
            src.note(|| format!("dot({} {:?}, {} {:?})", a.text, a.base, b.text, b.base));
            if n > 1 && (n >= 8 || !a.nd.is_contiguous() || !b.nd.is_contiguous()) { src.nontrivial(); }
            let want = sop(&a.values(), &b.values());
            let r = if src.coin() { T::dot_(&a.nd, &b.nd) } else { T::matmul_(&a.nd, &b.nd) };
            num_eq("dot", &r, &[], &[want])?;
            unchanged(&a, &b)
        }
        1 => {
            let (m, k) = if huge { (src.range(1, 200), src.range(1, 200)) } else { (dim(src, long), dim1(src, 6)) };
            let mut a = gen_exact::<T>(src, &[m, k], &[1], true);
            let mut b = gen_exact::<T>(src, &[k], &[1], true);
            tame_pair(src, &mut a, &mut b, k);
            src.tag("matrix-vector");
            src.note(|| format!("matmul({} {:?}, {} {:?})", a.text, a.base, b.text, b.base));
            if k > 1 && (k >= 8 || !a.nd.is_contiguous() || !b.nd.is_contiguous()) { src.nontrivial(); }
            let (av, bv) = (a.values(), b.values());
            let want: Vec<T> = (0..m).map(|i| sop(&av[i * k..(i + 1) * k], &bv)).collect();
            num_eq("matrix-vector product", &T::matmul_(&a.nd, &b.nd), &[m], &want)?;
            unchanged(&a, &b)
        }
        2 => {
            let (m, k, n) = if huge { (src.range(1, 80), src.range(1, 80), src.range(1, 80)) } else { (dim(src, long), dim1(src, 6), dim(src, false)) };
            let mut a = gen_exact::<T>(src, &[m, k], &[1], true);
            let mut b = gen_exact::<T>(src, &[k, n], &[1], true);
            tame_pair(src, &mut a, &mut b, k);
            src.tag("matrix-matrix");
            src.note(|| format!("matmul({} {:?}, {} {:?})", a.text, a.base, b.text, b.base));
            if k > 1 && (k >= 8 || !a.nd.is_contiguous() || !b.nd.is_contiguous()) { src.nontrivial(); }
            let want = mm(&a.values(), &b.values(), m, k, n);
            num_eq("matrix-matrix product", &T::matmul_(&a.nd, &b.nd), &[m, n], &want)?;
            unchanged(&a, &b)
        }
        3 => {
            let (s, m, k, n) = if huge { (src.range(5, 70), src.range(1, 12), src.range(1, 12), src.range(1, 12)) } else { (src.range(1, 4), dim(src, false), dim1(src, 8), dim(src, false)) };
            let mut a = gen_exact::<T>(src, &[s, m, k], &[1], true);
            let mut b = gen_exact::<T>(src, &[s, k, n], &[1], true);
            tame_pair(src, &mut a, &mut b, k);
            src.tag("batched");
            src.note(|| format!("bmm({} {:?}, {} {:?})", a.text, a.base, b.text, b.base));
            if k > 1 && s > 1 { src.nontrivial(); }
            let (av, bv) = (a.values(), b.values());
            let mut want = vec![];
            for q in 0..s { want.extend(mm(&av[q * m * k..(q + 1) * m * k], &bv[q * k * n..(q + 1) * k * n], m, k, n)); }
            num_eq("batched product", &T::bmm_(&a.nd, &b.nd), &[s, m, n], &want)?;
            unchanged(&a, &b)
        }
        _ => {
            let mut shape = match rare_shape(src, 120, 9000) { Some(s) => s, None => gen_shape(src, 4, 5, 60) };
            while shape.len() < 2 { shape.push(src.range(1, 6)); }
            let mut a = gen_exact::<T>(src, &shape, &[1], true);
            let h = src.below(1 << 16);
            tame(&mut a, false, h);
            maybe_nan(src, &mut a);
            let n = shape.len();
            let form = src.upto(4);
            let (mut x, mut y) = (0, 1);
            if form >= 2 { x = src.upto(n); y = (x + 1 + src.upto(n - 1)) % n; }
            let o = if form % 2 == 1 { src.irange(-(shape[x] as i64 - 1), shape[y] as i64 - 1) as isize } else { 0 };
            let (sx, sy) = (sign(src, x, n), sign(src, y, n));
            src.tag("trace");
            src.note(|| format!("trace form {form} of {} {:?} offset {o} axes {sx} {sy}", a.text, a.base));
            let d = a.m.diagonal(o, x, y).unwrap();
            let last = d.shape.len() - 1;
            let out: Vec<usize> = d.shape[..last].to_vec();
            if d.shape[last] > 1 { src.nontrivial(); }
            let want: Vec<T> = coords(&out).iter().map(|c| {
                let keep: Vec<usize> = (0..last).collect();
                d.fix(&keep, c).idx.iter().fold(T::int(0), |s, &i| T::op(Op::Add, s, a.base[i]).unwrap())
            }).collect();
            let r: Nd<T> = match form {
                0 => a.nd.trace(), 1 => a.nd.offset_trace(o), 2 => a.nd.trace_along(sx, sy), _ => a.nd.offset_trace_along(o, Axis(sx), Axis(sy)),
            };
            num_eq("trace", &r, &out, &want)?;
            ensure!(same_all(&a.base_now(), &a.base), "trace changed its operand");
            Ok(())
        }
    }
}

fn mm<T: Elem>(a: &[T], b: &[T], m: usize, k: usize, n: usize) -> Vec<T> {
    let mut out = vec![];
    for i in 0..m { for j in 0..n {
        let col: Vec<T> = (0..k).map(|q| b[q * n + j]).collect();
        out.push(sop(&a[i * k..(i + 1) * k], &col));
    } }
    out
}

fn unchanged<T: Elem>(a: &Laid<T>, b: &Laid<T>) -> R {
    ensure!(same_all(&a.base_now(), &a.base) && same_all(&b.base_now(), &b.base), "a product changed its operands");
    Ok(())
}

fn dim1(src: &mut Src, one_in: u64) -> usize {
    let long = src.chance(1, one_in);
    dim(src, long)
}
