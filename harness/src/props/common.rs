//! Generators shared by several properties.

use crate::elem::*;
use crate::engine::*;
use crate::model::*;

/// An output shape: mostly small, sometimes with an axis long enough for every kernel's main loop and tail.
pub fn out_shape(src: &mut Src, limit: usize) -> Vec<usize> {
    if let Some(s) = rare_shape(src, 120, 20_000) { return s; }
    match src.weighted(&[5, 2, 1]) {
        0 => gen_shape(src, 5, 5, 60),
        1 => vec![src.range(1, limit)],
        _ => {
            let k = src.range(1, 4);
            let long = src.range(1, limit / 2);
            if src.coin() { vec![k, long] } else { vec![long, k] }
        }
    }
}

/// Two operand shapes whose broadcast is exactly `out`.
pub fn operand_shapes(src: &mut Src, out: &[usize]) -> (Vec<usize>, Vec<usize>) {
    let n = out.len();
    match src.weighted(&[3, 5, 1, 1]) {
        0 => return (out.to_vec(), out.to_vec()),
        2 => return (out.to_vec(), vec![]),
        3 => return (vec![], out.to_vec()),
        _ => {}
    }
    let (la, lb) = if src.coin() { (0, src.upto(n + 1)) } else { (src.upto(n + 1), 0) };
    let (mut a, mut b) = (out[la..].to_vec(), out[lb..].to_vec());
    for ax in 0..n {
        let (ina, inb) = (ax >= la, ax >= lb);
        match src.weighted(&[3, 1, 1]) {
            1 if ina && inb => a[ax - la] = 1,
            2 if ina && inb => b[ax - lb] = 1,
            _ => {}
        }
    }
    (a, b)
}

pub fn safe<T: Elem>(op: Op) -> T {
    match op { Op::Add | Op::Sub | Op::Shl | Op::Shr | Op::And | Op::Or => T::int(0), _ => T::int(1) }
}

/// Replaces elements of the right operand for which the operator is undefined.
pub fn patch<T: Elem>(op: Op, a: &Laid<T>, am: &M, b: &mut Laid<T>, bm: &M) {
    for (&i, &j) in am.idx.iter().zip(&bm.idx) {
        if T::op(op, a.base[i], b.base[j]).is_none() {
            b.poke(j, safe(op));
        }
    }
}

/// Rewrites the base so that the reduction is exact in every order of evaluation.
pub fn tame<T: Elem>(l: &mut Laid<T>, product: bool, h: u64) {
    let bits = std::mem::size_of::<T>() * 8;
    let n = l.m.size().max(1) as u64;
    if product {
        // signs and at most `cap` factors of two among all folded positions
        let cap = if T::FLOAT { 20 } else { bits as u64 - 2 };
        let mut times: Vec<u64> = vec![0; l.base.len()];
        for &i in &l.m.idx { times[i] += 1; }
        let mut used = 0;
        for i in 0..l.base.len() {
            let r = mix(h ^ mix(i as u64));
            let two = r % 3 == 0 && used + times[i] <= cap;
            if two { used += times[i]; }
            let neg = T::SIGNED && (r >> 8) % 2 == 0;
            let v = if two { 2 } else if (r >> 16) % (2 * n).max(23) == 0 { 0 } else { 1 };
            let v = if T::FLOAT && two && (r >> 24) % 2 == 0 { T::op(Op::Div, T::int(1), T::int(2)).unwrap() } else { T::int(v) };
            l.poke(i, if neg { T::neg(v).unwrap() } else { v });
        }
    } else {
        let max: u64 = if T::FLOAT { 1 << 20 } else if bits >= 32 { 1 << 30 } else { (1u64 << (bits - 1)) - 1 };
        let r = (max / n).max(1).min(1 << 20);
        // with more elements than the type can count, most are zero
        for i in 0..l.base.len() {
            let x = mix(h ^ mix(i as u64));
            let sparse = max / n == 0;
            let v = if sparse { if x % (2 * n / max + 2) == 0 { 1 } else { 0 } } else { (x % (r + 1)) as i64 };
            let neg = T::SIGNED && (x >> 40) % 2 == 0;
            l.poke(i, T::int(if neg { -v } else { v }));
        }
        let total: u64 = l.m.idx.iter().map(|&i| l.base[i].f().abs() as u64).sum();
        if total > max {
            for i in 0..l.base.len() { l.poke(i, T::int(0)); }
        }
    }
}


/// Sum of products of two vectors.
pub fn sop<T: Elem>(a: &[T], b: &[T]) -> T {
    a.iter().zip(b).fold(T::int(0), |s, (&x, &y)| T::op(Op::Add, s, T::op(Op::Mul, x, y).unwrap()).unwrap())
}

/// Rewrites two operands so that sums of `k` products of their elements cannot overflow or round.
pub fn tame_pair<T: Elem>(src: &mut Src, a: &mut Laid<T>, b: &mut Laid<T>, k: usize) {
    let h = src.below(1 << 20);
    tame_with(a, h, k, 2);
    tame_with(b, h ^ 0xabc, k, 2);
    maybe_nan(src, a);
    maybe_nan(src, b);
}

/// Values whose products of `factors` elements sum up exactly over `terms` terms.
pub fn tame_with<T: Elem>(a: &mut Laid<T>, h: u64, terms: usize, factors: usize) {
    let bits = std::mem::size_of::<T>() * 8;
    let max: f64 = if T::FLOAT { (1u64 << 22) as f64 } else if bits >= 32 { (1u64 << 30) as f64 } else { ((1u64 << (bits - 1)) - 1) as f64 };
    let r = (max / terms as f64).powf(1.0 / factors as f64).floor().min(50.0) as i64;
    for i in 0..a.base.len() {
        let x = mix(h ^ mix(i as u64 + 77));
        let v = if r < 1 { 0 } else { (x % (r as u64 + 1)) as i64 };
        let neg = T::SIGNED && (x >> 40) % 2 == 0;
        a.poke(i, T::int(if neg { -v } else { v }));
    }
    // more terms than the type can count: very few non-zero elements
    if r < 1 && !a.base.is_empty() {
        let i = (mix(h) % a.base.len() as u64) as usize;
        let times = a.m.idx.iter().filter(|&&j| j == i).count();
        if times <= 1 { a.poke(i, T::int(1)); }
    }
}

/// Numerical equality (the sign of zero does not matter).
pub fn num_eq<T: Elem>(what: &str, got: &Nd<T>, shape: &[usize], want: &[T]) -> R {
    use redstone_ml::StridedMemory;
    crate::ensure!(got.shape() == shape, "{what}: shape {:?}, expected {shape:?}", got.shape());
    let g: Vec<T> = got.flatiter().collect();
    crate::ensure!(g.len() == want.len() && g.iter().zip(want).all(|(a, b)| a == b || (a != a && b != b)), "{what}: got {g:?}, expected {want:?} (shape {shape:?})");
    Ok(())
}

/// Now and then one element of a float array becomes NaN: every sum or product it enters must be NaN.
pub fn maybe_nan<T: Elem>(src: &mut Src, l: &mut Laid<T>) {
    if let Some((nan, _)) = T::odd() {
        if src.chance(1, 16) && !l.base.is_empty() {
            let i = src.upto(l.base.len());
            l.poke(i, nan);
            src.tag("NaN element");
        }
    }
}
