//! C05: in-place operations change exactly their own elements.

use super::common::*;
use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::{any_dtype, ensure, numeric};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C05",
    case,
    memory: false,
    quick: (4_000_000, 60),
    thorough: (60_000_000, 600),
    rule: "the target has at least two elements and is non-contiguous, read-only, or shares memory with the right-hand side, or the right-hand side is broadcast",
    assumptions: &["integer operands for which the scalar operator itself is undefined are not generated",
                   "assignment by index uses as many coordinates as the array has dimensions"],
};

fn case(src: &mut Src) -> R {
    if src.chance(1, 150) { return super::empties::check(src, "C05"); }
    match src.weighted(&[4, 4, 2, 3, 3]) {
        0 => { let d = dtype(src, 14); numeric!(d, T => separate::<T>(src)) }
        1 => { let d = dtype(src, 14); numeric!(d, T => aliased::<T>(src)) }
        2 => { let d = dtype(src, 14); numeric!(d, T => scalar::<T>(src)) }
        3 => { let d = dtype(src, 15); any_dtype!(d, T => plain::<T>(src)) }
        _ => { let d = dtype(src, 14); numeric!(d, T => readonly::<T>(src)) }
    }
}

fn check<T: Raw>(what: &str, l: &Laid<T>, want: &[T]) -> R {
    let now = l.base_now();
    ensure!(same_all(&now, want), "{what}: buffer is {now:?}, expected {want:?} (was {:?}; target positions {:?})", l.base, l.m.idx);
    ensure!(l.nd.shape() == l.m.shape, "{what}: the target's shape changed to {:?}", l.nd.shape());
    let seen: Vec<T> = l.nd.flatiter().collect();
    let w: Vec<T> = l.m.idx.iter().map(|&i| want[i]).collect();
    ensure!(same_all(&seen, &w), "{what}: target reads {seen:?}, expected {w:?}");
    Ok(())
}

fn separate<T: Elem>(src: &mut Src) -> R {
    let op = *src.pick(T::OPS);
    let modes: &[u8] = if T::FLOAT { &[0, 1, 2, 3] } else { &[1, 2, 3] };
    let out = out_shape(src, if src.thorough { 120 } else { 80 });
    let (_, sb) = operand_shapes(src, &out);
    let mut a = gen_exact::<T>(src, &out, modes, false);
    let mut b = gen_exact::<T>(src, &sb, modes, true);
    let bm = b.m.broadcast(&out).unwrap();
    let am = a.m.clone();
    patch(op, &a, &am, &mut b, &bm);
    src.tag(op.sym());
    src.note(|| format!("{} {}= {} (right base now {:?})", a.text, op.sym(), b.text, b.base));
    if prod(&out) > 1 && (!a.nd.is_contiguous() || sb != out || !b.nd.is_contiguous()) { src.nontrivial(); }
    let mut want = a.base.clone();
    for (&i, &j) in a.m.idx.iter().zip(&bm.idx) { want[i] = T::op(op, a.base[i], b.base[j]).unwrap(); }
    let own = src.upto(OWNS);
    T::assign(op, own, &mut a.nd, &b.nd);
    check(&format!("{out:?} {}= {sb:?}", op.sym()), &a, &want)?;
    ensure!(same_all(&b.base_now(), &b.base), "the right-hand side of {}= changed", op.sym());
    Ok(())
}

/// Target and right-hand side are two views of one buffer.
fn aliased<T: Elem>(src: &mut Src) -> R {
    let n = src.range(1, 4);
    let mut shape: Vec<usize> = vec![];
    let long = n == 1 && src.coin();
    for _ in 0..n { shape.push(if long { src.range(1, 60) } else { src.range(1, 4) }); }
    let pad: Vec<usize> = (0..n).map(|_| src.weighted(&[4, 3, 1])).collect();
    let big: Vec<usize> = shape.iter().zip(&pad).map(|(a, b)| a + b).collect();
    let vals = gen_vals::<T>(src, prod(&big), &[1]);
    let mut l = Laid::owned(&big, vals.clone());
    l.note_base(src.describe);
    let root = M::root(&big);
    let mut chain_t: Vec<V> = vec![];
    let mut chain_r: Vec<V> = vec![];
    let pick = |src: &mut Src, one: bool| -> V {
        V::Slice((0..n).map(|a| {
            let lo = src.upto(pad[a] + 1);
            if one && shape[a] > 1 && src.chance(1, 4) { Sl::R(lo, lo + 1) } else { Sl::R(lo, lo + shape[a]) }
        }).collect())
    };
    if pad.iter().any(|&p| p > 0) || src.chance(1, 4) { chain_t.push(pick(src, false)); }
    let sub = src.chance(1, 3);
    if pad.iter().any(|&p| p > 0) || sub { chain_r.push(pick(src, sub)); }
    let perm = |src: &mut Src, chain: &mut Vec<V>| {
        for a in 0..n { for b in 0..a { if shape[a] == shape[b] && src.chance(1, 3) { chain.push(V::Transpose(a as isize, b as isize)); } } }
    };
    perm(src, &mut chain_t);
    perm(src, &mut chain_r);
    let (mut tm, mut rm) = (root.clone(), root);
    for v in &chain_t { tm = tm.apply(v).unwrap(); }
    for v in &chain_r { rm = rm.apply(v).unwrap(); }
    // drop a leading axis of length one so that the right-hand side is broadcast
    if rm.shape.first() == Some(&1) && n > 1 && src.coin() {
        let v = V::SliceAlong(0, Sl::I(0));
        rm = rm.apply(&v).unwrap();
        chain_r.push(v);
    }
    let Some(rb) = rm.broadcast(&tm.shape) else { return Ok(()) };
    let ops: Vec<Op> = T::OPS.iter().copied().filter(|&op| tm.idx.iter().zip(&rb.idx).all(|(&i, &j)| T::op(op, vals[i], vals[j]).is_some())).collect();
    if ops.is_empty() { return Ok(()); }
    let op = *src.pick(&ops);
    src.tag("aliased");
    src.note(|| format!("{}: a{} {}= a{}", l.text, chain_t.iter().map(|v| format!(".{}", v.text())).collect::<String>(), op.sym(),
                        chain_r.iter().map(|v| format!(".{}", v.text())).collect::<String>()));
    if tm.size() > 1 && tm.idx != rb.idx { src.nontrivial(); }
    let mut want = vals.clone();
    for (&i, &j) in tm.idx.iter().zip(&rb.idx) { want[i] = T::op(op, vals[i], vals[j]).unwrap(); }
    // both views borrow the same owner
    let owner = Box::new(std::mem::replace(&mut l.nd, build(&[1], &[T::default()])));
    let base: &'static Nd<T> = unsafe { &*(owner.as_ref() as *const Nd<T>) };
    let mut arena: Vec<Box<Nd<T>>> = vec![];
    let mut walk = |chain: &[V]| -> Nd<T> {
        let mut cur = base.view();
        for v in chain {
            let b = Box::new(cur);
            let r: &'static Nd<T> = unsafe { &*(b.as_ref() as *const Nd<T>) };
            arena.push(b);
            cur = borrow_view(r, v);
        }
        cur
    };
    let mut t = walk(&chain_t);
    let r = walk(&chain_r);
    let own = src.upto(OWNS);
    T::assign(op, own, &mut t, &r);
    let now: Vec<T> = base.flatiter().collect();
    ensure!(same_all(&now, &want), "{}= with overlapping operands: buffer is {now:?}, expected {want:?} (was {vals:?}; target positions {:?}, right positions {:?})", op.sym(), tm.idx, rb.idx);
    let seen: Vec<T> = r.flatiter().collect();
    let w: Vec<T> = rm.idx.iter().map(|&i| want[i]).collect();
    ensure!(same_all(&seen, &w), "{}=: the overlapping right-hand side now reads {seen:?}, expected {w:?}", op.sym());
    drop(t);
    drop(r);
    drop(arena);
    drop(owner);
    Ok(())
}

fn scalar<T: Elem>(src: &mut Src) -> R {
    let op = *src.pick(T::OPS);
    let modes: &[u8] = if T::FLOAT { &[0, 1, 2, 3] } else { &[1, 2, 3] };
    let out = out_shape(src, 80);
    let mut a = gen_exact::<T>(src, &out, modes, false);
    let mode = *src.pick(modes);
    let h = src.below(1 << 16);
    let mut s = T::val(mode, h, 3);
    let neutral = match op { Op::Mul | Op::Div | Op::Rem => T::int(1), _ => T::int(0) };
    if a.m.idx.iter().any(|&i| T::op(op, a.base[i], s).is_none()) { s = neutral; }
    src.tag("scalar");
    src.note(|| format!("{} {}= {s:?}", a.text, op.sym()));
    if prod(&out) > 1 && !a.nd.is_contiguous() { src.nontrivial(); }
    let mut want = a.base.clone();
    for &i in &a.m.idx { want[i] = T::op(op, a.base[i], s).unwrap(); }
    T::assign_s(op, &mut a.nd, s);
    check(&format!("{out:?} {}= {s:?}", op.sym()), &a, &want)
}

/// fill, zero and assignment by index
fn plain<T: Raw>(src: &mut Src) -> R {
    let out = out_shape(src, 80);
    let mut a = gen_exact::<T>(src, &out, &[0, 2, 3], false);
    let h = src.below(1 << 16);
    let v = T::val(3, h, 1);
    if prod(&out) > 1 && !a.nd.is_contiguous() { src.nontrivial(); }
    let mut want = a.base.clone();
    match src.upto(3) {
        0 => {
            src.tag("fill");
            src.note(|| format!("{}.fill({v:?})", a.text));
            for &i in &a.m.idx { want[i] = v; }
            a.nd.fill(v);
            check("fill", &a, &want)
        }
        1 => {
            src.tag("zero");
            src.note(|| format!("{}.zero()", a.text));
            for &i in &a.m.idx { want[i] = T::false_(); }
            T::zero_arr(&mut a.nd);
            check("zero", &a, &want)
        }
        _ => {
            src.tag("index assignment");
            if out.len() > 8 { return Ok(()); }
            for _ in 0..src.range(1, 4) {
                let c: Vec<usize> = out.iter().map(|&n| src.upto(n)).collect();
                let v = T::val(3, h, src.upto(50));
                src.note(|| format!("{}[{c:?}] = {v:?}", a.text));
                want[a.m.at(&c)] = v;
                set(&mut a.nd, &c, v);
                check(&format!("[{c:?}] ="), &a, &want)?;
            }
            Ok(())
        }
    }
}

/// Broadcast arrays and all views of them refuse every write.
fn readonly<T: Elem>(src: &mut Src) -> R {
    let mut a = gen_free::<T>(src, 2, 30, &[1], true);
    if !a.readonly {
        let mut to = a.m.shape.clone();
        for x in to.iter_mut() { if *x == 1 && src.coin() { *x = src.range(2, 3); } }
        if to.len() < 5 && src.coin() { let d = src.range(1, 3); to.insert(0, d); }
        a.step(&V::Broadcast(to), false, src.describe);
    }
    for _ in 0..src.upto(3) {
        let uniform = a.nd.is_uniformly_strided() || a.m.surely_uniform();
        let v = gen_view(src, &a.m, uniform, true, 100);
        let c = src.coin();
        a.step(&v, c, src.describe);
    }
    src.tag("read-only");
    if a.m.size() > 1 { src.nontrivial(); }
    let k = src.upto(6);
    src.note(|| format!("{} write kind {k}", a.text));
    let ones = build(&a.m.shape, &vec![T::int(1); a.m.size()]);
    let op = *src.pick(T::OPS);
    let what = ["fill", "zero", "index assignment", "compound assignment with an array", "compound assignment with a scalar", "compound assignment with a one-element array"][k];
    let r = catch(|| match k {
        0 => a.nd.fill(T::int(1)),
        1 => T::zero_arr(&mut a.nd),
        2 => { let c = vec![0; a.m.shape.len()]; set(&mut a.nd, &c, T::int(1)) }
        3 => T::assign(op, 0, &mut a.nd, &ones),
        4 => T::assign_s(op, &mut a.nd, T::int(1)),
        _ => T::assign(op, 1, &mut a.nd, &build(&[], &[T::int(1)])),
    });
    ensure!(r.is_err(), "{what} on a broadcast array (shape {:?}) was not refused: {}", a.m.shape, a.text);
    let now = a.base_now();
    ensure!(same_all(&now, &a.base), "refused {what} changed the data: {now:?}, was {:?}", a.base);
    Ok(())
}
