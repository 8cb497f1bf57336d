//! C18: equality, printing and copying depend only on shape and values.

use super::common::*;
use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::tape::*;
use crate::{any_dtype, ensure};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C18",
    case,
    memory: false,
    quick: (4_000_000, 60),
    thorough: (60_000_000, 600),
    rule: "the array has at least two elements and at least one of the two compared layouts is not a plain contiguous array",
    assumptions: &["NaN elements occur only in comparisons (elementwise ==), not in printing or copying", "printed text is compared after removing white space, which is not specified"],
};

fn case(src: &mut Src) -> R {
    if src.chance(1, 150) { return super::empties::check(src, "C18"); }
    if src.chance(1, 4) { return if src.coin() { tensors::<f64>(src) } else { tensors::<f32>(src) }; }
    let d = dtype(src, 15);
    if src.chance(1, 5) { return any_dtype!(d, T => overlapping::<T>(src)); }
    any_dtype!(d, T => arrays::<T>(src))
}

/// Nested text of the values, without white space.
fn text<T: Raw>(shape: &[usize], vals: &mut impl Iterator<Item = T>) -> String {
    if shape.is_empty() { return format!("{:?}", vals.next().unwrap()); }
    let parts: Vec<String> = (0..shape[0]).map(|_| text(&shape[1..], vals)).collect();
    format!("[{}]", parts.join(","))
}

fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// Gives `l` the values `vals` (in row-major order of its shape).
fn assume<T: Raw>(l: &mut Laid<T>, vals: &[T]) {
    for k in 0..vals.len() { let i = l.m.idx[k]; l.poke(i, vals[k]); }
}

fn equal<T: Raw>(what: &str, a: &Nd<T>, b: &Nd<T>, want: bool) -> R {
    let r = [a == b, b == a, a == &*b, &a == b, &b == a, a == a, b == b, !(a != b)];
    ensure!(r[5] && r[6], "{what}: an array is not equal to itself");
    for k in [0, 1, 2, 3, 4, 7] {
        ensure!(r[k] == want, "{what}: comparison {k} says {}, expected {want}: {:?} {:?} and {:?} {:?}", r[k], a.shape(), a, b.shape(), b);
    }
    Ok(())
}

/// A value different from `v` under ==.
fn other<T: Raw>(src: &mut Src, v: T) -> T {
    for _ in 0..4 {
        let w = T::val(*src.pick(&[1, 3, 2]), src.below(1 << 16), 1);
        if w != v && w == w { return w; }
    }
    if T::true_() != v { T::true_() } else { T::false_() }
}

fn shape_for(src: &mut Src) -> Vec<usize> {
    if src.chance(1, 6) { out_shape(src, 70) } else if let Some(s) = rare_shape(src, 150, 9000) { s } else { gen_shape(src, 5, 5, 60) }
}

fn arrays<T: Raw>(src: &mut Src) -> R {
    let shape = shape_for(src);
    let n = prod(&shape);
    let a = gen_exact::<T>(src, &shape, &[1, 2, 3], true);
    let mut b = gen_exact::<T>(src, &shape, &[1], false);
    let vals = a.values();
    assume(&mut b, &vals);
    if n > 1 && (!a.nd.is_contiguous() || !b.nd.is_contiguous()) { src.nontrivial(); }
    src.note(|| format!("{} against {}", a.text, b.text));
    equal("equal values", &a.nd, &b.nd, true)?;

    let (pa, pb) = (format!("{:?}", a.nd), format!("{:?}", b.nd));
    ensure!(pa == pb, "equal arrays print as {pa} and {pb}");
    let want = text(&shape, &mut vals.iter().copied());
    ensure!(squash(&pa) == want, "shape {shape:?} prints as {pa}, expected {want}");

    match src.upto(6) {
        0 => {
            let c = a.nd.clone();
            expect("clone", &c, &shape, &vals)?;
            equal("clone", &a.nd, &c, true)?;
            ensure!(c.is_contiguous() && !c.is_view(), "a clone is not an owning contiguous array");
            let v = c.into_data_vector();
            ensure!(same_all(&v, &vals), "the data vector of the clone is {v:?}, expected {vals:?}");
        }
        1 => { let f = a.nd.flatten(); expect("flatten", &f, &[n], &vals)?; }
        2 => {
            if a.nd.is_contiguous() { let s = a.nd.data_slice(); ensure!(same_all(s, &vals), "data_slice() is {s:?}, expected {vals:?}"); }
            let f = b.nd.flatten();
            let s = f.data_slice();
            ensure!(same_all(s, &vals), "data_slice() of the flattened copy is {s:?}, expected {vals:?}");
        }
        3 => {
            // by consuming calls only, so that the array still owns its buffer
            let mut l = Laid::owned(&shape, vals.clone());
            for _ in 0..src.upto(4) {
                let v = match src.upto(4) { 0 => V::Reshape(factor_shape(src, n)), 1 => V::View, 2 => V::Squeeze, _ => V::Unsqueeze(0) };
                l.step(&v, true, src.describe);
            }
            if l.nd.is_contiguous() {
                let nd = std::mem::replace(&mut l.nd, build(&[1], &[T::false_()]));
                l.keep.clear();
                let v = nd.into_data_vector();
                ensure!(same_all(&v, &vals), "into_data_vector() is {v:?}, expected {vals:?}: {}", l.text);
            }
        }
        4 => {
            // another shape with the same elements
            let mut s = factor_shape(src, n);
            if s == shape { s.insert(src.upto(s.len() + 1), 1); }
            let c = build(&s, &vals);
            equal("same elements, other shape", &a.nd, &c, false)?;
        }
        _ => {
            // a prefix of the elements
            if let Some(k) = (0..shape.len()).find(|&k| shape[k] > 1) {
                let mut s = shape.clone();
                s[k] -= 1;
                let c = build(&s, &vals[..prod(&s)]);
                equal("prefix", &a.nd, &c, false)?;
            }
        }
    }

    // one differing element
    let k = src.upto(n);
    let v = other(src, vals[k]);
    let i = b.m.idx[k];
    b.poke(i, v);
    if v != vals[k] {
        equal(&format!("element {k} changed from {:?} to {v:?}", vals[k]), &a.nd, &b.nd, false)?;
        b.poke(i, vals[k]);
        equal("changed back", &a.nd, &b.nd, true)?;
    }
    Ok(())
}

/// Views of one buffer, with few distinct values, NaN and zeros of both signs: equality is elementwise ==.
fn overlapping<T: Raw>(src: &mut Src) -> R {
    let r = src.range(1, 3);
    let n = src.range(1, 5);
    let odd = if src.coin() { T::odd() } else { None };
    let rare = src.range(1, 12) as u64;
    let h = src.below(1 << 16);
    let vals: Vec<T> = (0..n.pow(r as u32)).map(|i| match (mix(h ^ mix(i as u64)) % (3 * rare), odd) {
        (0, Some((nan, _))) => nan, (1, Some((_, z))) => z, (2, _) => T::true_(), _ => T::false_() }).collect();
    let base = Laid::owned(&vec![n; r], vals.clone());
    let mut sides: Vec<(Vec<Box<Nd<T>>>, M, String)> = vec![];
    let k = src.range(1, n);
    for _ in 0..2 {
        let mut keep: Vec<Box<Nd<T>>> = vec![Box::new(unsafe { forever(&base.nd) }.view())];
        let mut m = base.m.clone();
        let mut t = String::from("base");
        let mut plan: Vec<V> = vec![];
        if src.coin() { plan.push(V::Slice((0..r).map(|_| { let lo = src.upto(n - k + 1); Sl::R(lo, lo + k) }).collect())); }
        if r > 1 && src.coin() { plan.push(V::Transpose(0, r as isize - 1)); }
        if src.chance(1, 4) { let f = r - 1; plan.push(V::SliceAlong(f as isize, Sl::I(0))); }
        for v in &plan {
            let Some(next) = m.apply(v) else { continue };
            let nd = borrow_view(unsafe { forever(keep.last().unwrap()) }, v);
            keep.push(Box::new(nd));
            m = next;
            t += &format!(".{}", v.text());
        }
        sides.push((keep, m, t));
    }
    let of = |m: &M| -> Vec<T> { m.idx.iter().map(|&i| vals[i]).collect() };
    let eq = |x: &M, y: &M| x.shape == y.shape && of(x).iter().zip(&of(y)).all(|(p, q)| p == q);
    src.note(|| format!("base {vals:?}: {} against {}", sides[0].2, sides[1].2));
    src.tag("views of one buffer");
    if sides[0].1.size() > 1 && sides[0].2 != sides[1].2 { src.nontrivial(); }
    let (a, b) = (sides[0].0.last().unwrap(), sides[1].0.last().unwrap());
    let (a, b): (&Nd<T>, &Nd<T>) = (&**a, &**b);
    let want = eq(&sides[0].1, &sides[1].1);
    let (wa, wb) = (eq(&sides[0].1, &sides[0].1), eq(&sides[1].1, &sides[1].1));
    let r = [(a == b, want), (b == a, want), (a == &*b, want), (&a == b, want), (&b == a, want), (!(a != b), want), (a == a, wa), (b == b, wb), (&a == a, wa), (*b == b.clone(), wb)];
    for (i, (got, want)) in r.iter().enumerate() {
        ensure!(got == want, "comparison {i} says {got}, expected {want}: {a:?} and {b:?} (views {} and {} of one buffer)", sides[0].2, sides[1].2);
    }
    Ok(())
}

fn tensors<T: Fl>(src: &mut Src) -> R {
    let shape = gen_shape(src, 4, 4, 40);
    let n = prod(&shape);
    let a = gen_exact::<T>(src, &shape, &[1, 2, 3], true);
    let vals = a.values();
    // a tensor with the same values whose axes were permuted by views
    let r = shape.len();
    let mut perm: Vec<usize> = (0..r).collect();
    for i in 0..r { if src.coin() { let j = src.upto(r); perm.swap(i, j); } }
    let pshape: Vec<usize> = perm.iter().map(|&p| shape[p]).collect();
    let place = |c: &[usize]| { let mut f = vec![0; r]; for (k, &p) in perm.iter().enumerate() { f[p] = c[k]; } flat(&shape, &f) };
    let pvals: Vec<T> = coords(&pshape).iter().map(|c| vals[place(c)]).collect();
    let make = |v: Vec<T>, s: &[usize]| -> Ten<T> { unsafe { <Ten<T> as Constructors<T>>::from_contiguous_owned_buffer(s.to_vec(), v) } };
    let mut chain: Vec<Box<Ten<T>>> = vec![];
    let mut cur = make(pvals, &pshape);
    if src.chance(1, 3) { cur.set_requires_grad(true); }
    let mut order = perm.clone();
    for i in 0..r {
        if order[i] != i {
            let j = order.iter().position(|&x| x == i).unwrap();
            order.swap(i, j);
            if src.coin() { cur = cur.transpose(i as isize, j as isize); } else {
                let b = Box::new(cur);
                let x = unsafe { forever_t(&*(b.as_ref() as *const Ten<T>)) };
                chain.push(b);
                cur = x.transpose(i as isize, j as isize);
            }
        }
    }
    if n > 1 && (!chain.is_empty() || !a.nd.is_contiguous()) { src.nontrivial(); }
    src.note(|| format!("{} against a tensor with axes permuted {perm:?}", a.text));
    let t = &cur;
    let u = make(vals.clone(), &shape);
    let x = &a.nd;
    let cmp = |t: &Ten<T>, u: &Ten<T>, x: &Nd<T>| [t == u, u == t, *t == *x, *x == *t, *x == t, x == *t];
    let r1 = cmp(t, &u, x);
    ensure!(r1.iter().all(|&b| b), "tensor comparisons of equal values say {r1:?}: {t:?}, {u:?}, {x:?}");
    let (p1, p2, p3) = (format!("{t:?}"), format!("{u:?}"), format!("{x:?}"));
    ensure!(p1 == p2 && p2 == p3, "equal tensors and arrays print as {p1}, {p2}, {p3}");
    let want = text(&shape, &mut vals.iter().copied());
    ensure!(squash(&p1) == want, "shape {shape:?} prints as {p1}, expected {want}");
    let d = t.detach();
    expect("detach", &d, &shape, &vals)?;

    // one differing element
    let k = src.upto(n);
    let v = other(src, vals[k]);
    let mut vals2 = vals.clone();
    vals2[k] = v;
    let u2 = make(vals2.clone(), &shape);
    let x2 = build(&shape, &vals2);
    let r2 = [*t == u2, u2 == *t, *t == x2, x2 == *t, x2 == t, &x2 == *t];
    ensure!(r2.iter().all(|&b| !b), "element {k} changed from {:?} to {v:?}; tensor comparisons say {r2:?}: {t:?} and {u2:?}", vals[k]);

    // the same elements in another shape
    let mut s = factor_shape(src, n);
    if s == shape { s.insert(src.upto(s.len() + 1), 1); }
    let u3 = make(vals.clone(), &s);
    let x3 = build(&s, &vals);
    let r3 = [*t == u3, u3 == *t, *t == x3, x3 == *t, x3 == t, &x3 == *t];
    ensure!(r3.iter().all(|&b| !b), "shapes {shape:?} and {s:?} with the same elements compare as {r3:?}");
    drop(cur);
    while let Some(b) = chain.pop() { drop(b); }
    Ok(())
}
