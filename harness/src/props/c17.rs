//! C17: tensor computations produce the same values as array computations.

use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::tape::*;
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C17",
    case,
    memory: false,
    quick: (2_000_000, 60),
    thorough: (30_000_000, 600),
    rule: "the compared tensor is the result of at least two operations",
    assumptions: &["where sums of products occur, values are small integers, so that the order of summation does not matter"],
};

fn case(src: &mut Src) -> R {
    if src.chance(1, 6) {
        return if src.coin() { constructors::<f64>(src) } else { constructors::<f32>(src) };
    }
    if src.coin() { program::<f64>(src) } else { program::<f32>(src) }
}

fn same<T: Fl>(what: &str, shape: &[usize], got: &NdArray<'_, T>, want: &Nd<T>) -> R {
    ensure!(got.shape() == shape, "{what}: shape {:?}, expected {shape:?}", got.shape());
    let (g, w): (Vec<T>, Vec<T>) = (got.flatiter().collect(), want.flatiter().collect());
    ensure!(same_all(&g, &w), "{what}: {g:?}, expected {w:?} (shape {shape:?})");
    Ok(())
}

/// All the ways of looking at tensor `i`.
fn look<T: Fl>(src: &mut Src, w: &mut World<T>, i: usize) -> R {
    let shape = w.n[i].shape.clone();
    let want = w.n[i].arr.as_ref().unwrap().clone();
    let t = w.t(i);
    ensure!(t.shape() == shape && t.ndims() == shape.len() && t.size() == prod(&shape), "t{i}: shape {:?}, expected {shape:?}", t.shape());
    ensure!(t.len() == want.len(), "t{i}.len() is {}, expected {}", t.len(), want.len());
    match src.upto(8) {
        0 => same(&format!("t{i}.ndarray()"), &shape, t.ndarray(), &want)?,
        1 => same(&format!("t{i}.get_ndarray()"), &shape, &t.get_ndarray(), &want)?,
        2 => same(&format!("t{i}.detach()"), &shape, &t.detach(), &want)?,
        3 => {
            ensure!(*t == want && want == *t && &want == *t && want == t, "t{i} and the array differ under ==: {t:?} and {want:?}");
            let u: Ten<T> = unsafe { <Ten<T> as Constructors<T>>::from_contiguous_owned_buffer(shape.clone(), want.flatiter().collect()) };
            ensure!(*t == u && u == *t, "t{i} differs from an equal tensor under ==");
        }
        4 => {
            let (a, b) = (format!("{t:?}"), format!("{want:?}"));
            ensure!(a == b, "t{i} prints as {a}, the array as {b}");
        }
        5 if prod(&shape) == 1 => {
            let v = want.flatiter().next().unwrap();
            ensure!(T::same(t.value(), v), "t{i}.value() is {:?}, expected {v:?}", t.value());
        }
        6 => {
            // the shared pointer and the detached copy survive the tensor
            let (p, d) = (t.get_ndarray(), t.detach());
            if w.can_take(i) && src.chance(1, 3) { w.drop_tensor(src, i); }
            same(&format!("t{i}.get_ndarray() kept"), &shape, &p, &want)?;
            same(&format!("t{i}.detach() kept"), &shape, &d, &want)?;
        }
        7 if w.can_take(i) && src.chance(1, 3) => {
            src.note(|| format!("t{i}.into_ndarray()"));
            let t = w.release(i);
            let a = t.into_ndarray();
            same(&format!("t{i}.into_ndarray()"), &shape, &a, &want)?;
            // the result is an ordinary array
            let b = &a + T::int(1);
            let c = &want + T::int(1);
            same(&format!("t{i}.into_ndarray() + 1"), &shape, &b, &c)?;
        }
        _ => same(&format!("t{i}.ndarray()"), &shape, t.ndarray(), &want)?,
    }
    Ok(())
}

fn program<T: Fl>(src: &mut Src) -> R {
    let mut w = World::<T>::new();
    w.shadow = true;
    w.track = *src.pick(&[50, 0, 100]);
    w.integers = src.coin();
    let products = w.integers;
    let steps = src.range(1, if src.thorough { 14 } else { 9 });
    for _ in 0..steps {
        let i = if products { w.grow(src) } else { w.grow_elementwise(src) };
        if w.ops >= 2 { src.nontrivial(); }
        look(src, &mut w, i)?;
        if src.chance(1, 8) {
            let live = w.live();
            if let Some(&j) = live.get(src.upto(live.len().max(1))) { w.backward(src, j)?; }
        }
    }
    // nothing that happened later changed an earlier tensor
    for i in w.live() {
        let shape = w.n[i].shape.clone();
        same(&format!("t{i} at the end"), &shape, w.t(i).ndarray(), w.n[i].arr.as_ref().unwrap())?;
    }
    src.tag(if w.track == 0 { "untracked" } else if w.track == 100 { "tracked" } else { "mixed" });
    Ok(())
}

fn constructors<T: Fl + num_like::Num>(src: &mut Src) -> R {
    let shape = match rare_shape(src, 200, 5000) { Some(s) => s, None => gen_shape(src, 4, 4, 40) };
    src.tag("constructor");
    let v = T::of(src.irange(-9, 9) as f64 / 4.0);
    let kind = src.upto(8);
    src.note(|| format!("constructor {kind} shape {shape:?} value {v:?}"));
    let (t, a): (Ten<T>, Nd<T>) = match kind {
        0 => (Tensor::full(v, shape.clone()), NdArray::full(v, shape.clone())),
        1 => (Tensor::zeros(shape.clone()), NdArray::zeros(shape.clone())),
        2 => (Tensor::ones(shape.clone()), NdArray::ones(shape.clone())),
        3 => (Tensor::scalar(v), NdArray::scalar(v)),
        4 => { let n = T::of(src.range(1, 30) as f64); (Tensor::arange(v, v + n), NdArray::arange(v, v + n)) }
        5 => { let (n, s) = (T::of(src.range(1, 30) as f64), T::of(*src.pick(&[0.5, 0.25, 2.0, 1.5]))); (Tensor::arange_with_step(v, v + n, s), NdArray::arange_with_step(v, v + n, s)) }
        6 => { let (n, k) = (T::of(src.range(1, 9) as f64), src.range(1, 40)); (T::lin(v, v + n, k, true), T::lin_a(v, v + n, k, true)) }
        _ => { let (n, k) = (T::of(src.range(1, 9) as f64), src.range(1, 40)); (T::lin(v, v + n, k, false), T::lin_a(v, v + n, k, false)) }
    };
    let shape = a.shape().to_vec();
    if prod(&shape) > 1 { src.nontrivial(); }
    same("constructor", &shape, t.ndarray(), &a)?;
    ensure!(!t.requires_grad() && t.is_leaf() && t.gradient().is_none(), "a new tensor tracks gradients");
    Ok(())
}

mod num_like {
    use crate::tape::*;
    use crate::elem::*;
    use redstone_ml::*;
    pub trait Num: Fl + std::ops::Add<Output = Self> {
        fn lin(a: Self, b: Self, n: usize, incl: bool) -> Ten<Self>;
        fn lin_a(a: Self, b: Self, n: usize, incl: bool) -> Nd<Self>;
    }
    macro_rules! num { ($($t:ty)*) => { $(impl Num for $t {
        fn lin(a: Self, b: Self, n: usize, incl: bool) -> Ten<Self> { if incl { Tensor::linspace(a, b, n) } else { Tensor::linspace_exclusive(a, b, n) } }
        fn lin_a(a: Self, b: Self, n: usize, incl: bool) -> Nd<Self> { if incl { NdArray::linspace(a, b, n) } else { NdArray::linspace_exclusive(a, b, n) } }
    })* } }
    num!(f32 f64);
}
