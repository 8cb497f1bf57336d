//! C07: deterministic constructors produce exactly the described contents.

use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::{any_dtype, ensure, numeric};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C07",
    case,
    memory: false,
    quick: (6_000_000, 60),
    thorough: (80_000_000, 600),
    rule: "nested data of depth two or more, a refused (ragged or empty) input, or a range of at least two elements",
    assumptions: &["arange arguments whose difference overflows the element type are not generated",
                   "for float ranges that are not exact, the count is only compared when the quotient is not within 1e-3 of a whole number, and elements within a few units in the last place"],
};

fn case(src: &mut Src) -> R {
    match src.weighted(&[6, 2, 4, 3]) {
        0 => nested(src),
        1 => { let d = dtype(src, 15); any_dtype!(d, T => filled::<T>(src)) }
        2 => { let d = dtype(src, 14); numeric!(d, T => arange::<T>(src)) }
        _ => if src.coin() { linspace::<f32>(src) } else { linspace::<f64>(src) },
    }
}

// ---------------------------------------------------------------- nested data

/// How to build nested data: the shape, and optionally one inner vector of a different length.
struct Plan<'a, T> {
    shape: &'a [usize],
    fixed: &'a [Option<usize>],
    /// (depth, which vector at that depth, its length)
    defect: Option<(usize, usize, usize)>,
    seen: Vec<usize>,
    next: &'a mut dyn FnMut() -> T,
}

trait Nest<T> {
    fn fixed(out: &mut Vec<Option<usize>>);
    fn make(depth: usize, p: &mut Plan<T>) -> Self;
}

macro_rules! leaf { ($($t:ty)*) => {$(
    impl Nest<$t> for $t {
        fn fixed(_: &mut Vec<Option<usize>>) {}
        fn make(_: usize, p: &mut Plan<$t>) -> Self { (p.next)() }
    }
)*} }
leaf!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64 bool);

impl<T, X: Nest<T>> Nest<T> for Vec<X> {
    fn fixed(out: &mut Vec<Option<usize>>) { out.push(None); X::fixed(out); }
    fn make(depth: usize, p: &mut Plan<T>) -> Self {
        let k = p.seen[depth];
        p.seen[depth] += 1;
        let n = match p.defect { Some((d, w, n)) if d == depth && w == k => n, _ => p.shape[depth] };
        (0..n).map(|_| X::make(depth + 1, p)).collect()
    }
}

impl<T, X: Nest<T>, const N: usize> Nest<T> for [X; N] {
    fn fixed(out: &mut Vec<Option<usize>>) { out.push(Some(N)); X::fixed(out); }
    fn make(depth: usize, p: &mut Plan<T>) -> Self {
        std::array::from_fn(|_| X::make(depth + 1, p))
    }
}

macro_rules! ty {
    ($t:ty;) => { $t };
    ($t:ty; V $($r:tt)*) => { Vec<ty!($t; $($r)*)> };
    ($t:ty; A $($r:tt)*) => { [ty!($t; $($r)*); 2] };
    ($t:ty; B $($r:tt)*) => { [ty!($t; $($r)*); 3] };
    ($t:ty; C $($r:tt)*) => { [ty!($t; $($r)*); 1] };
}

macro_rules! combos {
    ($src:expr, $t:ty, $new:ident; $($($k:ident)* ;)*) => {{
        let mut arms: Vec<fn(&mut Src) -> R> = vec![];
        $( arms.push(|src: &mut Src| one_nest::<$t, ty!($t; $($k)*)>(src, concat!($(stringify!($k)),*), |x| {
            let a: Nd<$t> = NdArray::new(x);
            (a.shape().to_vec(), a.flatiter().collect())
        })); )*
        let k = $src.upto(arms.len());
        arms[k]($src)
    }};
}

macro_rules! full_combos { ($src:expr, $t:ty) => { combos!($src, $t, new;
    V; A; B; C;
    V V; V A; A V; B A; C V;
    V V V; V V A; V A V; A V V; V A B; A V B; A B V; A B C;
    V V V V; A B C A; V A V A; A V A V; V V A A; A C V V;
    V V V V V; A V A V A; V A V A V; A A B C A;
    V V V V V V; A V C V A V; A A A A A A;
    V V V V V V V; A C A V A A V;
    V V V V V V V V; A A A A A A A A; C V C V A V A V;
) } }
macro_rules! few_combos { ($src:expr, $t:ty) => { combos!($src, $t, new; V; B; V V; A V; V B; A B; A V A; V A V;) } }

fn nested(src: &mut Src) -> R {
    match dtype(src, 16) {
        0 => full_combos!(src, i32), 1 => full_combos!(src, f32), 2 => full_combos!(src, f64), 3 => few_combos!(src, i64), 4 => few_combos!(src, u8),
        5 => few_combos!(src, i8), 6 => few_combos!(src, i16), 7 => few_combos!(src, u16), 8 => few_combos!(src, u32), 9 => few_combos!(src, u64),
        10 => few_combos!(src, i128), 11 => few_combos!(src, u128), 12 => few_combos!(src, usize), 13 => few_combos!(src, isize), 14 => full_combos!(src, bool),
        _ => tensor_nested(src),
    }
}

fn tensor_nested(src: &mut Src) -> R {
    macro_rules! tc { ($t:ty; $($($k:ident)* ;)*) => {{
        let mut arms: Vec<fn(&mut Src) -> R> = vec![];
        $( arms.push(|src: &mut Src| one_nest::<$t, ty!($t; $($k)*)>(src, concat!("tensor ", $(stringify!($k)),*), |x| {
            let a: Tensor<'static, $t> = Tensor::new(x);
            (a.shape().to_vec(), a.ndarray().flatiter().collect())
        })); )*
        let k = src.upto(arms.len());
        arms[k](src)
    }} }
    if src.coin() { tc!(f32; V; B; V V; A V; V B; A V A; V V V V;) } else { tc!(f64; V; B; V V; A V; V B; A V A; V V V V;) }
}

fn one_nest<T: Raw, X: Nest<T>>(src: &mut Src, kind: &str, new: fn(X) -> (Vec<usize>, Vec<T>)) -> R {
    let mut fixed = vec![];
    X::fixed(&mut fixed);
    let d = fixed.len();
    let mut shape: Vec<usize> = vec![];
    for f in &fixed {
        let room = 256 / prod(&shape).max(1);
        shape.push(match f { Some(n) => *n, None => src.weighted(&[2, 3, 3, 1]) + 1 }.min(room.max(1)).max(f.unwrap_or(1)));
    }
    let mode = *src.pick(&[0u8, 3, 2]);
    let h = src.below(1 << 16);
    // a vector level can be given one odd member, or be empty
    let vec_levels: Vec<usize> = (0..d).filter(|&k| fixed[k].is_none()).collect();
    let mut defect = None;
    let mut bad = false;
    let mut empty = false;
    if !vec_levels.is_empty() && src.chance(1, 4) {
        let k = *src.pick(&vec_levels);
        let members: usize = prod(&shape[..k]);
        if src.chance(1, 4) {
            shape[k] = 0;
            bad = true;
            empty = true;
        } else if members > 1 {
            let w = src.upto(members);
            let n = if src.coin() { shape[k] + src.range(1, 2) } else { shape[k] - 1 };
            defect = Some((k, w, n));
            bad = true;
        }
    }
    if d >= 2 || bad { src.nontrivial(); }
    src.tag(if empty { "empty" } else if bad { "ragged" } else { "nested" });
    let mut i = 0;
    let mut all: Vec<T> = vec![];
    let mut next = || { let v = T::val(mode, h, i); i += 1; all.push(v); v };
    let x = {
        let mut p = Plan { shape: &shape, fixed: &fixed, defect, seen: vec![0; d], next: &mut next };
        let _ = p.fixed;
        X::make(0, &mut p)
    };
    src.note(|| format!("{} nested {kind} shape {shape:?} defect {defect:?}", T::NAME));
    let r = catch(|| new(x));
    if bad {
        ensure!(r.is_err(), "{} data of kind {kind} with shape {shape:?} and odd member {defect:?} (depth, position, length) was accepted as shape {:?}", T::NAME, r.unwrap().0);
        return Ok(());
    }
    match r {
        Err(m) => ensure!(false, "valid {} data of kind {kind} with shape {shape:?} was refused: {m}", T::NAME),
        Ok((s, v)) => {
            ensure!(s == shape, "{} data of kind {kind}: shape {s:?}, expected {shape:?}", T::NAME);
            ensure!(same_all(&v, &all), "{} data of kind {kind} shape {shape:?}: elements {v:?}, expected {all:?}", T::NAME);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- full, zeros, ones, scalar

fn filled<T: Raw>(src: &mut Src) -> R {
    let shape = if src.chance(1, 10) { (0..src.range(1, 3)).map(|_| src.upto(3)).collect() } else { gen_shape(src, 5, 6, 200) };
    let v = T::val(*src.pick(&[0u8, 2, 3]), src.below(1 << 16), 1);
    let ok = prod(&shape) > 0;
    src.note(|| format!("{} full/zeros/ones/scalar shape {shape:?} value {v:?}", T::NAME));
    src.tag("filled");
    if prod(&shape) > 1 || !ok { src.nontrivial(); }
    let (what, r, want): (&str, Result<Nd<T>, String>, T) = match src.upto(6) {
        0 => ("full", catch(|| NdArray::full(v, shape.clone())), v),
        1 => ("full", catch(|| NdArray::full(v, &shape[..])), v),
        2 => ("zeros", catch(|| T::zeros_of(shape.clone())), T::false_()),
        3 => ("ones", catch(|| T::ones_of(shape.clone())), T::true_()),
        4 if shape.len() == 1 => ("full", catch(|| NdArray::full(v, shape[0])), v),
        4 if shape.len() == 2 => ("full", catch(|| NdArray::full(v, [shape[0], shape[1]])), v),
        4 => ("full", catch(|| NdArray::full(v, &shape)), v),
        _ => {
            let s: Nd<T> = NdArray::scalar(v);
            ensure!(s.shape().is_empty() && T::same(s.value(), v) && T::same(s[[]], v), "scalar({v:?}) is {:?} of shape {:?}", s.value(), s.shape());
            return Ok(());
        }
    };
    if !ok {
        ensure!(r.is_err(), "{what} accepted the empty shape {shape:?}");
        return Ok(());
    }
    let a = match r { Ok(a) => a, Err(m) => return Err(format!("{what} of shape {shape:?} was refused: {m}")) };
    expect(what, &a, &shape, &vec![want; prod(&shape)])
}

// ---------------------------------------------------------------- arange

fn arange<T: Elem>(src: &mut Src) -> R {
    src.tag("arange");
    if T::FLOAT && src.chance(1, 3) { return arange_inexact::<T>(src); }
    // everything in units of 1 (integers) or 1/4 (floats)
    let bits = std::mem::size_of::<T>() * 8;
    let lim: i64 = if T::FLOAT { 4000 } else if bits == 8 { 60 } else if bits == 16 { 16000 } else { 1 << 29 };
    let plain = src.chance(1, 3);
    let neg = T::SIGNED && !plain && src.chance(1, 3);
    let n = src.range(1, 40) as i64;
    let step = if plain { if T::FLOAT { 4 } else { 1 } } else {
        match src.upto(3) { 0 => src.irange(1, 4), 1 => src.irange(1, (lim / n).max(1).min(1000)), _ => (lim / n).max(1) }
    };
    // span strictly inside the n-th step
    let last = src.irange(1, step);
    let span = (n - 1) * step + last;
    if span > 2 * lim { return Ok(()); }
    let lo = if T::SIGNED { src.irange(-lim, lim - span.min(2 * lim)) } else { src.irange(0, (lim * 2 - span).max(0)) };
    let (start, stop, step) = if neg { (lo + span, lo, -step) } else { (lo, lo + span, step) };
    let val = |x: i64| -> T { if T::FLOAT { T::op(Op::Div, T::int(x), T::int(4)).unwrap() } else { T::int(x) } };
    if !T::FLOAT && (val(start).f() != start as f64 || val(stop).f() != stop as f64) { return Ok(()); }
    let want: Vec<T> = (0..n).map(|i| val(start + i * step)).collect();
    src.note(|| format!("arange::<{}>({:?}, {:?}, {:?}) expecting {n} elements", T::NAME, val(start), val(stop), val(step)));
    if n > 1 { src.nontrivial(); }
    let a: Nd<T> = if plain { NdArray::arange(val(start), val(stop)) } else { NdArray::arange_with_step(val(start), val(stop), val(step)) };
    expect(&format!("arange({:?}, {:?}, {:?})", val(start), val(stop), val(step)), &a, &[n as usize], &want)
}

fn arange_inexact<T: Elem>(src: &mut Src) -> R {
    let start = src.irange(-1000, 1000) as f64 / 7.0;
    let step = src.irange(1, 300) as f64 / 130.0 * if src.coin() { -1.0 } else { 1.0 };
    let n = src.range(1, 60);
    let frac = src.irange(1, 999) as f64 / 1000.0;
    let cast = |x: f64| -> T { NumCastHack::<T>::from(x) };
    let (s, st) = (cast(start), cast(step));
    let e = cast(s.f() + (n as f64 - 1.0 + frac) * st.f());
    let q = (e.f() - s.f()) / st.f();
    if (q - q.round()).abs() < 1e-3 || q <= 0.0 { return Ok(()); }
    let want_n = q.ceil() as usize;
    src.note(|| format!("arange_with_step::<{}>({s:?}, {e:?}, {st:?})", T::NAME));
    if want_n > 1 { src.nontrivial(); }
    let a: Nd<T> = NdArray::arange_with_step(s, e, st);
    ensure!(a.shape() == [want_n], "arange_with_step({s:?}, {e:?}, {st:?}) has shape {:?}, expected [{want_n}]", a.shape());
    let eps = if std::mem::size_of::<T>() == 4 { f32::EPSILON as f64 } else { f64::EPSILON };
    for (i, v) in a.flatiter().enumerate() {
        let w = s.f() + i as f64 * st.f();
        let tol = 4.0 * eps * (s.f().abs() + (i as f64 * st.f()).abs());
        ensure!((v.f() - w).abs() <= tol, "arange_with_step({s:?}, {e:?}, {st:?})[{i}] is {v:?}, expected {w}");
    }
    Ok(())
}

/// f64 to a float element type.
struct NumCastHack<T>(std::marker::PhantomData<T>);
impl<T: Elem> NumCastHack<T> {
    fn from(x: f64) -> T {
        NdArray::<f64>::scalar(x).astype::<T>().value()
    }
}

// ---------------------------------------------------------------- linspace

fn linspace<T: Elem + FloatDataType>(src: &mut Src) -> R {
    let exclusive = src.coin();
    let num = match src.upto(3) { 0 => src.range(1, 12), 1 => src.range(1, 200), _ => *src.pick(&[1usize, 2, 3, 49, 50, 99, 100, 128, 1000]) };
    let cast = |x: f64| -> T { NumCastHack::<T>::from(x) };
    let style = src.upto(3);
    let (start, stop) = match style {
        0 => (src.irange(-20, 20) as f64, src.irange(-20, 20) as f64),
        1 => (src.irange(-2000, 2000) as f64 / 7.0, src.irange(-2000, 2000) as f64 / 13.0),
        _ => (0.0, *src.pick(&[1.0, 0.1, 0.7, 3.3, 1e-3, 1e6])),
    };
    let (s, e) = (cast(start), cast(stop));
    src.tag(if exclusive { "linspace_exclusive" } else { "linspace" });
    src.note(|| format!("{}::<{}>({s:?}, {e:?}, {num})", if exclusive { "linspace_exclusive" } else { "linspace" }, T::NAME));
    if num > 1 { src.nontrivial(); }
    let tensor = src.chance(1, 4);
    let (shape, v): (Vec<usize>, Vec<T>) = if tensor {
        let t: Tensor<'static, T> = if exclusive { Tensor::linspace_exclusive(s, e, num) } else { Tensor::linspace(s, e, num) };
        (t.shape().to_vec(), t.ndarray().flatiter().collect())
    } else {
        let a: Nd<T> = if exclusive { NdArray::linspace_exclusive(s, e, num) } else { NdArray::linspace(s, e, num) };
        (a.shape().to_vec(), a.flatiter().collect())
    };
    ensure!(shape == [num] && v.len() == num, "linspace({s:?}, {e:?}, {num}) has shape {shape:?}");
    let eps = if std::mem::size_of::<T>() == 4 { f32::EPSILON as f64 } else { f64::EPSILON };
    let parts = if exclusive { num as f64 } else { (num - 1) as f64 };
    for (i, x) in v.iter().enumerate() {
        let w = if num == 1 { s.f() } else { s.f() + (e.f() - s.f()) * (i as f64 / parts) };
        let tol = 6.0 * eps * (s.f().abs() + e.f().abs());
        ensure!((x.f() - w).abs() <= tol, "linspace{}({s:?}, {e:?}, {num})[{i}] is {x:?}, expected {w}", if exclusive { "_exclusive" } else { "" });
    }
    // the other tensor constructors agree with the array constructors
    if tensor {
        let sh = gen_shape(src, 3, 4, 30);
        let t: Tensor<'static, T> = Tensor::full(s, sh.clone());
        expect("Tensor::full", &t.detach(), &sh, &vec![s; prod(&sh)])?;
        let t: Tensor<'static, T> = Tensor::zeros(sh.clone());
        expect("Tensor::zeros", &t.detach(), &sh, &vec![T::int(0); prod(&sh)])?;
        let t: Tensor<'static, T> = Tensor::ones(sh.clone());
        expect("Tensor::ones", &t.detach(), &sh, &vec![T::int(1); prod(&sh)])?;
        let t: Tensor<'static, T> = Tensor::scalar(s);
        expect("Tensor::scalar", &t.detach(), &[], &[s])?;
        let k = src.range(1, 20);
        let t: Tensor<'static, T> = Tensor::arange(T::int(0), T::int(k as i64));
        expect("Tensor::arange", &t.detach(), &[k], &(0..k as i64).map(T::int).collect::<Vec<_>>())?;
        let t: Tensor<'static, T> = Tensor::arange_with_step(T::int(3), T::int(3 + 2 * k as i64), T::int(2));
        expect("Tensor::arange_with_step", &t.detach(), &[k], &(0..k as i64).map(|i| T::int(3 + 2 * i)).collect::<Vec<_>>())?;
    }
    Ok(())
}
