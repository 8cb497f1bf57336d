//! C02: layout metadata always tells the truth about the elements.

use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::{any_dtype, ensure, numeric};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C02",
    case,
    memory: false,
    quick: (4_000_000, 60),
    thorough: (40_000_000, 600),
    rule: "the array has at least two elements and is a view or consumed view, or the fresh result of an operation",
    assumptions: &["arrays have at least one element and at most 8 dimensions",
                   "an array may always deny having a uniform stride or being contiguous, except when freshly constructed, copied or computed"],
};

fn case(src: &mut Src) -> R {
    if src.chance(1, 150) { return super::empties::check(src, "C02"); }
    match src.weighted(&[6, 3, 1]) {
        0 => { let d = dtype(src, 15); any_dtype!(d, T => views::<T>(src)) }
        1 => { let d = dtype(src, 14); numeric!(d, T => computed::<T>(src)) }
        _ => if src.coin() { tensors::<f32>(src) } else { tensors::<f64>(src) },
    }
}

/// All claims an array makes about itself, against the model; `base` is the address of base[0].
pub fn truthful<T: Raw>(nd: &Nd<T>, m: &M, base: *const T, vals: &[T], text: &str) -> R {
    let n = m.shape.len();
    ensure!(nd.shape() == m.shape, "shape {:?}, expected {:?}: {text}", nd.shape(), m.shape);
    ensure!(nd.ndims() == n, "ndims {} for shape {:?}: {text}", nd.ndims(), m.shape);
    ensure!(nd.size() == m.size(), "size {} for shape {:?}: {text}", nd.size(), m.shape);
    ensure!(n == 0 || nd.len() == m.shape[0], "len {} for shape {:?}: {text}", nd.len(), m.shape);
    ensure!(nd.stride().len() == n, "stride {:?} for shape {:?}: {text}", nd.stride(), m.shape);
    let addr = |i: usize| base as usize + i * std::mem::size_of::<T>();
    let by_ptr: Vec<usize> = nd.flatiter_ptr().map(|p| p as usize).collect();
    for (k, c) in coords(&m.shape).iter().enumerate() {
        let off: usize = c.iter().zip(nd.stride()).map(|(a, b)| a * b).sum();
        ensure!(addr(m.idx[0] + off) == addr(m.idx[k]), "strides {:?} put element {c:?} at offset {off} from the first, but it is {} away: {text}",
                nd.stride(), m.idx[k] as isize - m.idx[0] as isize);
        ensure!(by_ptr.get(k) == Some(&addr(m.idx[k])), "pointer iteration puts element {c:?} elsewhere: {text}");
    }
    if nd.is_contiguous() {
        let s = nd.data_slice();
        ensure!(same_all(s, vals), "contiguous array's data_slice is {s:?}, elements are {vals:?}: {text}");
        ensure!(s.as_ptr() as usize == addr(m.idx[0]), "data_slice is not the array's own memory: {text}");
    }
    let us = nd.has_uniform_stride();
    ensure!(us.is_some() == nd.is_uniformly_strided(), "has_uniform_stride is {us:?} but is_uniformly_strided is {}: {text}", nd.is_uniformly_strided());
    if let Some(s) = us {
        for w in m.idx.windows(2) {
            ensure!(w[1] as isize - w[0] as isize == s as isize, "reports uniform stride {s} but positions are {:?} (shape {:?}, strides {:?}): {text}", m.idx, m.shape, nd.stride());
        }
    }
    Ok(())
}

/// A freshly constructed, copied or computed array.
pub fn fresh<T: Raw>(nd: &Nd<T>, what: &str) -> R {
    let shape = nd.shape().to_vec();
    let mut want = vec![0; shape.len()];
    let mut p = 1;
    for a in (0..shape.len()).rev() { want[a] = p; p *= shape[a]; }
    ensure!(!nd.is_view(), "{what}: result reports being a view");
    ensure!(nd.is_contiguous(), "{what}: result reports not being contiguous (shape {shape:?}, strides {:?})", nd.stride());
    ensure!(nd.stride() == want, "{what}: strides {:?}, canonical are {want:?} for shape {shape:?}", nd.stride());
    ensure!(nd.is_uniformly_strided(), "{what}: result reports no uniform stride");
    ensure!(nd.size() == p && nd.ndims() == shape.len(), "{what}: size {} ndims {} for shape {shape:?}", nd.size(), nd.ndims());
    let vals: Vec<T> = nd.flatiter().collect();
    ensure!(vals.len() == p, "{what}: {} elements for shape {shape:?}", vals.len());
    ensure!(same_all(nd.data_slice(), &vals), "{what}: data_slice differs from the elements");
    truthful(nd, &M::root(&shape), nd.data_slice().as_ptr(), &vals, what)
}

fn views<T: Raw>(src: &mut Src) -> R {
    let maxsize = 80;
    let shape = match rare_shape(src, 150, 9000) { Some(s) => s, None => gen_shape(src, 5, 5, maxsize) };
    let maxsize = maxsize.max(prod(&shape));
    let vals = gen_vals::<T>(src, prod(&shape), &[0, 3]);
    let mut l = Laid::owned(&shape, vals);
    l.note_base(src.describe);
    fresh(&l.nd, "from_contiguous_owned_buffer")?;
    let n = src.upto(7);
    for _ in 0..n {
        let uniform = l.nd.is_uniformly_strided() || l.m.surely_uniform();
        let v = gen_view(src, &l.m, uniform, T::NAME != "bool", maxsize * 2);
        let c = src.coin();
        l.step(&v, c, src.describe);
        src.tag(v.kind());
        src.evals += 1;
        truthful(&l.nd, &l.m, l.ptr, &l.values(), &l.text)?;
        ensure!(l.nd.is_view() == !l.owned, "is_view is {} but the chain {}: {}", l.nd.is_view(),
                if l.owned { "consumed an owning array" } else { "borrowed" }, l.text);
    }
    if n > 0 && l.m.size() > 1 { src.nontrivial(); }
    src.note(|| format!("{} -> shape {:?} strides {:?}", l.text, l.m.shape, l.nd.stride()));
    // copies
    let a = &l.nd;
    fresh(&a.clone(), "clone")?;
    fresh(&a.flatten(), "flatten")?;
    fresh(&T::zeros_of(l.m.shape.clone()), "zeros")?;
    fresh(&T::ones_of(l.m.shape.clone()), "ones")?;
    fresh(&NdArray::full(T::true_(), l.m.shape.clone()), "full")?;
    fresh(&NdArray::scalar(T::true_()), "scalar")?;
    let v = a.clone().into_data_vector();
    ensure!(same_all(&v, &l.values()), "into_data_vector of a clone: {v:?}");
    if l.m.shape.len() > 0 {
        for s in l.a().iter() {
            // sub-arrays are described truthfully too
            let vals: Vec<T> = coords(s.shape()).iter().map(|c| get(&s, c)).collect();
            let m = M::root(s.shape());
            ensure!(s.size() == m.size() && s.ndims() == m.shape.len(), "iter: size {} ndims {} for shape {:?}", s.size(), s.ndims(), s.shape());
            if s.is_contiguous() { ensure!(same_all(s.data_slice(), &vals), "iter: contiguous item's data_slice {:?}, elements {vals:?}", s.data_slice()); }
        }
    }
    Ok(())
}

fn computed<T: Elem>(src: &mut Src) -> R {
    let l = gen_small::<T>(src, 4, 40, &[1], true);
    src.note(|| l.text.clone());
    src.nontrivial();
    let a = l.a();
    let n = l.m.shape.len();
    let k = src.upto(12);
    // small operands so that nothing overflows
    let small: Vec<T> = (0..l.m.size()).map(|i| T::int((i % 2) as i64)).collect();
    let b = build(&l.m.shape, &small);
    let one = T::int(1);
    let r: Nd<T> = match k {
        0 => { src.tag("binary"); T::arr(Op::Rem, src.upto(OWNS), a, &build(&l.m.shape, &vec![one; l.m.size()])) }
        1 => { src.tag("scalar"); T::arr_s(Op::Rem, src.upto(OWNS), a, one) }
        2 => { src.tag("broadcast binary"); let mut sh = vec![1; n + 1]; sh[0] = 2; let s = build(&sh, &[one; 2]); T::arr(Op::Rem, src.upto(OWNS), a, &s) }
        3 => { src.tag("sum"); fresh(&b.sum(), "sum")?; b.sum_along(if n == 0 { vec![] } else { vec![src.upto(n) as isize] }) }
        4 => { src.tag("max"); fresh(&a.max(), "max")?; a.max_along(if n == 0 { vec![] } else { vec![src.upto(n) as isize] }) }
        5 => { src.tag("min"); fresh(&a.min(), "min")?; a.min_along((0..n as isize).collect::<Vec<_>>()) }
        6 => { src.tag("astype"); let f: NdArray<'static, f64> = a.astype::<f64>(); fresh(&f, "astype::<f64>")?; f.astype::<T>() }
        7 => { src.tag("einsum"); if n == 0 { a.clone() } else {
            let s: String = "ijklmnopqrstuvwxyzABCDEFGH"[..n].to_string();
            let out: String = s.chars().take(src.range(0, n)).collect();
            T::ein(&[&b, &b], &[&s, &s], &out)
        } }
        8 => { src.tag("dot"); let f = b.flatten(); T::dot_(&f, &f) }
        9 => { src.tag("matmul"); let (p, q, r) = (src.range(1, 4), src.range(1, 4), src.range(1, 4)); let x = build(&[p, q], &vec![one; p * q]); let y = build(&[q, r], &vec![one; q * r]);
               fresh(&T::matmul_(&x, &y), "matmul")?; T::matmul_(&x, &build(&[q], &vec![one; q])) }
        10 => { src.tag("bmm"); let (p, q, r, s) = (src.range(1, 3), src.range(1, 3), src.range(1, 3), src.range(1, 3));
                T::bmm_(&build(&[s, p, q], &vec![one; s * p * q]), &build(&[s, q, r], &vec![one; s * q * r])) }
        _ => { src.tag("trace"); if n >= 2 { b.trace_along(0, n as isize - 1) } else { T::arr_neg(0, &b).unwrap_or_else(|| b.clone()) } }
    };
    src.note(|| format!("operation {k} gives shape {:?} strides {:?}", r.shape(), r.stride()));
    fresh(&r, "computed result")
}

fn tensors<T: Elem + FloatDataType>(src: &mut Src) -> R {
    let shape = gen_shape(src, 4, 4, 40);
    let vals = gen_vals::<T>(src, prod(&shape), &[1]);
    let mut t: Tensor<'static, T> = unsafe { Tensor::from_contiguous_owned_buffer(shape.clone(), vals.clone()) };
    if src.coin() { t.set_requires_grad(true); }
    src.nontrivial();
    let check = |t: &Tensor<'_, T>, what: &str| -> R {
        let a = t.ndarray();
        ensure!(t.shape() == a.shape() && t.stride() == a.stride(), "{what}: tensor and its array disagree on shape or strides");
        ensure!(t.ndims() == a.ndims() && t.size() == a.size() && t.len() == a.len(), "{what}: tensor and its array disagree on sizes");
        ensure!(t.is_contiguous() == a.is_contiguous() && t.has_uniform_stride() == a.has_uniform_stride() && t.is_view() == a.is_view(), "{what}: tensor and its array disagree on layout");
        ensure!((&t).shape() == a.shape() && (&t).stride() == a.stride() && (&t).is_view() == a.is_view(), "{what}: borrowed tensor disagrees");
        if a.is_contiguous() {
            let v: Vec<T> = a.flatiter().collect();
            ensure!(same_all(a.data_slice(), &v), "{what}: data_slice differs from the elements");
        }
        Ok(())
    };
    check(&t, "tensor")?;
    ensure!(!t.is_view() && t.is_contiguous(), "a constructed tensor must be owned and contiguous");
    let s = &t * &t;
    check(&s, "tensor product")?;
    ensure!(!s.is_view() && s.is_contiguous(), "a computed tensor must be owned and contiguous");
    let m = M::root(&shape);
    let v = gen_view(src, &m, true, false, 80);
    src.note(|| format!("Tensor{shape:?} {}", v.text()));
    macro_rules! ap { ($x:expr) => { match &v {
        V::View => Some($x.view()), V::Reshape(s) => Some($x.reshape(s.clone())), V::Squeeze => Some($x.squeeze()), V::Unsqueeze(a) => Some($x.unsqueeze(*a)),
        V::Transpose(a, b) => Some($x.transpose(*a, *b)), V::T => Some($x.T()), _ => None } } }
    if let Some(w) = ap!((&t)) {
        ensure!(w.is_view(), "borrowing {} must report a view", v.text());
        check(&w, "tensor view")?;
        let want = m.apply(&v).unwrap();
        ensure!(w.shape() == want.shape, "tensor view shape {:?}, expected {:?}", w.shape(), want.shape);
    }
    let alone: Tensor<'static, T> = unsafe { Tensor::from_contiguous_owned_buffer(shape.clone(), vals) };
    if let Some(w) = ap!(alone) {
        ensure!(!w.is_view(), "consuming {} on an owning tensor must keep ownership", v.text());
        check(&w, "consumed tensor")?;
    }
    Ok(())
}
