//! C08: random constructors honour shape, bounds and distribution.

use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, numeric};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C08",
    case,
    memory: false,
    quick: (60_000, 60),
    thorough: (80_000, 600),
    rule: "at least two samples are drawn (statistical cases draw 20 000, bulk bound cases 1 000 000)",
    assumptions: &["the generator draws from thread_rng, so cases repeat by arguments but not by samples; statistical thresholds are 7.5 standard deviations (below 1e-12 per statistic)",
                   "whole samples of float types are checked for bounds of moderate magnitude"],
};

fn case(src: &mut Src) -> R {
    let tensor = src.chance(1, 4);
    match src.weighted(&[8, 2, 1]) {
        0 => match src.upto(4) {
            0 => if src.coin() { shapes::<f32>(src, tensor) } else { shapes::<f64>(src, tensor) },
            1 => { let d = dtype(src, 14); numeric!(d, T => if T::FLOAT { fractional::<T>(src) } else { far::<T>(src) }) }
            _ => { let d = dtype(src, 14); numeric!(d, T => ints::<T>(src)) }
        },
        1 => if src.coin() { statistics::<f32>(src, tensor) } else { statistics::<f64>(src, tensor) },
        _ => if src.coin() { bulk::<f32>(src) } else { bulk::<f64>(src) },
    }
}

fn draw<T: Elem + FloatDataType>(kind: usize, shape: Vec<usize>, low: T, high: T, tensor: bool) -> (Vec<usize>, Vec<T>) {
    if tensor {
        let t: Tensor<'static, T> = match kind { 0 => Tensor::rand(shape), 1 => Tensor::uniform(shape, low, high), 2 => Tensor::randn(shape), _ => Tensor::randint(shape, low, high) };
        (t.shape().to_vec(), t.ndarray().flatiter().collect())
    } else {
        let a: Nd<T> = match kind { 0 => NdArray::rand(shape), 1 => NdArray::uniform(shape, low, high), 2 => NdArray::randn(shape), _ => NdArray::randint(shape, low, high) };
        (a.shape().to_vec(), a.flatiter().collect())
    }
}

fn bounds<T: Elem>(src: &mut Src) -> (T, T) {
    let lo = src.irange(-60, 60);
    let hi = lo + src.irange(1, 60);
    let (a, b) = (T::int(lo), T::int(hi));
    if src.coin() { (a, b) } else { (T::op(Op::Div, a, T::int(8)).unwrap(), T::op(Op::Div, b, T::int(8)).unwrap()) }
}

fn shapes<T: Elem + FloatDataType>(src: &mut Src, tensor: bool) -> R {
    let kind = src.upto(4);
    let shape = gen_shape(src, 5, 6, 300);
    let (low, high) = if kind == 3 { let l = src.irange(-30, 30); (T::int(l), T::int(l + src.irange(1, 40))) } else { bounds::<T>(src) };
    let name = ["rand", "uniform", "randn", "randint"][kind];
    src.note(|| format!("{name}::<{}>({shape:?}, {low:?}, {high:?}) tensor {tensor}", T::NAME));
    src.tag(name);
    let (s, v) = draw::<T>(kind, shape.clone(), low, high, tensor);
    ensure!(s == shape && v.len() == prod(&shape), "{name}({shape:?}) has shape {s:?} and {} elements", v.len());
    if v.len() > 1 { src.nontrivial(); }
    let (lo, hi) = if kind == 0 { (T::int(0), T::int(1)) } else { (low, high) };
    for x in &v {
        ensure!(!x.f().is_nan(), "{name} gave NaN");
        if kind != 2 { ensure!(*x >= lo && *x < hi, "{name}: sample {x:?} outside [{lo:?}, {hi:?})"); }
        if kind == 3 { ensure!(x.f().fract() == 0.0, "randint: sample {x:?} is not whole"); }
    }
    // long float samples cannot all coincide
    if kind != 3 && v.len() >= 12 { ensure!(v.iter().any(|x| *x != v[0]), "{name}: all {} samples are {:?}", v.len(), v[0]); }
    Ok(())
}

fn ints<T: Elem>(src: &mut Src) -> R {
    let shape = if src.coin() { gen_shape(src, 4, 6, 200) } else { vec![20_000] };
    let width = match src.upto(3) { 0 => src.irange(1, 4), 1 => src.irange(1, 20), _ => src.irange(1, 60) };
    let low = if T::SIGNED { src.irange(-60, 60) } else { src.irange(0, 60) };
    let high = low + width;
    src.note(|| format!("randint::<{}>({shape:?}, {low}, {high})", T::NAME));
    src.tag("randint");
    let a: Nd<T> = NdArray::randint(shape.clone(), T::int(low), T::int(high));
    ensure!(a.shape() == shape, "randint({shape:?}) has shape {:?}", a.shape());
    let v: Vec<T> = a.flatiter().collect();
    ensure!(v.len() == prod(&shape), "randint({shape:?}) has {} elements", v.len());
    if v.len() > 1 { src.nontrivial(); }
    let mut count = vec![0u64; width as usize];
    for x in &v {
        let f = x.f();
        ensure!(f.fract() == 0.0 && f >= low as f64 && f < high as f64, "randint({low}, {high}): sample {x:?} is outside or not whole");
        count[(f as i64 - low) as usize] += 1;
    }
    if v.len() >= 20_000 {
        let n = v.len() as f64;
        let p = 1.0 / width as f64;
        let sd = (n * p * (1.0 - p)).sqrt();
        for (k, &c) in count.iter().enumerate() {
            ensure!((c as f64 - n * p).abs() <= 7.5 * sd + 1.0, "randint({low}, {high}): value {} drawn {c} times of {n}, expected about {:.0}", low + k as i64, n * p);
        }
        if width > 1 {
            let xs: Vec<f64> = v.iter().map(|x| x.f()).collect();
            independent(&xs, "randint")?;
        }
    }
    Ok(())
}

/// Integers of any magnitude: narrow ranges anywhere in the type, and ranges up to the whole type.
fn far<T: Elem>(src: &mut Src) -> R {
    let h = src.next_word();
    let n = if src.coin() { src.range(1, 40) } else { 20_000 };
    let mode = if src.coin() { 2 } else { 3 };
    let a = T::val(mode, h, 0);
    let (low, high, width) = if src.coin() {
        let w = src.irange(1, 6);
        match (T::op(Op::Add, a, T::int(w)), T::op(Op::Sub, a, T::int(w))) {
            (Some(b), _) => (a, b, w),
            (None, Some(b)) => (b, a, w),
            _ => return Ok(()),
        }
    } else {
        let b = T::val(mode, h, 1);
        if a == b { return Ok(()); }
        if a < b { (a, b, 0) } else { (b, a, 0) }
    };
    src.note(|| format!("randint::<{}>([{n}], {low:?}, {high:?})", T::NAME));
    src.tag("randint anywhere in the type");
    let arr: Nd<T> = NdArray::randint([n], low, high);
    let v: Vec<T> = arr.flatiter().collect();
    ensure!(v.len() == n, "randint([{n}]) has {} elements", v.len());
    if n > 1 { src.nontrivial(); }
    for x in &v { ensure!(*x >= low && *x < high, "randint({low:?}, {high:?}): sample {x:?} is outside"); }
    if n < 20_000 { return Ok(()); }
    let nf = n as f64;
    if width > 0 {
        let p = 1.0 / width as f64;
        for k in 0..width {
            let y = T::op(Op::Add, low, T::int(k)).unwrap();
            let c = v.iter().filter(|x| **x == y).count() as f64;
            ensure!((c - nf * p).abs() <= 7.5 * (nf * p * (1.0 - p)).sqrt() + 1.0, "randint({low:?}, {high:?}): {y:?} drawn {c} times of {n}");
        }
    } else if high.f() - low.f() > 1e7 {
        // halves, quarters and the lowest bit of a wide range
        let (two, zero) = (T::int(2), T::int(0));
        let half = |a: T, b: T| {
            let c = T::op(Op::Add, T::op(Op::Shr, a, T::int(1)).unwrap(), T::op(Op::Shr, b, T::int(1)).unwrap()).unwrap();
            if c < a { a } else { c }
        };
        let mid = half(low, high);
        for (edge, p) in [(half(low, mid), 0.25), (mid, 0.5), (half(mid, high), 0.75)] {
            let c = v.iter().filter(|x| **x < edge).count() as f64;
            ensure!((c - nf * p).abs() <= 7.5 * (nf * p * (1.0 - p)).sqrt() + 1.0, "randint({low:?}, {high:?}): {c} of {n} samples are below {edge:?}");
        }
        let even = v.iter().filter(|x| T::op(Op::Rem, **x, two).unwrap() == zero).count() as f64;
        ensure!((even - nf / 2.0).abs() <= 7.5 * (nf / 4.0).sqrt() + 1.0, "randint({low:?}, {high:?}): {even} of {n} samples are even");
    }
    Ok(())
}

/// Whole samples between fractional bounds of a float type.
fn fractional<T: Elem>(src: &mut Src) -> R {
    let n = if src.coin() { src.range(1, 40) } else { 20_000 };
    let a = src.irange(-240, 240);
    let b = a + src.irange(8, 90);
    let (low, high) = (T::op(Op::Div, T::int(a), T::int(8)).unwrap(), T::op(Op::Div, T::int(b), T::int(8)).unwrap());
    // whole numbers in [a/8, b/8)
    let (first, end) = (-((-a).div_euclid(8)), -((-b).div_euclid(8)));
    src.note(|| format!("randint::<{}>([{n}], {low:?}, {high:?})", T::NAME));
    src.tag("randint between fractions");
    let arr: Nd<T> = NdArray::randint([n], low, high);
    let v: Vec<T> = arr.flatiter().collect();
    ensure!(v.len() == n, "randint([{n}]) has {} elements", v.len());
    if n > 1 { src.nontrivial(); }
    for x in &v { ensure!(x.f().fract() == 0.0 && *x >= low && *x < high, "randint({low:?}, {high:?}): sample {x:?} is outside or not whole"); }
    if n < 20_000 { return Ok(()); }
    let (nf, p) = (n as f64, 1.0 / (end - first) as f64);
    for k in first..end {
        let c = v.iter().filter(|x| x.f() == k as f64).count() as f64;
        ensure!((c - nf * p).abs() <= 7.5 * (nf * p * (1.0 - p)).sqrt() + 1.0, "randint({low:?}, {high:?}): {k} drawn {c} times of {n}");
    }
    Ok(())
}

/// Serial correlations at several lags, and joint frequencies of neighbours.
fn independent(xs: &[f64], what: &str) -> R {
    let n = xs.len() as f64;
    let mean = xs.iter().sum::<f64>() / n;
    let var = xs.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / n;
    for lag in [1usize, 2, 3, 4, 5, 7, 8, 16, 100] {
        let c = xs.windows(lag + 1).map(|w| (w[0] - mean) * (w[lag] - mean)).sum::<f64>() / (n - lag as f64) / var;
        ensure!(c.abs() * n.sqrt() < 8.0, "{what}: samples {lag} apart are correlated ({c:.4} over {n} samples)");
    }
    Ok(())
}

fn statistics<T: Elem + FloatDataType>(src: &mut Src, tensor: bool) -> R {
    let kind = src.upto(3);
    let n = 20_000usize;
    let (low, high) = bounds::<T>(src);
    let name = ["rand", "uniform", "randn"][kind];
    let shape = match src.upto(3) { 0 => vec![n], 1 => vec![100, 200], _ => vec![20, 10, 100] };
    src.note(|| format!("{name}::<{}>({shape:?}, {low:?}, {high:?}) moments, bins, correlations", T::NAME));
    src.tag("statistics");
    src.nontrivial();
    let (_, v) = draw::<T>(kind, shape, low, high, tensor);
    ensure!(v.len() == n, "{name}: {} samples", v.len());
    let xs: Vec<f64> = v.iter().map(|x| x.f()).collect();
    let nf = n as f64;
    let mean = xs.iter().sum::<f64>() / nf;
    // expected mean, variance, fourth central moment
    let (em, ev, e4) = match kind {
        2 => (0.0, 1.0, 3.0),
        k => { let (a, b) = if k == 0 { (0.0, 1.0) } else { (low.f(), high.f()) }; let w = b - a; (a + w / 2.0, w * w / 12.0, w.powi(4) / 80.0) }
    };
    ensure!((mean - em).abs() <= 7.5 * (ev / nf).sqrt(), "{name}: mean {mean} over {n} samples, expected {em}");
    let var = xs.iter().map(|x| (x - em).powi(2)).sum::<f64>() / nf;
    ensure!((var - ev).abs() <= 7.5 * ((e4 - ev * ev) / nf).sqrt(), "{name}: variance {var} over {n} samples, expected {ev}");
    // bins
    let (edges, probs): (Vec<f64>, Vec<f64>) = if kind == 2 {
        // standard normal distribution function at the edges
        let e = vec![-2.5, -2.0, -1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5];
        let c = [0.006209665325776132, 0.02275013194817921, 0.06680720126885807, 0.15865525393145707, 0.3085375387259869, 0.5,
                 0.6914624612740131, 0.8413447460685429, 0.9331927987311419, 0.9772498680518208, 0.9937903346742238];
        let mut p = vec![c[0]];
        for w in c.windows(2) { p.push(w[1] - w[0]); }
        p.push(1.0 - c[10]);
        (e, p)
    } else {
        let (a, b) = if kind == 0 { (0.0, 1.0) } else { (low.f(), high.f()) };
        ((1..20).map(|k| a + (b - a) * k as f64 / 20.0).collect(), vec![0.05; 20])
    };
    let mut count = vec![0f64; probs.len()];
    for x in &xs { count[edges.iter().filter(|e| x >= *e).count()] += 1.0; }
    for (k, c) in count.iter().enumerate() {
        let sd = (nf * probs[k] * (1.0 - probs[k])).sqrt();
        // float edges may move a sample between neighbouring bins when the type is coarse
        ensure!((c - nf * probs[k]).abs() <= 7.5 * sd + 2.0, "{name}: bin {k} holds {c} of {n} samples, expected about {:.0}", nf * probs[k]);
    }
    independent(&xs, name)?;
    // squares catch dependence that correlation misses
    let sq: Vec<f64> = xs.iter().map(|x| (x - em).powi(2)).collect();
    if kind != 2 { independent(&sq, name)?; }
    // two draws differ
    let (_, w) = draw::<T>(kind, vec![50], low, high, tensor);
    ensure!(w.iter().zip(&v).any(|(a, b)| a != b), "{name}: two draws are identical");
    Ok(())
}

/// A million samples: bounds only (rounding up to the excluded bound is rare).
fn bulk<T: Elem + FloatDataType>(src: &mut Src) -> R {
    let kind = src.upto(2);
    let n = 1_000_000usize;
    let (low, high) = if kind == 0 { (T::int(0), T::int(1)) } else { bounds::<T>(src) };
    src.note(|| format!("{n} samples of {}::<{}> in [{low:?}, {high:?})", ["rand", "uniform"][kind], T::NAME));
    src.tag("bulk bounds");
    src.nontrivial();
    for _ in 0..if std::mem::size_of::<T>() == 4 { 3 } else { 1 } {
        let a: Nd<T> = if kind == 0 { NdArray::rand([n]) } else { NdArray::uniform([n], low, high) };
        for &x in a.data_slice() {
            if !(x >= low && x < high) {
                ensure!(false, "sample {x:?} outside [{low:?}, {high:?})");
            }
        }
    }
    Ok(())
}
