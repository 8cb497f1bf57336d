//! C01: every chain of views selects exactly the elements it names.

use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::{any_dtype, ensure};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C01",
    case,
    memory: false,
    quick: (4_000_000, 60),
    thorough: (6_000_000, 600),
    rule: "the chain has at least two view operations, the result has at least two elements and is not the untouched source",
    assumptions: &["arrays have at least one element and at most 8 dimensions", "reshape is only requested where the array reports a uniform stride or provably has one"],
};

fn case(src: &mut Src) -> R {
    if src.chance(1, 150) { return super::empties::check(src, "C01"); }
    let d = dtype(src, 15);
    any_dtype!(d, T => chain::<T>(src))
}

/// Reads every element in the given way.
pub fn read_all<T: Raw>(way: usize, a: &Nd<T>) -> Vec<T> {
    match way {
        0 => coords(a.shape()).iter().map(|c| get(a, c)).collect(),
        1 => a.flatiter().collect(),
        2 => a.clone().into_data_vector(),
        3 => a.flatten().into_data_vector(),
        4 => a.flatiter_ptr().map(|p| unsafe { *p }).collect(),
        _ => if a.ndims() == 0 { vec![a.value()] } else {
            unsafe { forever(a) }.iter().flat_map(|s| s.flatiter().collect::<Vec<T>>()).collect()
        },
    }
}

const WAYS: [&str; 6] = ["index", "flatiter", "clone", "flatten", "flatiter_ptr", "iter"];

pub fn verify<T: Raw>(l: &Laid<T>, way: usize) -> R {
    let want = l.values();
    ensure!(l.nd.shape() == l.m.shape, "shape {:?}, expected {:?} after {}", l.nd.shape(), l.m.shape, l.text);
    let got = read_all(way, &l.nd);
    ensure!(same_all(&got, &want), "elements read by {}: {:?}, expected {:?} (shape {:?}) after {}", WAYS[way], got, want, l.m.shape, l.text);
    Ok(())
}

fn chain<T: Raw>(src: &mut Src) -> R {
    let maxsize = if src.thorough { 200 } else { 100 };
    let shape = match rare_shape(src, 150, 9000) { Some(s) => s, None => gen_shape(src, 5, 6, maxsize) };
    let maxsize = maxsize.max(prod(&shape));
    let vals = gen_vals::<T>(src, prod(&shape), &[0, 3]);
    let mut l = Laid::owned(&shape, vals);
    l.note_base(src.describe);
    let n = src.upto(if src.thorough { 10 } else { 7 });
    for _ in 0..n {
        let uniform = l.nd.is_uniformly_strided() || l.m.surely_uniform();
        let v = gen_view(src, &l.m, uniform, T::NAME != "bool", maxsize * 2);
        let c = src.coin();
        let r = catch(|| l.step(&v, c, src.describe));
        if let Err(m) = r {
            src.note(|| l.text.clone());
            return Err(format!("valid view operation {} refused: {m} (array of shape {:?})", v.text(), l.m.shape));
        }
        src.tag(v.kind());
        src.evals += 1;
        if let Err(m) = verify(&l, src.upto(6)) {
            src.note(|| l.text.clone());
            return Err(m);
        }
    }
    src.note(|| format!("{} -> shape {:?}", l.text, l.m.shape));
    if n >= 2 && l.m.size() >= 2 && (l.m.idx != (0..l.base.len()).collect::<Vec<_>>() || l.m.shape != shape) {
        src.nontrivial();
    }
    for way in 0..6 {
        verify(&l, way)?;
    }
    let want = build(&l.m.shape, &l.values());
    ensure!(l.nd == want && want == l.nd, "comparison with the expected contents says unequal after {}", l.text);
    // the result must differ from the expected contents with one element changed
    if l.m.size() > 0 {
        let k = src.upto(l.m.size());
        let mut other = l.values();
        let nv = if T::same(other[k], T::false_()) { T::true_() } else { T::false_() };
        other[k] = nv;
        let other = build(&l.m.shape, &other);
        ensure!(l.nd != other, "comparison ignores element {k} (row-major) after {}", l.text);
    }
    Ok(())
}
