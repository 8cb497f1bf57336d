//! C09: iteration visits every element once, in row-major order.

use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::{any_dtype, ensure};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C09",
    case,
    memory: false,
    quick: (4_000_000, 60),
    thorough: (40_000_000, 600),
    rule: "the iterated array has at least two elements and at least two dimensions or a non-contiguous layout",
    assumptions: &["arrays have at least one element and at most 8 dimensions", "sets of axes are non-repeating"],
};

fn case(src: &mut Src) -> R {
    if src.chance(1, 150) { return super::empties::check(src, "C09"); }
    let d = dtype(src, 15);
    any_dtype!(d, T => iterate::<T>(src))
}

fn sub<T: Raw>(item: &Nd<T>, l: &Laid<T>, want: &M, what: &str) -> R {
    ensure!(item.shape() == want.shape, "{what}: item has shape {:?}, expected {:?}: {}", item.shape(), want.shape, l.text);
    let got: Vec<T> = coords(&want.shape).iter().map(|c| get(item, c)).collect();
    let vals: Vec<T> = want.idx.iter().map(|&i| l.base[i]).collect();
    ensure!(same_all(&got, &vals), "{what}: item is {got:?}, expected {vals:?}: {}", l.text);
    let f: Vec<T> = item.flatiter().collect();
    ensure!(same_all(&f, &vals), "{what}: item iterates as {f:?}, expected {vals:?}: {}", l.text);
    Ok(())
}

/// Walks an iterator in jumps, the way skip, step_by, nth, last and count do.
/// `ok` judges the item for one position.
fn hops<I: Iterator>(src: &mut Src, mut it: I, len: usize, what: &str, ok: impl Fn(&I::Item, usize) -> R) -> R {
    let mut at = 0;
    loop {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= len - at && hi.is_none_or(|h| h >= len - at), "{what}: size_hint is ({lo}, {hi:?}) with {} items left", len - at);
        match src.weighted(&[4, 4, 1, 1, 1]) {
            0 => {
                let item = it.next();
                ensure!(item.is_some() == (at < len), "{what}: next at position {at} of {len} is {}", if item.is_some() { "an item" } else { "nothing" });
                let Some(item) = item else { return Ok(()) };
                ok(&item, at)?;
                at += 1;
            }
            1 => {
                let k = src.upto((len - at).min(40) + 2);
                let item = it.nth(k);
                ensure!(item.is_some() == (at + k < len), "{what}: nth({k}) at position {at} of {len} is {}", if item.is_some() { "an item" } else { "nothing" });
                let Some(item) = item else {
                    ensure!(it.next().is_none(), "{what}: nth({k}) at position {at} of {len} gave nothing, then an item came");
                    return Ok(());
                };
                ok(&item, at + k)?;
                at += k + 1;
            }
            2 => {
                let c = it.count();
                ensure!(c == len - at, "{what}: count() is {c} with {} items left", len - at);
                return Ok(());
            }
            3 => {
                let item = it.last();
                ensure!(item.is_some() == (at < len), "{what}: last() at position {at} of {len} is {}", if item.is_some() { "an item" } else { "nothing" });
                return if let Some(item) = item { ok(&item, len - 1) } else { Ok(()) };
            }
            _ => {
                let k = src.range(1, 3);
                let mut p = at;
                for item in it.step_by(k) {
                    ensure!(p < len, "{what}: step_by({k}) from position {at} of {len} yields too many items");
                    ok(&item, p)?;
                    p += k;
                }
                ensure!(p >= len, "{what}: step_by({k}) from position {at} ended at {p} of {len}");
                return Ok(());
            }
        }
    }
}

fn iterate<T: Raw>(src: &mut Src) -> R {
    let big = src.thorough;
    let l = match rare_shape(src, 200, 3000) {
        Some(s) => gen_exact::<T>(src, &s, &[0, 3], true),
        None => gen_free::<T>(src, if big { 7 } else { 5 }, if big { 160 } else { 80 }, &[0, 3], true),
    };
    src.note(|| format!("{} -> shape {:?}", l.text, l.m.shape));
    let a = l.a();
    let n = l.m.shape.len();
    let vals = l.values();
    if l.m.size() > 1 && (n > 1 || !a.is_contiguous()) { src.nontrivial(); }

    // element iteration, with repeated polling after the end
    let mut it = a.flatiter();
    for (k, v) in vals.iter().enumerate() {
        match it.next() {
            Some(g) => ensure!(T::same(g, *v), "flatiter element {k} is {g:?}, expected {v:?}: {}", l.text),
            None => ensure!(false, "flatiter ended after {k} of {} elements: {}", vals.len(), l.text),
        }
    }
    for _ in 0..src.range(1, 3) { ensure!(it.next().is_none(), "flatiter does not stay exhausted: {}", l.text); }
    let mut it = a.flatiter_ptr();
    for (k, &i) in l.m.idx.iter().enumerate() {
        let want = unsafe { l.ptr.add(i) } as usize;
        match it.next() {
            Some(p) => ensure!(p as usize == want, "flatiter_ptr item {k} is off by {} bytes: {}", p as isize - want as isize, l.text),
            None => ensure!(false, "flatiter_ptr ended after {k} of {} elements: {}", vals.len(), l.text),
        }
    }
    for _ in 0..src.range(1, 3) { ensure!(it.next().is_none(), "flatiter_ptr does not stay exhausted: {}", l.text); }
    if src.chance(1, 3) {
        src.tag("jumps");
        hops(src, a.flatiter(), vals.len(), "flatiter", |g, k| { ensure!(T::same(*g, vals[k]), "flatiter element {k} is {g:?}, expected {:?}: {}", vals[k], l.text); Ok(()) })?;
        hops(src, a.flatiter_ptr(), vals.len(), "flatiter_ptr", |g, k| { ensure!(*g as usize == unsafe { l.ptr.add(l.m.idx[k]) } as usize, "flatiter_ptr item {k} points elsewhere: {}", l.text); Ok(()) })?;
        if n > 0 {
            let mut axes: Vec<usize> = (0..n).filter(|_| src.coin()).collect();
            if axes.is_empty() { axes.push(src.upto(n)); }
            let lens: Vec<usize> = axes.iter().map(|&x| l.m.shape[x]).collect();
            let cs = coords(&lens);
            src.note(|| format!("jumps over nditer({axes:?})"));
            hops(src, a.nditer(axes.clone()), cs.len(), "nditer", |x, k| sub(x, &l, &l.m.fix(&axes, &cs[k]), &format!("nditer({axes:?}) item {k}")))?;
        }
    }
    if n == 0 { return Ok(()); }

    match src.upto(3) {
        0 => {
            src.tag("iter");
            let items: Vec<Nd<T>> = a.iter().collect();
            ensure!(items.len() == l.m.shape[0], "iter yields {} items for shape {:?}: {}", items.len(), l.m.shape, l.text);
            for (i, it) in items.iter().enumerate() { sub(it, &l, &l.m.fix(&[0], &[i]), &format!("iter item {i}"))?; }
        }
        1 => {
            src.tag("iter_along");
            let ax = src.upto(n);
            let sx = sign(src, ax, n);
            src.note(|| format!("iter_along({sx})"));
            let mut it = a.iter_along(sx);
            for i in 0..l.m.shape[ax] {
                match it.next() {
                    Some(x) => sub(&x, &l, &l.m.fix(&[ax], &[i]), &format!("iter_along({sx}) item {i}"))?,
                    None => ensure!(false, "iter_along({sx}) ended after {i} of {} items: {}", l.m.shape[ax], l.text),
                }
            }
            ensure!(it.next().is_none() && it.next().is_none(), "iter_along({sx}) yields too many items: {}", l.text);
        }
        _ => {
            src.tag("nditer");
            // any subset of axes, in any order
            let mut axes: Vec<usize> = vec![];
            for x in 0..n { if src.coin() { let p = src.upto(axes.len() + 1); axes.insert(p, x); } }
            if axes.is_empty() { axes.push(src.upto(n)); }
            let given: Vec<usize> = axes.clone();
            src.note(|| format!("nditer({given:?})"));
            let sorted = axes.windows(2).all(|w| w[0] < w[1]);
            axes.sort();
            let lens: Vec<usize> = axes.iter().map(|&x| l.m.shape[x]).collect();
            let mut it = a.nditer(given.clone());
            // the argument names a set of axes: items come in row-major order of the array's own axis order
            for (k, c) in coords(&lens).iter().enumerate() {
                match it.next() {
                    Some(x) => sub(&x, &l, &l.m.fix(&axes, c), &format!("nditer({given:?}) item {k}"))?,
                    None => ensure!(false, "nditer({given:?}) ended after {k} of {} items: {}", prod(&lens), l.text),
                }
            }
            ensure!(it.next().is_none() && it.next().is_none(), "nditer({given:?}) yields too many items: {}", l.text);
            if !sorted { src.tag("nditer axes not ascending"); }
        }
    }
    Ok(())
}
