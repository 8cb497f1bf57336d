//! C13: ill-formed requests are refused and leave everything unchanged.

use super::common::*;
use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::tape::*;
use crate::{ensure, numeric};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C13",
    case,
    memory: false,
    quick: (4_000_000, 60),
    thorough: (60_000_000, 600),
    rule: "an ill-formed request was issued (cases whose drawn request happens to be well-formed are not counted)",
    assumptions: &["arrays have at least one element", "refusal means panicking, in a build with debug assertions",
                   "a consuming call that panics loses its own operand"],
};

fn case(src: &mut Src) -> R {
    let k = src.weighted(&[4, 2, 3, 4, 4, 3, 4, 3, 1, 2, 6]);
    if k == 10 { return if src.coin() { tensors::<f64>(src) } else { tensors::<f32>(src) }; }
    if k == 8 { return constructors(src); }
    let d = dtype(src, 14);
    numeric!(d, T => match k {
        0 => operators::<T>(src),
        1 => broadcast::<T>(src),
        2 => reshape::<T>(src),
        3 => axes::<T>(src),
        4 => reductions::<T>(src),
        5 => products::<T>(src),
        6 => subscripts::<T>(src),
        7 => single::<T>(src),
        _ => indices::<T>(src),
    })
}

/// The call must panic and leave the operands alone.
fn refused<T: Raw, X>(src: &mut Src, what: &str, keep: &[&Laid<T>], f: impl FnOnce() -> X) -> R {
    src.nontrivial();
    src.note(|| format!("{what} on {}", keep.iter().map(|l| format!("[{}]", l.text)).collect::<Vec<_>>().join(", ")));
    // a value returned by an ill-formed request may be garbage: do not look at it, do not drop it
    let r = catch(|| std::mem::forget(f()));
    ensure!(r.is_err(), "{what} was not refused: {}", keep.iter().map(|l| format!("shape {:?} from {}", l.m.shape, l.text)).collect::<Vec<_>>().join("; "));
    for l in keep {
        unchanged(what, l)?;
    }
    Ok(())
}

fn unchanged<T: Raw>(what: &str, l: &Laid<T>) -> R {
    let now = l.base_now();
    ensure!(same_all(&now, &l.base), "{what} was refused but changed the data to {now:?}, before {:?}: {}", l.base, l.text);
    ensure!(l.nd.shape() == l.m.shape, "{what} was refused but changed the shape to {:?}", l.nd.shape());
    let v: Vec<T> = l.nd.flatiter().collect();
    ensure!(same_all(&v, &l.values()), "{what} was refused but the array now reads {v:?}, expected {:?}", l.values());
    Ok(())
}

/// Two shapes with a conflicting pair of aligned axes.
fn conflicting(src: &mut Src) -> (Vec<usize>, Vec<usize>) {
    let out = gen_shape(src, 4, 4, 40);
    let out = if out.is_empty() { vec![2] } else { out };
    let (mut a, mut b) = operand_shapes(src, &out);
    if a.is_empty() { a.push(2); }
    if b.is_empty() { b.push(3); }
    let k = src.upto(a.len().min(b.len()));
    let x = src.range(2, 4);
    let y = if src.coin() { x + src.range(1, 3) } else { x * 2 };
    let (x, y) = if src.coin() { (x, y) } else { (y, x) };
    let (i, j) = (a.len() - 1 - k, b.len() - 1 - k);
    a[i] = x;
    b[j] = y;
    (a, b)
}

fn operators<T: Elem>(src: &mut Src) -> R {
    let op = *src.pick(T::OPS);
    let (sa, sb) = conflicting(src);
    if src.coin() {
        let a = gen_exact::<T>(src, &sa, &[1], true);
        let b = gen_exact::<T>(src, &sb, &[1], true);
        let own = src.upto(OWNS);
        src.tag("operator shapes");
        return refused(src, &format!("{sa:?} {} {sb:?}", op.sym()), &[&a, &b], || T::arr(op, own, a.a(), b.a()));
    }
    // in-place: also right-hand sides larger than the target
    let (sa, sb) = match src.upto(3) {
        0 => (sa, sb),
        1 => {
            let s = gen_shape(src, 3, 4, 24);
            let mut small = s.clone();
            let big: Vec<usize> = s.iter().map(|&x| if x == 1 { 2 } else { x }).collect();
            if big.is_empty() { (vec![], vec![src.range(1, 3)]) } else {
                let k = src.upto(big.len());
                small[k] = 1;
                (small, big)
            }
        }
        _ => { let s = gen_shape(src, 3, 4, 24); let mut b = s.clone(); b.insert(0, src.range(1, 3)); (s, b) }
    };
    let mut a = gen_exact::<T>(src, &sa, &[1], false);
    let b = gen_exact::<T>(src, &sb, &[1], true);
    let own = src.upto(OWNS);
    src.tag("assignment shapes");
    src.nontrivial();
    src.note(|| format!("{} {}= {}", a.text, op.sym(), b.text));
    let what = format!("{sa:?} {}= {sb:?}", op.sym());
    let r = catch(|| T::assign(op, own, &mut a.nd, b.a()));
    ensure!(r.is_err(), "{what} was not refused: {} {}= {}", a.text, op.sym(), b.text);
    unchanged(&what, &a)?;
    unchanged(&what, &b)
}

fn broadcast<T: Elem>(src: &mut Src) -> R {
    let l = gen_small::<T>(src, 3, 40, &[1], true);
    let mut to = l.m.shape.clone();
    if src.coin() { let d = src.range(1, 3); to.insert(0, d); }
    match src.upto(3) {
        0 if !to.is_empty() => { to.remove(0); }
        1 if !to.is_empty() => { let k = src.upto(to.len()); to[k] = 1; }
        _ => if !to.is_empty() { let k = src.upto(to.len()); to[k] += src.range(1, 3); }
    }
    if l.m.broadcast(&to).is_some() { return Ok(()); }
    src.tag("broadcast_to");
    refused(src, &format!("broadcast_to({to:?})"), &[&l], || l.a().broadcast_to(&to))
}

fn reshape<T: Elem>(src: &mut Src) -> R {
    let mut l = gen_small::<T>(src, 5, 60, &[1], true);
    let n = l.m.size();
    let (to, why) = if l.m.spacing().is_none() && src.coin() {
        // unevenly spaced: no strides can describe another shape with the same row-major order
        let s = factor_shape(src, n);
        let ones = |s: &[usize]| s.iter().copied().filter(|&x| x != 1).collect::<Vec<_>>();
        if ones(&s) == ones(&l.m.shape) { return Ok(()); }
        // some splits of an evenly spaced axis could still be described; reshape documents that it needs uniform spacing
        (s, "layout")
    } else {
        let m = match src.upto(4) { 0 => n + 1, 1 => n * 2, 2 => (n - 1).max(1), _ => src.range(1, 60) };
        if m == n { return Ok(()); }
        (factor_shape(src, m), "count")
    };
    src.tag(if why == "layout" { "reshape layout" } else { "reshape count" });
    if src.coin() {
        return refused(src, &format!("reshape({to:?})"), &[&l], || l.a().reshape(to.clone()));
    }
    // consuming a view: its source must survive
    let whole = l.keep.is_empty();
    src.nontrivial();
    src.note(|| format!("{} consumed by reshape({to:?})", l.text));
    let nd = std::mem::replace(&mut l.nd, build(&[1], &[T::int(0)]));
    let r = catch(|| std::mem::forget(nd.reshape(to.clone())));
    ensure!(r.is_err(), "reshape({to:?}) of shape {:?} was not refused: {}", l.m.shape, l.text);
    // if every step consumed, the buffer is gone with the operand
    if whole || l.owned { return Ok(()); }
    let now = l.base_now();
    ensure!(same_all(&now, &l.base), "a refused reshape changed the source to {now:?}");
    Ok(())
}

fn bad_axis(src: &mut Src, n: usize) -> isize {
    let n = n as isize;
    match src.upto(5) { 0 => n, 1 => -n - 1, 2 => n + 1 + src.upto(3) as isize, 3 => -n - 2 - src.upto(3) as isize, _ => *src.pick(&[isize::MAX, isize::MIN + 8, 1 << 33, -(1 << 33)]) }
}

fn axes<T: Elem>(src: &mut Src) -> R {
    let l = gen_small::<T>(src, 4, 60, &[1], true);
    let n = l.m.shape.len();
    let good = |src: &mut Src| if n == 0 { 0 } else { let a = src.upto(n); sign(src, a, n) };
    let a = l.a();
    src.tag("axes");
    match src.upto(8) {
        0 => {
            let (mut x, mut y) = (bad_axis(src, n), good(src));
            if src.coin() { std::mem::swap(&mut x, &mut y); }
            refused(src, &format!("transpose({x}, {y})"), &[&l], || a.transpose(x, y))
        }
        1 => { let x = bad_axis(src, n + 1); refused(src, &format!("unsqueeze({x})"), &[&l], || a.unsqueeze(x)) }
        2 => {
            if n >= 2 { return Ok(()); }
            match src.upto(4) {
                0 => refused(src, "T()", &[&l], || a.T()),
                1 => refused(src, "diagonal()", &[&l], || a.diagonal()),
                2 => refused(src, "trace()", &[&l], || a.trace()),
                _ => refused(src, "offset_diagonal(0)", &[&l], || a.offset_diagonal(0)),
            }
        }
        3 => { let x = bad_axis(src, n); refused(src, &format!("slice_along({x}, ..)"), &[&l], || a.slice_along(Axis(x), ..)) }
        4 => {
            if n < 2 { return Ok(()); }
            let (mut x, mut y) = (bad_axis(src, n), good(src));
            if src.coin() { std::mem::swap(&mut x, &mut y); }
            if src.chance(1, 3) {
                // the same axis twice, perhaps written differently
                let k = src.upto(n);
                x = sign(src, k, n);
                y = sign(src, k, n);
            }
            let o = src.irange(-1, 1) as isize;
            match src.upto(4) {
                0 => refused(src, &format!("diagonal_along({x}, {y})"), &[&l], || a.diagonal_along(x, y)),
                1 => refused(src, &format!("trace_along({x}, {y})"), &[&l], || a.trace_along(x, y)),
                2 => refused(src, &format!("offset_diagonal_along({o}, {x}, {y})"), &[&l], || a.offset_diagonal_along(o, x, y)),
                _ => refused(src, &format!("offset_trace_along({o}, {x}, {y})"), &[&l], || a.offset_trace_along(o, x, y)),
            }
        }
        5 => {
            if n < 2 { return Ok(()); }
            let x = src.upto(n);
            let y = (x + 1 + src.upto(n - 1)) % n;
            let (x, y) = if src.coin() { (0, 1) } else { (x, y) };
            let o = if src.coin() { (l.m.shape[y] + src.upto(3)) as isize } else { -((l.m.shape[x] + src.upto(3)) as isize) };
            match src.upto(4) {
                0 if (x, y) == (0, 1) => refused(src, &format!("offset_diagonal({o})"), &[&l], || a.offset_diagonal(o)),
                1 if (x, y) == (0, 1) => refused(src, &format!("offset_trace({o})"), &[&l], || a.offset_trace(o)),
                2 => refused(src, &format!("offset_trace_along({o}, {x}, {y})"), &[&l], || a.offset_trace_along(o, x as isize, y as isize)),
                _ => refused(src, &format!("offset_diagonal_along({o}, {x}, {y})"), &[&l], || a.offset_diagonal_along(o, x as isize, y as isize)),
            }
        }
        6 => { let x = bad_axis(src, n); refused(src, &format!("iter_along({x})"), &[&l], || { let mut it = a.iter_along(Axis(x)); it.next().is_some() }) }
        _ => {
            // repeated or out-of-range axes
            let mut v: Vec<usize> = (0..n).filter(|_| src.coin()).collect();
            if !v.is_empty() && src.coin() { let d = v[src.upto(v.len())]; let p = src.upto(v.len() + 1); v.insert(p, d); }
            else { let p = src.upto(v.len() + 1); let x = n + src.upto(3); v.insert(p, x); }
            refused(src, &format!("nditer({v:?})"), &[&l], || { let mut it = a.nditer(v.clone()); it.next().is_some() })
        }
    }
}

fn reductions<T: Elem>(src: &mut Src) -> R {
    let l = gen_small::<T>(src, 4, 60, &[1], true);
    let n = l.m.shape.len();
    let mut v: Vec<isize> = (0..n).filter(|_| src.coin()).map(|a| a as isize).collect();
    let repeat = !v.is_empty() && src.coin();
    if repeat {
        let d = v[src.upto(v.len())];
        let d = if src.coin() { d } else { d - n as isize };
        let p = src.upto(v.len() + 1);
        v.insert(p, d);
    } else {
        let p = src.upto(v.len() + 1);
        let x = bad_axis(src, n);
        v.insert(p, x);
    }
    let a = l.a();
    src.tag(if repeat { "repeated reduction axes" } else { "reduction axis out of range" });
    let what = |name: &str| format!("{name}_along({v:?})");
    match src.upto(7) {
        0 => refused(src, &what("sum"), &[&l], || a.sum_along(v.clone())),
        1 => refused(src, &what("product"), &[&l], || a.product_along(v.clone())),
        2 => refused(src, &what("min"), &[&l], || a.min_along(v.clone())),
        3 => refused(src, &what("max"), &[&l], || a.max_along(v.clone())),
        4 => refused(src, &what("min_magnitude"), &[&l], || a.min_magnitude_along(v.clone())),
        5 => refused(src, &what("max_magnitude"), &[&l], || a.max_magnitude_along(v.clone())),
        _ => if T::FLOAT { refused(src, &what("mean"), &[&l], || T::mean_(a, Some(v.clone()))) } else { refused(src, &what("max"), &[&l], || a.max_along(v.clone())) },
    }
}

/// Ranks or lengths for which no product is defined.
fn bad_product(src: &mut Src) -> (usize, Vec<usize>, Vec<usize>) {
    let kind = src.upto(3);
    let d = |src: &mut Src| src.range(1, 4);
    let (mut a, mut b) = match kind {
        0 => { let k = d(src); (vec![k], vec![k]) }
        1 => { let k = d(src); let m = d(src); if src.coin() { (vec![m, k], vec![k]) } else { let n = d(src); (vec![m, k], vec![k, n]) } }
        _ => { let (p, m, k, n) = (d(src), d(src), d(src), d(src)); (vec![p, m, k], vec![p, k, n]) }
    };
    match src.upto(3) {
        0 => {
            // mismatched length; the sizes stay compatible with broadcasting
            match kind {
                0 => if src.coin() { b[0] += src.range(1, 3) } else { a[0] += src.range(1, 3) },
                1 => if src.coin() { b[0] += src.range(1, 3) } else { a[1] += src.range(1, 3) },
                _ => match src.upto(4) { 0 => a[0] += src.range(1, 2), 1 => b[0] += src.range(1, 2), 2 => b[1] += src.range(1, 2), _ => a[2] += src.range(1, 2) },
            }
        }
        1 => { let x = src.range(1, 2); if src.coin() { a.insert(0, x) } else { b.insert(0, x) } }
        _ => { if src.coin() { a.remove(0); } else { b.remove(0); } }
    }
    (kind, a, b)
}

fn product_ok(kind: usize, a: &[usize], b: &[usize]) -> bool {
    match kind {
        0 => a.len() == 1 && b.len() == 1 && a == b,
        1 => (a.len() == 1 && b.len() == 1 && a == b) || (a.len() == 2 && (b.len() == 1 || b.len() == 2) && a[1] == b[0]),
        _ => a.len() == 3 && b.len() == 3 && a[0] == b[0] && a[2] == b[1],
    }
}

fn products<T: Elem>(src: &mut Src) -> R {
    let (kind, sa, sb) = bad_product(src);
    if product_ok(kind, &sa, &sb) { return Ok(()); }
    let a = gen_exact::<T>(src, &sa, &[1], true);
    let b = gen_exact::<T>(src, &sb, &[1], true);
    src.tag("product shapes");
    let name = ["dot", "matmul", "bmm"][kind];
    refused(src, &format!("{sa:?}.{name}({sb:?})"), &[&a, &b], || match kind { 0 => T::dot_(a.a(), b.a()), 1 => T::matmul_(a.a(), b.a()), _ => T::bmm_(a.a(), b.a()) })
}

fn subscripts<T: Elem>(src: &mut Src) -> R {
    let nops = src.range(1, 3);
    let labels = b"ijkl";
    let mut dims: Vec<usize> = labels.iter().map(|_| src.range(2, 4)).collect();
    dims[0] = src.range(1, 4);
    let mut subs: Vec<String> = vec![];
    let mut ops: Vec<Laid<T>> = vec![];
    for _ in 0..nops {
        let r = src.range(1, 3);
        let s: Vec<usize> = (0..r).map(|_| src.upto(4)).collect();
        subs.push(s.iter().map(|&l| labels[l] as char).collect());
        let shape: Vec<usize> = s.iter().map(|&l| dims[l]).collect();
        ops.push(gen_exact::<T>(src, &shape, &[1], true));
    }
    let mut seen: Vec<char> = subs.iter().flat_map(|s| s.chars()).collect();
    seen.sort();
    seen.dedup();
    let mut out: String = seen.iter().copied().filter(|_| src.coin()).collect();
    // break one thing
    let k = src.upto(nops);
    let what = match src.upto(10) {
        8 => {
            // an ellipsis that stands for some axes: broadcasting is not supported
            let n = subs[k].len();
            let from = src.upto(n);
            let to = src.range(from + 1, n);
            subs[k].replace_range(from..to, "..");
            let left: Vec<char> = subs.iter().flat_map(|s| s.chars()).collect();
            out.retain(|c| left.contains(&c));
            if src.coin() { let p = src.upto(out.len() + 1); out.insert_str(p, ".."); }
            "ellipsis for axes"
        }
        9 => {
            let s = if src.coin() { &mut subs[k] } else { &mut out };
            if src.coin() { let p = src.upto(s.len() + 1); s.insert(p, '.'); }
            else { s.insert_str(0, ".."); s.push_str(".."); }
            "stray dots"
        }
        0 => { subs[k].push(*src.pick(&['i', 'z'])); "label without an axis" }
        1 => { subs[k].pop(); "axis without a label" }
        2 => { out.push('q'); "output label that no operand has" }
        3 => { let c = *src.pick(&seen); out.push(c); out.push(c); "repeated output label" }
        4 => {
            // one label, two lengths
            let mut shape = ops[k].m.shape.clone();
            let x = src.upto(shape.len());
            let l = subs[k].chars().nth(x).unwrap();
            let others = subs.iter().flat_map(|s| s.chars()).filter(|&c| c == l).count();
            if others < 2 { return Ok(()); }
            shape[x] = if src.chance(1, 3) && shape[x] > 1 { 1 } else { shape[x] + src.range(1, 2) };
            ops[k] = gen_exact::<T>(src, &shape, &[1], true);
            "one label for two lengths"
        }
        5 => {
            // one subscripts string too many or too few
            if src.coin() { subs.push("i".into()); } else if nops > 1 { subs.pop(); } else { subs.push(subs[0].clone()); }
            out = String::new();
            "number of subscripts"
        }
        6 => {
            let c = *src.pick(&['1', '-', '>', ',', '*', '_', 'é']);
            let s = &mut subs[k];
            s.pop();
            s.push(c);
            "character that is not a letter"
        }
        _ => { out.push(*src.pick(&['1', '-', '>', ',', '?', 'é'])); "character that is not a letter in the output" }
    };
    src.tag("einsum");
    let refs: Vec<&'static Nd<T>> = ops.iter().map(|o| o.a()).collect();
    let keep: Vec<&Laid<T>> = ops.iter().collect();
    let strs: Vec<&str> = subs.iter().map(|s| s.as_str()).collect();
    let shapes: Vec<Vec<usize>> = ops.iter().map(|o| o.m.shape.clone()).collect();
    refused(src, &format!("einsum({strs:?} -> {out}) of {shapes:?} ({what})"), &keep, || T::ein(&refs, &strs, &out))
}

fn single<T: Elem>(src: &mut Src) -> R {
    let mut l = gen_small::<T>(src, 4, 40, &[1], true);
    match src.upto(4) {
        0 => {
            if l.m.size() == 1 { return Ok(()); }
            src.tag("value()");
            refused(src, "value()", &[&l], || l.a().value())
        }
        1 => {
            // the elements are not consecutive in memory
            if matches!(l.m.spacing(), Some(None) | Some(Some(1))) { return Ok(()); }
            src.tag("data_slice()");
            refused(src, "data_slice()", &[&l], || l.a().data_slice().len())
        }
        2 => {
            let consecutive = matches!(l.m.spacing(), Some(None) | Some(Some(1)));
            if l.owned && consecutive { return Ok(()); }
            src.tag("into_data_vector()");
            src.nontrivial();
            src.note(|| format!("{}.into_data_vector()", l.text));
            let owned = l.owned;
            let nd = std::mem::replace(&mut l.nd, build(&[1], &[T::int(0)]));
            let r = catch(|| std::mem::forget(nd.into_data_vector()));
            ensure!(r.is_err(), "into_data_vector() was not refused: {}", l.text);
            if owned { return Ok(()); }
            let now = l.base_now();
            ensure!(same_all(&now, &l.base), "a refused into_data_vector() changed the data to {now:?}");
            Ok(())
        }
        _ => {
            // an element the target type cannot hold
            let k = l.m.idx[src.upto(l.m.size())];
            if T::FLOAT || T::SIGNED {
                l.poke(k, T::int(-1));
                src.tag("astype");
                return refused(src, "astype::<u16>() of a negative element", &[&l], || l.a().astype::<u16>());
            }
            if std::mem::size_of::<T>() < 2 { return Ok(()); }
            l.poke(k, T::int(300));
            src.tag("astype");
            refused(src, "astype::<u8>() of 300", &[&l], || l.a().astype::<u8>())
        }
    }
}

/// Wrong number of coordinates or coordinates outside the array.
fn indices<T: Elem>(src: &mut Src) -> R {
    let mut l = gen_small::<T>(src, 4, 40, &[1], true);
    let n = l.m.shape.len();
    let mut c: Vec<usize> = l.m.shape.iter().map(|&x| src.upto(x)).collect();
    let outside = n > 0 && src.coin();
    if outside { let k = src.upto(n); c[k] = l.m.shape[k] + src.upto(3); }
    else if src.coin() || n == 0 { c.push(0); }
    else { c.pop(); }
    if !l.readonly && src.coin() {
        src.tag("assignment by index");
        src.nontrivial();
        src.note(|| format!("{}[{c:?}] = 1", l.text));
        let r = catch(|| set(&mut l.nd, &c, T::int(1)));
        ensure!(r.is_err(), "[{c:?}] = 1 in shape {:?} was not refused: {}", l.m.shape, l.text);
        return unchanged("assignment by index", &l);
    }
    src.tag("index");
    refused(src, &format!("[{c:?}]"), &[&l], || get(l.a(), &c))
}

fn constructors(src: &mut Src) -> R {
    src.tag("constructors");
    src.nontrivial();
    let n = src.range(1, 4);
    let other = { let x = src.range(0, 5); if x == n { x + 1 } else { x } };
    let rows = src.range(2, 4);
    let odd = src.upto(rows);
    let kind = src.upto(14);
    src.note(|| format!("constructor {kind}: {rows} rows of {n}, row {odd} of {other}"));
    let ragged: Vec<Vec<i32>> = (0..rows).map(|i| vec![i as i32; if i == odd { other } else { n }]).collect();
    let r = catch(|| match kind {
        0 => std::mem::forget(NdArray::new(ragged.clone())),
        1 => std::mem::forget(NdArray::new(vec![ragged.clone(), (0..rows).map(|_| vec![1; n]).collect()])),
        2 => std::mem::forget(NdArray::new([(0..rows).map(|_| vec![1; n]).collect::<Vec<_>>(), ragged.clone()])),
        3 => std::mem::forget(NdArray::new(ragged.iter().map(|r| vec![r.clone(), r.clone()]).collect::<Vec<_>>())),
        4 => std::mem::forget(NdArray::new(vec![(0..rows).map(|_| [1, 2]).collect::<Vec<_>>(), (0..rows + n).map(|_| [1, 2]).collect()])),
        5 => std::mem::forget(NdArray::new(Vec::<f32>::new())),
        6 => std::mem::forget(NdArray::<f64>::linspace(0.0, 1.0, 0)),
        7 => std::mem::forget(NdArray::<f64>::linspace_exclusive(0.0, 1.0, 0)),
        8 => std::mem::forget(NdArray::<i32>::randint([n], 4, 4 - n as i32)),
        9 => std::mem::forget(NdArray::full(1, [n, 0, 2])),
        10 => std::mem::forget(Tensor::new(ragged.iter().map(|r| r.iter().map(|&x| x as f64).collect::<Vec<f64>>()).collect::<Vec<_>>())),
        11 => std::mem::forget(NdArray::new(vec![vec![ragged.clone()], vec![(0..rows).map(|_| vec![1; n]).collect()]])),
        12 => std::mem::forget(NdArray::<f32>::zeros([n, 0])),
        _ => std::mem::forget(Tensor::<f32>::ones([0, n])),
    });
    ensure!(r.is_err(), "constructor {kind} ({rows} rows of {n}, row {odd} of {other}) was not refused");
    Ok(())
}

/// Ill-formed requests on tensors, tracked or not, in the middle of a computation.
fn tensors<T: Fl>(src: &mut Src) -> R {
    let mut w = World::<T>::new();
    w.track = 70;
    let steps = src.range(0, 4);
    for _ in 0..steps { w.grow(src); }
    let (sa, sb) = conflicting(src);
    let a = w.leaf(src, &sa, false);
    let b = w.leaf(src, &sb, true);
    let a = if src.chance(1, 3) { w.scalar_op(src, Op::Mul, a) } else { a };
    if src.coin() { let live = w.live(); let i = live[live.len() - 1 - src.upto(live.len())]; w.backward(src, i)?; }
    if w.n[a].t.is_none() || w.n[b].t.is_none() { return Ok(()); }
    let before: Vec<(usize, Vec<T>, Option<Vec<T>>)> = w.live().into_iter()
        .map(|i| (i, w.t(i).ndarray().flatiter().collect(), w.t(i).gradient().map(|g| g.flatiter().collect()))).collect();
    src.nontrivial();
    let (ta, tb) = (w.t(a), w.t(b));
    let n = sa.len();
    let mut keep: Option<Laid<T>> = None;
    let (what, r): (String, Result<(), String>) = match src.upto(9) {
        0 => {
            let k = src.upto(4);
            src.tag("tensor operator");
            (format!("tensor operator {k} on {sa:?} and {sb:?}"),
             catch(|| match k { 0 => std::mem::forget(ta + tb), 1 => std::mem::forget(ta - tb), 2 => std::mem::forget(ta * tb), _ => std::mem::forget(ta / tb) }))
        }
        1 | 2 | 3 => {
            // a seed gradient of another shape: same size, broadcastable or unrelated
            let live = w.live();
            let i = live[src.upto(live.len())];
            let s = w.n[i].shape.clone();
            let g: Vec<usize> = match src.upto(5) {
                0 => { let mut g = s.clone(); g.insert(0, 1); g }
                1 => { let mut g = s.clone(); if let Some(x) = g.iter_mut().find(|x| **x > 1) { *x = 1; } g }
                2 => factor_shape(src, prod(&s)),
                3 => vec![],
                _ => gen_shape(src, 3, 4, 20),
            };
            if g == s { return Ok(()); }
            let l = gen_exact::<T>(src, &g, &[1], true);
            src.tag("seed gradient");
            let t = w.t(i);
            let nd = l.a();
            keep = Some(l);
            (format!("t{i}.backward_with a gradient of shape {g:?} (tensor shape {s:?})"), catch(|| t.backward_with(nd)))
        }
        4 => { let x = bad_axis(src, n); src.tag("tensor axis"); (format!("t{a}.transpose({x}, 0)"), catch(|| std::mem::forget(ta.transpose(x, 0)))) }
        5 => { let x = bad_axis(src, n + 1); src.tag("tensor axis"); (format!("t{a}.unsqueeze({x})"), catch(|| std::mem::forget(ta.unsqueeze(x)))) }
        6 => { let m = prod(&sa) + src.range(1, 3); let to = factor_shape(src, m); src.tag("tensor reshape"); (format!("t{a}.reshape({to:?})"), catch(|| std::mem::forget(ta.reshape(to)))) }
        7 => { if prod(&sa) == 1 { return Ok(()); } src.tag("tensor value"); (format!("t{a}.value()"), catch(|| { ta.value(); })) }
        _ => {
            let (kind, pa, pb) = bad_product(src);
            if product_ok(kind, &pa, &pb) { return Ok(()); }
            let x = w.leaf(src, &pa, false);
            let y = w.leaf(src, &pb, false);
            let (tx, ty) = (w.t(x), w.t(y));
            src.tag("tensor product");
            (format!("tensor {} of {pa:?} and {pb:?}", ["dot", "matmul", "bmm"][kind]),
             catch(|| match kind { 0 => std::mem::forget(tx.dot(ty)), 1 => std::mem::forget(tx.matmul(ty)), _ => std::mem::forget(tx.bmm(ty)) }))
        }
    };
    src.note(|| what.clone());
    ensure!(r.is_err(), "{what} was not refused");
    for (i, v, g) in before {
        let now: Vec<T> = w.t(i).ndarray().flatiter().collect();
        ensure!(same_all(&now, &v), "{what} was refused but changed t{i} to {now:?}, before {v:?}");
        let gn: Option<Vec<T>> = w.t(i).gradient().map(|g| g.flatiter().collect());
        let ok = match (&g, &gn) { (None, None) => true, (Some(x), Some(y)) => same_all(x, y), _ => false };
        ensure!(ok, "{what} was refused but changed the gradient of t{i} to {gn:?}, before {g:?}");
    }
    if let Some(l) = keep { unchanged(&what, &l)?; }
    // the graph is still usable
    let live = w.live();
    let i = live[live.len() - 1];
    w.backward(src, i)?;
    w.check_gradients()
}
