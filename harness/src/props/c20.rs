//! C20: computations never modify their operands, and repeat exactly.

use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::tape::*;
use crate::{ensure, numeric};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C20",
    case,
    memory: false,
    quick: (2_000_000, 60),
    thorough: (20_000_000, 600),
    rule: "at least two operations were performed with at least two live arrays or tensors around",
    assumptions: &["two runs in the same process; arrays of the second run lie at other addresses"],
};

fn case(src: &mut Src) -> R {
    if src.chance(2, 5) { return if src.coin() { tensors::<f64>(src) } else { tensors::<f32>(src) }; }
    let d = dtype(src, 14);
    numeric!(d, T => arrays::<T>(src))
}

#[derive(Clone, PartialEq, Debug)]
struct Snap { shape: Vec<usize>, stride: Vec<usize>, flags: u64, bits: Vec<u64> }

fn bits<T: Raw>(v: impl Iterator<Item = T>) -> Vec<u64> {
    v.map(T::bits).collect()
}

fn snap<T: Raw>(a: &NdArray<'_, T>) -> Snap {
    Snap { shape: a.shape().to_vec(), stride: a.stride().to_vec(), flags: a.flags().bits() as u64, bits: bits(a.flatiter()) }
}

/// One out-of-place computation on arrays of the pool; the result as comparable words.
fn compute<T: Elem>(op: &Todo, pool: &[&'static Nd<T>]) -> Vec<u64> {
    let out = |r: Nd<T>| { let mut v: Vec<u64> = r.shape().iter().map(|&x| x as u64).collect(); v.extend(bits(r.flatiter())); v };
    let a = pool[op.a];
    let b = pool[op.b];
    match op.kind {
        0 => out(T::arr(T::OPS[op.k % T::OPS.len()], op.own, a, b)),
        1 => out(T::arr_s(T::OPS[op.k % T::OPS.len()], op.own, a, T::int(2))),
        2 => match T::arr_neg(op.own, a) { Some(r) => out(r), None => vec![] },
        3 => out(match op.k % 12 {
            0 => a.sum(), 1 => a.product(), 2 => a.min(), 3 => a.max(), 4 => a.min_magnitude(), 5 => a.max_magnitude(),
            6 => a.sum_along(op.axes.clone()), 7 => a.product_along(op.axes.clone()), 8 => a.min_along(op.axes.clone()),
            9 => a.max_along(op.axes.clone()), 10 => a.min_magnitude_along(op.axes.clone()), _ => a.max_magnitude_along(op.axes.clone()),
        }),
        4 => match T::mean_(a, None) { Some(r) => out(r), None => vec![] },
        5 => out(match (a.ndims(), b.ndims()) { (3, 3) => T::bmm_(a, b), (1, 1) if op.k % 2 == 0 => T::dot_(a, b), _ => T::matmul_(a, b) }),
        6 => {
            let la: String = "ijklmn".chars().take(a.ndims()).collect();
            let lb: String = "mnopqr".chars().rev().take(b.ndims()).collect();
            let keep: String = la.chars().filter(|_| op.k % 2 == 0).collect();
            if op.k % 3 == 0 { out(T::ein(&[a], &[&la], &keep)) } else { out(T::ein(&[a, b], &[&la, &lb], &keep)) }
        }
        7 => out(a.clone()),
        8 => out(a.flatten()),
        9 => vec![(a == b) as u64, (a == a) as u64, (b == a) as u64],
        10 => format!("{a:?}").bytes().map(|b| b as u64).collect(),
        11 => { let f = a.astype::<f64>(); f.flatiter().map(|v| v.to_bits()).collect() }
        12 => {
            let mut v = bits(a.flatiter());
            v.extend(a.flatiter_ptr().map(|p| T::bits(unsafe { *p })));
            if a.ndims() > 0 {
                for x in a.iter() { v.extend(bits(x.flatiter())); }
                for x in a.iter_along(Axis(op.k as isize % a.ndims() as isize)) { v.extend(bits(x.flatiter())); }
                for x in a.nditer(vec![0]) { v.extend(bits(x.flatiter())); }
            }
            v
        }
        13 => { let w = borrow_view(a, op.view.as_ref().unwrap()); let mut v: Vec<u64> = w.shape().iter().map(|&x| x as u64).collect(); v.extend(bits(w.flatiter())); v }
        14 => { let s = a.trace(); out(s) }
        15 => out(a.offset_trace(op.k as isize % 3 - 1)),
        _ => { let mut v = vec![]; if a.is_contiguous() { v.extend(bits(a.data_slice().iter().copied())); } if a.size() == 1 { v.push(T::bits(a.value())); } v }
    }
}

struct Todo { kind: usize, k: usize, own: usize, a: usize, b: usize, axes: Vec<isize>, view: Option<V> }

fn arrays<T: Elem>(src: &mut Src) -> R {
    // two or three bases, each with one or two further views sharing its memory
    let mut roots: Vec<Laid<T>> = vec![];
    let shape = if src.chance(1, 4) { let r = src.range(1, 3); let n = src.range(1, 4); vec![n; r] } else if let Some(s) = rare_shape(src, 300, 3000) { s } else { gen_shape(src, 4, 4, 40) };
    for k in 0..src.range(1, 3) {
        let s = if k == 0 || src.coin() { shape.clone() } else { let (a, _) = super::common::operand_shapes(src, &shape); a };
        let modes: &[u8] = if T::FLOAT { &[1, 3, 2] } else { &[1, 3] };
        roots.push(gen_exact::<T>(src, &s, modes, true));
    }
    let nroots = roots.len();
    let mut extra: Vec<(usize, Nd<T>, M)> = vec![];
    for _ in 0..src.upto(3) {
        let r = src.upto(nroots);
        let uniform = roots[r].nd.is_uniformly_strided();
        let v = gen_view(src, &roots[r].m, uniform, true, 60);
        let m = roots[r].m.apply(&v).unwrap();
        extra.push((r, borrow_view(roots[r].a(), &v), m));
    }
    let mut pool: Vec<&'static Nd<T>> = roots.iter().map(|l| l.a()).collect();
    let mut models: Vec<M> = roots.iter().map(|l| l.m.clone()).collect();
    for (_, nd, m) in &extra { pool.push(unsafe { forever(nd) }); models.push(m.clone()); }
    let before: Vec<Snap> = pool.iter().map(|a| snap(a)).collect();
    src.note(|| format!("pool: {}; {} further views", roots.iter().map(|l| l.text.clone()).collect::<Vec<_>>().join(" | "), extra.len()));
    let steps = src.range(1, 6);
    if steps > 1 && pool.len() > 1 { src.nontrivial(); }
    for _ in 0..steps {
        let kind = src.upto(17);
        let (a, b) = (src.upto(pool.len()), src.upto(pool.len()));
        let n = models[a].shape.len();
        let axes: Vec<isize> = (0..n).filter(|_| src.coin()).map(|x| x as isize).collect();
        let view = if kind == 13 { let u = pool[a].is_uniformly_strided(); Some(gen_view(src, &models[a], u, true, 100)) } else { None };
        let todo = Todo { kind, k: src.upto(24), own: src.upto(OWNS), a, b, axes, view };
        src.tag(["operator", "scalar operator", "neg", "reduction", "mean", "product", "einsum", "clone", "flatten", "comparison", "print", "astype", "iteration", "view", "trace", "offset trace", "data slice"][kind]);
        src.note(|| format!("op {kind}.{} own {} on {a}, {b} axes {:?} view {:?}", todo.k, todo.own, todo.axes, todo.view));
        // an operation may be undefined for these operands (shapes, overflow): then it is refused both times
        let r1 = catch(|| compute::<T>(&todo, &pool));
        let r2 = catch(|| compute::<T>(&todo, &pool));
        ensure!(r1.is_ok() == r2.is_ok() && r1 == r2, "op {kind}.{} gave {r1:?}, then {r2:?}", todo.k);
        for (i, s) in before.iter().enumerate() {
            let now = snap(pool[i]);
            ensure!(now == *s, "op {kind}.{} on arrays {a}, {b} changed array {i}: {now:?}, before {s:?}", todo.k);
        }
        for l in &roots {
            let now = l.base_now();
            ensure!(same_all(&now, &l.base), "op {kind}.{} on arrays {a}, {b} changed a buffer to {now:?}, before {:?}: {}", todo.k, l.base, l.text);
        }
    }
    drop(extra);
    Ok(())
}

/// Runs a program; returns every value and gradient as bits.
fn run<T: Fl>(src: &mut Src, check: bool) -> Result<Vec<Vec<u64>>, String> {
    let mut w = World::<T>::new();
    w.track = 60;
    let steps = src.range(1, 8);
    for _ in 0..steps {
        let before: Vec<(usize, Snap, Option<Snap>)> = if check { w.live().into_iter().map(|i| (i, snap(w.t(i).ndarray()), w.t(i).gradient().map(|g| snap(&g)))).collect() } else { vec![] };
        let pass = src.chance(1, 4) && !w.live().is_empty();
        if pass {
            let live = w.live();
            let i = live[live.len() - 1 - src.upto(live.len())];
            w.backward(src, i)?;
        } else {
            w.grow(src);
        }
        for (i, v, g) in before {
            if w.n[i].t.is_none() { continue; }
            let now = snap(w.t(i).ndarray());
            ensure!(now == v, "{} changed t{i}: {now:?}, before {v:?}", if pass { "a backward pass" } else { "an operation" });
            if !pass {
                let gn = w.t(i).gradient().map(|g| snap(&g));
                ensure!(gn == g, "an operation changed the gradient of t{i}: {gn:?}, before {g:?}");
            }
        }
    }
    let live = w.live();
    if !live.is_empty() { let i = live[live.len() - 1]; w.backward(src, i)?; }
    if w.n.len() > 2 { src.nontrivial(); }
    Ok(w.live().into_iter().map(|i| {
        let mut v = bits(w.t(i).ndarray().flatiter());
        if let Some(g) = w.t(i).gradient() { v.extend(bits(g.flatiter())); }
        v
    }).collect())
}

fn tensors<T: Fl>(src: &mut Src) -> R {
    src.tag("tensor program");
    let start = src.rec.len();
    let first = run::<T>(src, true)?;
    let mut again = Src::replaying(src.rec[start..].to_vec());
    again.thorough = src.thorough;
    let second = run::<T>(&mut again, false)?;
    ensure!(first == second, "the same program gave {first:x?}, then {second:x?}");
    Ok(())
}
