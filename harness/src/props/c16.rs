//! C16: no history of safe calls corrupts, leaks or frees memory twice.
//!
//! Library calls run with their allocations counted and, mostly, each in a page of its own between
//! inaccessible pages, so that any access outside a live allocation ends the process. After the case
//! everything has been dropped and the ledger must be where it was.

use super::Prop;
use crate::alloc;
use crate::elem::*;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::tape::{lib, Fl, Ten, World};
use crate::any_dtype;
use crate::numeric;
use redstone_ml::*;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C16",
    case,
    memory: true,
    quick: (800_000, 75),
    thorough: (20_000_000, 600),
    rule: "the history contains a view or graph edge onto another value's memory, and at least one drop or consuming call",
    assumptions: &["the global allocator of the harness stands in for the system's: every allocation of at most one page lies alone between inaccessible pages, flush with one of them (which one is generated)",
                   "histories respect the borrow checker: a value is dropped, moved or written to only while nothing borrows it (C21 covers programs that do not)"],
};

fn case(src: &mut Src) -> R {
    if src.chance(1, 150) { return super::empties::check(src, "C16"); }
    let mode = *src.pick(&[1, 2, 1, 2, 0]);
    alloc::guard_mode(mode);
    src.tag(["red zones", "guard page at the end", "guard page at the start"][mode]);
    let r = match src.upto(5) {
        0 | 1 => if src.coin() { tensors::<f64>(src) } else { tensors::<f32>(src) },
        2 => { let d = dtype(src, 15); any_dtype!(d, T => plain::<T>(src)) }
        _ => { let d = dtype(src, 14); numeric!(d, T => arrays::<T>(src)) }
    };
    alloc::guard_mode(0);
    r
}

struct Node<T: Raw> {
    nd: Option<Box<Nd<T>>>,
    parent: Option<usize>,
    m: M,
}

struct Pool<T: Raw> {
    n: Vec<Node<T>>,
    others: Vec<Nd<f64>>,
    vectors: Vec<Vec<T>>,
}

impl<T: Raw> Drop for Pool<T> {
    fn drop(&mut self) {
        while self.n.pop().is_some() {}
    }
}

impl<T: Raw> Pool<T> {
    fn live(&self) -> Vec<usize> { (0..self.n.len()).filter(|&i| self.n[i].nd.is_some()).collect() }
    fn free(&self) -> Vec<usize> {
        self.live().into_iter().filter(|&i| !self.n.iter().any(|n| n.nd.is_some() && n.parent == Some(i))).collect()
    }
    fn a(&self, i: usize) -> &'static Nd<T> { unsafe { &*(self.n[i].nd.as_ref().unwrap().as_ref() as *const Nd<T>) } }
    fn push(&mut self, nd: Nd<T>, parent: Option<usize>) -> usize {
        let m = M::root(nd.shape());
        self.n.push(Node { nd: Some(Box::new(nd)), parent, m });
        self.n.len() - 1
    }
    /// Reads every element of every live array, one way or another.
    fn touch(&self, src: &mut Src) -> R {
        for i in self.live() {
            let a = self.a(i);
            ensure!(a.shape() == self.n[i].m.shape, "a{i} has shape {:?}, expected {:?}", a.shape(), self.n[i].m.shape);
            let n = match src.upto(5) {
                0 => lib(|| a.flatiter().map(T::bits).fold(0u64, |s, v| s ^ v)),
                1 => lib(|| a.flatiter_ptr().map(|p| T::bits(unsafe { *p })).fold(0u64, |s, v| s ^ v)),
                2 => lib(|| a.clone().size() as u64),
                3 => lib(|| a.flatten().size() as u64),
                _ => coords(a.shape()).iter().map(|c| T::bits(get(a, c))).fold(0u64, |s, v| s ^ v),
            };
            std::hint::black_box(n);
        }
        Ok(())
    }
}

/// Construction, views, copies, iteration, conversion, drops; for every element type.
fn step_plain<T: Raw>(src: &mut Src, w: &mut Pool<T>, drops: &mut u64, edges: &mut u64) -> R {
    let live = w.live();
    let k = w.n.len();
    let kind = if live.is_empty() { 0 } else { src.weighted(&[3, 5, 4, 2, 3, 3, 3, 4, 1]) };
    match kind {
        0 => {
            if live.len() > 8 { return Ok(()); }
            let big = if src.chance(1, 5) { 500 } else { 30 };
            let shape = gen_shape(src, 4, if big > 30 { 16 } else { 4 }, big);
            let vals = gen_vals::<T>(src, prod(&shape), &[1]);
            let c = src.upto(6);
            src.note(|| format!("a{k} = constructor {c} {}{shape:?}", T::NAME));
            let nd: Nd<T> = lib(|| match c {
                0 => build(&shape, &vals),
                1 => NdArray::full(vals[0], shape.clone()),
                2 => T::zeros_of(shape.clone()),
                3 => T::ones_of(shape.clone()),
                4 => NdArray::scalar(vals[0]),
                // from a vector with spare capacity
                _ => { let mut v = Vec::with_capacity(vals.len() + 7); v.extend_from_slice(&vals); unsafe { NdArray::from_contiguous_owned_buffer(shape.clone(), v) } }
            });
            w.push(nd, None);
        }
        1 => {
            if live.len() > 8 { return Ok(()); }
            let i = *src.pick(&live);
            let m = w.n[i].m.clone();
            let v = gen_view(src, &m, w.a(i).is_uniformly_strided(), T::NAME != "bool", 100);
            src.note(|| format!("a{k} = (&a{i}).{}", v.text()));
            let nd = lib(|| borrow_view(w.a(i), &v));
            w.push(nd, Some(i));
            *edges += 1;
            src.tag("borrowing view");
        }
        2 => {
            let free = w.free();
            let i = *src.pick(&free);
            let m = w.n[i].m.clone();
            let v = gen_view(src, &m, w.a(i).is_uniformly_strided(), false, 100);
            if !v.can_consume() { return Ok(()); }
            src.note(|| format!("a{k} = a{i}.{}", v.text()));
            let (x, p) = (w.n[i].nd.take().unwrap(), w.n[i].parent);
            let nd = lib(|| consume_view(*x, &v));
            w.push(nd, p);
            *drops += 1;
            src.tag("consuming view");
        }
        3 => {
            if live.len() > 8 { return Ok(()); }
            let i = *src.pick(&live);
            let a = w.a(i);
            let c = src.upto(3);
            src.note(|| format!("a{k} = copy {c} of a{i}"));
            let nd = lib(|| match c { 0 => a.clone(), 1 => a.flatten(), _ => { let v = a.view(); v.clone() } });
            w.push(nd, None);
        }
        4 => {
            // iterators, abandoned after a few items; some items are kept
            let i = *src.pick(&live);
            let a = w.a(i);
            let n = w.n[i].m.shape.len();
            let (c, take, keep) = (src.upto(5), src.upto(6), src.coin());
            if n == 0 && c >= 2 { return Ok(()); }
            let ax = src.upto(n.max(1));
            let axes: Vec<usize> = (0..n).filter(|_| src.coin()).collect();
            src.note(|| format!("{take} items of iterator {c} over a{i}, axis {ax}, axes {axes:?}, keep {keep}"));
            let items: Vec<Nd<T>> = lib(|| match c {
                0 => { std::hint::black_box(a.flatiter().take(take).map(T::bits).fold(0, |s, v| s ^ v)); vec![] }
                1 => { for p in a.flatiter_ptr().take(take) { std::hint::black_box(unsafe { *p }); } vec![] }
                2 => a.iter().take(take).collect(),
                3 => a.iter_along(Axis(ax as isize)).take(take).collect(),
                _ => a.nditer(axes.clone()).take(take).collect(),
            });
            if keep { for x in items { if w.live().len() < 9 { w.push(x, None); } } }
            src.tag("iterator");
        }
        5 => {
            let i = *src.pick(&live);
            let j = *src.pick(&live);
            let (a, b) = (w.a(i), w.a(j));
            let c = src.upto(6);
            src.note(|| format!("look {c} at a{i}, a{j}"));
            lib(|| match c {
                0 => { let _ = catch(|| a.data_slice().iter().map(|&v| T::bits(v)).fold(0, |s, v| s ^ v)); }
                1 => { let _ = catch(|| a.value()); }
                2 => { std::hint::black_box(format!("{a:?}").len()); }
                3 => { std::hint::black_box(a == b); }
                4 => { let s = a.shape().to_vec(); if let Ok(r) = catch(|| b.broadcast_to(&s)) { std::hint::black_box(r.flatiter().map(T::bits).fold(0, |s, v| s ^ v)); } }
                _ => { std::hint::black_box(a.is_contiguous()); }
            });
        }
        6 => {
            let free = w.free();
            let i = *src.pick(&free);
            let x = w.n[i].nd.take().unwrap();
            let view = x.is_view();
            let keep = src.coin();
            src.note(|| format!("a{i}.into_data_vector(), keep {keep}"));
            *drops += 1;
            src.tag("into_data_vector");
            let r = lib(|| catch(|| x.into_data_vector()));
            if let Ok(mut v) = r {
                ensure!(!view, "into_data_vector of a view gave a vector");
                lib(|| { v.push(v[0]); v.shrink_to_fit(); });
                if keep { w.vectors.push(v); }
            }
        }
        7 => {
            let free = w.free();
            let i = *src.pick(&free);
            src.note(|| format!("drop(a{i})"));
            let x = w.n[i].nd.take();
            lib(|| drop(x));
            *drops += 1;
        }
        _ => {
            // calls that are refused; consuming ones lose their operand
            let free = w.free();
            let i = *src.pick(&free);
            let m = &w.n[i].m;
            let n = m.shape.len();
            let c = src.upto(8);
            let mut bad = m.shape.clone();
            bad.push(2);
            src.note(|| format!("refused call {c} on a{i}"));
            src.tag("refused call");
            let gone = c >= 4;
            let x = if gone { w.n[i].nd.take() } else { None };
            let a: &'static Nd<T> = match &x { Some(b) => unsafe { &*(b.as_ref() as *const Nd<T>) }, None => w.a(i) };
            let ok = lib(|| match c {
                0 => catch(|| { a.reshape(bad.clone()); }).is_ok(),
                1 => catch(|| { a.slice_along(Axis(n as isize), 0); }).is_ok(),
                2 => catch(|| { a.transpose(0, n as isize); }).is_ok(),
                3 => catch(|| { std::hint::black_box(get(a, &bad)); }).is_ok(),
                4 => catch(|| { x.unwrap().reshape(bad.clone()); }).is_ok(),
                5 => catch(|| { x.unwrap().transpose(n as isize, 0); }).is_ok(),
                6 => catch(|| { x.unwrap().unsqueeze(n as isize + 1); }).is_ok(),
                _ => catch(|| { let mut x = x.unwrap(); let c = bad.clone(); set(&mut x, &c, T::true_()); }).is_ok(),
            });
            ensure!(!ok, "invalid call {c} on a{i} of shape {:?} succeeded", w.n[i].m.shape);
            if gone { *drops += 1; }
        }
    }
    Ok(())
}

fn finish<T: Raw>(src: &mut Src, mut w: Pool<T>) {
    // any order that respects the borrows
    while !w.live().is_empty() {
        let free = w.free();
        let i = free[src.upto(free.len())];
        let x = w.n[i].nd.take();
        lib(|| drop(x));
    }
}

fn plain<T: Raw>(src: &mut Src) -> R {
    let mut w: Pool<T> = Pool { n: vec![], others: vec![], vectors: vec![] };
    let steps = src.range(2, if src.thorough { 24 } else { 14 });
    let (mut drops, mut edges) = (0, 0);
    for _ in 0..steps {
        step_plain(src, &mut w, &mut drops, &mut edges)?;
        if src.chance(1, 2) { w.touch(src)?; }
    }
    w.touch(src)?;
    if drops > 0 && edges > 0 { src.nontrivial(); }
    finish(src, w);
    Ok(())
}

/// The same with arithmetic, reductions, products and in-place operations in between.
fn arrays<T: Elem>(src: &mut Src) -> R {
    let mut w: Pool<T> = Pool { n: vec![], others: vec![], vectors: vec![] };
    let steps = src.range(2, if src.thorough { 24 } else { 14 });
    let (mut drops, mut edges) = (0, 0);
    for _ in 0..steps {
        let live = w.live();
        if live.is_empty() || src.chance(3, 5) {
            step_plain(src, &mut w, &mut drops, &mut edges)?;
            continue;
        }
        let k = w.n.len();
        let (i, j) = (*src.pick(&live), *src.pick(&live));
        let (a, b) = (w.a(i), w.a(j));
        let n = w.n[i].m.shape.len();
        let op = *src.pick(T::OPS);
        let own = src.upto(OWNS);
        let kind = src.upto(8);
        let axes: Vec<isize> = (0..n).filter(|_| src.coin()).map(|x| x as isize).collect();
        src.note(|| format!("a{k} = compute {kind} {} own {own} on a{i}, a{j}, axes {axes:?}", op.sym()));
        src.tag(["operator", "scalar operator", "negation", "reduction", "product", "einsum", "trace or conversion", "in place"][kind]);
        // undefined combinations (shapes, overflow) are refused
        if kind == 7 {
            let free = w.free();
            if !free.contains(&i) { continue; }
            let c = src.upto(5);
            let cs: Vec<usize> = w.n[i].m.shape.iter().map(|x| x - 1).collect();
            let x = w.n[i].nd.as_mut().unwrap();
            let _ = lib(|| catch(|| match c {
                0 => x.fill(T::int(3)),
                1 => T::zero_arr(x),
                2 => T::assign(op, own, x, if i == j { unsafe { &*(a as *const Nd<T>) } } else { b }),
                3 => T::assign_s(op, x, T::int(1)),
                _ => set(x, &cs, T::int(2)),
            }));
        } else {
            let labels: String = "ijklmn".chars().take(n).collect();
            let lb: String = "ijklmn".chars().take(w.n[j].m.shape.len()).collect();
            let out: String = labels.chars().filter(|_| own % 2 == 0).collect();
            let red = src.upto(8);
            let r: Result<Nd<T>, String> = lib(|| catch(|| match kind {
                0 => T::arr(op, own, a, b),
                1 => T::arr_s(op, own, a, T::int(1)),
                2 => T::arr_neg(own, a).unwrap(),
                3 => match red { 0 => a.sum(), 1 => a.min(), 2 => a.max_magnitude(), 3 => a.product_along(axes.clone()), 4 => a.max_along(axes.clone()),
                                 5 => a.min_magnitude_along(axes.clone()), 6 => T::mean_(a, Some(axes.clone())).unwrap_or_else(|| a.max()), _ => a.sum_along(axes.clone()) },
                4 => match own % 3 { 0 => T::matmul_(a, b), 1 => T::dot_(a, b), _ => T::bmm_(a, b) },
                5 => T::ein(&[a, b], &[&labels, &lb], &out),
                _ => if red < 5 { a.astype::<T>() } else { a.offset_trace(own as isize % 3 - 1) },
            }));
            if let Ok(r) = r {
                if w.live().len() < 9 { w.push(r, None); } else { lib(|| drop(r)); }
            }
            if src.chance(1, 10) { w.others.push(lib(|| a.astype::<f64>())); }
        }
        if src.chance(1, 2) { w.touch(src)?; }
    }
    w.touch(src)?;
    if drops > 0 && edges > 0 { src.nontrivial(); }
    finish(src, w);
    Ok(())
}

/// Expression graphs outliving their operands, gradients and arrays kept beyond their tensors.
fn tensors<T: Fl>(src: &mut Src) -> R {
    let mut w = World::<T>::new();
    w.maxsize = 12;
    w.track = 70;
    // declared after `w`: dropped first
    let mut views: Vec<(usize, NdArray<'static, T>)> = vec![];
    let mut shared: Vec<Rc<Nd<T>>> = vec![];
    let mut arrays: Vec<Nd<T>> = vec![];
    let steps = src.range(3, if src.thorough { 30 } else { 16 });
    let (mut drops, mut passes) = (0, 0);
    if src.chance(1, 200) {
        src.tag("long chain");
        let len = if src.thorough || src.chance(1, 5) { src.range(30, 300) } else { src.range(10, 60) };
        w.chain(src, len);
    }
    for _ in 0..steps {
        if w.live().is_empty() { w.any(src); }
        let live = w.live();
        let i = live[live.len() - 1 - src.upto(live.len())];
        let takeable: Vec<usize> = live.iter().copied().filter(|&i| w.can_take(i)).collect();
        match src.weighted(&[8, 4, 2, 3, 2, 2, 1, 1]) {
            0 => { if live.len() < 14 { w.grow(src); } }
            1 => { src.tag("backward"); if w.n[i].tracked { passes += 1; } w.backward(src, i)?; }
            2 => { // a gradient kept as a view while the graph goes on
                if views.len() < 4 {
                    if let Some(g) = lib(|| w.t(i).gradient()) {
                        src.note(|| format!("keep t{i}.gradient()"));
                        src.tag("gradient view");
                        w.n[i].borrowers += 1;
                        views.push((i, g));
                    }
                } else {
                    let (i, g) = views.swap_remove(src.upto(views.len()));
                    src.note(|| format!("drop a gradient of t{i}"));
                    lib(|| drop(g));
                    w.n[i].borrowers -= 1;
                }
            }
            3 => if !takeable.is_empty() {
                let i = takeable[src.upto(takeable.len())];
                drops += 1;
                if src.coin() { w.drop_tensor(src, i); } else {
                    src.note(|| format!("keep t{i}.into_ndarray()"));
                    src.tag("into_ndarray");
                    let t = w.release(i);
                    let a = lib(|| t.into_ndarray());
                    arrays.push(a);
                }
            },
            4 => {
                src.note(|| format!("keep t{i}.get_ndarray() and detach()"));
                shared.push(lib(|| w.t(i).get_ndarray()));
                arrays.push(lib(|| w.t(i).detach()));
            }
            5 => if !takeable.is_empty() { let i = takeable[src.upto(takeable.len())]; let on = src.coin(); w.set_tracking(src, i, on); },
            6 => w.zero(src, i),
            _ => {
                // refused calls
                let c = src.upto(5);
                src.note(|| format!("refused call {c} on t{i}"));
                src.tag("refused call");
                let mut bad = w.n[i].shape.clone();
                bad.push(7);
                let t = w.t(i);
                let r = lib(|| match c {
                    0 => { let g = NdArray::<T>::ones(bad.clone()); catch(|| t.backward_with(&g)).is_ok() }
                    1 => { let u = Tensor::<T>::ones(vec![5, 7, 11, 13]); catch(|| { let _ = t + &u; let _ = t * t; panic!("x"); }).is_ok() }
                    2 => { let u = Tensor::<T>::ones(vec![1, 1, 1, 1, 1, 2]); catch(|| { let _ = t.matmul(&u); }).is_ok() }
                    3 => catch(|| { let _ = t.reshape(bad.clone()); }).is_ok(),
                    _ => catch(|| { let _ = t.transpose(bad.len() as isize, 0); }).is_ok(),
                });
                ensure!(!r || (c == 0 && !w.n[i].tracked), "refused call {c} on t{i} succeeded");
            }
        }
        // read everything that is alive
        if src.chance(1, 2) {
            w.check_gradients()?;
            let mut s = 0u64;
            for i in w.live() { s ^= w.t(i).ndarray().flatiter().map(T::bits).fold(0, |a, b| a ^ b); }
            for (_, g) in &views { s ^= g.flatiter().map(T::bits).fold(0, |a, b| a ^ b); }
            for a in &arrays { s ^= a.flatiter().map(T::bits).fold(0, |a, b| a ^ b); }
            for a in &shared { s ^= a.flatiter().map(T::bits).fold(0, |a, b| a ^ b); }
            std::hint::black_box(s);
        }
    }
    if drops > 0 && passes > 0 { src.nontrivial(); }
    for (i, g) in views.drain(..) { lib(|| drop(g)); w.n[i].borrowers -= 1; }
    // drop tensors in any order the borrows allow; what was kept is still readable
    while src.coin() {
        let c: Vec<usize> = w.live().into_iter().filter(|&i| w.can_take(i)).collect();
        if c.is_empty() { break; }
        let i = c[src.upto(c.len())];
        w.drop_tensor(src, i);
    }
    if src.coin() {
        drop(w);
    } else {
        // the last tensor keeps its graph alive
        let last = w.live().into_iter().filter(|&i| w.can_take(i)).last();
        if let Some(i) = last {
            let borrowed = w.n[i].from.is_some();
            if !borrowed {
                let t: Ten<T> = w.release(i);
                drop(w);
                lib(|| t.backward());
                lib(|| drop(t));
            }
        }
    }
    let s = arrays.iter().chain(shared.iter().map(|r| r.as_ref())).map(|a| a.flatiter().map(T::bits).fold(0, |a, b| a ^ b)).fold(0, |a, b| a ^ b);
    std::hint::black_box(s);
    Ok(())
}
