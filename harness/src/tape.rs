//! Tensor programs with a reference model.
//!
//! Every tensor element is a node of a scalar tape (value, and edges with partial derivatives to the
//! scalars it was computed from), so the reference gradient is plain reverse-mode accumulation over
//! scalars: no broadcasting rules, no matrix calculus. `mag` and the absolute partials bound the
//! rounding error any order of evaluation may have.

use crate::elem::*;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use redstone_ml::*;

pub trait Fl: Elem + TensorDataType {
    const EPS: f64;
    fn of(v: f64) -> Self;
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    fn of(v: f64) -> f32 { v as f32 }
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    fn of(v: f64) -> f64 { v }
}

/// A library call: its allocations are counted.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    crate::alloc::tracking(true, f)
}

pub type Ten<T> = Tensor<'static, T>;

/// Extends the borrow; the caller keeps the tensor alive.
pub unsafe fn forever_t<'x, T: TensorDataType>(a: &'x Tensor<'x, T>) -> &'static Ten<T> {
    std::mem::transmute::<&Tensor<'x, T>, &'static Ten<T>>(a)
}

pub struct Scalar {
    pub val: f64,
    pub mag: f64,
    pub par: Vec<(u32, f64, f64)>,
}

pub struct Acc {
    pub ids: Vec<u32>,
    pub grad: Vec<f64>,
    pub bound: Vec<f64>,
}

pub struct Node<T: Fl> {
    pub t: Option<Box<Ten<T>>>,
    pub arr: Option<Nd<T>>,
    pub shape: Vec<usize>,
    pub ids: Vec<u32>,
    pub tracked: bool,
    pub user: bool,
    pub acc: Option<usize>,
    pub from: Option<usize>,
    pub borrowers: usize,
    /// all values are small integers (sums of products are exact)
    pub exact: bool,
    /// number of backward paths
    pub paths: u64,
    pub max: f64,
}

pub struct World<T: Fl> {
    pub n: Vec<Node<T>>,
    pub tape: Vec<Scalar>,
    pub accs: Vec<Acc>,
    pub ops: u64,
    pub longest: u64,
    /// keep an array computed by the same operations next to every tensor
    pub shadow: bool,
    /// probability (percent) that a new leaf tracks gradients
    pub track: u64,
    pub integers: bool,
    pub maxsize: usize,
    pub passes: u64,
}

impl<T: Fl> Drop for World<T> {
    fn drop(&mut self) {
        // later tensors may borrow from earlier ones
        while let Some(x) = self.n.pop() {
            drop(x);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Own { Ref, Take }

impl<T: Fl> World<T> {
    pub fn new() -> Self {
        World { n: vec![], tape: vec![], accs: vec![], ops: 0, longest: 1, shadow: false, track: 60, integers: false, maxsize: 30, passes: 0 }
    }

    pub fn live(&self) -> Vec<usize> {
        (0..self.n.len()).filter(|&i| self.n[i].t.is_some()).collect()
    }

    pub fn t(&self, i: usize) -> &'static Ten<T> {
        unsafe { forever_t(self.n[i].t.as_ref().expect("harness: dead tensor")) }
    }

    fn arr(&self, i: usize) -> &'static Nd<T> {
        unsafe { forever(self.n[i].arr.as_ref().expect("harness: no shadow")) }
    }

    pub fn vals(&self, i: usize) -> Vec<f64> {
        self.n[i].ids.iter().map(|&k| self.tape[k as usize].val).collect()
    }

    fn scalar(&mut self, val: f64, mag: f64, par: Vec<(u32, f64, f64)>) -> u32 {
        self.tape.push(Scalar { val, mag, par });
        self.tape.len() as u32 - 1
    }

    fn constants(&mut self, vals: &[f64], mags: &[f64]) -> Vec<u32> {
        vals.iter().zip(mags).map(|(&v, &m)| self.scalar(v, m, vec![])).collect()
    }

    fn push(&mut self, t: Ten<T>, arr: Option<Nd<T>>, shape: Vec<usize>, ids: Vec<u32>, tracked: bool, paths: u64) -> usize {
        let max = ids.iter().map(|&k| self.tape[k as usize].mag).fold(0.0, f64::max);
        let exact = ids.iter().all(|&k| { let v = self.tape[k as usize].val; v == v.round() && self.tape[k as usize].mag <= 1000.0 });
        self.n.push(Node { t: Some(Box::new(t)), arr, shape, ids, tracked, user: false, acc: None, from: None, borrowers: 0, exact, paths, max });
        self.n.len() - 1
    }

    /// A user-created tensor.
    pub fn leaf(&mut self, src: &mut Src, shape: &[usize], nonzero: bool) -> usize {
        let n = prod(shape);
        let h = src.below(1 << 16);
        let vals: Vec<f64> = (0..n).map(|i| {
            let r = mix(h ^ mix(i as u64));
            let s = if (r >> 32) & 1 == 1 { -1.0 } else { 1.0 };
            if nonzero { s * [1.0, 2.0, 0.5, 4.0, 1.5, 3.0][(r % if self.integers { 1 } else { 6 }) as usize] }
            else if self.integers { s * (r % 5) as f64 }
            else { s * (r % 13) as f64 / 4.0 }
        }).collect();
        let data: Vec<T> = vals.iter().map(|&v| T::of(v)).collect();
        let t: Ten<T> = lib(|| unsafe { <Ten<T> as Constructors<T>>::from_contiguous_owned_buffer(shape.to_vec(), data.clone()) });
        let arr = if self.shadow { Some(build(shape, &data)) } else { None };
        let mags: Vec<f64> = vals.iter().map(|v| v.abs()).collect();
        let ids = self.constants(&vals, &mags);
        let i = self.push(t, arr, shape.to_vec(), ids, false, 0);
        self.n[i].user = true;
        src.note(|| format!("t{i} = {shape:?} {vals:?}"));
        if src.below(100) >= 100 - self.track { self.set_tracking(src, i, true); }
        i
    }

    pub fn set_tracking(&mut self, src: &mut Src, i: usize, on: bool) {
        src.note(|| format!("t{i}.set_requires_grad({on})"));
        lib(|| self.n[i].t.as_mut().unwrap().set_requires_grad(on));
        if self.n[i].tracked == on { return; }
        // a fresh accumulator, or none: in both cases what is computed from now on no longer reaches the old graph
        let vals = self.vals(i);
        let mags: Vec<f64> = self.n[i].ids.iter().map(|&k| self.tape[k as usize].mag).collect();
        let ids = self.constants(&vals, &mags);
        self.n[i].ids = ids.clone();
        self.n[i].tracked = on;
        self.n[i].paths = 1;
        self.n[i].acc = None;
        if on {
            let z = vec![0.0; ids.len()];
            self.accs.push(Acc { ids, grad: z.clone(), bound: z });
            self.n[i].acc = Some(self.accs.len() - 1);
        }
    }

    pub fn can_take(&self, i: usize) -> bool {
        self.n[i].borrowers == 0
    }

    /// Moves the tensor out (consuming call); it may not be used again.
    fn take(&mut self, i: usize) -> Ten<T> {
        assert!(self.can_take(i), "harness: borrowed");
        let b = self.n[i].t.take().unwrap();
        if let Some(f) = self.n[i].from { self.n[f].borrowers -= 1; self.n[i].from = None; }
        *b
    }

    pub fn release(&mut self, i: usize) -> Ten<T> {
        self.take(i)
    }

    pub fn drop_tensor(&mut self, src: &mut Src, i: usize) {
        src.note(|| format!("drop(t{i})"));
        let t = self.take(i);
        lib(|| drop(t));
    }

    fn own(&self, src: &mut Src, i: usize) -> Own {
        // keep most operands alive so that they are shared
        if self.can_take(i) && src.chance(1, 5) { Own::Take } else { Own::Ref }
    }

    /// Adds edges only if the result tracks gradients.
    fn computed(&mut self, tracked: bool, val: f64, mag: f64, par: Vec<(u32, f64, f64)>) -> u32 {
        self.scalar(val, mag, if tracked { par } else { vec![] })
    }

    pub fn binary(&mut self, src: &mut Src, op: Op, a: usize, b: usize) -> usize {
        let out = broadcast_shape(&self.n[a].shape, &self.n[b].shape).expect("harness: shapes");
        let ma = M::root(&self.n[a].shape).broadcast(&out).unwrap();
        let mb = M::root(&self.n[b].shape).broadcast(&out).unwrap();
        let tracked = self.n[a].tracked || self.n[b].tracked;
        let paths = self.n[a].paths + self.n[b].paths;
        let mut ids = vec![];
        for (&i, &j) in ma.idx.iter().zip(&mb.idx) {
            let (x, y) = (self.n[a].ids[i], self.n[b].ids[j]);
            let (sx, sy) = (&self.tape[x as usize], &self.tape[y as usize]);
            let (u, v, mu, mv) = (sx.val, sy.val, sx.mag, sy.mag);
            let (val, mag, px, py, ax, ay) = match op {
                Op::Add => (u + v, mu + mv, 1.0, 1.0, 1.0, 1.0),
                Op::Sub => (u - v, mu + mv, 1.0, -1.0, 1.0, 1.0),
                Op::Mul => (u * v, mu * mv, v, u, mv, mu),
                Op::Div => { let c = mv / v.abs(); (u / v, mu / v.abs() * c, 1.0 / v, -u / (v * v), c / v.abs(), mu * c * c / (v * v)) }
                _ => unreachable!(),
            };
            let id = self.computed(tracked, val, mag, vec![(x, px, ax), (y, py, ay)]);
            ids.push(id);
        }
        // the same tensor twice cannot be moved twice
        let (oa, ob) = if a == b { (Own::Ref, Own::Ref) } else { (self.own(src, a), self.own(src, b)) };
        let (oa, ob) = if self.related(a, b) { (Own::Ref, Own::Ref) } else { (oa, ob) };
        let arr = if self.shadow { Some(T::arr(op, 0, self.arr(a), self.arr(b))) } else { None };
        let k = self.n.len();
        src.note(|| format!("t{k} = {}t{a} {} {}t{b}", amp(oa), op.sym(), amp(ob)));
        macro_rules! go { ($o:tt) => { match (oa, ob) {
            (Own::Ref, Own::Ref) => self.t(a) $o self.t(b),
            (Own::Take, Own::Ref) => { let x = self.take(a); x $o self.t(b) }
            (Own::Ref, Own::Take) => { let y = self.take(b); self.t(a) $o y }
            (Own::Take, Own::Take) => { let x = self.take(a); let y = self.take(b); x $o y }
        } } }
        let t: Ten<T> = lib(|| match op { Op::Add => go!(+), Op::Sub => go!(-), Op::Mul => go!(*), Op::Div => go!(/), _ => unreachable!() });
        self.ops += 1;
        // every operand element may collect this many contributions
        self.longest = self.longest.max(prod(&out) as u64);
        self.push(t, arr, out, ids, tracked, paths)
    }

    /// One borrows from the other (directly or not).
    fn related(&self, a: usize, b: usize) -> bool {
        let up = |mut i: usize, j: usize| { while let Some(f) = self.n[i].from { if f == j { return true; } i = f; } false };
        up(a, b) || up(b, a)
    }

    pub fn scalar_op(&mut self, src: &mut Src, op: Op, a: usize) -> usize {
        let s = if self.integers { *src.pick(&[2.0, 1.0, -1.0, 3.0, -2.0]) } else { *src.pick(&[2.0, 1.0, -1.0, 0.5, -3.0, 1.75, -0.25]) };
        let s = if op == Op::Div { *src.pick(&[2.0, -1.0, 0.5, 4.0, -0.25]) } else { s };
        let tracked = self.n[a].tracked;
        let ids: Vec<u32> = self.n[a].ids.clone();
        let mut out = vec![];
        for x in ids {
            let (u, m) = (self.tape[x as usize].val, self.tape[x as usize].mag);
            let (val, mag, p) = match op {
                Op::Add => (u + s, m + s.abs(), 1.0), Op::Sub => (u - s, m + s.abs(), 1.0),
                Op::Mul => (u * s, m * s.abs(), s), Op::Div => (u / s, m / s.abs(), 1.0 / s), _ => unreachable!(),
            };
            let id = self.computed(tracked, val, mag, vec![(x, p, p.abs())]);
            out.push(id);
        }
        let arr = if self.shadow { Some(T::arr_s(op, 0, self.arr(a), T::of(s))) } else { None };
        let own = self.own(src, a);
        let k = self.n.len();
        src.note(|| format!("t{k} = {}t{a} {} {s}", amp(own), op.sym()));
        let (shape, paths) = (self.n[a].shape.clone(), self.n[a].paths);
        let s = T::of(s);
        macro_rules! go { ($o:tt) => { if own == Own::Ref { self.t(a) $o s } else { let x = self.take(a); x $o s } } }
        let t: Ten<T> = lib(|| match op { Op::Add => go!(+), Op::Sub => go!(-), Op::Mul => go!(*), Op::Div => go!(/), _ => unreachable!() });
        self.ops += 1;
        self.push(t, arr, shape, out, tracked, paths)
    }

    pub fn neg(&mut self, src: &mut Src, a: usize) -> usize {
        let tracked = self.n[a].tracked;
        let ids = self.n[a].ids.clone();
        let mut out = vec![];
        for x in ids {
            let (u, m) = (self.tape[x as usize].val, self.tape[x as usize].mag);
            let id = self.computed(tracked, -u, m, vec![(x, -1.0, 1.0)]);
            out.push(id);
        }
        let arr = if self.shadow { Some(T::arr_neg(0, self.arr(a)).unwrap()) } else { None };
        let own = self.own(src, a);
        let k = self.n.len();
        src.note(|| format!("t{k} = -{}t{a}", amp(own)));
        let (shape, paths) = (self.n[a].shape.clone(), self.n[a].paths);
        let t: Ten<T> = lib(|| if own == Own::Ref { -self.t(a) } else { let x = self.take(a); -x });
        self.ops += 1;
        self.push(t, arr, shape, out, tracked, paths)
    }

    fn sum_of_products(&mut self, tracked: bool, terms: &[(u32, u32)]) -> u32 {
        let (mut val, mut mag, mut par) = (0.0, 0.0, vec![]);
        for &(x, y) in terms {
            let (sx, sy) = (&self.tape[x as usize], &self.tape[y as usize]);
            val += sx.val * sy.val;
            mag += sx.mag * sy.mag;
            if tracked { par.push((x, sy.val, sy.mag)); par.push((y, sx.val, sx.mag)); }
        }
        self.longest = self.longest.max(terms.len() as u64);
        self.scalar(val, mag, par)
    }

    /// dot (1-d by 1-d), matrix-vector, matrix-matrix and batched products.
    pub fn product(&mut self, src: &mut Src, a: usize, b: usize) -> usize {
        let (sa, sb) = (self.n[a].shape.clone(), self.n[b].shape.clone());
        let (ia, ib) = (self.n[a].ids.clone(), self.n[b].ids.clone());
        let tracked = self.n[a].tracked || self.n[b].tracked;
        let at = |s: &[usize], i: &[u32], c: &[usize]| i[flat(s, c)];
        let (shape, kind): (Vec<usize>, u8) = match (sa.len(), sb.len()) {
            (1, 1) => (vec![], if src.coin() { 0 } else { 1 }),
            (2, 1) => (vec![sa[0]], 1),
            (2, 2) => (vec![sa[0], sb[1]], 1),
            (3, 3) => (vec![sa[0], sa[1], sb[2]], 2),
            _ => panic!("harness: product ranks"),
        };
        let mut ids = vec![];
        for c in coords(&shape) {
            let terms: Vec<(u32, u32)> = match (sa.len(), sb.len()) {
                (1, 1) => (0..sa[0]).map(|k| (at(&sa, &ia, &[k]), at(&sb, &ib, &[k]))).collect(),
                (2, 1) => (0..sa[1]).map(|k| (at(&sa, &ia, &[c[0], k]), at(&sb, &ib, &[k]))).collect(),
                (2, 2) => (0..sa[1]).map(|k| (at(&sa, &ia, &[c[0], k]), at(&sb, &ib, &[k, c[1]]))).collect(),
                _ => (0..sa[2]).map(|k| (at(&sa, &ia, &[c[0], c[1], k]), at(&sb, &ib, &[c[0], k, c[2]]))).collect(),
            };
            let id = self.sum_of_products(tracked, &terms);
            ids.push(id);
        }
        let arr = if self.shadow {
            Some(match kind { 0 => T::dot_(self.arr(a), self.arr(b)), 1 => T::matmul_(self.arr(a), self.arr(b)), _ => T::bmm_(self.arr(a), self.arr(b)) })
        } else { None };
        let k = self.n.len();
        let name = ["dot", "matmul", "bmm"][kind as usize];
        let paths = self.n[a].paths + self.n[b].paths;
        // the right operand may be passed by value
        let take = a != b && !self.related(a, b) && self.own(src, b) == Own::Take;
        src.note(|| format!("t{k} = t{a}.{name}({}t{b})", if take { "" } else { "&" }));
        let t: Ten<T> = lib(|| if take {
            let y = self.take(b);
            match kind { 0 => self.t(a).dot(y), 1 => self.t(a).matmul(y), _ => self.t(a).bmm(y) }
        } else {
            match kind { 0 => self.t(a).dot(self.t(b)), 1 => self.t(a).matmul(self.t(b)), _ => self.t(a).bmm(self.t(b)) }
        });
        self.ops += 1;
        self.longest = self.longest.max((prod(&sa) + prod(&sb)) as u64);
        self.push(t, arr, shape, ids, tracked, paths)
    }

    /// A view-forming call, by borrowing or consuming.
    pub fn view(&mut self, src: &mut Src, a: usize, v: &V, consume: bool) -> usize {
        let consume = consume && self.can_take(a);
        let m = M::root(&self.n[a].shape).apply(v).expect("generator made an invalid view");
        let ids: Vec<u32> = m.idx.iter().map(|&i| self.n[a].ids[i]).collect();
        let tracked = self.n[a].tracked;
        let paths = self.n[a].paths;
        let arr = if self.shadow {
            // the array is copied out of the view so that it owns its data
            Some(borrow_view(self.arr(a), v).clone())
        } else { None };
        let k = self.n.len();
        src.note(|| format!("t{k} = {}t{a}.{}", if consume { "" } else { "&" }, v.text()));
        let t: Ten<T> = lib(|| if consume {
            let x = self.take(a);
            match v {
                V::View => x.view(), V::Reshape(s) => x.reshape(s.clone()), V::Squeeze => x.squeeze(), V::Unsqueeze(i) => x.unsqueeze(*i),
                V::Transpose(i, j) => x.transpose(*i, *j), V::T => x.T(), _ => panic!("harness: view"),
            }
        } else {
            let x = self.t(a);
            match v {
                V::View => x.view(), V::Reshape(s) => x.reshape(s.clone()), V::Squeeze => x.squeeze(), V::Unsqueeze(i) => x.unsqueeze(*i),
                V::Transpose(i, j) => x.transpose(*i, *j), V::T => x.T(), _ => panic!("harness: view"),
            }
        });
        self.ops += 1;
        let i = self.push(t, arr, m.shape, ids, tracked, paths);
        if !consume {
            self.n[i].from = Some(a);
            self.n[a].borrowers += 1;
        }
        i
    }

    /// Reference backward pass from tensor `i` with the given seed; updates the model's accumulators.
    pub fn backward_model(&mut self, i: usize, seed: &[f64]) {
        self.passes += 1;
        if !self.n[i].tracked { return; }
        let top = self.n[i].ids.iter().copied().max().unwrap() as usize;
        let mut adj = vec![0.0; top + 1];
        let mut abs = vec![0.0; top + 1];
        for (&id, &s) in self.n[i].ids.iter().zip(seed) { adj[id as usize] += s; abs[id as usize] += f64::abs(s); }
        for k in (0..=top).rev() {
            if abs[k] == 0.0 { continue; }
            for &(p, d, a) in &self.tape[k].par {
                adj[p as usize] += adj[k] * d;
                abs[p as usize] += abs[k] * a;
            }
        }
        for acc in &mut self.accs {
            for (e, &id) in acc.ids.iter().enumerate() {
                if id as usize <= top {
                    acc.grad[e] += adj[id as usize];
                    acc.bound[e] += abs[id as usize];
                }
            }
        }
    }

    /// Runs backward on the library and the model.
    pub fn backward(&mut self, src: &mut Src, i: usize) -> R {
        let shape = self.n[i].shape.clone();
        if src.chance(1, 3) {
            src.note(|| format!("t{i}.backward()"));
            lib(|| self.t(i).backward());
            let ones = vec![1.0; prod(&shape)];
            self.backward_model(i, &ones);
            return Ok(());
        }
        // the gradient of some leaf, as it stands, is as good a seed as any
        if src.chance(1, 8) {
            let c: Vec<usize> = self.live().into_iter().filter(|&j| self.n[j].acc.is_some() && self.n[j].shape == shape).collect();
            if !c.is_empty() {
                let j = c[src.upto(c.len())];
                src.note(|| format!("t{i}.backward_with(t{j}.gradient())"));
                let g = self.t(j).gradient().expect("harness: no gradient");
                let seed: Vec<f64> = g.flatiter().map(|v| v.f()).collect();
                if seed.iter().all(|v| v.abs() < 1e6) {
                    lib(|| self.t(i).backward_with(&g));
                    self.backward_model(i, &seed);
                    src.tag("seed is a gradient");
                }
                return Ok(());
            }
        }
        let mut g = gen_exact::<T>(src, &shape, &[1], true);
        if src.chance(1, 4) { for k in 0..g.base.len() { g.poke(k, T::of(((mix(k as u64) % 9) as f64 - 4.0) / 2.0)); } }
        let seed: Vec<f64> = g.values().iter().map(|v| v.f()).collect();
        src.note(|| format!("t{i}.backward_with({:?} laid out as {})", seed, g.text));
        lib(|| self.t(i).backward_with(&g.nd));
        self.backward_model(i, &seed);
        ensure!(same_all(&g.base_now(), &g.base), "backward changed its seed gradient");
        Ok(())
    }

    /// Sends infinities and NaNs through the graph below tensor i, then resets every gradient that
    /// is still observable: whatever arrived there must be gone.
    pub fn poison(&mut self, src: &mut Src, i: usize) {
        let shape = self.n[i].shape.clone();
        let mut g = gen_exact::<T>(src, &shape, &[1], true);
        let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][src.upto(3)];
        for k in 0..g.base.len() { g.poke(k, T::of(bad)); }
        src.note(|| format!("t{i}.backward_with(all {bad})"));
        lib(|| self.t(i).backward_with(&g.nd));
        for j in self.live() {
            if self.n[j].acc.is_some() { self.zero(src, j); }
        }
    }

    pub fn zero(&mut self, src: &mut Src, i: usize) {
        src.note(|| format!("t{i}.zero_gradient()"));
        lib(|| self.t(i).zero_gradient());
        if let Some(a) = self.n[i].acc {
            self.accs[a].grad.fill(0.0);
            self.accs[a].bound.fill(0.0);
        }
    }

    pub fn tolerance(&self) -> f64 {
        T::EPS * (16.0 + 4.0 * self.ops as f64 + self.longest as f64 * 2.0 + self.passes as f64)
    }

    /// requires_grad, is_leaf and gradient of every live tensor agree with the model.
    pub fn check_gradients(&self) -> R {
        let tol = self.tolerance();
        for i in self.live() {
            let n = &self.n[i];
            let t = self.t(i);
            ensure!(t.requires_grad() == n.tracked, "t{i}.requires_grad() is {}, expected {}", t.requires_grad(), n.tracked);
            let leaf = !n.tracked || n.user;
            ensure!(t.is_leaf() == leaf, "t{i}.is_leaf() is {}, expected {leaf}", t.is_leaf());
            let g = t.gradient();
            match (n.acc, g) {
                (None, None) => {}
                (None, Some(g)) => ensure!(false, "t{i} has a gradient {:?} but should have none (tracked {}, leaf {leaf})", g.flatiter().collect::<Vec<_>>(), n.tracked),
                (Some(_), None) => ensure!(false, "t{i} tracks gradients but has none"),
                (Some(a), Some(g)) => {
                    ensure!(g.shape() == n.shape, "the gradient of t{i} has shape {:?}, expected {:?}", g.shape(), n.shape);
                    let got: Vec<T> = g.flatiter().collect();
                    let acc = &self.accs[a];
                    for k in 0..got.len() {
                        let d = (got[k].f() - acc.grad[k]).abs();
                        ensure!(d <= tol * acc.bound[k], "gradient of t{i} is {got:?}, expected {:?} (element {k} differs by {d:e}, tolerance {:e})", acc.grad, tol * acc.bound[k]);
                    }
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ generation

    fn leaf_shape(&self, src: &mut Src) -> Vec<usize> {
        match src.weighted(&[400, 40, 10, 2, 1]) {
            0 => gen_shape(src, 4, 4, self.maxsize),
            1 => gen_shape(src, 3, 24, self.maxsize * 3),
            2 => (0..src.range(5, 7)).map(|_| src.range(1, 2)).collect(),
            4 => { let n = src.range(1000, 4500); match src.upto(3) { 0 => vec![n], 1 => vec![n / 3, 3], _ => vec![n / 60, 4, 15] } }
            _ => { let n = src.range(40, 600); if src.coin() { vec![n] } else { let k = src.range(2, 4); vec![n / k, k] } }
        }
    }

    /// A shape that broadcasts with `s`.
    fn partner_shape(&self, src: &mut Src, s: &[usize]) -> Vec<usize> {
        let mut p = s.to_vec();
        let cut = if src.chance(1, 3) { src.upto(p.len() + 1) } else { 0 };
        p.drain(..cut);
        for x in p.iter_mut() {
            if *x == 1 { if src.coin() { *x = src.range(1, 3); } } else if src.chance(1, 4) { *x = 1; }
        }
        if cut == 0 && src.chance(1, 5) && p.len() < 5 { let d = src.range(1, 3); p.insert(0, d); }
        p
    }

    fn pick_live(&self, src: &mut Src, f: impl Fn(&Node<T>) -> bool) -> Option<usize> {
        let c: Vec<usize> = self.live().into_iter().filter(|&i| f(&self.n[i])).collect();
        if c.is_empty() { return None; }
        // prefer recent tensors
        let k = if src.coin() { c.len() - 1 - src.upto(c.len().min(3)) } else { src.upto(c.len()) };
        Some(c[k])
    }

    pub fn any(&mut self, src: &mut Src) -> usize {
        match self.pick_live(src, |_| true) {
            Some(i) => i,
            None => { let s = self.leaf_shape(src); self.leaf(src, &s, false) }
        }
    }

    fn divisible(&self, i: usize) -> bool {
        self.n[i].ids.iter().all(|&k| { let s = &self.tape[k as usize]; s.val.abs() >= 0.25 && s.mag <= 4.0 * s.val.abs() })
    }

    /// A long chain of operations on one tensor, most intermediates dropped on the way.
    pub fn chain(&mut self, src: &mut Src, len: usize) -> usize {
        let mut cur = self.any(src);
        let shape = self.n[cur].shape.clone();
        let mut partner = None;
        for _ in 0..len {
            let (room, prev) = (self.n[cur].max < 2000.0, cur);
            cur = match src.weighted(&[3, 3, 1, 1]) {
                0 if room => { let op = if src.coin() { Op::Add } else { Op::Sub }; self.scalar_op(src, op, cur) }
                1 if room && self.n[cur].paths < 500 => {
                    let p = match partner { Some(p) => p, None => self.leaf(src, &shape, false) };
                    let op = if src.coin() { Op::Add } else { Op::Sub };
                    let k = if src.coin() { self.binary(src, op, cur, p) } else { self.binary(src, op, p, cur) };
                    partner = if self.n[p].t.is_some() { Some(p) } else { None };
                    k
                }
                2 => { let v = V::View; let consume = self.can_take(cur) && src.coin(); self.view(src, cur, &v, consume) }
                _ => self.neg(src, cur),
            };
            if self.n[prev].t.is_some() && self.can_take(prev) && src.chance(3, 4) { self.drop_tensor(src, prev); }
        }
        cur
    }

    /// One random operation producing a new tensor.
    pub fn grow(&mut self, src: &mut Src) -> usize {
        self.grow_with(src, &[8, 3, 1, 5, 6])
    }

    /// The same without products (every result element is one rounding away from its operands).
    pub fn grow_elementwise(&mut self, src: &mut Src) -> usize {
        self.grow_with(src, &[8, 3, 1, 0, 6])
    }

    fn grow_with(&mut self, src: &mut Src, weights: &[u32]) -> usize {
        const BIG: f64 = 4000.0;
        let kind = src.weighted(weights);
        match kind {
            0 => {
                let a = self.any(src);
                let sa = self.n[a].shape.clone();
                let op = *src.pick(&[Op::Add, Op::Mul, Op::Sub, Op::Div]);
                let maxsize = self.maxsize * 3;
                let ok = |w: &Self, x: usize, y: usize| match broadcast_shape(&w.n[x].shape, &w.n[y].shape) {
                    Some(o) => prod(&o) <= maxsize && w.n[x].paths + w.n[y].paths <= 600, None => false };
                let cands: Vec<usize> = self.live().into_iter().filter(|&j| ok(self, a, j)).collect();
                let b = if !cands.is_empty() && src.chance(3, 5) { cands[cands.len() - 1 - src.upto(cands.len())] } else {
                    let s = self.partner_shape(src, &sa);
                    let s = if broadcast_shape(&sa, &s).map_or(true, |o| prod(&o) > maxsize) { sa.clone() } else { s };
                    let nz = op == Op::Div;
                    self.leaf(src, &s, nz)
                };
                let (a, b) = if src.chance(1, 3) { (b, a) } else { (a, b) };
                if !ok(self, a, b) { return self.neg(src, a); }
                let (x, y) = (self.n[a].max, self.n[b].max);
                let mut op = op;
                if op == Op::Div && !(self.divisible(b) && x <= BIG / 8.0 && !self.integers) { op = Op::Mul; }
                if op == Op::Mul && x * y > BIG { op = if src.coin() { Op::Add } else { Op::Sub }; }
                if x + y > BIG { return self.neg(src, a); }
                self.binary(src, op, a, b)
            }
            1 => {
                let a = self.any(src);
                let mut op = *src.pick(&[Op::Add, Op::Mul, Op::Sub, Op::Div]);
                if self.n[a].max * 4.0 > BIG { op = Op::Sub; }
                if self.integers && op == Op::Div { op = Op::Mul; }
                self.scalar_op(src, op, a)
            }
            2 => { let a = self.any(src); self.neg(src, a) }
            3 => {
                let r = *src.pick(&[2usize, 1, 3]);
                let integers = self.integers;
                let a = match self.pick_live(src, |n| n.shape.len() == r && n.max * n.max <= BIG && (!integers || n.exact)) {
                    Some(a) => a,
                    None => { let s: Vec<usize> = (0..r).map(|_| src.range(1, 4)).collect(); self.leaf(src, &s, false) }
                };
                let sa = self.n[a].shape.clone();
                let want: Vec<Option<usize>> = match r {
                    1 => vec![Some(sa[0])],
                    2 => if src.coin() { vec![Some(sa[1])] } else { vec![Some(sa[1]), None] },
                    _ => vec![Some(sa[0]), Some(sa[2]), None],
                };
                let (ma, pa) = (self.n[a].max, self.n[a].paths);
                let len = *sa.last().unwrap() as f64;
                let fit = |n: &Node<T>| n.shape.len() == want.len() && n.shape.iter().zip(&want).all(|(x, w)| w.map_or(true, |w| w == *x))
                    && n.max * ma * len <= BIG && n.paths + pa <= 600 && (!integers || n.exact);
                let found = if src.chance(2, 3) { self.pick_live(src, fit) } else { None };
                let b = match found {
                    Some(b) => b,
                    None => { let s: Vec<usize> = want.iter().map(|w| match w { Some(w) => *w, None => src.range(1, 4) }).collect(); self.leaf(src, &s, false) }
                };
                if self.n[b].max * ma * len > BIG || (integers && !(self.n[a].exact && self.n[b].exact)) { return self.neg(src, a); }
                self.product(src, a, b)
            }
            _ => {
                let a = self.any(src);
                self.grow_view(src, a)
            }
        }
    }

    pub fn grow_view(&mut self, src: &mut Src, a: usize) -> usize {
        let shape = self.n[a].shape.clone();
        let n = shape.len();
        let uniform = self.t(a).is_uniformly_strided();
        let v = match src.weighted(&[1, 4, 1, 2, if n > 0 { 4 } else { 0 }, if n > 1 { 2 } else { 0 }]) {
            1 => V::Reshape(if uniform { factor_shape(src, prod(&shape)) } else { shape.clone() }),
            2 => V::Squeeze,
            3 if n < 5 => { let x = src.upto(n + 1); V::Unsqueeze(sign(src, x, n + 1)) }
            4 => { let (x, y) = (src.upto(n), src.upto(n)); V::Transpose(sign(src, x, n), sign(src, y, n)) }
            5 => V::T,
            _ => V::View,
        };
        let consume = src.chance(2, 5);
        self.view(src, a, &v, consume)
    }
}

fn amp(o: Own) -> &'static str {
    if o == Own::Ref { "&" } else { "" }
}

pub fn broadcast_shape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let mut out = vec![0; n];
    for k in 0..n {
        let x = if k < a.len() { a[a.len() - 1 - k] } else { 1 };
        let y = if k < b.len() { b[b.len() - 1 - k] } else { 1 };
        out[n - 1 - k] = if x == y || y == 1 { x } else if x == 1 { y } else { return None };
    }
    Some(out)
}
