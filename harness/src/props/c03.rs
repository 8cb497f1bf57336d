//! C03: views share memory with their source; copies never do.

use super::common::*;
use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, numeric};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C03",
    case,
    memory: false,
    quick: (6_000_000, 60),
    thorough: (20_000_000, 600),
    rule: "the history contains at least one write and at least three arrays, two of which share a buffer",
    assumptions: &["as the borrow checker demands, only arrays without live views of their own are written to",
                   "integer operands for which the scalar operator itself is undefined are not generated"],
};

fn case(src: &mut Src) -> R {
    let d = dtype(src, 14);
    if src.chance(1, 12) {
        return if src.coin() { tensor::<f32>(src) } else { tensor::<f64>(src) };
    }
    numeric!(d, T => history::<T>(src))
}

struct Node<T: Raw> {
    nd: Option<Box<Nd<T>>>,
    buf: usize,
    m: M,
    parent: Option<usize>,
    readonly: bool,
    name: String,
}

struct World<T: Raw> {
    bufs: Vec<Vec<T>>,
    nodes: Vec<Node<T>>,
}

impl<T: Raw> Drop for World<T> {
    fn drop(&mut self) {
        while self.nodes.pop().is_some() {}
    }
}

impl<T: Elem> World<T> {
    fn live(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|&i| self.nodes[i].nd.is_some()).collect()
    }
    fn childless(&self, i: usize) -> bool {
        !self.nodes.iter().any(|n| n.nd.is_some() && n.parent == Some(i))
    }
    fn a(&self, i: usize) -> &'static Nd<T> {
        unsafe { &*(self.nodes[i].nd.as_ref().unwrap().as_ref() as *const Nd<T>) }
    }
    fn values(&self, i: usize) -> Vec<T> {
        let n = &self.nodes[i];
        n.m.idx.iter().map(|&k| self.bufs[n.buf][k]).collect()
    }
    fn add_copy(&mut self, nd: Nd<T>, shape: &[usize], vals: Vec<T>, name: String) {
        let buf = self.bufs.len();
        self.bufs.push(vals);
        self.nodes.push(Node { nd: Some(Box::new(nd)), buf, m: M::root(shape), parent: None, readonly: false, name });
    }
    fn verify(&self, src: &mut Src, after: &str) -> R {
        for i in self.live() {
            let want = self.values(i);
            let a = self.a(i);
            ensure!(a.shape() == self.nodes[i].m.shape, "after {after}: {} has shape {:?}, expected {:?}", self.nodes[i].name, a.shape(), self.nodes[i].m.shape);
            let got: Vec<T> = if src.chance(1, 4) { coords(a.shape()).iter().map(|c| get(a, c)).collect() } else { a.flatiter().collect() };
            ensure!(same_all(&got, &want), "after {after}: {} reads {got:?}, expected {want:?}", self.nodes[i].name);
        }
        Ok(())
    }
}

/// The scalar operator where it is defined and finite.
fn fin<T: Elem>(op: Op, a: T, b: T) -> Option<T> {
    T::op(op, a, b).filter(|r| r.f().is_finite())
}

fn history<T: Elem>(src: &mut Src) -> R {
    let mut w: World<T> = World { bufs: vec![], nodes: vec![] };
    let shape = match rare_shape(src, 300, 5000) { Some(s) => s, None => gen_shape(src, 4, 4, 24) };
    let vals = gen_vals::<T>(src, prod(&shape), &[1, 0]);
    src.note(|| format!("a0 = {}{shape:?} {vals:?}", T::NAME));
    w.add_copy(build(&shape, &vals), &shape, vals, "a0".into());
    let steps = src.range(2, if src.thorough { 16 } else { 10 });
    let mut writes = 0;
    for _ in 0..steps {
        let live = w.live();
        let i = *src.pick(&live);
        let name = format!("a{}", w.nodes.len());
        let what: String;
        match src.weighted(&[6, 3, 7, 1]) {
            0 => {
                if live.len() > 8 { continue; }
                let m = w.nodes[i].m.clone();
                let uniform = w.a(i).is_uniformly_strided() || m.surely_uniform();
                let v = gen_view(src, &m, uniform, true, 60);
                what = format!("{name} = (&{}).{}", w.nodes[i].name, v.text());
                src.note(|| what.clone());
                let nd = borrow_view(w.a(i), &v);
                let node = Node { nd: Some(Box::new(nd)), buf: w.nodes[i].buf, m: m.apply(&v).unwrap(), parent: Some(i),
                                  readonly: w.nodes[i].readonly || matches!(v, V::Broadcast(_)), name };
                w.nodes.push(node);
                src.tag("view");
            }
            1 => {
                if live.len() > 8 { continue; }
                let a = w.a(i);
                let m = w.nodes[i].m.clone();
                let vals = w.values(i);
                let n = m.shape.len();
                let k = src.upto(11);
                let nm = &w.nodes[i].name;
                let one = T::int(1);
                let (nd, s, v, t): (Nd<T>, Vec<usize>, Vec<T>, String) = match k {
                    0 => (a.clone(), m.shape.clone(), vals, "clone".into()),
                    1 => (a.flatten(), vec![m.size()], vals, "flatten".into()),
                    2 => (a.astype::<T>(), m.shape.clone(), vals, "astype".into()),
                    3 => { let z = if T::OPS.contains(&Op::Or) { (Op::Or, T::int(0)) } else { (Op::Div, one) };
                           (T::arr_s(z.0, src.upto(OWNS), a, z.1), m.shape.clone(), vals, format!("arithmetic {} {:?}", z.0.sym(), z.1)) }
                    4 => { let b = build(&[], &[one]); (T::arr(Op::Mul, src.upto(OWNS), a, &b), m.shape.clone(), vals, "* ones".into()) }
                    5 => (a.max_along(Vec::<isize>::new()), m.shape.clone(), vals, "max_along []".into()),
                    6 if n > 0 => { let ax = src.upto(n); let f = m.fix(&[ax], &[m.shape[ax] - 1]);
                           let it = a.iter_along(ax as isize).last().unwrap();
                           let v = f.idx.iter().map(|&q| w.bufs[w.nodes[i].buf][q]).collect(); (it, f.shape.clone(), v, format!("iter_along({ax}).last()")) }
                    7 if n > 0 => { let f = m.fix(&[0], &[0]); let it = a.iter().next().unwrap();
                           let v = f.idx.iter().map(|&q| w.bufs[w.nodes[i].buf][q]).collect(); (it, f.shape.clone(), v, "iter().next()".into()) }
                    8 if n > 0 => { let labels = &"ijklmnopqrstuvwxyzABCDEFGH"[..n]; let out: String = labels.chars().rev().collect();
                           let f = m.ein_view(labels, &out).unwrap();
                           let v = f.idx.iter().map(|&q| w.bufs[w.nodes[i].buf][q]).collect(); (T::ein(&[a], &[labels], &out), f.shape.clone(), v, format!("einsum {labels}->{out}")) }
                    9 if n == 2 => { let id: Vec<T> = (0..m.shape[1] * m.shape[1]).map(|q| T::int((q % (m.shape[1] + 1) == 0) as i64)).collect();
                           (T::matmul_(a, &build(&[m.shape[1], m.shape[1]], &id)), m.shape.clone(), vals, "matmul with identity".into()) }
                    10 if n > 0 => { let ax: Vec<usize> = (0..n).collect(); let c: Vec<usize> = m.shape.iter().map(|x| x - 1).collect();
                           let f = m.fix(&ax, &c); let it = a.nditer(ax).last().unwrap();
                           let v = f.idx.iter().map(|&q| w.bufs[w.nodes[i].buf][q]).collect(); (it, vec![], v, "nditer(all).last()".into()) }
                    _ => (a.clone(), m.shape.clone(), vals, "clone".into()),
                };
                what = format!("{name} = {nm}: {t}");
                src.note(|| what.clone());
                let mut v = v;
                if T::FLOAT {
                    // sums of products may turn -0 into 0
                    let got: Vec<T> = nd.flatiter().collect();
                    if got.len() == v.len() && (k == 8 || k == 9) {
                        for (x, g) in v.iter_mut().zip(got) { if *x == g { *x = g; } }
                    }
                }
                w.add_copy(nd, &s, v, name);
                src.tag("copy");
            }
            2 => {
                // a write
                let cands: Vec<usize> = live.iter().copied().filter(|&j| !w.nodes[j].readonly && w.childless(j)).collect();
                if cands.is_empty() { continue; }
                let i = *src.pick(&cands);
                let m = w.nodes[i].m.clone();
                let buf = w.nodes[i].buf;
                let old = w.bufs.clone();
                let nm = w.nodes[i].name.clone();
                let v = T::val(1, src.below(1 << 16), 1);
                let mut done = String::new();
                match src.upto(5) {
                    0 => {
                        let c: Vec<usize> = m.shape.iter().map(|&n| src.upto(n)).collect();
                        done = format!("{nm}[{c:?}] = {v:?}");
                        w.bufs[buf][m.at(&c)] = v;
                        set(w.nodes[i].nd.as_mut().unwrap(), &c, v);
                    }
                    1 => {
                        done = format!("{nm}.fill({v:?})");
                        for &k in &m.idx { w.bufs[buf][k] = v; }
                        w.nodes[i].nd.as_mut().unwrap().fill(v);
                    }
                    2 if src.chance(1, 2) => {
                        done = format!("{nm}.zero()");
                        for &k in &m.idx { w.bufs[buf][k] = T::int(0); }
                        T::zero_arr(w.nodes[i].nd.as_mut().unwrap());
                    }
                    3 => {
                        let op = *src.pick(T::OPS);
                        if m.idx.iter().all(|&k| fin(op, old[buf][k], v).is_some()) {
                            done = format!("{nm} {}= {v:?}", op.sym());
                            for &k in &m.idx { w.bufs[buf][k] = fin(op, old[buf][k], v).unwrap(); }
                            T::assign_s(op, w.nodes[i].nd.as_mut().unwrap(), v);
                        }
                    }
                    _ => {
                        // compound assignment with another array of the family, possibly sharing the buffer
                        let others: Vec<(usize, M)> = live.iter().filter(|&&j| j != i).filter_map(|&j| w.nodes[j].m.broadcast(&m.shape).map(|b| (j, b))).collect();
                        if !others.is_empty() {
                            let (j, b) = src.pick(&others).clone();
                            let op = *src.pick(T::OPS);
                            let ob = w.nodes[j].buf;
                            if m.idx.iter().zip(&b.idx).all(|(&k, &q)| fin(op, old[buf][k], old[ob][q]).is_some()) {
                                done = format!("{nm} {}= {}", op.sym(), w.nodes[j].name);
                                for (&k, &q) in m.idx.iter().zip(&b.idx) { w.bufs[buf][k] = fin(op, old[buf][k], old[ob][q]).unwrap(); }
                                let r = w.a(j);
                                T::assign(op, 0, w.nodes[i].nd.as_mut().unwrap(), r);
                            }
                        }
                    }
                }
                if done.is_empty() { continue; }
                writes += 1;
                what = done;
                src.note(|| what.clone());
                src.tag("write");
            }
            _ => {
                let cands: Vec<usize> = live.iter().copied().filter(|&j| j > 0 && w.childless(j)).collect();
                if cands.is_empty() { continue; }
                let i = *src.pick(&cands);
                what = format!("drop {}", w.nodes[i].name);
                src.note(|| what.clone());
                w.nodes[i].nd = None;
                src.tag("drop");
            }
        }
        src.evals += 1;
        w.verify(src, &what)?;
    }
    let shared = w.nodes.iter().any(|n| n.parent.is_some());
    if writes > 0 && w.nodes.len() >= 3 && shared { src.nontrivial(); }
    Ok(())
}

/// Arrays detached or cloned out of a tensor are independent of it.
fn tensor<T: Elem + FloatDataType>(src: &mut Src) -> R {
    let shape = gen_shape(src, 3, 4, 24);
    let vals = gen_vals::<T>(src, prod(&shape), &[1]);
    let mut t: Tensor<'static, T> = unsafe { Tensor::from_contiguous_owned_buffer(shape.clone(), vals.clone()) };
    if src.coin() { t.set_requires_grad(true); }
    src.note(|| format!("Tensor{shape:?} {vals:?}: detach, write to the copy"));
    src.tag("tensor detach");
    src.nontrivial();
    let s = &t + T::int(1);
    let mut d = t.detach();
    let mut e = s.detach();
    let mut c = t.ndarray().clone();
    let before = t.get_ndarray();
    d.fill(T::int(9));
    c += T::int(3);
    e.zero();
    let now: Vec<T> = t.ndarray().flatiter().collect();
    ensure!(same_all(&now, &vals), "writing to detached copies changed the tensor: {now:?}, was {vals:?}");
    let b: Vec<T> = before.flatiter().collect();
    ensure!(same_all(&b, &vals), "writing to detached copies changed get_ndarray(): {b:?}, was {vals:?}");
    let s_now: Vec<T> = s.ndarray().flatiter().collect();
    let s_want: Vec<T> = vals.iter().map(|&x| T::op(Op::Add, x, T::int(1)).unwrap()).collect();
    ensure!(same_all(&s_now, &s_want), "writing to detached copies changed a result: {s_now:?}, was {s_want:?}");
    let seen: Vec<T> = d.flatiter().collect();
    ensure!(seen.iter().all(|&x| T::same(x, T::int(9))), "write to a detached copy lost: {seen:?}");
    // consuming a tensor that is still shared gives an independent array
    let u = &t * T::int(1);
    let mut own = t.into_ndarray();
    own.fill(T::int(5));
    let u_now: Vec<T> = u.ndarray().flatiter().collect();
    ensure!(same_all(&u_now, &vals), "writing to into_ndarray() changed a result");
    let b: Vec<T> = before.flatiter().collect();
    ensure!(same_all(&b, &vals), "writing to into_ndarray() changed a shared array: {b:?}, was {vals:?}");
    Ok(())
}
