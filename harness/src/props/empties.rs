//! Arrays with an axis of length zero. Only a few constructors hand them out, but those which do
//! return ordinary arrays, and every statement about "every array" is about them too.

use crate::elem::*;
use crate::engine::*;
use crate::ensure;
use redstone_ml::*;

/// An empty array and the arrays its data is borrowed from (dropped in reverse order).
pub struct Empty {
    held: Vec<Box<Nd<f64>>>,
    pub shape: Vec<usize>,
    pub text: String,
}

impl Drop for Empty {
    fn drop(&mut self) { while self.held.pop().is_some() {} }
}

impl Empty {
    pub fn a(&self) -> &'static Nd<f64> { unsafe { forever(self.held.last().unwrap()) } }
}

fn zeroed(src: &mut Src, rank: usize) -> Vec<usize> {
    let mut s: Vec<usize> = (0..rank).map(|_| src.range(1, 3)).collect();
    let z = src.upto(rank);
    s[z] = 0;
    for x in s.iter_mut() { if src.chance(1, 6) { *x = 0; } }
    s
}

fn root(src: &mut Src) -> (Nd<f64>, String) {
    let rank = src.range(1, 4);
    let s = zeroed(src, rank);
    match src.upto(5) {
        0 => (NdArray::rand(s.clone()), format!("rand({s:?})")),
        1 => (NdArray::randn(s.clone()), format!("randn({s:?})")),
        2 => (NdArray::uniform(s.clone(), -1.0, 2.0), format!("uniform({s:?})")),
        3 => { let x = src.irange(-3, 3) as f64; (NdArray::arange(x, x), format!("arange({x}, {x})")) }
        _ => (NdArray::randint(s.clone(), -2.0, 5.0), format!("randint({s:?})")),
    }
}

pub fn gen(src: &mut Src) -> Empty {
    let (a, text) = root(src);
    let shape = a.shape().to_vec();
    let mut e = Empty { held: vec![Box::new(a)], shape, text };
    for _ in 0..src.range(0, 3) {
        let a = e.a();
        let n = e.shape.len();
        let (v, s, t): (Nd<f64>, Vec<usize>, String) = match src.upto(7) {
            0 => (a.view(), e.shape.clone(), "view()".into()),
            1 => {
                let (x, y) = (src.upto(n), src.upto(n));
                let mut s = e.shape.clone();
                s.swap(x, y);
                (a.transpose(x as isize, y as isize), s, format!("transpose({x}, {y})"))
            }
            2 => { let x = src.upto(n + 1); let mut s = e.shape.clone(); s.insert(x, 1); (a.unsqueeze(x as isize), s, format!("unsqueeze({x})")) }
            3 => { let s: Vec<usize> = e.shape.iter().copied().filter(|&x| x != 1).collect(); (a.squeeze(), s, "squeeze()".into()) }
            4 if a.has_uniform_stride().is_some() => {
                let r = src.range(1, 4);
                let s = zeroed(src, r);
                (a.reshape(s.clone()), s.clone(), format!("reshape({s:?})"))
            }
            5 => {
                let mut s = e.shape.clone();
                for x in s.iter_mut() { if *x == 1 && src.coin() { *x = src.upto(4); } }
                if src.coin() { s.insert(0, src.upto(3)); }
                (a.broadcast_to(&s), s.clone(), format!("broadcast_to({s:?})"))
            }
            6 => {
                let c: Vec<usize> = (0..n).filter(|&x| e.shape[x] > 0 && n > 1).collect();
                if c.is_empty() { continue; }
                let x = c[src.upto(c.len())];
                let i = src.upto(e.shape[x]);
                let mut s = e.shape.clone();
                s.remove(x);
                (a.slice_along(Axis(x as isize), i), s, format!("slice_along({x}, {i})"))
            }
            _ => continue,
        };
        e.text = format!("{}.{t}", e.text);
        e.shape = s;
        e.held.push(Box::new(v));
    }
    src.note(|| format!("{} -> shape {:?}", e.text, e.shape));
    e
}

/// Checks what `id` says on one empty array.
pub fn check(src: &mut Src, id: &str) -> R {
    src.tag("axis of length zero");
    let e = gen(src);
    let (a, s, t) = (e.a(), &e.shape, &e.text);
    let n = s.len();
    ensure!(a.shape() == s.as_slice(), "{t} has shape {:?}, expected {s:?}", a.shape());
    let all = id == "C16";
    if all || id == "C02" {
        ensure!(a.size() == 0 && a.ndims() == n && a.len() == s[0] && a.stride().len() == n, "{t}: size {} ndims {} len {}", a.size(), a.ndims(), a.len());
        if a.is_contiguous() { ensure!(a.data_slice().is_empty(), "{t}: data_slice has {} elements", a.data_slice().len()); }
    }
    if all || id == "C04" {
        let k = src.range(0, n);
        let mut bs = s[k..].to_vec();
        for x in bs.iter_mut() { if src.chance(1, 3) { *x = 1; } }
        let mut b = Empty { held: vec![], shape: bs.clone(), text: String::new() };
        b.held.push(Box::new(if bs.contains(&0) { NdArray::rand(bs.clone()) } else { NdArray::ones(bs.clone()) }));
        let op = *src.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div]);
        let (r1, r2) = (f64::arr(op, 0, a, b.a()), f64::arr(op, 0, b.a(), a));
        ensure!(r1.shape() == s.as_slice() && r2.shape() == s.as_slice(), "{t} {op:?} {bs:?} has shape {:?} and {:?}, expected {s:?}", r1.shape(), r2.shape());
        ensure!(f64::arr_s(op, 0, a, 2.0).shape() == s.as_slice() && (-a).shape() == s.as_slice(), "{t} {op:?} scalar");
    }
    if all || id == "C05" {
        let mut c = a.clone();
        c += 1.5;
        c -= a;
        c.fill(2.0);
        c.zero();
        ensure!(c.shape() == s.as_slice() && c.size() == 0, "{t}: in-place operations changed the shape to {:?}", c.shape());
    }
    if all || id == "C06" {
        ensure!(a.sum().value() == 0.0 && a.product().value() == 1.0, "{t}: sum {:?}, product {:?}", a.sum(), a.product());
        let axes: Vec<isize> = (0..n).filter(|_| src.coin()).map(|x| x as isize).collect();
        let left: Vec<usize> = (0..n).filter(|x| !axes.contains(&(*x as isize))).map(|x| s[x]).collect();
        let (p, q) = (a.sum_along(axes.clone()), a.product_along(axes.clone()));
        ensure!(p.shape() == left && q.shape() == left, "{t}: reducing {axes:?} gives shapes {:?} and {:?}", p.shape(), q.shape());
        let want = left.iter().product::<usize>();
        ensure!(p.flatiter().count() == want && p.flatiter().all(|x| x == 0.0) && q.flatiter().all(|x| x == 1.0), "{t}: reducing {axes:?} gives {p:?} and {q:?}");
    }
    if all || id == "C09" {
        let mut it = a.flatiter();
        ensure!(it.next().is_none() && it.next().is_none(), "{t}: flatiter yields an element");
        let mut it = a.flatiter_ptr();
        ensure!(it.next().is_none() && it.next().is_none(), "{t}: flatiter_ptr yields an element");
        let items: Vec<Vec<usize>> = a.iter().map(|x| x.shape().to_vec()).collect();
        ensure!(items.len() == s[0] && items.iter().all(|x| x.as_slice() == &s[1..]), "{t}: iter yields {items:?}");
        let x = src.upto(n);
        let mut rest = s.clone();
        rest.remove(x);
        let items: Vec<Vec<usize>> = a.iter_along(x as isize).map(|x| x.shape().to_vec()).collect();
        ensure!(items.len() == s[x] && items.iter().all(|y| *y == rest), "{t}: iter_along({x}) yields {items:?}");
        let axes: Vec<usize> = (0..n).filter(|_| src.coin()).collect();
        if !axes.is_empty() {
            let count = a.nditer(axes.clone()).count();
            let want: usize = axes.iter().map(|&x| s[x]).product();
            ensure!(count == want, "{t}: nditer({axes:?}) yields {count} items, expected {want}");
        }
    }
    if all || id == "C12" {
        let names = "ijkl".as_bytes();
        // axes beyond four have no name left
        if n <= 4 {
            let sub: String = (0..n).map(|x| names[x] as char).collect();
            let out: String = (0..n).filter(|_| src.coin()).map(|x| names[x] as char).collect();
            let left: Vec<usize> = (0..n).filter(|&x| out.contains(names[x] as char)).map(|x| s[x]).collect();
            let r = if src.coin() { f64::ein(&[a], &[&sub], &out) } else { f64::ein(&[a, a], &[&sub, &sub], &out) };
            ensure!(r.shape() == left && r.flatiter().count() == left.iter().product::<usize>() && r.flatiter().all(|x| x == 0.0), "{t}: einsum {sub}->{out} gives {r:?} of shape {:?}", r.shape());
        }
    }
    if all || id == "C18" || id == "C19" {
        let c = a.clone();
        ensure!(c == *a && *a == c && c.shape() == s.as_slice(), "{t}: not equal to its clone");
        ensure!(a.flatten().shape() == [0] && a.flatten().size() == 0, "{t}: flatten has shape {:?}", a.flatten().shape());
        ensure!(a.clone().into_data_vector().is_empty(), "{t}: data vector is not empty");
        ensure!(format!("{a:?}") == format!("{c:?}"), "{t}: prints {a:?}, its clone {c:?}");
        ensure!(a.astype::<i32>().shape() == s.as_slice(), "{t}: astype has shape {:?}", a.astype::<i32>().shape());
        let mut other = s.clone();
        if let Some(x) = other.iter_mut().find(|x| **x != 0) { *x += 1; } else { other.push(2); }
        ensure!(*a != NdArray::<f64>::rand(other.clone()), "{t}: equals an array of shape {other:?}");
    }
    if all || id == "C10" {
        let c: Vec<usize> = s.iter().map(|&x| src.upto(x + 1)).collect();
        let r = catch(|| crate::model::get(a, &c));
        ensure!(r.is_err(), "{t}: index {c:?} is accepted");
        let z = s.iter().position(|&x| x == 0).unwrap();
        let r = catch(|| if src.coin() { a.slice_along(Axis(z as isize), ..) } else { a.slice_along(Axis(z as isize), 0..1) });
        ensure!(r.is_err(), "{t}: slicing along the empty axis {z} is accepted");
    }
    if all || id == "C11" {
        let (m, k) = (src.range(1, 4), src.range(1, 4));
        let (p, q) = (NdArray::<f64>::rand([m, 0]), NdArray::<f64>::rand([0, k]));
        let r = p.matmul(&q);
        ensure!(r.shape() == [m, k] && r.flatiter().count() == m * k && r.flatiter().all(|x| x == 0.0), "[{m}, 0] times [0, {k}] is {r:?} of shape {:?}", r.shape());
        let r = p.matmul(NdArray::<f64>::rand([0]));
        ensure!(r.shape() == [m] && r.flatiter().all(|x| x == 0.0), "[{m}, 0] times [0] is {r:?}");
        let r = NdArray::<f64>::rand([0]).dot(NdArray::<f64>::rand([0]));
        ensure!(r.value() == 0.0, "the dot product of nothing is {r:?}");
        let r = NdArray::<i32>::randint([m, 0], 0, 2).matmul(NdArray::<i32>::randint([0], 0, 2));
        ensure!(r.shape() == [m] && r.flatiter().all(|x| x == 0), "[{m}, 0] times [0] is {r:?}");
        let r = NdArray::<u8>::randint([0], 0, 2).dot(NdArray::<u8>::randint([0], 0, 2));
        ensure!(r.value() == 0, "the dot product of nothing is {r:?}");
        let r = NdArray::<f32>::rand([k, m, 0]).bmm(NdArray::<f32>::rand([k, 0, 2]));
        ensure!(r.shape() == [k, m, 2] && r.flatiter().all(|x| x == 0.0), "[{k}, {m}, 0] times [{k}, 0, 2] is {r:?}");
    }
    src.nontrivial();
    Ok(())
}
