//! Reference model of arrays and views: a view is its shape and, for each coordinate in row-major
//! order, the position of that element in the base buffer. No strides, flags or pointers.

use crate::elem::*;
use crate::engine::Src;
use redstone_ml::*;

#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub shape: Vec<usize>,
    pub idx: Vec<usize>,
}

pub fn prod(s: &[usize]) -> usize {
    s.iter().product()
}

/// Calls `f` with every coordinate of `shape` in row-major order.
pub fn coords(shape: &[usize]) -> Vec<Vec<usize>> {
    let mut out = Vec::with_capacity(prod(shape));
    let mut c = vec![0; shape.len()];
    for _ in 0..prod(shape) {
        out.push(c.clone());
        for a in (0..shape.len()).rev() {
            c[a] += 1;
            if c[a] < shape[a] { break; }
            c[a] = 0;
        }
    }
    out
}

pub fn flat(shape: &[usize], c: &[usize]) -> usize {
    shape.iter().zip(c).fold(0, |acc, (&n, &i)| acc * n + i)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sl { I(usize), R(usize, usize), From(usize), Full, Incl(usize, usize), To(usize), ToIncl(usize) }

impl Sl {
    pub fn index(&self) -> Index {
        match *self {
            Sl::I(i) => i.into(), Sl::R(a, b) => (a..b).into(), Sl::From(a) => (a..).into(), Sl::Full => (..).into(),
            Sl::Incl(a, b) => (a..=b).into(), Sl::To(b) => (..b).into(), Sl::ToIncl(b) => (..=b).into(),
        }
    }
    /// Selected range, or None if it is empty or not inside an axis of length n.
    pub fn span(&self, n: usize) -> Option<(usize, usize)> {
        let (a, b) = match *self {
            Sl::I(i) => (i, i.checked_add(1)?), Sl::R(a, b) => (a, b), Sl::From(a) => (a, n), Sl::Full => (0, n),
            Sl::Incl(a, b) => (a, b.checked_add(1)?), Sl::To(b) => (0, b), Sl::ToIncl(b) => (0, b.checked_add(1)?),
        };
        if a < b && b <= n { Some((a, b)) } else { None }
    }
    pub fn text(&self) -> String {
        match *self {
            Sl::I(i) => format!("{i}"), Sl::R(a, b) => format!("{a}..{b}"), Sl::From(a) => format!("{a}.."), Sl::Full => "..".into(),
            Sl::Incl(a, b) => format!("{a}..={b}"), Sl::To(b) => format!("..{b}"), Sl::ToIncl(b) => format!("..={b}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    View,
    Reshape(Vec<usize>),
    Squeeze,
    Unsqueeze(isize),
    Transpose(isize, isize),
    T,
    Slice(Vec<Sl>),
    SliceAlong(isize, Sl),
    Diagonal,
    OffsetDiagonal(isize),
    DiagonalAlong(isize, isize),
    OffsetDiagonalAlong(isize, isize, isize),
    Broadcast(Vec<usize>),
    Ein(String, String),
}

pub fn abs_axis(a: isize, n: usize) -> Option<usize> {
    let v = if a < 0 { a + n as isize } else { a };
    if v >= 0 && v < n as isize { Some(v as usize) } else { None }
}

impl M {
    pub fn root(shape: &[usize]) -> M {
        M { shape: shape.to_vec(), idx: (0..prod(shape)).collect() }
    }

    pub fn at(&self, c: &[usize]) -> usize {
        self.idx[flat(&self.shape, c)]
    }

    fn build(shape: Vec<usize>, f: impl Fn(&[usize]) -> usize) -> M {
        let idx = coords(&shape).iter().map(|c| f(c)).collect();
        M { shape, idx }
    }

    pub fn size(&self) -> usize {
        self.idx.len()
    }

    /// Spacing of the elements in memory in row-major order, if it is even (None if it is not);
    /// Some(None) when there are fewer than two elements.
    pub fn spacing(&self) -> Option<Option<isize>> {
        if self.idx.len() < 2 { return Some(None); }
        let d = self.idx[1] as isize - self.idx[0] as isize;
        if self.idx.windows(2).all(|w| w[1] as isize - w[0] as isize == d) { Some(Some(d)) } else { None }
    }

    /// All axes longer than one and evenly spaced: no correct implementation can deny it.
    pub fn surely_uniform(&self) -> bool {
        self.shape.iter().all(|&n| n > 1) && self.spacing().is_some()
    }

    pub fn transpose(&self, a: usize, b: usize) -> M {
        let mut s = self.shape.clone();
        s.swap(a, b);
        M::build(s, |c| { let mut c = c.to_vec(); c.swap(a, b); self.at(&c) })
    }

    pub fn slice(&self, sl: &[Sl]) -> Option<M> {
        if sl.len() > self.shape.len() { return None; }
        let mut spans = vec![];
        let mut shape = vec![];
        for (ax, &n) in self.shape.iter().enumerate() {
            let s = sl.get(ax).cloned().unwrap_or(Sl::Full);
            let (a, b) = s.span(n)?;
            let keep = !matches!(s, Sl::I(_));
            spans.push((a, keep));
            if keep { shape.push(b - a); }
        }
        Some(M::build(shape, |c| {
            let mut k = 0;
            let full: Vec<usize> = spans.iter().map(|&(a, keep)| if keep { k += 1; a + c[k - 1] } else { a }).collect();
            self.at(&full)
        }))
    }

    pub fn diagonal(&self, off: isize, a1: usize, a2: usize) -> Option<M> {
        let (n1, n2) = (self.shape[a1] as isize, self.shape[a2] as isize);
        let (o1, o2) = if off >= 0 { (0, off) } else { (-off, 0) };
        let len = (n1 - o1).min(n2 - o2);
        if len <= 0 { return None; }
        let rest: Vec<usize> = (0..self.shape.len()).filter(|&a| a != a1 && a != a2).collect();
        let mut shape: Vec<usize> = rest.iter().map(|&a| self.shape[a]).collect();
        shape.push(len as usize);
        Some(M::build(shape, |c| {
            let mut f = vec![0; self.shape.len()];
            for (k, &a) in rest.iter().enumerate() { f[a] = c[k]; }
            let d = c[rest.len()];
            f[a1] = d + o1 as usize;
            f[a2] = d + o2 as usize;
            self.at(&f)
        }))
    }

    pub fn broadcast(&self, to: &[usize]) -> Option<M> {
        if to.len() < self.shape.len() || to.iter().any(|&n| n == 0) { return None; }
        let lead = to.len() - self.shape.len();
        for (a, &n) in self.shape.iter().enumerate() {
            if n != 1 && n != to[lead + a] { return None; }
        }
        Some(M::build(to.to_vec(), |c| {
            let f: Vec<usize> = self.shape.iter().enumerate().map(|(a, &n)| if n == 1 { 0 } else { c[lead + a] }).collect();
            self.at(&f)
        }))
    }

    /// Output labels must be distinct and cover all input labels.
    pub fn ein_view(&self, sub: &str, out: &str) -> Option<M> {
        let letters = |s: &str| -> Vec<u8> { s.bytes().filter(|&c| c != b' ' && c != b'.').collect() };
        let (sub, out) = (letters(sub), letters(out));
        let mut shape = vec![0; out.len()];
        let mut pos = vec![];
        for (a, l) in sub.iter().enumerate() {
            let p = out.iter().position(|o| o == l)?;
            shape[p] = self.shape[a];
            pos.push(p);
        }
        Some(M::build(shape, |c| { let f: Vec<usize> = pos.iter().map(|&p| c[p]).collect(); self.at(&f) }))
    }

    /// Sub-array with the given axes fixed.
    pub fn fix(&self, axes: &[usize], at: &[usize]) -> M {
        let rest: Vec<usize> = (0..self.shape.len()).filter(|a| !axes.contains(a)).collect();
        let shape: Vec<usize> = rest.iter().map(|&a| self.shape[a]).collect();
        M::build(shape, |c| {
            let mut f = vec![0; self.shape.len()];
            for (k, &a) in rest.iter().enumerate() { f[a] = c[k]; }
            for (k, &a) in axes.iter().enumerate() { f[a] = at[k]; }
            self.at(&f)
        })
    }

    pub fn reshaped(&self, shape: &[usize]) -> M {
        M { shape: shape.to_vec(), idx: self.idx.clone() }
    }

    /// The mathematical effect of a view operation; None if its arguments are not valid.
    pub fn apply(&self, v: &V) -> Option<M> {
        let n = self.shape.len();
        Some(match v {
            V::View => self.clone(),
            V::Reshape(s) => { if prod(s) != self.size() { return None; } self.reshaped(s) }
            V::Squeeze => { let s: Vec<usize> = self.shape.iter().copied().filter(|&x| x != 1).collect(); self.reshaped(&s) }
            V::Unsqueeze(a) => { let a = abs_axis(*a, n + 1)?; let mut s = self.shape.clone(); s.insert(a, 1); self.reshaped(&s) }
            V::Transpose(a, b) => self.transpose(abs_axis(*a, n)?, abs_axis(*b, n)?),
            V::T => { if n < 2 { return None; } self.transpose(0, 1) }
            V::Slice(s) => self.slice(s)?,
            V::SliceAlong(a, s) => { let a = abs_axis(*a, n)?; let mut f = vec![Sl::Full; n]; f[a] = s.clone(); self.slice(&f)? }
            V::Diagonal => return self.diag_checked(0, 0, 1),
            V::OffsetDiagonal(o) => return self.diag_checked(*o, 0, 1),
            V::DiagonalAlong(a, b) => return self.diag_checked(0, *a, *b),
            V::OffsetDiagonalAlong(o, a, b) => return self.diag_checked(*o, *a, *b),
            V::Broadcast(s) => self.broadcast(s)?,
            V::Ein(s, o) => self.ein_view(s, o)?,
        })
    }

    fn diag_checked(&self, o: isize, a: isize, b: isize) -> Option<M> {
        let n = self.shape.len();
        if n < 2 { return None; }
        let (a, b) = (abs_axis(a, n)?, abs_axis(b, n)?);
        if a == b { return None; }
        self.diagonal(o, a, b)
    }
}

impl V {
    pub fn can_consume(&self) -> bool {
        matches!(self, V::View | V::Reshape(_) | V::Squeeze | V::Unsqueeze(_) | V::Transpose(..) | V::T)
    }

    pub fn text(&self) -> String {
        match self {
            V::View => "view()".into(), V::Reshape(s) => format!("reshape({s:?})"), V::Squeeze => "squeeze()".into(),
            V::Unsqueeze(a) => format!("unsqueeze({a})"), V::Transpose(a, b) => format!("transpose({a}, {b})"), V::T => "T()".into(),
            V::Slice(s) => format!("slice(s![{}])", s.iter().map(|x| x.text()).collect::<Vec<_>>().join(", ")),
            V::SliceAlong(a, s) => format!("slice_along(Axis({a}), {})", s.text()),
            V::Diagonal => "diagonal()".into(), V::OffsetDiagonal(o) => format!("offset_diagonal({o})"),
            V::DiagonalAlong(a, b) => format!("diagonal_along({a}, {b})"),
            V::OffsetDiagonalAlong(o, a, b) => format!("offset_diagonal_along({o}, {a}, {b})"),
            V::Broadcast(s) => format!("broadcast_to({s:?})"), V::Ein(s, o) => format!("einsum_view({s}->{o})"),
        }
    }
}

/// Applies a view operation to the library's array by borrowing.
pub fn borrow_view<T: Raw>(a: &'static Nd<T>, v: &V) -> Nd<T> {
    match v {
        V::View => a.view(),
        V::Reshape(s) => a.reshape(s.clone()),
        V::Squeeze => a.squeeze(),
        V::Unsqueeze(x) => a.unsqueeze(*x),
        V::Transpose(x, y) => if (x ^ y) & 1 == 0 { a.transpose(*x, *y) } else { a.transpose(Axis(*x), Axis(*y)) },
        V::T => a.T(),
        V::Slice(s) => a.slice(s.iter().map(|x| x.index()).collect::<Vec<_>>()),
        V::SliceAlong(x, s) => match *s {
            Sl::I(i) => a.slice_along(Axis(*x), i), Sl::R(p, q) => a.slice_along(Axis(*x), p..q), Sl::From(p) => a.slice_along(Axis(*x), p..),
            Sl::Full => a.slice_along(Axis(*x), ..), Sl::Incl(p, q) => a.slice_along(Axis(*x), p..=q),
            Sl::To(q) => a.slice_along(Axis(*x), ..q), Sl::ToIncl(q) => a.slice_along(Axis(*x), ..=q),
        },
        V::Diagonal => a.diagonal(),
        V::OffsetDiagonal(o) => a.offset_diagonal(*o),
        V::DiagonalAlong(x, y) => a.diagonal_along(*x, *y),
        V::OffsetDiagonalAlong(o, x, y) => a.offset_diagonal_along(*o, *x, *y),
        V::Broadcast(s) => a.broadcast_to(s),
        V::Ein(s, o) => T::ein_view(a, (s, o)).expect("dtype").expect("einsum_view returned None although no label is summed"),
    }
}

/// Applies a view operation by consuming.
pub fn consume_view<T: Raw>(a: Nd<T>, v: &V) -> Nd<T> {
    match v {
        V::View => a.view(),
        V::Reshape(s) => a.reshape(s.clone()),
        V::Squeeze => a.squeeze(),
        V::Unsqueeze(x) => a.unsqueeze(*x),
        V::Transpose(x, y) => a.transpose(*x, *y),
        V::T => a.T(),
        _ => unreachable!(),
    }
}

pub fn sign(src: &mut Src, a: usize, n: usize) -> isize {
    if src.chance(1, 3) { a as isize - n as isize } else { a as isize }
}

/// A random factorisation of n into axis lengths (with some ones).
pub fn factor_shape(src: &mut Src, n: usize) -> Vec<usize> {
    let mut s = vec![];
    let mut rest = n;
    while rest > 1 {
        let ds: Vec<usize> = (2..=rest).filter(|d| rest % d == 0).collect();
        let d = ds[ds.len() - 1 - src.upto(ds.len())];
        s.push(d);
        rest /= d;
        if s.len() > 5 { s.push(rest); break; }
    }
    for _ in 0..src.weighted(&[6, 2, 1]) {
        let p = src.upto(s.len() + 1);
        s.insert(p, 1);
    }
    s
}

pub fn gen_sl(src: &mut Src, n: usize, allow_index: bool) -> Sl {
    let k = src.upto(if allow_index { 7 } else { 6 });
    match k {
        0 => Sl::Full,
        1 => { let a = src.upto(n); Sl::R(a, src.range(a + 1, n)) }
        2 => Sl::From(src.upto(n)),
        3 => { let a = src.upto(n); Sl::Incl(a, src.range(a, n - 1)) }
        4 => Sl::To(n - src.upto(n)),
        5 => Sl::ToIncl(n - 1 - src.upto(n)),
        _ => Sl::I(src.upto(n)),
    }
}

/// A valid view operation for an array with model `m`. `uniform`: may it be reshaped?
pub fn gen_view(src: &mut Src, m: &M, uniform: bool, ein: bool, maxsize: usize) -> V {
    let n = m.shape.len();
    for _ in 0..8 {
        let k = src.weighted(&[3, 6, 2, 4, if n > 0 { 8 } else { 0 }, if n > 1 { 3 } else { 0 }, if n > 0 { 8 } else { 0 },
                               if n > 0 { 5 } else { 0 }, if n > 1 { 5 } else { 0 }, 4, if ein && n > 0 { 3 } else { 0 }]);
        match k {
            0 => return V::View,
            1 => {
                if uniform { return V::Reshape(factor_shape(src, m.size())); }
                if src.chance(1, 4) { return V::Reshape(m.shape.clone()); }
            }
            2 => if m.shape.contains(&1) || src.chance(1, 4) { return V::Squeeze },
            3 => if n < 6 { let a = src.upto(n + 1); return V::Unsqueeze(sign(src, a, n + 1)) },
            4 => { let (a, b) = (src.upto(n), src.upto(n)); return V::Transpose(sign(src, a, n), sign(src, b, n)) }
            5 => return V::T,
            6 => { let k = src.range(0, n); return V::Slice((0..k).map(|a| gen_sl(src, m.shape[a], true)).collect()) }
            7 => { let a = src.upto(n); let s = gen_sl(src, m.shape[a], true); return V::SliceAlong(sign(src, a, n), s) }
            8 => {
                let form = src.upto(4);
                let (mut a, mut b) = (0, 1);
                if form >= 2 { a = src.upto(n); b = (a + 1 + src.upto(n - 1)) % n; }
                let o = if form % 2 == 1 { src.irange(-(m.shape[a] as i64 - 1), m.shape[b] as i64 - 1) as isize } else { 0 };
                let (sa, sb) = (sign(src, a, n), sign(src, b, n));
                return match form { 0 => V::Diagonal, 1 => V::OffsetDiagonal(o), 2 => V::DiagonalAlong(sa, sb), _ => V::OffsetDiagonalAlong(o, sa, sb) };
            }
            9 => {
                let mut s = m.shape.clone();
                for x in s.iter_mut() { if *x == 1 && src.coin() { *x = src.range(2, 4); } }
                for _ in 0..src.weighted(&[3, 2, 1]) { if s.len() < 6 { let d = src.range(1, 3); s.insert(0, d); } }
                if prod(&s) <= maxsize { return V::Broadcast(s); }
            }
            _ => {
                // labels: some axes of equal length may share one
                let mut labels: Vec<u8> = vec![];
                for a in 0..n {
                    let same: Vec<usize> = (0..a).filter(|&b| m.shape[b] == m.shape[a]).collect();
                    if !same.is_empty() && src.chance(1, 3) { labels.push(labels[*src.pick(&same)]); } else { labels.push(b"ijklmnopqrstuvwxyzABCDEFGH"[a]); }
                }
                let mut out: Vec<u8> = vec![];
                for l in &labels { if !out.contains(l) { let p = src.upto(out.len() + 1); out.insert(p, *l); } }
                return V::Ein(String::from_utf8(labels).unwrap(), String::from_utf8(out).unwrap());
            }
        }
    }
    V::View
}

pub fn gen_shape(src: &mut Src, maxd: usize, maxlen: usize, maxsize: usize) -> Vec<usize> {
    let d = src.weighted(&[1, 4, 6, 6, 3, 2][..=maxd.min(5)]);
    let mut s: Vec<usize> = vec![];
    for _ in 0..d {
        let room = maxsize / prod(&s).max(1);
        let n = if src.chance(1, 6) { 1 } else { 1 + src.upto(maxlen.min(room.max(1))) };
        s.push(n);
    }
    s
}

/// Now and then a shape far from the usual: thousands of elements, lengths around powers of two, or many axes.
pub fn rare_shape(src: &mut Src, one_in: u64, maxsize: usize) -> Option<Vec<usize>> {
    if !src.chance(1, one_in) { return None; }
    let maxsize = if src.thorough || src.chance(1, 4) { maxsize } else { maxsize / 5 };
    src.tag("large or high-dimensional");
    // more elements than sixteen bits can count
    if maxsize >= 1000 && src.chance(1, 100) {
        src.tag("more than 65535 elements");
        return Some(match src.upto(4) {
            0 => vec![65535 + src.upto(5)],
            1 => vec![256 + src.upto(2), 256 + src.upto(3)],
            2 => { let k = src.range(2, 5); let n = 65536 / k + src.range(1, 20); if src.coin() { vec![k, n] } else { vec![n, k] } }
            _ => vec![src.range(3, 5), 150 + src.upto(3), 150 + src.upto(3)],
        });
    }
    let long = |src: &mut Src, max: usize| -> usize {
        let n = if src.coin() { src.range(1, max) } else { (1usize << src.range(5, 14)) + src.upto(3) - 1 };
        n.min(max).max(1)
    };
    Some(match src.upto(5) {
        0 => vec![long(src, maxsize)],
        1 => { let k = src.range(1, 5); let n = long(src, maxsize / k); if src.coin() { vec![k, n] } else { vec![n, k] } }
        2 => { let k = src.range(1, 70); let n = long(src, (maxsize / k).min(300)); if src.coin() { vec![k, n] } else { vec![n, k] } }
        3 => { let k = src.range(2, 20); let j = src.range(2, 20); let n = long(src, (maxsize / k / j).max(1)); match src.upto(3) { 0 => vec![k, j, n], 1 => vec![k, n, j], _ => vec![n, k, j] } }
        _ => {
            // many axes
            let d = if src.chance(1, 4) { src.range(15, 22) } else { src.range(6, 14) };
            let mut s: Vec<usize> = vec![];
            for _ in 0..d { let n = if prod(&s) * 3 > maxsize.min(3000) { 1 } else { src.range(1, 3) }; s.push(n); }
            s
        }
    })
}

/// An array of the library in some layout, with its model.
pub struct Laid<T: Raw> {
    pub keep: Vec<Box<Nd<T>>>,
    pub nd: Nd<T>,
    pub m: M,
    pub base: Vec<T>,
    pub ptr: *const T,
    pub readonly: bool,
    pub owned: bool,
    pub text: String,
}

impl<T: Raw> Drop for Laid<T> {
    fn drop(&mut self) {
        // views first, sources last
        while self.keep.len() > 1 {
            self.keep.pop();
        }
    }
}

pub fn build<T: Raw>(shape: &[usize], data: &[T]) -> Nd<T> {
    let v = Vec::from(data);
    unsafe { <Nd<T> as Constructors<T>>::from_contiguous_owned_buffer(shape.to_vec(), v) }
}

impl<T: Raw> Laid<T> {
    pub fn owned(shape: &[usize], base: Vec<T>) -> Self {
        let nd = build(shape, &base);
        let ptr = nd.flatiter_ptr().next().map_or(std::ptr::null(), |p| p as *const T);
        Laid { keep: vec![], nd, m: M::root(shape), base, ptr, readonly: false, owned: true, text: String::new() }
    }

    pub fn note_base(&mut self, describe: bool) {
        if describe {
            crate::alloc::tracking(false, || self.text = format!("base[{}]{:?}={:?}", T::NAME, self.m.shape, self.base));
        }
    }

    /// Applies a valid view operation to both the library's array and the model.
    pub fn step(&mut self, v: &V, consume: bool, describe: bool) {
        let consume = consume && v.can_consume();
        if describe {
            crate::alloc::tracking(false, || self.text.push_str(&format!("{}{}", if consume { "." } else { ".&" }, v.text())));
        }
        let m = self.m.apply(v).expect("generator made an invalid view");
        let placeholder = build(&[1], &[T::default()]);
        let cur = std::mem::replace(&mut self.nd, placeholder);
        if consume {
            self.nd = consume_view(cur, v);
        } else {
            let b = Box::new(cur);
            let r: &'static Nd<T> = unsafe { &*(b.as_ref() as *const Nd<T>) };
            self.keep.push(b);
            self.nd = borrow_view(r, v);
            self.owned = false;
        }
        if matches!(v, V::Broadcast(_)) { self.readonly = true; }
        self.m = m;
    }

    pub fn values(&self) -> Vec<T> {
        self.m.idx.iter().map(|&i| self.base[i]).collect()
    }

    /// The base buffer as it is in memory now.
    pub fn base_now(&self) -> Vec<T> {
        if self.keep.is_empty() && !self.owned { unreachable!() }
        unsafe { std::slice::from_raw_parts(self.ptr, self.base.len()) }.to_vec()
    }

    pub fn a(&self) -> &'static Nd<T> {
        unsafe { forever(&self.nd) }
    }
}

/// Random base values for `n` elements.
pub fn gen_vals<T: Raw>(src: &mut Src, n: usize, modes: &[u8]) -> Vec<T> {
    let mode = *src.pick(modes);
    let h = if mode == 0 { 0 } else { src.below(1 << 16) };
    (0..n).map(|i| T::val(mode, h, i)).collect()
}

/// A random layout of free shape: an owning array followed by up to `steps` view operations.
pub fn gen_free<T: Raw>(src: &mut Src, steps: usize, maxsize: usize, modes: &[u8], ein: bool) -> Laid<T> {
    let shape = match rare_shape(src, 400, 6000) { Some(s) => s, None => gen_shape(src, 5, 5, maxsize) };
    free_of(src, &shape, steps, maxsize, modes, ein)
}

/// The same, never large.
pub fn gen_small<T: Raw>(src: &mut Src, steps: usize, maxsize: usize, modes: &[u8], ein: bool) -> Laid<T> {
    let shape = gen_shape(src, 5, 5, maxsize);
    free_of(src, &shape, steps, maxsize, modes, ein)
}

fn free_of<T: Raw>(src: &mut Src, shape: &[usize], steps: usize, maxsize: usize, modes: &[u8], ein: bool) -> Laid<T> {
    let vals = gen_vals::<T>(src, prod(shape), modes);
    let mut l = Laid::owned(shape, vals);
    l.note_base(src.describe);
    let n = src.upto(steps + 1);
    for _ in 0..n {
        let uniform = l.nd.is_uniformly_strided() || l.m.surely_uniform();
        let v = gen_view(src, &l.m, uniform, ein && T::NAME != "bool", maxsize * 2);
        let c = src.coin();
        l.step(&v, c, src.describe);
    }
    l
}

/// A random layout with exactly the given shape. `bcast`: broadcast (read-only) layouts allowed.
pub fn gen_exact<T: Raw>(src: &mut Src, target: &[usize], modes: &[u8], bcast: bool) -> Laid<T> {
    let n = target.len();
    let long = prod(target) > 500;
    let style = src.weighted(&[4, if long { 6 } else { 10 }, if bcast { 2 } else { 0 }, if long { 4 } else { 2 }]);
    let d = src.describe;
    match style {
        0 => {
            let vals = gen_vals::<T>(src, prod(target), modes);
            let mut l = Laid::owned(target, vals);
            l.note_base(d);
            l
        }
        2 => {
            // broadcast from a smaller array (itself in some layout)
            let lead = src.upto(n + 1);
            let mut small: Vec<usize> = target[lead..].to_vec();
            for x in small.iter_mut() { if src.chance(1, 3) { *x = 1; } }
            let mut l = gen_exact::<T>(src, &small, modes, false);
            l.step(&V::Broadcast(target.to_vec()), false, d);
            if n >= 2 && src.chance(1, 3) {
                // transpose twice around: leaves the shape, exercises further views of broadcasts
                l.step(&V::Transpose(0, n as isize - 1), src.coin(), d);
                l.step(&V::Transpose(0, n as isize - 1), src.coin(), d);
            }
            l
        }
        3 => {
            // a uniformly strided line, reshaped
            let k = src.range(1, 3);
            let sz = prod(target);
            let vals = gen_vals::<T>(src, sz * k, modes);
            let mut l = Laid::owned(&[sz, k], vals);
            l.note_base(d);
            let j = src.upto(k);
            l.step(&V::SliceAlong(1, Sl::I(j)), false, d);
            if l.nd.is_uniformly_strided() || l.m.surely_uniform() {
                l.step(&V::Reshape(target.to_vec()), src.coin(), d);
                return l;
            }
            // not uniformly strided (single element): start again
            let vals = gen_vals::<T>(src, sz, modes);
            let mut l = Laid::owned(target, vals);
            l.note_base(d);
            l
        }
        _ => {
            // permuted, padded, with extra axes and diagonals
            let mut perm: Vec<usize> = (0..n).collect();
            for i in 0..n { if src.coin() { let j = src.upto(n); perm.swap(i, j); } }
            let mut shape: Vec<usize> = perm.iter().map(|&p| target[p]).collect();
            // the last current axis may come from a diagonal
            let diag = n > 0 && src.chance(1, 5) && prod(target) * target[perm[n - 1]] <= 30_000;
            let mut plan: Vec<V> = vec![];
            let mut pads: Vec<Sl> = vec![];
            let mut padded = false;
            // the base may not grow without limit when there are many axes
            let limit = (prod(target) * 30).max(3000).min(prod(target) * 4 + 60_000);
            let mut size = prod(target);
            for x in shape.iter_mut() {
                if src.chance(1, 3) {
                    let (lo, hi) = (src.upto(3), src.upto(3));
                    let (lo, hi) = if size / *x * (*x + lo + hi) > limit { (0, 0) } else { (lo, hi) };
                    size = size / *x * (*x + lo + hi);
                    pads.push(if lo == 0 && src.coin() { Sl::To(*x) } else if hi == 0 && src.coin() { Sl::From(lo) } else { Sl::R(lo, lo + *x) });
                    *x += lo + hi;
                    padded = true;
                } else {
                    pads.push(Sl::Full);
                }
            }
            // extra axes to index away
            let mut full = shape.clone();
            let mut sl = pads;
            for _ in 0..src.weighted(&[5, 2, 1]) {
                let p = src.upto(full.len() + 1);
                let k = src.range(1, 3);
                full.insert(p, k);
                sl.insert(p, Sl::I(src.upto(k)));
                padded = true;
            }
            if padded { plan.push(V::Slice(sl)); }
            let mut base_shape = full;
            if diag {
                // base[..., L, L+e] -> diagonal along the last two axes gives the last axis
                let last = base_shape.pop().unwrap();
                let e = src.upto(3);
                if src.coin() {
                    base_shape.push(last); base_shape.push(last + e);
                    plan.insert(0, V::OffsetDiagonalAlong(e as isize, -2, -1));
                } else {
                    base_shape.push(last + e); base_shape.push(last);
                    plan.insert(0, V::OffsetDiagonalAlong(-(e as isize), -2, -1));
                }
            }
            let vals = gen_vals::<T>(src, prod(&base_shape), modes);
            let mut l = Laid::owned(&base_shape, vals);
            l.note_base(d);
            for v in &plan { l.step(v, src.coin(), d); }
            // undo the permutation by transpositions
            let mut cur = perm;
            for i in 0..n {
                if cur[i] != i {
                    let j = cur.iter().position(|&x| x == i).unwrap();
                    cur.swap(i, j);
                    l.step(&V::Transpose(i as isize, j as isize), src.coin(), d);
                }
            }
            if src.chance(1, 8) { l.step(&V::View, src.coin(), d); }
            assert_eq!(l.m.shape, target);
            l
        }
    }
}

/// Dynamic-rank indexing.
pub fn get<T: Raw>(a: &NdArray<'_, T>, c: &[usize]) -> T {
    match *c {
        [] => a[[]],
        [i] => a[i],
        [i, j] => a[[i, j]],
        [i, j, k] => a[[i, j, k]],
        [i, j, k, l] => a[[i, j, k, l]],
        [i, j, k, l, m] => a[[i, j, k, l, m]],
        [i, j, k, l, m, n] => a[[i, j, k, l, m, n]],
        [i, j, k, l, m, n, o] => a[[i, j, k, l, m, n, o]],
        [i, j, k, l, m, n, o, p] => a[[i, j, k, l, m, n, o, p]],
        _ => match c.len() {
        9 => { let c: [usize; 9] = c.try_into().unwrap(); a[c] }
        10 => { let c: [usize; 10] = c.try_into().unwrap(); a[c] }
        11 => { let c: [usize; 11] = c.try_into().unwrap(); a[c] }
        12 => { let c: [usize; 12] = c.try_into().unwrap(); a[c] }
        13 => { let c: [usize; 13] = c.try_into().unwrap(); a[c] }
        14 => { let c: [usize; 14] = c.try_into().unwrap(); a[c] }
        15 => { let c: [usize; 15] = c.try_into().unwrap(); a[c] }
        16 => { let c: [usize; 16] = c.try_into().unwrap(); a[c] }
        17 => { let c: [usize; 17] = c.try_into().unwrap(); a[c] }
        18 => { let c: [usize; 18] = c.try_into().unwrap(); a[c] }
        19 => { let c: [usize; 19] = c.try_into().unwrap(); a[c] }
        20 => { let c: [usize; 20] = c.try_into().unwrap(); a[c] }
        21 => { let c: [usize; 21] = c.try_into().unwrap(); a[c] }
        22 => { let c: [usize; 22] = c.try_into().unwrap(); a[c] }
        23 => { let c: [usize; 23] = c.try_into().unwrap(); a[c] }
        24 => { let c: [usize; 24] = c.try_into().unwrap(); a[c] }
        25 => { let c: [usize; 25] = c.try_into().unwrap(); a[c] }
        26 => { let c: [usize; 26] = c.try_into().unwrap(); a[c] }
        27 => { let c: [usize; 27] = c.try_into().unwrap(); a[c] }
        28 => { let c: [usize; 28] = c.try_into().unwrap(); a[c] }
        29 => { let c: [usize; 29] = c.try_into().unwrap(); a[c] }
        30 => { let c: [usize; 30] = c.try_into().unwrap(); a[c] }
        31 => { let c: [usize; 31] = c.try_into().unwrap(); a[c] }
        32 => { let c: [usize; 32] = c.try_into().unwrap(); a[c] }
        _ => panic!("harness: rank"),
        },
    }
}

pub fn set<T: Raw>(a: &mut NdArray<'_, T>, c: &[usize], v: T) {
    match *c {
        [] => a[[]] = v,
        [i] => a[i] = v,
        [i, j] => a[[i, j]] = v,
        [i, j, k] => a[[i, j, k]] = v,
        [i, j, k, l] => a[[i, j, k, l]] = v,
        [i, j, k, l, m] => a[[i, j, k, l, m]] = v,
        [i, j, k, l, m, n] => a[[i, j, k, l, m, n]] = v,
        [i, j, k, l, m, n, o] => a[[i, j, k, l, m, n, o]] = v,
        [i, j, k, l, m, n, o, p] => a[[i, j, k, l, m, n, o, p]] = v,
        _ => match c.len() {
        9 => { let c: [usize; 9] = c.try_into().unwrap(); a[c] = v }
        10 => { let c: [usize; 10] = c.try_into().unwrap(); a[c] = v }
        11 => { let c: [usize; 11] = c.try_into().unwrap(); a[c] = v }
        12 => { let c: [usize; 12] = c.try_into().unwrap(); a[c] = v }
        13 => { let c: [usize; 13] = c.try_into().unwrap(); a[c] = v }
        14 => { let c: [usize; 14] = c.try_into().unwrap(); a[c] = v }
        15 => { let c: [usize; 15] = c.try_into().unwrap(); a[c] = v }
        16 => { let c: [usize; 16] = c.try_into().unwrap(); a[c] = v }
        17 => { let c: [usize; 17] = c.try_into().unwrap(); a[c] = v }
        18 => { let c: [usize; 18] = c.try_into().unwrap(); a[c] = v }
        19 => { let c: [usize; 19] = c.try_into().unwrap(); a[c] = v }
        20 => { let c: [usize; 20] = c.try_into().unwrap(); a[c] = v }
        21 => { let c: [usize; 21] = c.try_into().unwrap(); a[c] = v }
        22 => { let c: [usize; 22] = c.try_into().unwrap(); a[c] = v }
        23 => { let c: [usize; 23] = c.try_into().unwrap(); a[c] = v }
        24 => { let c: [usize; 24] = c.try_into().unwrap(); a[c] = v }
        25 => { let c: [usize; 25] = c.try_into().unwrap(); a[c] = v }
        26 => { let c: [usize; 26] = c.try_into().unwrap(); a[c] = v }
        27 => { let c: [usize; 27] = c.try_into().unwrap(); a[c] = v }
        28 => { let c: [usize; 28] = c.try_into().unwrap(); a[c] = v }
        29 => { let c: [usize; 29] = c.try_into().unwrap(); a[c] = v }
        30 => { let c: [usize; 30] = c.try_into().unwrap(); a[c] = v }
        31 => { let c: [usize; 31] = c.try_into().unwrap(); a[c] = v }
        32 => { let c: [usize; 32] = c.try_into().unwrap(); a[c] = v }
        _ => panic!("harness: rank"),
        },
    }
}

pub fn same_all<T: Raw>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(&x, &y)| T::same(x, y))
}

/// Exact comparison of a freshly computed (owned, contiguous) result.
pub fn expect<T: Raw>(what: &str, got: &Nd<T>, shape: &[usize], vals: &[T]) -> Result<(), String> {
    crate::ensure!(got.shape() == shape, "{what}: shape {:?}, expected {:?}", got.shape(), shape);
    let g: Vec<T> = got.flatiter().collect();
    crate::ensure!(same_all(&g, vals), "{what}: got {:?}, expected {:?} (shape {:?})", g, vals, shape);
    Ok(())
}

impl V {
    pub fn kind(&self) -> &'static str {
        match self {
            V::View => "view", V::Reshape(_) => "reshape", V::Squeeze => "squeeze", V::Unsqueeze(_) => "unsqueeze",
            V::Transpose(..) => "transpose", V::T => "T", V::Slice(_) => "slice", V::SliceAlong(..) => "slice_along",
            V::Diagonal => "diagonal", V::OffsetDiagonal(_) => "offset_diagonal", V::DiagonalAlong(..) => "diagonal_along",
            V::OffsetDiagonalAlong(..) => "offset_diagonal_along", V::Broadcast(_) => "broadcast_to", V::Ein(..) => "einsum_view",
        }
    }
}

impl<T: Raw> Laid<T> {
    /// Overwrites one element of the base, in memory and in the model (test preparation).
    pub fn poke(&mut self, i: usize, v: T) {
        self.base[i] = v;
        unsafe { *(self.ptr as *mut T).add(i) = v; }
    }
}
