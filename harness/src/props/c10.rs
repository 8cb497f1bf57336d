//! C10: indexing and slicing reach only elements inside the array.

use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::{any_dtype, ensure};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C10",
    case,
    memory: false,
    quick: (6_000_000, 60),
    thorough: (80_000_000, 600),
    rule: "the request is out of range in at least one coordinate, or the array is a strided or multi-dimensional view",
    assumptions: &["arrays have at least one element and at most 8 dimensions", "coordinates stay below usize::MAX/2"],
};

fn case(src: &mut Src) -> R {
    if src.chance(1, 150) { return super::empties::check(src, "C10"); }
    let d = dtype(src, 15);
    any_dtype!(d, T => access::<T>(src))
}

fn coordinate(src: &mut Src, n: usize) -> usize {
    match src.weighted(&[12, 2, 1, 1]) {
        0 => src.upto(n),
        1 => n,
        2 => n + src.range(1, 4),
        _ => *src.pick(&[usize::MAX / 2, 1 << 40, n * 2, n * n + 1]),
    }
}

fn any_sl(src: &mut Src, n: usize) -> Sl {
    if src.chance(2, 3) { return gen_sl(src, n, true); }
    let (a, b) = (coordinate(src, n), coordinate(src, n));
    match src.upto(7) {
        0 => Sl::I(a), 1 => Sl::R(a, b), 2 => Sl::From(a), 3 => Sl::Incl(a, b), 4 => Sl::To(a), 5 => Sl::ToIncl(a), _ => Sl::R(a, a),
    }
}

fn access<T: Raw>(src: &mut Src) -> R {
    let mut l = match rare_shape(src, 100, 9000) {
        Some(s) => gen_exact::<T>(src, &s, &[0, 3], true),
        None => gen_free::<T>(src, 4, 60, &[0, 3], true),
    };
    let n = l.m.shape.len();
    let view = !l.nd.is_contiguous() || n > 1;
    match src.weighted(&[4, 3, 4, 3]) {
        0 => {
            let c: Vec<usize> = l.m.shape.iter().map(|&x| coordinate(src, x)).collect();
            let ok = c.iter().zip(&l.m.shape).all(|(a, b)| a < b);
            src.note(|| format!("{} shape {:?} read [{c:?}]", l.text, l.m.shape));
            src.tag(if ok { "read inside" } else { "read outside" });
            if !ok || view { src.nontrivial(); }
            let r = catch(|| get(&l.nd, &c));
            if ok {
                let want = l.base[l.m.at(&c)];
                match r {
                    Ok(v) => ensure!(T::same(v, want), "[{c:?}] of shape {:?} is {v:?}, expected {want:?}: {}", l.m.shape, l.text),
                    Err(m) => ensure!(false, "[{c:?}] of shape {:?} was refused: {m}: {}", l.m.shape, l.text),
                }
            } else {
                ensure!(r.is_err(), "[{c:?}] is outside shape {:?} but gave {:?}: {}", l.m.shape, r, l.text);
            }
        }
        1 => {
            if l.readonly { return Ok(()); }
            let c: Vec<usize> = l.m.shape.iter().map(|&x| coordinate(src, x)).collect();
            let ok = c.iter().zip(&l.m.shape).all(|(a, b)| a < b);
            let v = if T::same(l.base[0], T::true_()) { T::false_() } else { T::true_() };
            src.note(|| format!("{} shape {:?} write [{c:?}]", l.text, l.m.shape));
            src.tag(if ok { "write inside" } else { "write outside" });
            if !ok || view { src.nontrivial(); }
            let r = catch(|| set(&mut l.nd, &c, v));
            ensure!(r.is_ok() == ok, "writing [{c:?}] of shape {:?}: {}: {}", l.m.shape, if ok { "refused" } else { "not refused" }, l.text);
            let mut want = l.base.clone();
            if ok { want[l.m.at(&c)] = v; }
            let now = l.base_now();
            ensure!(same_all(&now, &want), "writing [{c:?}]: buffer is {now:?}, expected {want:?}: {}", l.text);
        }
        2 => {
            let extra = if src.chance(1, 12) { src.range(1, 2) } else { 0 };
            let k = if extra > 0 { n + extra } else { src.range(0, n) };
            let sl: Vec<Sl> = (0..k).map(|a| any_sl(src, l.m.shape.get(a).copied().unwrap_or(2))).collect();
            let want = l.m.slice(&sl);
            let v = V::Slice(sl);
            src.note(|| format!("{} shape {:?} {}", l.text, l.m.shape, v.text()));
            sliced(src, &l, &v, want, view)?;
        }
        _ => {
            if n == 0 { return Ok(()); }
            let a = src.upto(n);
            let ax = if src.chance(1, 16) { *src.pick(&[n as isize, -(n as isize) - 1, n as isize + 3]) } else { sign(src, a, n) };
            let s = match abs_axis(ax, n) { Some(x) => any_sl(src, l.m.shape[x]), None => Sl::Full };
            let v = V::SliceAlong(ax, s);
            let want = l.m.apply(&v);
            src.note(|| format!("{} shape {:?} {}", l.text, l.m.shape, v.text()));
            sliced(src, &l, &v, want, view)?;
        }
    }
    ensure!(l.nd.shape() == l.m.shape, "the array's shape changed");
    Ok(())
}

fn sliced<T: Raw>(src: &mut Src, l: &Laid<T>, v: &V, want: Option<M>, view: bool) -> R {
    src.tag(if want.is_some() { "slice inside" } else { "slice outside" });
    if want.is_none() || view { src.nontrivial(); }
    let r = catch(|| {
        let s = borrow_view(l.a(), v);
        let vals: Vec<T> = match &want { Some(_) => s.flatiter().collect(), None => vec![] };
        (s.shape().to_vec(), vals)
    });
    match (want, r) {
        (Some(m), Ok((shape, vals))) => {
            ensure!(shape == m.shape, "{} of shape {:?} has shape {shape:?}, expected {:?}: {}", v.text(), l.m.shape, m.shape, l.text);
            let w: Vec<T> = m.idx.iter().map(|&i| l.base[i]).collect();
            ensure!(same_all(&vals, &w), "{} of shape {:?} is {vals:?}, expected {w:?}: {}", v.text(), l.m.shape, l.text);
        }
        (Some(_), Err(e)) => ensure!(false, "{} of shape {:?} was refused: {e}: {}", v.text(), l.m.shape, l.text),
        (None, Ok((shape, _))) => ensure!(false, "{} reaches outside shape {:?} but gave shape {shape:?}: {}", v.text(), l.m.shape, l.text),
        (None, Err(_)) => {}
    }
    Ok(())
}
