//! C12: einsum computes the explicit sum its subscripts denote.

use super::common::*;
use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, numeric};
use redstone_ml::*;

pub const PROP: Prop = Prop {
    id: "C12",
    case,
    memory: false,
    quick: (4_000_000, 60),
    thorough: (50_000_000, 600),
    rule: "a label is summed, repeated within an operand, or the output permutes labels, and more than one product is evaluated",
    assumptions: &["values are small integers (or NaN), so that every order of summation gives the exact result without overflow",
                   "at most 15 operands, the limit einsum asserts", "subscripts use letters, spaces and ellipses that stand for no axes (ellipsis broadcasting is documented as unsupported)"],
};

fn case(src: &mut Src) -> R {
    if src.chance(1, 150) { return super::empties::check(src, "C12"); }
    let d = dtype(src, 14);
    numeric!(d, T => ein::<T>(src))
}

fn ein<T: Elem>(src: &mut Src) -> R {
    let nops = match src.weighted(&[60, 120, 80, 40, 20, 3]) { 5 => src.range(6, 15), n => n + 1 };
    let many = src.chance(1, 10);
    let nlab = if many { src.range(5, 12) } else { src.range(1, 6) };
    let names: Vec<u8> = {
        let pool = b"ijkabczAZMxyl";
        let off = src.upto(pool.len());
        (0..nlab).map(|k| pool[(off + k) % pool.len()]).collect()
    };
    // lengths: total work bounded; sometimes one long label for the unrolled kernels
    let mut lens: Vec<usize> = vec![];
    let longest = src.chance(1, 4);
    let huge = !many && src.chance(1, 120);
    if huge { src.tag("large"); }
    let at = src.upto(nlab);
    let cap = if huge { 60_000 } else if src.thorough { 6000 } else { 2500 };
    for k in 0..nlab {
        let room = cap / prod(&lens).max(1);
        let n = if huge && k == at { src.range(1, 3000) } else if longest && k == at { src.range(1, 40) } else if many { src.range(1, 3) } else { src.weighted(&[2, 4, 4, 2]) + 1 };
        lens.push(n.min(room.max(1)));
    }
    // operands
    let mut subs: Vec<Vec<usize>> = vec![];
    for _ in 0..nops {
        let r = if many { src.range(1, 8) } else { src.weighted(&[1, 4, 6, 4, 1]) };
        let mut s: Vec<usize> = vec![];
        for _ in 0..r {
            let l = src.upto(nlab);
            // repeated labels in one operand are rarer
            if s.contains(&l) && src.chance(2, 3) { continue; }
            if prod(&s.iter().map(|&q| lens[q]).collect::<Vec<_>>()) * lens[l] > if huge { 8000 } else { 400 } { continue; }
            s.push(l);
        }
        subs.push(s);
    }
    let used: Vec<usize> = (0..nlab).filter(|l| subs.iter().any(|s| s.contains(l))).collect();
    let mut out: Vec<usize> = vec![];
    for &l in &used { if src.chance(1, 2) { let p = src.upto(out.len() + 1); out.insert(p, l); } }
    let summed: Vec<usize> = used.iter().copied().filter(|l| !out.contains(l)).collect();
    let terms: usize = summed.iter().map(|&l| lens[l]).product();

    // spaces between labels mean nothing
    let spaced = src.chance(1, 6);
    // and so does an ellipsis that stands for no axes
    let dots = src.chance(1, 12);
    let text = |s: &[usize], src: &mut Src| -> String {
        let mut t = String::new();
        let at = if dots && src.coin() { src.upto(s.len() + 1) } else { usize::MAX };
        if at == s.len() && src.coin() { t.push_str(".."); for &l in s { t.push(names[l] as char); } return t; }
        for (k, &l) in s.iter().enumerate() {
            if k == at { t.push_str(".."); }
            if spaced && src.chance(1, 3) { t.push(' '); }
            t.push(names[l] as char);
        }
        if at == s.len() { t.push_str(".."); }
        if spaced && src.chance(1, 3) { t.push(' '); }
        t
    };
    let strs: Vec<String> = subs.iter().map(|s| text(s, src)).collect();
    let outs = text(&out, src);
    if dots { src.tag("empty ellipsis"); }
    if spaced { src.tag("spaces in subscripts"); }
    let mut ops: Vec<Laid<T>> = vec![];
    // the same array may stand at several places
    let mut place: Vec<usize> = vec![];
    for s in &subs {
        let shape: Vec<usize> = s.iter().map(|&l| lens[l]).collect();
        if let Some(k) = ops.iter().position(|o| o.m.shape == shape) {
            if src.chance(1, 4) { src.tag("operand used twice"); place.push(k); continue; }
        }
        place.push(ops.len());
        let mut a = gen_exact::<T>(src, &shape, &[1], true);
        let h = src.below(1 << 20);
        tame_with(&mut a, h, terms, nops);
        maybe_nan(src, &mut a);
        ops.push(a);
    }
    src.note(|| format!("einsum({}->{outs}) of {}", strs.join(","), place.iter().map(|&k| format!("[{k}] {} {:?}", ops[k].text, ops[k].base)).collect::<Vec<_>>().join(" ; ")));
    src.tag(["1 operand", "2 operands", "3 operands", "4 operands", "5 operands", "more operands"][nops.min(6) - 1]);
    let repeated = subs.iter().any(|s| (0..s.len()).any(|i| s[..i].contains(&s[i])));
    if repeated { src.tag("repeated label in an operand"); }
    if !summed.is_empty() { src.tag("contraction"); }
    let oshape: Vec<usize> = out.iter().map(|&l| lens[l]).collect();
    if (terms > 1 || repeated || out.len() > 1) && terms * prod(&oshape) > 1 { src.nontrivial(); }

    // the explicit sum
    let sshape: Vec<usize> = summed.iter().map(|&l| lens[l]).collect();
    let sc = coords(&sshape);
    let mut at = vec![0; nlab];
    let mut want: Vec<T> = vec![];
    for c in coords(&oshape) {
        for (k, &l) in out.iter().enumerate() { at[l] = c[k]; }
        let mut acc = T::int(0);
        for s in &sc {
            for (k, &l) in summed.iter().enumerate() { at[l] = s[k]; }
            let mut p = T::int(1);
            for (o, sub) in place.iter().map(|&k| &ops[k]).zip(&subs) {
                let mut f = 0;
                for &l in sub { f = f * lens[l] + at[l]; }
                p = match T::op(Op::Mul, p, o.base[o.m.idx[f]]) { Some(p) => p, None => return Ok(()) };
            }
            acc = match T::op(Op::Add, acc, p) { Some(a) => a, None => return Ok(()) };
        }
        want.push(acc);
    }
    // in another order of summation partial sums stay in range as well: all magnitudes were bounded
    let refs: Vec<&Nd<T>> = place.iter().map(|&k| ops[k].a()).collect();
    let strs_ref: Vec<&str> = strs.iter().map(|s| s.as_str()).collect();
    let r = T::ein(&refs, &strs_ref, &outs);
    num_eq(&format!("einsum {}->{outs} of shapes {:?}", strs.join(","), refs.iter().map(|o| o.shape().to_vec()).collect::<Vec<_>>()), &r, &oshape, &want)?;
    for o in &ops { ensure!(same_all(&o.base_now(), &o.base), "einsum changed an operand"); }

    // view form
    if nops == 1 {
        let v = T::ein_view(ops[0].a(), (&strs[0], &outs)).unwrap();
        src.tag("einsum_view");
        if summed.is_empty() {
            let Some(v) = v else { return Err(format!("einsum_view {}->{outs} gave nothing although no label is summed", strs[0])); };
            let m = ops[0].m.ein_view(&strs[0], &outs).unwrap();
            ensure!(v.shape() == m.shape, "einsum_view {}->{outs}: shape {:?}, expected {:?}", strs[0], v.shape(), m.shape);
            ensure!(v.is_view(), "einsum_view result is not a view");
            let ptrs: Vec<usize> = v.flatiter_ptr().map(|p| p as usize).collect();
            let want: Vec<usize> = m.idx.iter().map(|&i| unsafe { ops[0].ptr.add(i) } as usize).collect();
            ensure!(ptrs == want, "einsum_view {}->{outs} of {} does not refer to the operand's elements", strs[0], ops[0].text);
            num_eq("einsum_view", &v, &m.shape, &m.idx.iter().map(|&i| ops[0].base[i]).collect::<Vec<_>>())?;
        } else {
            ensure!(v.is_none(), "einsum_view {}->{outs} returned a view although a label is summed", strs[0]);
        }
    }
    Ok(())
}
