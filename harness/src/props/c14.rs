//! C14: backward computes the true derivative for any expression graph.

use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::ensure;
use crate::tape::*;

pub const PROP: Prop = Prop {
    id: "C14",
    case,
    memory: false,
    quick: (4_000_000, 60),
    thorough: (40_000_000, 600),
    rule: "the differentiated tensor tracks gradients through at least two operations and reaches at least one leaf that is still alive",
    assumptions: &["values and intermediate results stay below 4000 and divisors away from zero, so rounding is bounded; results are compared within that bound",
                   "at most 600 backward paths per graph"],
};

fn case(src: &mut Src) -> R {
    if src.coin() { graph::<f32>(src) } else { graph::<f64>(src) }
}

fn graph<T: Fl>(src: &mut Src) -> R {
    let mut w = World::<T>::new();
    w.track = 70;
    let steps = src.range(1, if src.thorough { 14 } else { 9 });
    for _ in 0..steps {
        w.grow(src);
        // lose an operand that is no longer needed by name
        if src.chance(1, 6) {
            let c: Vec<usize> = w.live().into_iter().filter(|&i| w.can_take(i)).collect();
            if c.len() > 2 { let i = c[src.upto(c.len() - 1)]; w.drop_tensor(src, i); }
        }
    }
    if src.chance(1, 250) {
        src.tag("long chain");
        let len = if src.thorough || src.chance(1, 5) { src.range(30, 400) } else { src.range(10, 60) };
        w.chain(src, len);
    }
    let passes = 1 + src.weighted(&[5, 2, 1]);
    for p in 0..passes {
        let live = w.live();
        let i = if p == 0 && src.chance(3, 4) { *live.last().unwrap() } else { live[live.len() - 1 - src.upto(live.len())] };
        if w.n[i].tracked {
            let reached = w.live().iter().any(|&j| w.n[j].acc.is_some() && j != i);
            if reached && w.n[i].acc.is_none() && w.ops >= 2 { src.nontrivial(); }
            src.tag("tracked output");
        } else {
            src.tag("untracked output");
        }
        w.backward(src, i)?;
        // intermediates may go away between passes and before the gradients are read
        if src.chance(1, 3) {
            let c: Vec<usize> = w.live().into_iter().filter(|&i| w.can_take(i) && w.n[i].acc.is_none()).collect();
            if !c.is_empty() && w.live().len() > 1 { let i = c[src.upto(c.len())]; w.drop_tensor(src, i); }
        }
    }
    w.check_gradients()?;
    let _ = T::NAME;
    ensure!(!w.live().is_empty(), "harness: nothing left");
    Ok(())
}
