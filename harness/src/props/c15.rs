//! C15: gradient state follows its accumulate/reset rules over any history.

use super::Prop;
use crate::elem::*;
use crate::engine::*;
use crate::tape::*;

pub const PROP: Prop = Prop {
    id: "C15",
    case,
    memory: false,
    quick: (2_000_000, 60),
    thorough: (30_000_000, 600),
    rule: "the history contains at least two backward passes on tracked tensors and a reset, tracking change or drop between or after them",
    assumptions: &["values and intermediate results stay below 4000 and divisors away from zero, so rounding is bounded; results are compared within that bound",
                   "at most 600 backward paths per graph"],
};

fn case(src: &mut Src) -> R {
    if src.coin() { history::<f64>(src) } else { history::<f32>(src) }
}

fn history<T: Fl>(src: &mut Src) -> R {
    let mut w = World::<T>::new();
    w.maxsize = 8;
    w.track = 60;
    let steps = src.range(2, if src.thorough { 30 } else { 18 });
    let (mut passes, mut between) = (0, 0);
    if src.chance(1, 300) {
        src.tag("long chain");
        let len = if src.thorough || src.chance(1, 5) { src.range(30, 300) } else { src.range(10, 60) };
        w.chain(src, len);
    }
    for _ in 0..steps {
        if w.live().is_empty() { w.any(src); }
        let live = w.live();
        match src.weighted(&[60, 60, 20, 30, 10, 3]) {
            0 => { if w.live().len() < 14 { w.grow(src); } }
            1 => {
                let i = live[live.len() - 1 - src.upto(live.len())];
                if w.n[i].tracked { passes += 1; }
                src.tag("backward");
                w.backward(src, i)?;
            }
            2 => { let i = live[src.upto(live.len())]; src.tag("zero_gradient"); if passes > 0 { between += 1; } w.zero(src, i); }
            3 => {
                // needs exclusive access
                let c: Vec<usize> = live.iter().copied().filter(|&i| w.can_take(i)).collect();
                if !c.is_empty() {
                    let i = c[src.upto(c.len())];
                    let on = src.coin();
                    src.tag("set_requires_grad");
                    if w.n[i].tracked != on && passes > 0 { between += 1; }
                    w.set_tracking(src, i, on);
                }
            }
            5 => {
                let i = live[src.upto(live.len())];
                if w.n[i].tracked {
                    src.tag("reset after infinite or NaN gradients");
                    passes += 1; between += 1;
                    w.poison(src, i);
                }
            }
            _ => {
                let c: Vec<usize> = live.iter().copied().filter(|&i| w.can_take(i)).collect();
                if c.len() > 1 { let i = c[src.upto(c.len())]; if passes > 0 { between += 1; } w.drop_tensor(src, i); }
            }
        }
        w.check_gradients()?;
    }
    if passes >= 2 && between >= 1 { src.nontrivial(); }
    Ok(())
}
