//! C22: the accelerated configurations against the same reference models as the portable build.
//!
//! Built once per configuration (see check.sh) with stand-in libraries that check the vDSP/CBLAS contracts,
//! and with element types restricted to those that have accelerated kernels. A third of the cases run with
//! every allocation between guard pages.

use super::{c04, c05, c06, c11, c12, Prop};
use crate::alloc;
use crate::engine::{Src, R};

pub const PROP: Prop = Prop {
    id: "C22",
    case,
    memory: true,
    quick: (500_000, 40),
    thorough: (40_000_000, 700),
    rule: "as for the property the case comes from: C04 (operators), C05 (in-place), C06 (reductions), C11 (products), C12 (einsum)",
    assumptions: &[
        "the stand-in vDSP, CBLAS and NEON functions in /verif/accel follow the vendors' documented contracts",
        "sums and products are compared on values for which every order of evaluation is exact",
    ],
};

fn case(src: &mut Src) -> R {
    let mode = src.weighted(&[6, 2, 1]);
    let part = src.weighted(&[4, 4, 4, 5, 3]);
    alloc::guard_mode(mode);
    src.tag(["operators", "in place", "reductions", "products", "einsum"][part]);
    let r = alloc::tracking(true, || match part {
        0 => (c04::PROP.case)(src),
        1 => (c05::PROP.case)(src),
        2 => (c06::PROP.case)(src),
        3 => (c11::PROP.case)(src),
        _ => (c12::PROP.case)(src),
    });
    alloc::guard_mode(0);
    r
}
