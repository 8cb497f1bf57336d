//! The properties. Each is compiled only when its feature is on.

use crate::engine::{Src, R};

mod common;
#[allow(dead_code)]
mod empties;

pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Src) -> R,
    /// allocator errors and leaks are violations
    pub memory: bool,
    /// (cases, seconds)
    pub quick: (u64, u64),
    pub thorough: (u64, u64),
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

macro_rules! props {
    ($($feature:literal $m:ident;)*) => {
        $(#[cfg(feature = $feature)] mod $m;)*
        pub fn find(id: &str) -> Option<Prop> {
            $(#[cfg(feature = $feature)] if $m::PROP.id == id { return Some($m::PROP); })*
            let _ = id;
            None
        }
    };
}

props! {
    "c01" c01;
    "c02" c02;
    "c03" c03;
    "c04" c04;
    "c05" c05;
    "c06" c06;
    "c07" c07;
    "c08" c08;
    "c09" c09;
    "c10" c10;
    "c11" c11;
    "c12" c12;
    "c13" c13;
    "c14" c14;
    "c15" c15;
    "c16" c16;
    "c17" c17;
    "c18" c18;
    "c19" c19;
    "c20" c20;
    "c22" c22;
}
