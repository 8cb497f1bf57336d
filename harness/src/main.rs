#![allow(clippy::all, dead_code, unused_imports)]
mod alloc;
mod elem;
mod engine;
mod model;
mod props;
mod run;
mod tape;

fn main() {
    std::process::exit(run::main());
}
