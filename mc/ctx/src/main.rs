//! Checks of contexts, guards, span stores and iterators.

mod cx;
mod guard;
mod iters;
mod read;
mod store;

fn main() {
    mc_core::main(&[
        ("P14", store::p14),
        ("P15", iters::p15),
        ("P21", guard::p21),
        ("P22", read::p22),
    ])
}
