//! Checks of patterns shared between threads.

mod share;

fn main() {
    mc_core::main(&[("P23", share::p23)])
}
