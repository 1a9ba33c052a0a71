//! Checks of value mappers and of the pattern macros.

mod chain;
mod mac;
mod maps;

fn main() {
    mc_core::main(&[("P16", maps::p16), ("P20", mac::p20)])
}
