//! Checks of the units, their quantifiers, conditions and prefixes.

mod cond;
mod pre;
mod quant;
mod units;

fn main() {
    mc_core::main(&[
        ("P10", units::p10),
        ("P11", quant::p11),
        ("P27", cond::p27),
        ("P28", pre::p28),
    ])
}
