//! Checks of the properties over pattern terms.

mod coll;
mod conf;
mod dynm;
mod edge;
mod extr;
mod huge;
mod odd;
mod props;
mod rec;
mod reuse;
mod search;
mod wrap;

fn main() {
    mc_core::main(&[
        ("P01", props::p01),
        ("P02", props::p02),
        ("P03", props::p03),
        ("P04", props::p04),
        ("P05", props::p05),
        ("P06", props::p06),
        ("P07", props::p07),
        ("P08", props::p08),
        ("P09", props::p09),
        ("P12", props::p12),
        ("P13", search::p13),
        ("P17", wrap::p17),
        ("P18", rec::p18),
        ("P19", dynm::p19),
        ("P25", props::p25),
        ("P26", props::p26),
        ("P29", reuse::p29),
        ("P30", conf::p30),
    ])
}
