//! `neu!()` on its own: the unit did not compile before its fix, so it is built
//! apart from the checks. Prints every character it accepts.
use neure::neu;
use neure::neu::*;

fn main() {
    for c in 0..0x110000u32 {
        if let Some(c) = char::from_u32(c) {
            let unit = neu!();
            if Neu::<char>::is_match(&unit, &c) {
                println!("{:x}", c as u32);
            }
        }
    }
}
