//! Short texts behind billions of bytes, at positions around 2^31 and 2^32.
//!
//! One lazily zeroed allocation; only the pages a text stands on are ever written.

use std::alloc::{Layout, alloc_zeroed};
use std::sync::Mutex;

const SLOTS: usize = 4096;
/// Bytes of padding and text of one slot.
const SLOT: usize = 64;
const SIZE: usize = (1 << 32) + (SLOTS + 2) * SLOT;

/// Start of the allocation and number of texts in it; 0 when there is no such memory.
static BUF: Mutex<Option<(usize, usize)>> = Mutex::new(None);

/// `(input, where the text starts in it)`: `text` at every offset at which it covers or
/// touches the position 2^31 or 2^32. Nothing when memory is too small for that.
pub fn huge(text: &str) -> Vec<(&'static str, usize)> {
    assert!(text.len() <= 16);
    let mut g = BUF.lock().unwrap();
    let (base, n) = *g.get_or_insert_with(|| {
        // SAFETY: the layout is not empty; the allocation is never freed
        (unsafe { alloc_zeroed(Layout::from_size_align(SIZE, 4096).unwrap()) } as usize, 0)
    });
    if base == 0 {
        return vec![];
    }
    assert!(n < SLOTS);
    *g = Some((base, n + 1));
    let at = (1usize << 32) + (n + 1) * SLOT;
    let mut v = vec![];
    // SAFETY: the slot is inside the allocation and written before any slice of it is made;
    // all else is zero or an earlier text, and slices start in zeroes
    unsafe {
        std::ptr::copy_nonoverlapping(text.as_ptr(), (base + at) as *mut u8, text.len());
        for p in [1usize << 31, 1 << 32] {
            for d in 0..=text.len() + 1 {
                let start = at - p + d;
                let b = std::slice::from_raw_parts((base + start) as *const u8, p - d + text.len());
                v.push((std::str::from_utf8_unchecked(b), p - d));
            }
        }
    }
    v
}
