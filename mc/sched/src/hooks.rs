//! What the compiler calls before every atomic operation of the crates that are built
//! with thread instrumentation (`-Zsanitizer=thread` and no runtime but this one): the
//! operation becomes a yield point of the scheduler and is then carried out.
//!
//! Other accesses to memory are not yield points. The library contains no unsafe code,
//! so they cannot conflict without an atomic operation in between.

use std::sync::atomic::{AtomicBool, AtomicU8, AtomicU16, AtomicU32, AtomicU64, Ordering::SeqCst, fence};

/// Set when instrumented code runs at all.
pub static SEEN: AtomicBool = AtomicBool::new(false);

macro_rules! nothing {
    ($($name:ident($($a:ident),*);)*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $name($($a: usize),*) { let _ = ($($a,)*); }
    )*};
}

nothing! {
    __tsan_init(); __tsan_func_entry(a); __tsan_func_exit();
    __tsan_ignore_thread_begin(); __tsan_ignore_thread_end();
    __tsan_read1(a); __tsan_read2(a); __tsan_read4(a); __tsan_read8(a); __tsan_read16(a);
    __tsan_write1(a); __tsan_write2(a); __tsan_write4(a); __tsan_write8(a); __tsan_write16(a);
    __tsan_read_write1(a); __tsan_read_write2(a); __tsan_read_write4(a); __tsan_read_write8(a); __tsan_read_write16(a);
    __tsan_unaligned_read2(a); __tsan_unaligned_read4(a); __tsan_unaligned_read8(a); __tsan_unaligned_read16(a);
    __tsan_unaligned_write2(a); __tsan_unaligned_write4(a); __tsan_unaligned_write8(a); __tsan_unaligned_write16(a);
    __tsan_unaligned_read_write2(a); __tsan_unaligned_read_write4(a); __tsan_unaligned_read_write8(a); __tsan_unaligned_read_write16(a);
    __tsan_volatile_read1(a); __tsan_volatile_read2(a); __tsan_volatile_read4(a); __tsan_volatile_read8(a); __tsan_volatile_read16(a);
    __tsan_volatile_write1(a); __tsan_volatile_write2(a); __tsan_volatile_write4(a); __tsan_volatile_write8(a); __tsan_volatile_write16(a);
    __tsan_read_range(a, n); __tsan_write_range(a, n);
    __tsan_vptr_read(a); __tsan_vptr_update(a, b);
    __tsan_atomic_signal_fence(o);
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    unsafe { std::ptr::copy_nonoverlapping(s, d, n) };
    d
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    unsafe { std::ptr::copy(s, d, n) };
    d
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    unsafe { std::ptr::write_bytes(d, v as u8, n) };
    d
}

#[inline(never)]
fn at() {
    SEEN.store(true, SeqCst);
    crate::atomic();
}

#[unsafe(no_mangle)]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    at();
    fence(SeqCst);
}

macro_rules! atomics {
    ($($t:ty, $a:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $cass:ident $casw:ident;)*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t { at(); unsafe { (*p).load(SeqCst) } }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _: i32) { at(); unsafe { (*p).store(v, SeqCst) } }
        atomics!(@rmw $t, $a, $xchg swap, $add fetch_add, $sub fetch_sub, $and fetch_and, $or fetch_or, $xor fetch_xor, $nand fetch_nand);
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $cas(p: *const $a, old: $t, new: $t, _: i32, _: i32) -> $t {
            at();
            match unsafe { (*p).compare_exchange(old, new, SeqCst, SeqCst) } { Ok(v) | Err(v) => v }
        }
        atomics!(@cas $t, $a, $cass $casw);
    )*};
    (@rmw $t:ty, $a:ty, $($n:ident $op:ident),*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $n(p: *const $a, v: $t, _: i32) -> $t { at(); unsafe { (*p).$op(v, SeqCst) } }
    )*};
    (@cas $t:ty, $a:ty, $($n:ident)*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $n(p: *const $a, old: *mut $t, new: $t, _: i32, _: i32) -> i32 {
            at();
            match unsafe { (*p).compare_exchange(*old, new, SeqCst, SeqCst) } {
                Ok(_) => 1,
                Err(v) => { unsafe { *old = v }; 0 }
            }
        }
    )*};
}

atomics! {
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak;
}
