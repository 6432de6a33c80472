//! Callbacks the compiler inserts into the crate under test for every atomic
//! operation and memory access (the ones ThreadSanitizer would use; its runtime
//! is not linked). Atomic operations and accesses to this program's writable
//! statics are where threads can meet, so they are scheduling points of their
//! own ("hot" points), also within a straight line of code.
//!
//! All operations are performed sequentially consistently: exactly one task
//! runs at a time.

#![allow(clippy::missing_safety_doc)]

use crate::rt::{hot_point, note_moved, ACTIVE};
use std::sync::atomic::*;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
fn is_static(a: usize) -> bool {
    let lo = std::ptr::addr_of!(__data_start) as usize;
    let hi = std::ptr::addr_of!(_end) as usize;
    a >= lo && a < hi
}

#[inline(always)]
fn access(a: *const u8) {
    if is_static(a as usize) && ACTIVE.get() {
        hot_point(2 << 40);
    }
}

#[inline(always)]
fn atomic() {
    if ACTIVE.get() {
        hot_point(3 << 40);
    }
}

macro_rules! accesses {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: *const u8) {
            access(a)
        }
    )* };
}

accesses! {
    __tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16
    __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
    __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
    __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
    __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
    __tsan_unaligned_read_write2 __tsan_unaligned_read_write4
    __tsan_unaligned_read_write8 __tsan_unaligned_read_write16
    __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_read16
    __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_volatile_write16
    __tsan_unaligned_volatile_read2 __tsan_unaligned_volatile_read4
    __tsan_unaligned_volatile_read8 __tsan_unaligned_volatile_read16
    __tsan_unaligned_volatile_write2 __tsan_unaligned_volatile_write4
    __tsan_unaligned_volatile_write8 __tsan_unaligned_volatile_write16
    __tsan_func_entry __tsan_vptr_read
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(a: *const u8, _v: *const u8) {
    access(a)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_range(a: *const u8, _n: usize) {
    access(a)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_write_range(a: *const u8, _n: usize) {
    access(a)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(s);
    access(d);
    note_moved(n);
    libc::memcpy(d as *mut _, s as *const _, n) as *mut u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(s);
    access(d);
    note_moved(n);
    libc::memmove(d as *mut _, s as *const _, n) as *mut u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    access(d);
    note_moved(n);
    libc::memset(d as *mut _, c, n) as *mut u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    atomic()
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}

macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident $store:ident $swap:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $casw:ident $casv:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _o: i32) -> $t {
            atomic();
            (*p).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _o: i32) {
            atomic();
            (*p).store(v, Ordering::SeqCst)
        }
        atomics!(@rmw $t, $a, $swap swap);
        atomics!(@rmw $t, $a, $add fetch_add);
        atomics!(@rmw $t, $a, $sub fetch_sub);
        atomics!(@rmw $t, $a, $and fetch_and);
        atomics!(@rmw $t, $a, $or fetch_or);
        atomics!(@rmw $t, $a, $xor fetch_xor);
        atomics!(@rmw $t, $a, $nand fetch_nand);
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const $a, c: *mut $t, v: $t, _o: i32, _f: i32) -> i32 {
            atomic();
            match (*p).compare_exchange(*c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *c = x;
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casw(p: *const $a, c: *mut $t, v: $t, o: i32, f: i32) -> i32 {
            $cas(p, c, v, o, f)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casv(p: *const $a, c: $t, v: $t, _o: i32, _f: i32) -> $t {
            atomic();
            match (*p).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(x) => x,
                Err(x) => x,
            }
        }
    };
    (@rmw $t:ty, $a:ty, $n:ident $op:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *const $a, v: $t, _o: i32) -> $t {
            atomic();
            (*p).$op(v, Ordering::SeqCst)
        }
    };
}

atomics!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val);
