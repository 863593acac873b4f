//! The functions that LLVM's `tsan` pass puts in the place of atomic accesses. `instrument.sh` runs
//! this pass over webrtc-sdp alone, so each of its atomic accesses (and so each step of a lock or a
//! once cell) is a yield point of the scheduler. The accesses are done as they stand.
use crate::sched::point;
use std::sync::atomic::{fence, Ordering::SeqCst, *};

macro_rules! atomic {
    ($t:ty, $a:ty, $load:ident $store:ident $xchg:ident $cas:ident $($rmw:ident $op:ident),*) => {
        #[no_mangle]
        unsafe extern "C" fn $load(p: *mut $t, _: i32) -> $t {
            point();
            <$a>::from_ptr(p).load(SeqCst)
        }
        #[no_mangle]
        unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) {
            point();
            <$a>::from_ptr(p).store(v, SeqCst);
            point();
        }
        #[no_mangle]
        unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _: i32) -> $t {
            point();
            let r = <$a>::from_ptr(p).swap(v, SeqCst);
            point();
            r
        }
        #[no_mangle]
        unsafe extern "C" fn $cas(p: *mut $t, old: $t, new: $t, _: i32, _: i32) -> $t {
            point();
            let r = match <$a>::from_ptr(p).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            };
            point();
            r
        }
        $(#[no_mangle]
        unsafe extern "C" fn $rmw(p: *mut $t, v: $t, _: i32) -> $t {
            point();
            let r = <$a>::from_ptr(p).$op(v, SeqCst);
            point();
            r
        })*
    };
}
atomic!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_compare_exchange_val
    __tsan_atomic8_fetch_add fetch_add, __tsan_atomic8_fetch_sub fetch_sub, __tsan_atomic8_fetch_and fetch_and,
    __tsan_atomic8_fetch_or fetch_or, __tsan_atomic8_fetch_xor fetch_xor, __tsan_atomic8_fetch_nand fetch_nand);
atomic!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_compare_exchange_val
    __tsan_atomic16_fetch_add fetch_add, __tsan_atomic16_fetch_sub fetch_sub, __tsan_atomic16_fetch_and fetch_and,
    __tsan_atomic16_fetch_or fetch_or, __tsan_atomic16_fetch_xor fetch_xor, __tsan_atomic16_fetch_nand fetch_nand);
atomic!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_compare_exchange_val
    __tsan_atomic32_fetch_add fetch_add, __tsan_atomic32_fetch_sub fetch_sub, __tsan_atomic32_fetch_and fetch_and,
    __tsan_atomic32_fetch_or fetch_or, __tsan_atomic32_fetch_xor fetch_xor, __tsan_atomic32_fetch_nand fetch_nand);
atomic!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_compare_exchange_val
    __tsan_atomic64_fetch_add fetch_add, __tsan_atomic64_fetch_sub fetch_sub, __tsan_atomic64_fetch_and fetch_and,
    __tsan_atomic64_fetch_or fetch_or, __tsan_atomic64_fetch_xor fetch_xor, __tsan_atomic64_fetch_nand fetch_nand);

#[no_mangle]
extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    fence(SeqCst);
}
#[no_mangle]
extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
#[no_mangle]
extern "C" fn __tsan_init() {}
#[no_mangle]
extern "C" fn __tsan_func_entry(_: *const u8) {}
#[no_mangle]
extern "C" fn __tsan_func_exit() {}
