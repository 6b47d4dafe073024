//! What LLVM's "tsan" pass calls instead of executing an atomic operation. poreader and posim are compiled
//! with that pass (see rustc-wrap.sh), this crate is not: the hook first offers the simulator a scheduling
//! point, then executes the operation (sequentially consistent; tasks run one at a time anyway).
#![allow(clippy::missing_safety_doc)]
use std::sync::atomic::{AtomicI64, AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

static HOOK: AtomicUsize = AtomicUsize::new(0);

#[inline(never)]
pub fn install(f: fn()) {
    HOOK.store(f as usize, SeqCst);
}

#[inline(never)]
fn point() {
    let f = HOOK.load(Relaxed);
    if f != 0 {
        let f: fn() = unsafe { std::mem::transmute(f) };
        f();
    }
}

/// Plain (not instrumented) accounting for the allocator.
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIB_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static MEM_LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);

#[inline(never)]
pub fn account(delta: i64) -> bool {
    let v = LIVE.fetch_add(delta, Relaxed) + delta;
    v <= MEM_LIMIT.load(Relaxed)
}
#[inline(never)]
pub fn count_alloc() {
    LIB_ALLOCS.fetch_add(1, Relaxed);
}
#[inline(never)]
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}

macro_rules! ops {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $t, _o: i32) -> $t {
            point();
            (*(a as *const $a)).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *mut $t, v: $t, _o: i32) {
            point();
            (*(a as *const $a)).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(a: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(a as *const $a)).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(a: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(a as *const $a)).fetch_add(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(a: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(a as *const $a)).fetch_sub(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(a: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(a as *const $a)).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(a: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(a as *const $a)).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(a: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(a as *const $a)).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(a: *mut $t, v: $t, _o: i32) -> $t {
            point();
            (*(a as *const $a)).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(a: *mut $t, c: $t, v: $t, _o: i32, _f: i32) -> $t {
            point();
            match (*(a as *const $a)).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
    };
}

ops!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add,
    __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor,
    __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
ops!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add,
    __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor,
    __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
ops!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add,
    __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor,
    __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
ops!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add,
    __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor,
    __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_pc: *const u8) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    point();
    std::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}

#[inline(never)]
pub fn set_limit(v: i64) {
    MEM_LIMIT.store(v, SeqCst);
}
#[inline(never)]
pub fn lib_allocs() -> u64 {
    LIB_ALLOCS.load(Relaxed)
}

// ------------------------------------------------------------------------------------------- steps
//
// In the build for counting (rustc-wrap.sh, POSIM_STEPS) LLVM's sanitizer-coverage pass calls these at every edge of
// the control flow: the first for poreader and what it instantiates, the second for the crates below it.

thread_local! {
    static IN_LIB: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub static OWN_STEPS: AtomicU64 = AtomicU64::new(0);
pub static DEP_STEPS: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);
static COUNTING: AtomicUsize = AtomicUsize::new(0);

/// Whether the thread is in library code now; returns what was so before.
#[inline(never)]
pub fn mark(v: bool) -> bool {
    IN_LIB.with(|t| t.replace(v))
}
#[inline(never)]
pub fn requested(n: u64) {
    BYTES.store(BYTES.load(Relaxed) + n, Relaxed);
}
/// (own steps, steps of the crates below, allocations, bytes requested)
#[inline(never)]
pub fn work() -> [u64; 4] {
    [OWN_STEPS.load(Relaxed), DEP_STEPS.load(Relaxed), LIB_ALLOCS.load(Relaxed), BYTES.load(Relaxed)]
}
/// This is the build for counting.
#[inline(never)]
pub fn counting() -> bool {
    COUNTING.load(Relaxed) != 0
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_start: *mut u32, _stop: *mut u32) {
    COUNTING.store(1, Relaxed);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
    // one simulated task runs at a time
    if IN_LIB.with(|t| t.get()) {
        OWN_STEPS.store(OWN_STEPS.load(Relaxed) + 1, Relaxed);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc() {
    if IN_LIB.with(|t| t.get()) {
        DEP_STEPS.store(DEP_STEPS.load(Relaxed) + 1, Relaxed);
    }
}
