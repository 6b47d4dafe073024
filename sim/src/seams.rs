//! Seams below the library: allocator, futex, clock, sleep, yield, randomness.
//!
//! For a simulated task thread all of these are answered by the simulator; every other thread
//! (the coordinator, the workers, a child's main thread) gets the real thing.
use crate::{arena, sched};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Tls {
    /// 0: not a simulated task, otherwise task id + 1
    pub task: Cell<u32>,
    /// > 0 while the thread is inside library code
    pub lib: Cell<u32>,
    /// > 0 while the thread is inside the simulator
    pub busy: Cell<u32>,
    /// library allocations until the next forced preemption (0: none)
    pub countdown: Cell<u32>,
    /// number of random requests answered
    pub rnd: Cell<u64>,
}

thread_local! {
    pub static TLS: Tls = const {
        Tls { task: Cell::new(0), lib: Cell::new(0), busy: Cell::new(0), countdown: Cell::new(0), rnd: Cell::new(0) }
    };
}

pub static HASH_SEED: AtomicU64 = AtomicU64::new(0);
pub static ABORT_FD: AtomicUsize = AtomicUsize::new(usize::MAX);

/// Marks the thread as being inside library code for the duration of `f`.
pub struct LibGuard(u32);
impl LibGuard {
    pub fn enter() -> LibGuard {
        TLS.with(|t| {
            let v = t.lib.get();
            t.lib.set(1);
            posim_hook::mark(t.busy.get() == 0);
            LibGuard(v)
        })
    }
}
impl Drop for LibGuard {
    fn drop(&mut self) {
        TLS.with(|t| {
            posim_hook::mark(self.0 > 0 && t.busy.get() == 0);
            t.lib.set(self.0)
        })
    }
}
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    let _g = LibGuard::enter();
    f()
}
/// Marks the thread as being outside library code (used when the library calls back into a source).
pub struct OutGuard(u32);
impl OutGuard {
    pub fn enter() -> OutGuard {
        TLS.with(|t| {
            posim_hook::mark(false);
            let v = t.lib.get();
            t.lib.set(0);
            OutGuard(v)
        })
    }
}
impl Drop for OutGuard {
    fn drop(&mut self) {
        TLS.with(|t| {
            t.lib.set(self.0);
            posim_hook::mark(self.0 > 0 && t.busy.get() == 0);
        })
    }
}
pub struct BusyGuard;
impl BusyGuard {
    pub fn enter() -> BusyGuard {
        posim_hook::mark(false);
        TLS.with(|t| t.busy.set(t.busy.get() + 1));
        BusyGuard
    }
}
impl Drop for BusyGuard {
    fn drop(&mut self) {
        TLS.with(|t| {
            t.busy.set(t.busy.get() - 1);
            posim_hook::mark(t.lib.get() > 0 && t.busy.get() == 0);
        })
    }
}

/// `Some(task)` if the calling thread is a simulated task outside simulator code.
pub fn simulated() -> Option<u32> {
    TLS.with(|t| if t.task.get() > 0 && t.busy.get() == 0 { Some(t.task.get() - 1) } else { None })
}

// ------------------------------------------------------------------------------- raw system calls

pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

/// Ends the child with a short report, from anywhere (allocator included).
pub fn abort_run(msg: &str) -> ! {
    unsafe {
        let fd = ABORT_FD.load(Relaxed);
        if fd != usize::MAX {
            raw(libc::SYS_write, fd as i64, msg.as_ptr() as i64, msg.len() as i64, 0, 0, 0);
        }
        raw(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    loop {}
}

// ------------------------------------------------------------------------------------- allocator

pub struct Alloc;
const TAG: u64 = 0x4c49_4231_a5a5_5a5a;
const ARENA: u64 = 0x4152_4e41_5a5a_a5a5;

fn before_alloc() -> bool {
    TLS.with(|t| {
        if t.lib.get() == 0 || t.busy.get() != 0 || t.task.get() == 0 {
            return false;
        }
        posim_hook::count_alloc();
        let c = t.countdown.get();
        if c > 0 {
            t.countdown.set(c - 1);
            if c == 1 && !std::thread::panicking() {
                sched::preempt();
            }
        }
        true
    })
}

/// Called before every atomic operation of instrumented code: library code may be preempted here.
fn atomic_point() {
    let here = TLS.with(|t| t.lib.get() > 0 && t.busy.get() == 0 && t.task.get() > 0);
    if here {
        // whatever happens in here is not library code (panicking() reads an atomic, too)
        let _b = BusyGuard::enter();
        if !std::thread::panicking() {
            sched::atomic_point();
        }
    }
}

pub fn install() {
    posim_hook::install(atomic_point);
}

fn account(delta: i64) {
    if !posim_hook::account(delta) {
        abort_run("{\"abort\":\"memory\"}");
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let tag = before_alloc();
        if tag {
            posim_hook::requested(l.size() as u64);
        }
        let pre = l.align().max(16);
        if tag && pre == 16 {
            account(l.size() as i64);
            let p = arena::alloc(l.size() + 16);
            if !p.is_null() {
                *(p.add(8) as *mut u64) = ARENA;
                return p.add(16);
            }
            account(-(l.size() as i64));
        }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + pre, pre));
        if p.is_null() {
            return p;
        }
        *(p.add(pre - 8) as *mut u64) = if tag { TAG } else { 0 };
        if tag {
            account(l.size() as i64);
        }
        p.add(pre)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let pre = l.align().max(16);
        let word = p.sub(8) as *mut u64;
        if *word == ARENA {
            account(-(l.size() as i64));
            *word = 0;
            if TLS.with(|t| t.task.get() > 0) {
                arena::release(p.sub(16), l.size() + 16);
            }
            return;
        }
        if *word == TAG {
            account(-(l.size() as i64));
            *word = 0;
        }
        System.dealloc(p.sub(pre), Layout::from_size_align_unchecked(l.size() + pre, pre));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if before_alloc() {
            posim_hook::requested(n as u64);
        }
        let pre = l.align().max(16);
        let word = p.sub(8) as *mut u64;
        if *word == ARENA {
            account(n as i64 - l.size() as i64);
            if arena::fits(l.size() + 16, n + 16) {
                return p;
            }
            let here = TLS.with(|t| t.task.get() > 0);
            let mut q = if here { arena::alloc(n + 16) } else { std::ptr::null_mut() };
            if q.is_null() {
                q = System.alloc(Layout::from_size_align_unchecked(n + 16, 16));
                if q.is_null() {
                    return q;
                }
                *(q.add(8) as *mut u64) = TAG;
            } else {
                *(q.add(8) as *mut u64) = ARENA;
            }
            let q = q.add(16);
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            *word = 0;
            if here {
                arena::release(p.sub(16), l.size() + 16);
            }
            return q;
        }
        let tagged = *word == TAG;
        let q = System.realloc(p.sub(pre), Layout::from_size_align_unchecked(l.size() + pre, pre), n + pre);
        if q.is_null() {
            return q;
        }
        if tagged {
            account(n as i64 - l.size() as i64);
        }
        q.add(pre)
    }
}

// ---------------------------------------------------------------------------- interposed libc calls

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if simulated().is_some() {
        let (task, k) = TLS.with(|t| {
            let k = t.rnd.get();
            t.rnd.set(k + 1);
            (t.task.get() as u64, k)
        });
        let mut r = crate::rng::Rng::new(HASH_SEED.load(Relaxed) ^ task << 40 ^ k << 8);
        for i in 0..len {
            *buf.add(i) = r.u64() as u8;
        }
        sched::note_random();
        return len as isize;
    }
    ret(raw(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if simulated().is_some() {
        let us = sched::now_us();
        let base = if clk == libc::CLOCK_REALTIME { 1_700_000_000 } else { 1_000 };
        (*ts).tv_sec = base + (us / 1_000_000) as i64;
        (*ts).tv_nsec = (us % 1_000_000) as i64 * 1000;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if simulated().is_some() {
        sched::sleep(((*req).tv_sec as u64).saturating_mul(1_000_000).saturating_add((*req).tv_nsec as u64 / 1000));
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if simulated().is_some() {
        let us = ((*req).tv_sec as u64).saturating_mul(1_000_000).saturating_add((*req).tv_nsec as u64 / 1000);
        if flags & 1 != 0 {
            let base = if clk == libc::CLOCK_REALTIME { 1_700_000_000u64 } else { 1_000 } * 1_000_000;
            sched::sleep(us.saturating_sub(base).saturating_sub(sched::now_us()));
        } else {
            sched::sleep(us);
        }
        return 0;
    }
    let r = raw(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0);
    -r as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if simulated().is_some() {
        sched::spin_yield();
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}

/// std reaches the kernel's futexes through `libc::syscall`, so this is where a lock, a once-cell or a
/// condition variable in the library becomes a scheduling point of the simulator.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && simulated().is_some() {
        let op = b as i32 & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let cell = &*(a as *const std::sync::atomic::AtomicU32);
            if cell.load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                return ret(-(libc::EAGAIN as i64));
            }
            let until = if d == 0 {
                None
            } else {
                let ts = &*(d as *const libc::timespec);
                let us = (ts.tv_sec as u64).saturating_mul(1_000_000).saturating_add(ts.tv_nsec as u64 / 1000);
                Some(if op == libc::FUTEX_WAIT { sched::now_us().saturating_add(us) } else { us.saturating_sub(1_000_000_000) })
            };
            return if sched::futex_wait(a as usize, until) { 0 } else { ret(-(libc::ETIMEDOUT as i64)) };
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            return sched::futex_wake(a as usize, c as u32) as i64;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}
