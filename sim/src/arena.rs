//! Memory and stacks of simulated tasks lie at fixed places, so that the addresses library code sees (and might
//! use as keys) are a function of the plan. Only the task that runs allocates here, so nothing needs a lock; blocks
//! given back by a thread that is no simulated task any more are not used again.
use std::ptr::addr_of_mut;

const HEAP: usize = 0x5000_0000_0000;
const HEAP_SIZE: usize = 64 << 30;
const STACKS: usize = 0x5800_0000_0000;
const STACK_SLOT: usize = 4 << 20;
const STACK_GUARD: usize = 1 << 20;
const SLOTS: usize = 160;
const CLASSES: usize = 64 + 4 * 30;

static mut ON: bool = false;
static mut STACKS_ON: bool = false;
static mut NEXT: usize = HEAP;
static mut FREE: [usize; CLASSES] = [0; CLASSES];

unsafe fn reserve(at: usize, size: usize, prot: i32) -> bool {
    let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE;
    let p = libc::mmap(at as *mut _, size, prot, flags, -1, 0);
    if p as usize != at {
        if p != libc::MAP_FAILED {
            libc::munmap(p, size);
        }
        return false;
    }
    libc::madvise(p, size, libc::MADV_NOHUGEPAGE);
    true
}

/// Once, before anything is forked.
pub fn init() {
    unsafe {
        ON = reserve(HEAP, HEAP_SIZE, libc::PROT_READ | libc::PROT_WRITE);
        STACKS_ON = reserve(STACKS, STACK_SLOT * SLOTS, libc::PROT_NONE);
    }
}

fn class(size: usize) -> (usize, usize) {
    if size <= 1024 {
        let k = size.div_ceil(16).max(1);
        return (k - 1, k * 16);
    }
    let p = (usize::BITS - 1 - (size - 1).leading_zeros()) as usize;
    let q = ((size - 1) >> (p - 2)) & 3;
    (64 + (p - 10) * 4 + q, (1 << p) + (q + 1) * (1 << (p - 2)))
}

/// Null if the arena cannot serve.
pub unsafe fn alloc(size: usize) -> *mut u8 {
    if !ON || size > 8 << 30 {
        return std::ptr::null_mut();
    }
    let (k, full) = class(size);
    let free = &mut (*addr_of_mut!(FREE))[k];
    if *free != 0 {
        let p = *free as *mut usize;
        *free = *p;
        return p as *mut u8;
    }
    if NEXT + full > HEAP + HEAP_SIZE {
        return std::ptr::null_mut();
    }
    let p = NEXT;
    NEXT += full;
    p as *mut u8
}

pub unsafe fn release(p: *mut u8, size: usize) {
    let (k, _) = class(size);
    let free = &mut (*addr_of_mut!(FREE))[k];
    *(p as *mut usize) = *free;
    *free = p as usize;
}

/// Whether a block of `old` bytes also has room for `new`.
pub fn fits(old: usize, new: usize) -> bool {
    class(old).0 == class(new).0
}

extern "C" fn main(arg: *mut libc::c_void) -> *mut libc::c_void {
    let f = unsafe { Box::from_raw(arg as *mut Box<dyn FnOnce() + Send>) };
    // std's record of this thread exists before library code runs
    let _ = std::thread::current();
    f();
    std::ptr::null_mut()
}

/// Starts a thread on the stack of the given slot.
pub fn spawn(slot: usize, f: impl FnOnce() + Send + 'static) {
    const SIZE: usize = 2 << 20;
    unsafe {
        if !STACKS_ON || slot >= SLOTS {
            std::thread::Builder::new().stack_size(SIZE).spawn(f).expect("thread");
            return;
        }
        let low = STACKS + slot * STACK_SLOT + STACK_GUARD;
        assert_eq!(libc::mprotect(low as *mut _, SIZE, libc::PROT_READ | libc::PROT_WRITE), 0);
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        assert_eq!(libc::pthread_attr_init(&mut attr), 0);
        assert_eq!(libc::pthread_attr_setstack(&mut attr, low as *mut _, SIZE), 0);
        assert_eq!(libc::pthread_attr_setdetachstate(&mut attr, libc::PTHREAD_CREATE_DETACHED), 0);
        let arg = Box::into_raw(Box::new(Box::new(f) as Box<dyn FnOnce() + Send>));
        let mut id: libc::pthread_t = 0;
        let rc = libc::pthread_create(&mut id, &attr, main, arg as *mut _);
        assert_eq!(rc, 0, "pthread_create");
    }
}
