//! The scheduler: simulated tasks are real threads, exactly one of which holds the token.
//!
//! All state below is touched only by the token holder (or before the first hand-over), so it needs no
//! lock; the hand-over itself is a release/acquire pair on the receiver's `go` word.
use crate::rng::Rng;
use crate::seams::{raw, simulated, BusyGuard, TLS};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const MAX_TASKS: usize = 128;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Sleep(u64),
    Futex(usize, Option<u64>),
    Stalled,
    Done,
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub futex_waits: u64,
    pub atomics: u64,
    /// atomic operations since anything else happened (a spinning task)
    pub spin: u32,
    pub randoms: u64,
    pub time_jumps: u64,
    pub blocked_behind_stall: Vec<u32>,
    pub deadlock: Vec<u32>,
    pub stalls_lifted: u64,
}

pub struct Sched {
    st: Vec<St>,
    woken: [bool; MAX_TASKS],
    gaps: Vec<Vec<u32>>,
    now: u64,
    rng: Rng,
    stick: u32,
    list: Option<Vec<u32>>,
    list_pos: usize,
    pub choices: Vec<u32>,
    pub trace: u64,
    pub log: Option<Vec<String>>,
    pub stats: Stats,
    step_cap: u64,
    stop: bool,
}

struct Global(UnsafeCell<Option<Sched>>);
unsafe impl Sync for Global {}
static S: Global = Global(UnsafeCell::new(None));
static GO: [AtomicU32; MAX_TASKS] = [const { AtomicU32::new(0) }; MAX_TASKS];
pub static ALL_DONE: AtomicU32 = AtomicU32::new(0);

fn s() -> &'static mut Sched {
    unsafe { (*S.0.get()).as_mut().expect("scheduler not initialised") }
}

pub fn init(n: usize, seed: u64, stick: u32, list: Option<Vec<u32>>, gaps: Vec<Vec<u32>>, keep_log: bool) {
    assert!(n <= MAX_TASKS);
    unsafe {
        *S.0.get() = Some(Sched {
            st: vec![St::Ready; n],
            woken: [false; MAX_TASKS],
            gaps,
            now: 0,
            rng: Rng::new(seed),
            stick,
            list,
            list_pos: 0,
            choices: vec![],
            trace: 0xcbf29ce484222325,
            log: if keep_log { Some(vec![]) } else { None },
            stats: Stats::default(),
            step_cap: 20_000_000,
            stop: false,
        });
    }
    for g in GO.iter() {
        g.store(0, SeqCst);
    }
    ALL_DONE.store(0, SeqCst);
}

/// Takes the scheduler out (only after all tasks are done).
pub fn finish() -> Sched {
    unsafe { (*S.0.get()).take().unwrap() }
}

impl Sched {
    pub fn now(&self) -> u64 {
        self.now
    }
}

fn me() -> usize {
    TLS.with(|t| t.task.get()) as usize - 1
}

fn fold(h: &mut u64, v: u64) {
    *h = (*h ^ v).wrapping_mul(0x100000001b3).rotate_left(5);
}

/// Adds a fact to the trace hash (and to the log of a replay).
pub fn trace(kind: &str, v: u64) {
    let _b = BusyGuard::enter();
    let sc = s();
    let m = me() as u64;
    fold(&mut sc.trace, crate::rng::hash_str(kind) ^ m << 56);
    fold(&mut sc.trace, v);
    let now = sc.now;
    if let Some(l) = sc.log.as_mut() {
        if l.len() < 20_000 {
            l.push(format!("t={}us task{} {} {}", now, m, kind, v));
        }
    }
}

/// A choice among n alternatives that belongs to the schedule (0 is the plain one).
pub fn choose(n: u32, plain_permille: u32) -> u32 {
    let _b = BusyGuard::enter();
    if n <= 1 {
        return 0;
    }
    let sc = s();
    let c = match &sc.list {
        Some(l) => {
            let v = l.get(sc.list_pos).copied().unwrap_or(0);
            sc.list_pos += 1;
            v % n
        }
        None => {
            if sc.rng.below(1000) < plain_permille as u64 {
                0
            } else {
                1 + sc.rng.below(n as u64 - 1) as u32
            }
        }
    };
    sc.choices.push(c);
    c
}

fn park(id: usize) {
    while GO[id].swap(0, Acquire) == 0 {
        unsafe {
            raw(libc::SYS_futex, GO[id].as_ptr() as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, 0, 0, 0, 0);
        }
    }
}

fn unpark(id: usize) {
    GO[id].store(1, Release);
    unsafe {
        raw(libc::SYS_futex, GO[id].as_ptr() as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
    }
}

/// Next task to run, `from` first in the order of alternatives; None if all are done.
fn pick(from: usize) -> Option<usize> {
    let sc = s();
    loop {
        let n = sc.st.len();
        let ready: Vec<usize> = (0..n).map(|i| (from + i) % n).filter(|&i| sc.st[i] == St::Ready).collect();
        if !ready.is_empty() {
            if ready.len() == 1 {
                return Some(ready[0]);
            }
            let stick = if ready[0] == from { sc.stick } else { 1000 / ready.len() as u32 };
            return Some(ready[choose(ready.len() as u32, stick) as usize]);
        }
        // nobody can run: let time pass
        let wake = sc
            .st
            .iter()
            .filter_map(|x| match x {
                St::Sleep(t) => Some(*t),
                St::Futex(_, Some(t)) => Some(*t),
                _ => None,
            })
            .min();
        if let Some(t) = wake {
            sc.now = sc.now.max(t);
            sc.stats.time_jumps += 1;
            for i in 0..n {
                match sc.st[i] {
                    St::Sleep(u) if u <= sc.now => sc.st[i] = St::Ready,
                    St::Futex(_, Some(u)) if u <= sc.now => {
                        sc.woken[i] = false;
                        sc.st[i] = St::Ready;
                    }
                    _ => (),
                }
            }
            continue;
        }
        let blocked: Vec<u32> = (0..n).filter(|&i| matches!(sc.st[i], St::Futex(..))).map(|i| i as u32).collect();
        if let Some(i) = sc.st.iter().position(|x| *x == St::Stalled) {
            // everybody else is finished or stuck: the stall ends
            for b in blocked {
                if !sc.stats.blocked_behind_stall.contains(&b) {
                    sc.stats.blocked_behind_stall.push(b);
                }
            }
            sc.stats.stalls_lifted += 1;
            sc.st[i] = St::Ready;
            continue;
        }
        if !blocked.is_empty() {
            sc.stats.deadlock = blocked;
            sc.stop = true;
        }
        return None;
    }
}

fn tick() {
    let sc = s();
    sc.stats.steps += 1;
    sc.stats.spin = 0;
    sc.now += 1;
    if sc.stats.steps > sc.step_cap {
        crate::seams::abort_run("{\"abort\":\"steps\"}");
    }
    // timers that fell due
    for i in 0..sc.st.len() {
        match sc.st[i] {
            St::Sleep(u) if u <= sc.now => sc.st[i] = St::Ready,
            St::Futex(_, Some(u)) if u <= sc.now => {
                sc.woken[i] = false;
                sc.st[i] = St::Ready;
            }
            _ => (),
        }
    }
}

fn switch(kind: &str) {
    let id = me();
    match pick(id) {
        Some(next) if next == id => (),
        Some(next) => {
            s().stats.switches += 1;
            trace(kind, next as u64);
            unpark(next);
            park(id);
        }
        None => {
            // everything is stuck, this task included
            ALL_DONE.store(2, SeqCst);
            wake_main();
            loop {
                park(id);
            }
        }
    }
}

fn wake_main() {
    unsafe {
        raw(libc::SYS_futex, ALL_DONE.as_ptr() as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 8, 0, 0, 0);
    }
}

/// A point at which another task may be scheduled.
pub fn yield_point(kind: &str) {
    let _b = BusyGuard::enter();
    tick();
    switch(kind);
}

/// sched_yield from a spinning library: the spinner must not be chosen again if another task can run.
pub fn spin_yield() {
    let _b = BusyGuard::enter();
    let id = me();
    tick();
    let sc = s();
    sc.st[id] = St::Sleep(sc.now + 1);
    switch("spin");
}

/// Forced preemption in the middle of library code (called by the allocator).
pub fn preempt() {
    let _b = BusyGuard::enter();
    let id = me();
    tick();
    let next = s().gaps[id].pop();
    TLS.with(|t| t.countdown.set(next.unwrap_or(0)));
    away(id);
}

/// Hands over to another task that can run, if there is one.
fn away(id: usize) {
    let sc = s();
    sc.stats.preempts += 1;
    let n = sc.st.len();
    let others: Vec<usize> = (1..n).map(|i| (id + i) % n).filter(|&i| sc.st[i] == St::Ready).collect();
    if others.is_empty() {
        return;
    }
    let k = choose(others.len() as u32, 1000 / others.len() as u32);
    let to = others[k as usize];
    sc.stats.switches += 1;
    trace("preempt", to as u64);
    unpark(to);
    park(id);
}

/// Before an atomic operation in library code.
pub fn atomic_point() {
    let _b = BusyGuard::enter();
    let id = me();
    let sc = s();
    sc.stats.atomics += 1;
    sc.stats.spin += 1;
    if sc.stats.spin > 2000 {
        // a spin lock: let time pass for it
        sc.stats.spin = 0;
        tick();
        s().st[id] = St::Sleep(s().now + 1);
        switch("spin");
        return;
    }
    let n = sc.st.len();
    if n < 2 || !(1..n).any(|i| sc.st[(id + i) % n] == St::Ready) {
        return;
    }
    let stay = 998 - (1000 - sc.stick.min(1000)) / 20;
    if choose(2, stay) == 1 {
        tick();
        away(id);
    }
}

pub fn sleep(us: u64) {
    let _b = BusyGuard::enter();
    let id = me();
    tick();
    let sc = s();
    sc.st[id] = St::Sleep(sc.now.saturating_add(us));
    switch("sleep");
}

/// Parks the task until every other task is done (or stuck).
pub fn stall() {
    let _b = BusyGuard::enter();
    let id = me();
    tick();
    s().st[id] = St::Stalled;
    switch("stall");
}

pub fn futex_wait(addr: usize, until: Option<u64>) -> bool {
    let _b = BusyGuard::enter();
    let id = me();
    tick();
    let sc = s();
    sc.stats.futex_waits += 1;
    sc.woken[id] = false;
    sc.st[id] = St::Futex(addr, until);
    switch("futex");
    s().woken[id]
}

pub fn futex_wake(addr: usize, n: u32) -> u32 {
    let _b = BusyGuard::enter();
    let sc = s();
    let mut k = 0;
    for i in 0..sc.st.len() {
        if k == n {
            break;
        }
        if let St::Futex(a, _) = sc.st[i] {
            if a == addr {
                sc.st[i] = St::Ready;
                sc.woken[i] = true;
                k += 1;
            }
        }
    }
    k
}

pub fn now_us() -> u64 {
    s().now
}

pub fn note_random() {
    s().stats.randoms += 1;
}

pub fn is_stopped() -> bool {
    s().stop
}

/// First thing a task thread does.
pub fn task_begin(id: usize) {
    TLS.with(|t| {
        t.task.set(id as u32 + 1);
        t.lib.set(0);
        t.rnd.set(0);
    });
    let _b = BusyGuard::enter();
    park(id);
    let next = s().gaps[id].pop();
    TLS.with(|t| t.countdown.set(next.unwrap_or(0)));
}

/// Last thing a task thread does with the token.
pub fn task_end() {
    debug_assert!(simulated().is_some());
    let _b = BusyGuard::enter();
    let id = me();
    tick();
    s().st[id] = St::Done;
    TLS.with(|t| t.countdown.set(0));
    trace("done", id as u64);
    match pick(id) {
        Some(next) => unpark(next),
        None => {
            let stuck = s().stop;
            ALL_DONE.store(if stuck { 2 } else { 1 }, SeqCst);
            wake_main();
        }
    }
    TLS.with(|t| t.task.set(0));
}

/// Called by the child's main thread: hands the token out.
pub fn start() {
    let n = s().st.len();
    // the first task is a scheduling choice as well
    let first = choose(n as u32, 1000 / n as u32) as usize;
    unpark(first);
}
