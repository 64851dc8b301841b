//! Threads under a symbolic schedule.  One thread runs at a time; the check's build inserts a call of
//! `__sched_point` before every atomic operation (relaxed loads excepted) of the compiled program and routes the
//! `syscall`s of the standard library's locks to `__sched_syscall`.
use super::sym;
extern "C" {
    fn __sym_spawn(f: extern "C" fn(usize), arg: usize) -> usize;
    fn __sym_switch(t: usize);
    fn syscall(n: i64, ...) -> i64;
}
struct S {
    on: bool,
    n: usize,
    me: usize,
    done: [bool; 4],
    /// the word a thread waits for, and the value it waits to change
    wait: [(*const u32, u32); 4],
    /// the scheduling points at which the running thread is preempted, in increasing order
    at: [u32; 4],
    budget: usize,
    used: usize,
    count: u32,
    jobs: [Option<fn(usize)>; 4],
}
static mut S: S = S { on: false, n: 1, me: 0, done: [false; 4], wait: [(std::ptr::null(), 0); 4], at: [0; 4], budget: 0, used: 0, count: 0, jobs: [None; 4] };
#[inline(never)]
fn go(t: usize) {
    unsafe {
        S.me = t;
        __sym_switch(t)
    }
}
#[inline(never)]
fn ready(t: usize) -> bool {
    unsafe { t != S.me && !S.done[t] && (S.wait[t].0.is_null() || std::ptr::read_volatile(S.wait[t].0) != S.wait[t].1) }
}
/// Some other thread that can run.
#[inline(never)]
fn other() -> Option<usize> {
    unsafe {
        let mut c = [0; 4];
        let mut k = 0;
        for t in 0..S.n {
            if ready(t) {
                c[k] = t;
                k += 1;
            }
        }
        match k {
            0 => None,
            1 => Some(c[0]),
            _ => Some(c[sym::choose("next", k)]),
        }
    }
}
/// A place where the scheduler may preempt the running thread.
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sched_point() {
    unsafe {
        if !S.on || S.used == S.budget {
            return;
        }
        if !(0..S.n).any(ready) {
            return;
        }
        S.count += 1;
        if S.at[S.used] == S.count {
            S.used += 1;
            if let Some(t) = other() {
                go(t);
            }
        }
    }
}
/// futex: a thread that waits gives way until the word has changed.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sched_syscall(n: i64, a: *const u32, op: usize, val: usize, p4: usize, p5: usize, p6: usize) -> i64 {
    if n != 202 {
        return syscall(n, a, op, val, p4, p5, p6);
    }
    if matches!(op & 127, 0 | 9) {
        while std::ptr::read_volatile(a) == val as u32 {
            S.wait[S.me] = (a, val as u32);
            match other() {
                Some(t) => go(t),
                None => sym::check(false, 99), // deadlock
            }
        }
        S.wait[S.me].0 = std::ptr::null();
    }
    0
}
extern "C" fn main_of(t: usize) {
    unsafe {
        if let Some(j) = S.jobs[t] {
            j(t);
        }
        S.done[t] = true;
        loop {
            match other() {
                Some(t) => go(t),
                None => {
                    // every other thread has ended but the first, which waits for the end
                    sym::check(S.done[0], 99);
                    go(0)
                }
            }
        }
    }
}
/// Run job(0) .. job(n-1) as threads under every schedule with at most `budget` preemptions; returns when all have ended.
pub fn run(n: usize, budget: usize, job: fn(usize)) {
    unsafe {
        S.n = n;
        S.budget = budget;
        for i in 0..budget {
            S.at[i] = sym::u32("preempt");
            sym::assume(S.at[i] > if i > 0 { S.at[i - 1] } else { 0 });
        }
        for t in 1..n {
            S.jobs[t] = Some(job);
            sym::check(__sym_spawn(main_of, t) == t, 97);
        }
        S.on = true;
        if n > 1 && sym::flag("first") {
            if let Some(t) = other() {
                go(t);
            }
        }
        job(0);
        S.done[0] = true;
        while let Some(t) = other() {
            go(t);
        }
        sym::check((0..n).all(|t| S.done[t]), 99); // deadlock
        S.on = false;
    }
}
