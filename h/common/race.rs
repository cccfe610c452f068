//! Two operations on shared state: `main` is interrupted by whole runs of
//! `other`.
//!
//! Under Kani, `other` may run, to completion, immediately before any atomic
//! access of `main` (which includes every lock acquisition and release), at
//! symbolic positions, up to `max` times; a run which would have to wait for a
//! lock held by `main` is pruned, because it then happens at a later position.
//! Weak compare-exchanges of a watched cell may in addition fail spuriously up
//! to `spurious` times.
//!
//! Natively (replay) the same two operations are run with `other` placed at
//! every single machine instruction of `main` in turn (single-stepping),
//! then repeatedly at its first instructions, then freely in parallel.
#![allow(dead_code)]

pub struct Race {
    /// most runs of `other`
    pub max: usize,
    pub spurious: usize,
}

#[cfg(kani)]
mod imp {
    use super::Race;
    use crate::stubs;
    pub struct Mark(#[allow(dead_code)] u8);
    static mut ON: bool = false;
    static mut LEFT: usize = 0;
    static mut RUNS: usize = 0;
    static mut SPUR: usize = 0;
    static mut WATCH: usize = 0;
    static mut F: Option<unsafe fn(*const Mark) -> Mark> = None;
    static mut D: *const Mark = core::ptr::null();

    pub fn watch<T>(p: *const T) {
        unsafe { WATCH = p as usize }
    }
    #[inline(always)]
    pub unsafe fn hook() {
        if ON && LEFT > 0 && crate::nd::bool() {
            LEFT -= 1;
            RUNS += 1;
            ON = false;
            stubs::BUSY = true;
            if let Some(f) = F {
                f(D);
            }
            stubs::BUSY = false;
            ON = true;
        }
    }
    #[inline(always)]
    pub unsafe fn spurious(p: usize) -> bool {
        if ON && p == WATCH && SPUR > 0 && crate::nd::bool() {
            SPUR -= 1;
            return true;
        }
        false
    }
    unsafe fn call<O: Fn()>(d: *const Mark) -> Mark {
        (*(d as *const O))();
        Mark(0)
    }
    /// checks `check(state, result of main, number of runs of other)`
    #[inline(always)]
    pub fn race<W, A>(
        r: Race,
        new: impl Fn() -> W,
        main: impl Fn(&W) -> A,
        other: impl Fn(&W),
        check: impl Fn(W, A, usize),
    ) {
        let w = new();
        let wr = &w;
        let o = || other(wr);
        fn fp<O: Fn()>(_: &O) -> unsafe fn(*const Mark) -> Mark {
            call::<O>
        }
        unsafe {
            F = Some(fp(&o));
            D = &o as *const _ as *const Mark;
            LEFT = r.max;
            SPUR = r.spurious;
            RUNS = 0;
            ON = true;
        }
        let a = main(wr);
        let runs = unsafe {
            ON = false;
            RUNS
        };
        crate::witness!(runs > 0 || r.max == 0, "an interruption happened");
        crate::witness!(runs == 0, "no interruption");
        check(w, a, runs);
    }
}

#[cfg(not(kani))]
mod imp {
    use super::Race;
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
    use std::time::{Duration, Instant};

    pub fn watch<T>(_: *const T) {}

    static STEP: AtomicUsize = AtomicUsize::new(0);
    static FROM: AtomicUsize = AtomicUsize::new(0);
    static RUNS: AtomicUsize = AtomicUsize::new(0);
    static GO: AtomicUsize = AtomicUsize::new(0);
    static DONE: AtomicUsize = AtomicUsize::new(0);
    static QUIT: AtomicBool = AtomicBool::new(false);

    extern "C" fn trap(_: libc::c_int) {
        let s = STEP.fetch_add(1, SeqCst);
        let from = FROM.load(SeqCst);
        if s >= from && s < from + RUNS.load(SeqCst) && GO.load(SeqCst) == DONE.load(SeqCst) {
            let want = GO.fetch_add(1, SeqCst) + 1;
            // wait until the other operation is done or found to be blocked
            let mut spins = 0u32;
            let mut t0 = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t0) };
            while DONE.load(SeqCst) != want {
                spins = spins.wrapping_add(1);
                if spins % 64 == 0 {
                    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
                    let d = (t.tv_sec - t0.tv_sec) * 1_000_000_000 + (t.tv_nsec - t0.tv_nsec);
                    if d > 2_000_000 {
                        break;
                    }
                }
                core::hint::spin_loop();
            }
        }
    }
    #[cfg(target_arch = "x86_64")]
    #[inline(always)]
    fn single_step(on: bool) {
        unsafe {
            if on {
                core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            } else {
                core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            }
        }
    }
    #[cfg(not(target_arch = "x86_64"))]
    fn single_step(_: bool) {}

    /// one stepped execution; false once `from` lies behind the last instruction
    fn stepped<W: Sync, A>(
        from: usize,
        runs: usize,
        new: &impl Fn() -> W,
        main: &impl Fn(&W) -> A,
        other: &(impl Fn(&W) + Sync),
        check: &impl Fn(W, A, usize),
    ) -> bool {
        let w = new();
        STEP.store(0, SeqCst);
        FROM.store(from, SeqCst);
        RUNS.store(runs, SeqCst);
        GO.store(0, SeqCst);
        DONE.store(0, SeqCst);
        QUIT.store(false, SeqCst);
        let a = std::thread::scope(|s| {
            let h = s.spawn(|| loop {
                if DONE.load(SeqCst) != GO.load(SeqCst) {
                    other(&w);
                    DONE.fetch_add(1, SeqCst);
                } else if QUIT.load(SeqCst) {
                    return;
                }
                std::hint::spin_loop();
            });
            single_step(true);
            let a = main(&w);
            single_step(false);
            RUNS.store(0, SeqCst);
            QUIT.store(true, SeqCst);
            h.join().unwrap();
            a
        });
        let n = DONE.load(SeqCst);
        let more = n > 0;
        check(w, a, n);
        more
    }

    pub fn race<W: Sync, A>(
        r: Race,
        new: impl Fn() -> W,
        main: impl Fn(&W) -> A + Sync,
        other: impl Fn(&W) + Sync,
        check: impl Fn(W, A, usize),
    ) where
        A: Send,
    {
        unsafe {
            let mut sa: libc::sigaction = core::mem::zeroed();
            sa.sa_sigaction = trap as extern "C" fn(libc::c_int) as usize;
            sa.sa_flags = libc::SA_RESTART;
            libc::sigaction(libc::SIGTRAP, &sa, core::ptr::null_mut());
        }
        let end = Instant::now() + Duration::from_secs(25);
        for from in 0..20_000 {
            if !stepped(from, 1, &new, &main, &other, &check) || Instant::now() > end {
                break;
            }
        }
        if r.max > 1 || r.spurious > 0 {
            let end = Instant::now() + Duration::from_secs(40);
            for runs in 2..4000 {
                if Instant::now() > end {
                    break;
                }
                stepped(0, runs, &new, &main, &other, &check);
            }
        }
        // free running
        let end = Instant::now() + Duration::from_secs(5);
        while Instant::now() < end {
            let w = new();
            let go = AtomicUsize::new(0);
            let a = std::thread::scope(|s| {
                let h = s.spawn(|| {
                    go.fetch_add(1, SeqCst);
                    while go.load(SeqCst) < 2 {
                        std::hint::spin_loop();
                    }
                    other(&w)
                });
                go.fetch_add(1, SeqCst);
                while go.load(SeqCst) < 2 {
                    std::hint::spin_loop();
                }
                let a = main(&w);
                h.join().unwrap();
                a
            });
            check(w, a, 1);
        }
    }
}
pub use imp::*;
