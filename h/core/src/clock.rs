//! A clock the harness controls under the solver, and the real one natively.
#[cfg(kani)]
mod imp {
    pub struct Watch;
    /// set the (stubbed) clock
    pub fn at(s: u64, n: u32) {
        unsafe { crate::stubs::CLOCK = (s, n) }
    }
    impl Watch {
        pub fn new() -> Self {
            Watch
        }
        pub fn started(&mut self) {}
        pub fn stopping(&mut self) {}
        /// was `secs` recorded for an interval that lasted exactly `want`?
        pub fn ok(&mut self, secs: f64, want: f64) -> bool {
            secs == want
        }
    }
}
#[cfg(not(kani))]
mod imp {
    use std::time::{Duration, Instant};
    pub struct Watch(Instant, Instant, Instant);
    pub fn at(_: u64, _: u32) {
        std::thread::sleep(Duration::from_micros(5300));
    }
    impl Watch {
        pub fn new() -> Self {
            let n = Instant::now();
            Watch(n, n, n)
        }
        pub fn started(&mut self) {
            self.1 = Instant::now();
        }
        pub fn stopping(&mut self) {
            self.2 = Instant::now();
        }
        pub fn ok(&mut self, secs: f64, _: f64) -> bool {
            let lo = (self.2 - self.1).as_secs_f64();
            let hi = (Instant::now() - self.0).as_secs_f64();
            lo - 1e-9 <= secs && secs <= hi + 1e-9
        }
    }
}
pub use imp::*;
