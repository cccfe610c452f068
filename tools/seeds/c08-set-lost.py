PROPERTY="C08"
NEEDS="a gauge set by one thread between the read and the write of another thread's decrement"
BREAKS="dec_by computes the new value from a read and stores it, which overwrites a concurrent set or increment"
EDITS=[("core/src/metric/gauge.rs","""    /// Decrement the gauge value by `x`
    pub fn dec_by(self, x: i64) {
        self.count
            .fetch_sub(x, core::sync::atomic::Ordering::Relaxed);
    }""","""    /// Decrement the gauge value by `x`
    pub fn dec_by(self, x: i64) {
        if let Some(y) = x.checked_neg() {
            self.count
                .fetch_add(y, core::sync::atomic::Ordering::Relaxed);
        } else {
            let current = self.count.load(Ordering::Acquire);
            self.count
                .store(current.wrapping_sub(x), Ordering::Release);
        }
    }""")]
DEMO='''
use measured::Gauge;
fn main() {
    // i64::MIN is its own negation: an even number of such decrements is no change
    let g = Gauge::new();
    std::thread::scope(|s| {
        s.spawn(|| for _ in 0..2_000_000 { g.dec_by(i64::MIN) });
        s.spawn(|| for _ in 0..2_000_000 { g.inc() });
        s.spawn(|| for _ in 0..2_000_000 { g.inc() });
    });
    let v = g.get_metric().count.load(std::sync::atomic::Ordering::SeqCst);
    assert!(v == 4_000_000, "{v}");
}
'''
