PROPERTY="C08"
NEEDS="a float gauge (or histogram sum) update that loses the race for its cell several times in a row"
BREAKS="after eight lost races the value computed from a stale read is stored unconditionally, so other threads' updates vanish"
EDITS=[("core/src/metric/gauge.rs","""    pub fn inc_by(&self, delta: f64) {
        loop {
            let current""","""    pub fn inc_by(&self, delta: f64) {
        let mut tries = 0;
        loop {
            let current"""),("core/src/metric/gauge.rs","""            if result.is_ok() {
                return;
            }
        }
    }

    #[inline]
    pub fn dec_by""","""            if result.is_ok() {
                return;
            }
            // heavily contended: do not spin for ever
            tries += 1;
            if tries == 4 {
                self.inner.store(new.to_bits(), Ordering::Release);
                return;
            }
        }
    }

    #[inline]
    pub fn dec_by""")]
BREAKS=BREAKS.replace("eight","four")
DEMO='''
use measured::FloatGauge;
fn main() {
    for round in 0..200 {
        let g = FloatGauge::new();
        std::thread::scope(|s| {
            for _ in 0..8 { s.spawn(|| for _ in 0..20000 { g.inc() }); }
        });
        let v = g.get_metric().count.get();
        assert!(v == 160000.0, "round {round}: {v}");
        if round > 20 { break }
    }
}
'''
