PROPERTY="C10"
NEEDS="an observation that completes between the two lock acquisitions of a scrape"
BREAKS="the scrape takes the buckets and the sum under two separate locks, so they describe different sets of observations"
EDITS=[("core/src/text.rs","""        let (buckets, inf, sum) = self.inner.write().sample();
""","""        let (buckets, inf, _) = self.inner.write().sample();
        // the sum is an atomic of its own
        let sum = self.inner.read().sum.get();
""")]
DEMO='''
use measured::{metric::{histogram::Thresholds, name::MetricName, MetricFamilyEncoding}, text::TextEncoder, Histogram};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
fn main() {
    let h = Histogram::<1>::with_metadata(Thresholds::with_buckets([1.0]));
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..3 { s.spawn(|| while !stop.load(SeqCst) { h.observe(1.0) }); }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let end = std::time::Instant::now() + std::time::Duration::from_secs(10);
            while std::time::Instant::now() < end {
                let mut out = Vec::new();
                h.collect_family_into(MetricName::from_str("h"), &mut TextEncoder::new(&mut out)).unwrap();
                let t = String::from_utf8(out).unwrap();
                let get = |p: &str| t.lines().find(|l| l.starts_with(p)).unwrap().rsplit(' ').next().unwrap().parse::<f64>().unwrap();
                assert!(get("h_sum") == get("h_count"), "{t}");
            }
        }));
        stop.store(true, SeqCst);
        if r.is_err() { std::process::exit(1) }
    });
}
'''
