PROPERTY="C10"
NEEDS="a scrape between the bucket update and the sum update of one observation"
BREAKS="the read lock is released before the sum is updated, so a scrape can count an observation whose value is not in the sum yet"
EDITS=[("core/src/metric/histogram.rs","""        let bucket = self.metadata().le.partition_point(|le| x > *le || x.is_nan());
        self.inner.read().observe(bucket, x);
""","""        let bucket = self.metadata().le.partition_point(|le| x > *le || x.is_nan());
        let inner = self.inner.read();
        match inner.buckets.get(bucket) {
            Some(bucket) => bucket.fetch_add(1, Ordering::Relaxed),
            None => inner.inf.fetch_add(1, Ordering::Relaxed),
        };
        drop(inner);
        self.inner.read().sum.inc_by(x);
""")]
DEMO='''
use measured::{metric::{histogram::Thresholds, name::MetricName, MetricFamilyEncoding}, text::TextEncoder, Histogram};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
fn main() {
    let h = Histogram::<1>::with_metadata(Thresholds::with_buckets([1.0]));
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..3 { s.spawn(|| while !stop.load(SeqCst) { h.observe(1.0) }); }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let end = std::time::Instant::now() + std::time::Duration::from_secs(10);
            while std::time::Instant::now() < end {
                let mut out = Vec::new();
                h.collect_family_into(MetricName::from_str("h"), &mut TextEncoder::new(&mut out)).unwrap();
                let t = String::from_utf8(out).unwrap();
                let get = |p: &str| t.lines().find(|l| l.starts_with(p)).unwrap().rsplit(' ').next().unwrap().parse::<f64>().unwrap();
                assert!(get("h_sum") == get("h_count"), "{t}");
            }
        }));
        stop.store(true, SeqCst);
        if r.is_err() { std::process::exit(1) }
    });
}
'''
