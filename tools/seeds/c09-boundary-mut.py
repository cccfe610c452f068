PROPERTY="C09"
NEEDS="an observation through exclusive access that lies exactly on a bucket bound"
BREAKS="such an observation is counted in the next bucket, so the bucket whose upper bound equals it misses it"
EDITS=[("core/src/metric/histogram.rs","""    pub fn observe(mut self, x: f64) {
        let bucket = self.metadata().le.partition_point(|le| x > *le || x.is_nan());""","""    pub fn observe(mut self, x: f64) {
        let bucket = self.metadata().le.partition_point(|le| !(x < *le));""")]
DEMO='''
use measured::{metric::histogram::Thresholds, Histogram};
fn main() {
    let mut h = Histogram::<2>::with_metadata(Thresholds::with_buckets([1.0, 2.0]));
    h.get_metric_mut().observe(0.5);
    h.get_metric_mut().observe(2.0);
    let m = h.get_metric();
    let mut i = m.inner.write();
    assert_eq!(*i.buckets[0].get_mut(), 1);
    assert_eq!(*i.buckets[1].get_mut(), 1);
    assert_eq!(*i.inf.get_mut(), 0);
}
'''
