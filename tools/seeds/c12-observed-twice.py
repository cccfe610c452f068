PROPERTY="C12"
NEEDS="a vector timer that is stopped explicitly"
BREAKS="an explicitly stopped vector timer still holds its histogram, so it records a second observation when it is dropped"
EDITS=[("core/src/metric/histogram.rs","""        let v = self.vec.take().unwrap();
        v.get_metric(self.id).observe_duration_since(self.start)""","""        let v = *self.vec.get_or_insert_with(|| unreachable!());
        v.get_metric(self.id).observe_duration_since(self.start)""")]
DEMO='''
use measured::{metric::histogram::Thresholds, FixedCardinalityLabel, HistogramVec, label::StaticLabelSet};
#[derive(Clone, Copy, FixedCardinalityLabel)]
#[label(singleton = "a")]
enum A { X, Y }
fn main() {
    let h = HistogramVec::<StaticLabelSet<A>, 1>::with_metadata(Thresholds::with_buckets([1e9]));
    h.start_timer(A::X).observe();
    drop(h.start_timer(A::Y));
    for a in [A::X, A::Y] {
        let m = h.get_metric(h.with_labels(a));
        let mut i = m.inner.write();
        assert_eq!(*i.buckets[0].get_mut(), 1);
    }
}
'''
