PROPERTY="C24"
NEEDS="init_all_dense on a vector that already holds recorded values"
BREAKS="initialising in advance replaces metrics that already exist, losing what was recorded"
EDITS=[("core/src/metric.rs","""            for m in metrics.iter_mut() {
                if m.get_mut().is_none() {""","""            if metrics.iter().all(|m| m.get().is_some()) {
                return;
            }
            for m in metrics.iter_mut() {
                {""")]
DEMO='''
use measured::{CounterVec, FixedCardinalityLabel, label::StaticLabelSet};
use std::sync::atomic::Ordering::SeqCst;
#[derive(Clone, Copy, FixedCardinalityLabel)]
#[label(singleton = "a")]
enum A { X, Y }
fn main() {
    let mut v = CounterVec::<StaticLabelSet<A>>::new();
    v.inc_by(A::Y, 3);
    v.init_all_dense();
    assert_eq!(v.get_cardinality(), (2, Some(2)));
    let n = |a| v.get_metric(v.with_labels(a)).count.load(SeqCst);
    assert_eq!((n(A::X), n(A::Y)), (0, 3));
}
'''
