PROPERTY="C11"
NEEDS="three or more explicit bounds where the only misordered neighbours are the second and third (or fourth and fifth, ...)"
BREAKS="bounds are checked in disjoint pairs, so a decrease between two pairs is accepted"
EDITS=[("core/src/metric/histogram.rs","""        for i in 1..N {
            assert!(""","""        for i in (1..N).step_by(2) {
            assert!(""")]
DEMO='''
use measured::metric::histogram::Thresholds;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| Thresholds::with_buckets([1.0, 2.0, 3.0])).is_ok());
    assert!(std::panic::catch_unwind(|| Thresholds::with_buckets([2.0, 1.0, 3.0])).is_err());
    assert!(std::panic::catch_unwind(|| Thresholds::with_buckets([1.0, 3.0, 2.0])).is_err());
    assert!(std::panic::catch_unwind(|| Thresholds::with_buckets([1.0, 2.0, 2.0, 3.0])).is_err());
}
'''
