PROPERTY="C06"
NEEDS="a decrement by a negative amount on the shared access path"
BREAKS="decrementing by a negative amount does nothing instead of raising the gauge"
EDITS=[("core/src/metric/gauge.rs","""    pub fn dec_by(self, x: i64) {
        self.count
            .fetch_sub(x, core::sync::atomic::Ordering::Relaxed);""","""    pub fn dec_by(self, x: i64) {
        self.count
            .fetch_sub(x.max(0), core::sync::atomic::Ordering::Relaxed);""")]
DEMO='''
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    let g = measured::Gauge::new();
    g.set(5);
    g.dec_by(2);
    assert_eq!(g.get_metric().count.load(SeqCst), 3);
    g.dec_by(-4);
    assert_eq!(g.get_metric().count.load(SeqCst), 7);
}
'''
