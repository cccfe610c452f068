PROPERTY="C22"
NEEDS="two threads that both find a label group of a sparse vector missing before either inserts it"
BREAKS="the slow path inserts without looking again, so the label group exists twice and updates are split between the copies"
EDITS=[("core/src/metric/sparse.rs","""            let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
            match entry {
                Ok(_) => {}
                Err(_) => {
                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                        self.hasher.hash_one(k)
                    });
                }
            }
            RwLockWriteGuard""","""            // the read above found nothing
            shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                self.hasher.hash_one(k)
            });
            RwLockWriteGuard""")]
DEMO='''
use measured::{label::*, CounterVec, FixedCardinalityLabel};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
#[derive(Clone, Copy, FixedCardinalityLabel)]
#[label(singleton = "a")]
enum A { X, Y }
fn main() {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    while std::time::Instant::now() < end {
        let v = CounterVec::<StaticLabelSet<A>>::sparse();
        let ready = AtomicUsize::new(0);
        std::thread::scope(|s| for _ in 0..4 {
            s.spawn(|| {
                ready.fetch_add(1, SeqCst);
                while ready.load(SeqCst) < 4 { std::hint::spin_loop() }
                v.inc(A::X);
            });
        });
        assert_eq!(v.get_cardinality().0, 1);
        assert_eq!(v.get_metric(v.with_labels(A::X)).count.load(SeqCst), 4);
        let _ = A::Y;
    }
}
'''
