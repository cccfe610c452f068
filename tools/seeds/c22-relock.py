PROPERTY="C22"
NEEDS="a removal of the label group between the insertion and the second lookup of its first use"
BREAKS="the write lock is released before the entry is looked up again, so a removal in between makes the update panic"
EDITS=[("core/src/metric/sparse.rs","""            RwLockWriteGuard::downgrade(shard)
        };""","""            drop(shard);
            self.shards[((id.hash as usize) << 7) >> self.shift].read()
        };"""),("core/src/metric/sparse.rs","use parking_lot::{MappedRwLockReadGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};","use parking_lot::{MappedRwLockReadGuard, RwLock, RwLockReadGuard};")]
DEMO='''
use measured::{label::*, CounterVec, FixedCardinalityLabel};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
#[derive(Clone, Copy, FixedCardinalityLabel)]
#[label(singleton = "a")]
enum A { X, Y }
fn main() {
    let v = CounterVec::<StaticLabelSet<A>>::sparse();
    let id = v.with_labels(A::X);
    let stop = AtomicBool::new(false);
    let failed = std::thread::scope(|s| {
        for _ in 0..2 { s.spawn(|| while !stop.load(SeqCst) { v.remove_metric(id); }); }
        let h: Vec<_> = (0..2).map(|_| s.spawn(|| {
            let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
            while std::time::Instant::now() < end { v.inc(A::X); }
        })).collect();
        let failed = h.into_iter().any(|h| h.join().is_err());
        stop.store(true, SeqCst);
        failed
    });
    let _ = A::Y;
    if failed { std::process::exit(1) }
}
'''
