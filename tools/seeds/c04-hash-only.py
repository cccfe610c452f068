PROPERTY="C04"
NEEDS="two label groups whose 64-bit hashes collide, addressed through exclusive access in a sparse vector"
BREAKS="exclusive access finds an entry by its hash alone, so colliding label groups share one metric"
EDITS=[("core/src/metric/sparse.rs","        let entry = shard.get_mut().find_entry(id.hash, |(k, _)| *k == id.id);\n        let (_, v) = match entry {","        let hasher = &self.hasher;\n        let entry = shard\n            .get_mut()\n            .find_entry(id.hash, |(k, _)| hasher.hash_one(k) == id.hash);\n        let (_, v) = match entry {")]
DEMO='''
use measured::{label::*, CounterVec, LabelGroup};
#[derive(Clone, Copy)]
struct N(u64);
impl LabelValue for N { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_int(self.0 as i64) } }
#[derive(Default)]
struct Dyn;
impl LabelSet for Dyn {
    type Value<'a> = N;
    fn dynamic_cardinality(&self) -> Option<usize> { None }
    fn encode(&self, v: N) -> Option<usize> { Some(v.0 as usize) }
    fn decode(&self, i: usize) -> N { N(i as u64) }
}
impl DynamicLabelSet for Dyn {}
#[derive(Clone, Copy, LabelGroup)]
#[label(set = GSet)]
struct G { #[label(dynamic_with = Dyn, default)] a: N, #[label(dynamic_with = Dyn, default)] b: N }
// two identifiers with one FxHash value: (0, a, b) and (0, c, d)
fn pair() -> (G, G) {
    let k: u64 = 0x517cc1b727220a95;
    let step = |h: u64, v: u64| (h.rotate_left(5) ^ v).wrapping_mul(k);
    let (a, b, c) = (1u64, 2u64, 3u64);
    let h0 = step(0, 0);
    let d = step(h0, a).rotate_left(5) ^ b ^ step(h0, c).rotate_left(5);
    assert_eq!(step(step(h0, a), b), step(step(h0, c), d));
    (G { a: N(a), b: N(b) }, G { a: N(c), b: N(d) })
}
fn main() {
    let (g, h) = pair();
    let mut v = CounterVec::<GSet>::new();
    v.inc_by_mut(g, 10);
    v.inc_by_mut(h, 1);
    assert_eq!(v.get_cardinality().0, 2);
    let id = v.with_labels(g);
    assert_eq!(v.get_metric(id).count.load(std::sync::atomic::Ordering::SeqCst), 10);
}
'''
