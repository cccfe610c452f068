PROPERTY="C25"
NEEDS="a sparse vector with a label group whose hash selects the last shard"
BREAKS="label groups stored in the last shard are never exported"
EDITS=[("core/src/metric.rs","""                for shard in m.shards.iter() {
                    for (k, v) in shard.read().iter() {""","""                let shards = m.shards.len() - 1;
                for shard in m.shards[..shards].iter() {
                    for (k, v) in shard.read().iter() {""")]
DEMO='''
use measured::{label::*, metric::{name::MetricName, MetricFamilyEncoding}, text::TextEncoder, CounterVec, LabelGroup};
#[derive(Clone, Copy)]
struct V(i64);
impl LabelValue for V { fn visit<X: LabelVisitor>(&self, v: X) -> X::Output { v.write_int(self.0) } }
#[derive(Default)]
struct Ints;
impl LabelSet for Ints {
    type Value<'a> = V;
    fn dynamic_cardinality(&self) -> Option<usize> { Some(2000) }
    fn encode(&self, v: V) -> Option<usize> { Some(v.0 as usize) }
    fn decode(&self, i: usize) -> V { V(i as i64) }
}
impl FixedCardinalitySet for Ints { fn cardinality(&self) -> usize { 2000 } }
#[derive(Clone, Copy, LabelGroup)]
#[label(set = GSet)]
struct G { #[label(fixed_with = Ints, default)] a: V }
fn main() {
    let v = CounterVec::<GSet>::sparse();
    for i in 0..2000 { v.inc(G { a: V(i) }); }
    let mut out = Vec::new();
    v.collect_family_into(MetricName::from_str("n"), &mut TextEncoder::new(&mut out)).unwrap();
    let t = String::from_utf8(out).unwrap();
    assert_eq!(t.lines().filter(|l| l.starts_with("n{")).count(), 2000);
    for i in 0..2000 { assert!(t.contains(&format!("n{{a=\\"{i}\\"}} 1\\n"))); }
}
'''
