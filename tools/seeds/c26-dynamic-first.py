PROPERTY="C26"
NEEDS="a label group in which a dynamic field is declared after a fixed one"
BREAKS="labels are listed dynamic fields first instead of in declaration order"
EDITS=[("derive/src/label_group/to_tokens.rs","        let visits = fields.iter().map(|x| {","        let mut ordered: Vec<_> = fields.iter().collect();\n        ordered.sort_by_key(|x| x.attrs.get_sort_key());\n        let visits = ordered.into_iter().map(|x| {")]
DEMO='''
use measured::{label::*, metric::{name::MetricName, MetricFamilyEncoding}, text::TextEncoder, CounterVec, FixedCardinalityLabel, LabelGroup};
#[derive(Clone, Copy, FixedCardinalityLabel)]
enum A { X }
#[derive(Clone, Copy)]
struct N(u64);
impl LabelValue for N { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_int(self.0 as i64) } }
#[derive(Default)]
struct Dyn;
impl LabelSet for Dyn {
    type Value<'a> = N;
    fn dynamic_cardinality(&self) -> Option<usize> { None }
    fn encode(&self, v: N) -> Option<usize> { Some(v.0 as usize) }
    fn decode(&self, i: usize) -> N { N(i as u64) }
}
impl DynamicLabelSet for Dyn {}
#[derive(Clone, Copy, LabelGroup)]
#[label(set = GSet)]
struct G { kind: A, #[label(dynamic_with = Dyn, default)] user: N }
fn main() {
    let v = CounterVec::<GSet>::new();
    v.inc(G { kind: A::X, user: N(4) });
    let mut out = Vec::new();
    v.collect_family_into(MetricName::from_str("n"), &mut TextEncoder::new(&mut out)).unwrap();
    let t = String::from_utf8(out).unwrap();
    assert!(t.contains("n{kind=\\"x\\",user=\\"4\\"} 1\\n"), "{t}");
}
'''
