PROPERTY="C02"
NEEDS="a composition whose second set has no fixed cardinality"
BREAKS="the composed set claims a fixed cardinality although one half is unbounded, so a vector over it is laid out densely and cannot hold its label groups"
EDITS=[("core/src/label/group.rs","            .and_then(|x| x.checked_mul(self.1.cardinality()?))","            .and_then(|x| x.checked_mul(self.1.cardinality().unwrap_or(1)))")]
DEMO='''
use measured::label::*;
use measured::{FixedCardinalityLabel, LabelGroup};
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
#[label(singleton = "a")]
enum A { X, Y }
struct N(u64);
impl LabelValue for N { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_int(self.0 as i64) } }
struct Dyn;
impl LabelSet for Dyn {
    type Value<'a> = N;
    fn dynamic_cardinality(&self) -> Option<usize> { None }
    fn encode(&self, v: N) -> Option<usize> { Some(v.0 as usize) }
    fn decode(&self, i: usize) -> N { N(i as u64) }
}
impl DynamicLabelSet for Dyn {}
#[derive(LabelGroup)]
#[label(set = DSet)]
struct D { #[label(dynamic_with = Dyn)] d: N }
fn main() {
    let s = ComposedGroup(StaticLabelSet::<A>::new(), DSet::new(Dyn));
    assert_eq!(s.cardinality(), None);
    let v = measured::CounterVec::with_label_set(s);
    v.inc(ComposedGroup(A::Y, D { d: N(7) }));
    v.inc(ComposedGroup(A::X, D { d: N(8) }));
    assert_eq!(v.get_cardinality(), (2, None));
}
'''
