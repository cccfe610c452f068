PROPERTY="C23"
NEEDS="a dynamic label backed by an index set whose capacity is larger than its length"
BREAKS="the set reports its capacity as its cardinality"
EDITS=[("core/src/label/impls.rs","""    type Value<'a> = T;

    fn dynamic_cardinality(&self) -> Option<usize> {
        Some(self.len())""","""    type Value<'a> = T;

    fn dynamic_cardinality(&self) -> Option<usize> {
        Some(self.capacity())""")]
DEPS='measured = { path = "$repo/core", features = ["indexmap"] }\nindexmap = "2"'
DEMO='''
use measured::label::{FixedCardinalitySet, LabelSet};
fn main() {
    let mut s = indexmap::IndexSet::<&'static str>::with_capacity(100);
    s.insert("a");
    s.insert("b");
    assert_eq!(s.cardinality(), 2);
    assert_eq!(s.dynamic_cardinality(), Some(2));
}
'''
