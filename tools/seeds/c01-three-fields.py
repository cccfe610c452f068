PROPERTY="C01"
NEEDS="a label group with at least three fixed-cardinality fields, and a value other than the first one in the field with the largest place value"
BREAKS="the generated encoder assigns instead of multiplying the running multiplier, so the place value of the third field is wrong: different groups share an identifier and do not decode to themselves"
EDITS=[("derive/src/label_group/to_tokens.rs","                    mul *= #cardinalities;","                    mul = #cardinalities;")]
DEMO='''
use measured::{label::LabelGroupSet, FixedCardinalityLabel, LabelGroup};
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
enum A { X, Y }
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
enum B { P, Q, R }
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GSet)]
struct G { a: A, b: B, c: A }
fn main() {
    let s = GSet::new();
    for a in [A::X, A::Y] { for b in [B::P, B::Q, B::R] { for c in [A::X, A::Y] {
        let g = G { a, b, c };
        let id = s.encode(g).unwrap();
        assert!(id < s.cardinality().unwrap());
        assert_eq!(s.decode(&id), g);
    }}}
}
'''
