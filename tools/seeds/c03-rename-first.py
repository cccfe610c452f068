PROPERTY="C03"
NEEDS="an enum variant that has both an explicit rename and an integer discriminant"
BREAKS="such a variant is written as its rename instead of its integer"
EDITS=[("derive/src/value/to_tokens.rs","if let Some(int) = &var.value {","if let (Some(int), None) = (&var.value, &var.attrs.rename) {")]
DEMO='''
use measured::{label::{LabelTestVisitor, LabelValue}, FixedCardinalityLabel};
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
enum Code { #[label(rename = "fine")] Ok = 200, NotFound = 404 }
fn main() {
    assert_eq!(Code::NotFound.visit(LabelTestVisitor), "404");
    assert_eq!(Code::Ok.visit(LabelTestVisitor), "200");
}
'''
