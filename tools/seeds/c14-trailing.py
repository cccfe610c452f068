PROPERTY="C14"
NEEDS="a label value with at least two characters that need escaping, the last of them at its very end"
BREAKS="the final special character is written raw, so the value ends early or spills onto a new line"
EDITS=[("core/src/text.rs","""    for j in memchr3_iter(b'\\\\', b'"', b'\\n', s.as_bytes()) {
        b.write_all(&s.as_bytes()[i..j])?;""","""    for j in memchr3_iter(b'\\\\', b'"', b'\\n', s.as_bytes()) {
        if i > 0 && j + 1 == s.len() {
            break;
        }
        b.write_all(&s.as_bytes()[i..j])?;""")]
DEMO='''
use measured::{label::*, text::TextEncoder, CounterVec, metric::{MetricFamilyEncoding, name::MetricName}, LabelGroup};
#[derive(Clone, Copy)]
struct V(&'static str);
impl LabelValue for V { fn visit<X: LabelVisitor>(&self, v: X) -> X::Output { v.write_str(self.0) } }
#[derive(Default)]
struct Dyn;
const ALL: [&str; 3] = ["plain", "a\\\\b", "a\\"b\\n"];
impl LabelSet for Dyn {
    type Value<'a> = V;
    fn dynamic_cardinality(&self) -> Option<usize> { None }
    fn encode(&self, v: V) -> Option<usize> { ALL.iter().position(|x| *x == v.0) }
    fn decode(&self, i: usize) -> V { V(ALL[i]) }
}
impl DynamicLabelSet for Dyn {}
#[derive(Clone, Copy, LabelGroup)]
#[label(set = GSet)]
struct G { #[label(dynamic_with = Dyn, default)] a: V }
fn text(i: usize) -> String {
    let v = CounterVec::<GSet>::new();
    v.inc(G { a: V(ALL[i]) });
    let mut out = Vec::new();
    v.collect_family_into(MetricName::from_str("n"), &mut TextEncoder::new(&mut out)).unwrap();
    String::from_utf8(out).unwrap()
}
fn main() {
    assert!(text(0).ends_with("n{a=\\"plain\\"} 1\\n"));
    assert!(text(1).ends_with("n{a=\\"a\\\\\\\\b\\"} 1\\n"));
    assert!(text(2).ends_with("n{a=\\"a\\\\\\"b\\\\n\\"} 1\\n"), "{}", text(2));
}
'''
