PROPERTY="C19"
NEEDS="a metric group in which a nested group is declared before a metric"
BREAKS="members are exported metrics first and groups last instead of in declaration order"
EDITS=[("derive/src/metric_group/to_tokens.rs","        let visits = fields.iter().map(|x| {\n","        let (metrics, groups): (Vec<_>, Vec<_>) = fields\n            .iter()\n            .partition(|x| matches!(x.attrs.kind, MetricGroupFieldAttrsKind::Metric { .. }));\n        let visits = metrics.into_iter().chain(groups).map(|x| {\n")]
DEMO='''
use measured::{text::BufferedTextEncoder, Counter, MetricGroup};
#[derive(MetricGroup, Default)]
struct In { b: Counter }
#[derive(MetricGroup, Default)]
struct Out { a: Counter, #[metric(namespace = "n")] g: In, c: Counter }
fn main() {
    let mut e = BufferedTextEncoder::new();
    Out::default().collect_group_into(&mut e).unwrap();
    let t = String::from_utf8(e.finish().to_vec()).unwrap();
    let at = |s: &str| t.find(s).unwrap();
    assert!(at("# TYPE a ") < at("# TYPE n_b ") && at("# TYPE n_b ") < at("# TYPE c "), "{t}");
}
'''
