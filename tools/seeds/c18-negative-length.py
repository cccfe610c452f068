PROPERTY="C18"
NEEDS="a protobuf export with a negative integer label"
BREAKS="the length of a label is computed from the absolute value of its integer, so the label pair and the metric announce one byte too few and the rest of the message cannot be read"
EDITS=[("prometheus-proto/src/lib.rs","        encoding::string::encoded_len(2, itoa::Buffer::new().format(x))","        encoding::string::encoded_len(2, itoa::Buffer::new().format(x.unsigned_abs()))")]
DEPS='measured = { path = "$repo/core" }\nmeasured-prometheus-protobuf = { path = "$repo/prometheus-proto" }'
DEMO='''
use measured::{metric::name::MetricName, metric::counter::{write_counter, CounterState}, metric::MetricEncoding, LabelGroup};
use measured_prometheus_protobuf::ProtoEncoder;
use measured::label::*;
struct I(i64);
impl LabelValue for I { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_int(self.0) } }
struct G(i64);
impl LabelGroup for G { fn visit_values(&self, v: &mut impl LabelGroupVisitor) { v.write_value(LabelName::from_str("k"), &I(self.0)); } }
fn main() {
    for (x, text) in [(0, "0"), (7, "7"), (-7, "-7"), (i64::MIN, "-9223372036854775808")] {
        let mut out = vec![];
        let mut e = ProtoEncoder::new(&mut out);
        let name = MetricName::from_str("m");
        CounterState::write_type(name, &mut e).unwrap();
        write_counter(&mut e, name, G(x), 1).unwrap();
        e.flush().unwrap();
        drop(e);
        let t = text.len() as u8;
        let mut want = vec![10, 1, b'm', 24, 0, 34, t + 18, 10, t + 5, 10, 1, b'k', 18, t];
        want.extend(text.bytes());
        want.extend([26, 9, 9]);
        want.extend(1f64.to_le_bytes());
        want.insert(0, want.len() as u8);
        assert_eq!(out, want);
    }
}
'''
