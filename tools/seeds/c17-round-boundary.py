PROPERTY="C17"
NEEDS="a string (label value or help text) of exactly 16384 bytes"
BREAKS="the length of the varint of 16384 is computed as two bytes instead of three, so a message announces a length one byte too short"
EDITS=[("prometheus-proto/src/encoding.rs","    ((((value | 1).leading_zeros() ^ 63) * 9 + 73) / 64) as usize","    match value {\n        0..=0x7f => 1,\n        0x80..=0x4000 => 2,\n        _ => ((((value | 1).leading_zeros() ^ 63) * 9 + 73) / 64) as usize,\n    }")]
DEPS='measured = { path = "$repo/core" }\nmeasured-prometheus-protobuf = { path = "$repo/prometheus-proto" }'
DEMO='''
use measured::{metric::{group::Encoding, name::MetricName}, metric::counter::{write_counter, CounterState}, metric::MetricEncoding, LabelGroup};
use measured_prometheus_protobuf::ProtoEncoder;
use measured::label::*;
struct T(usize);
impl LabelValue for T { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_str(&"x".repeat(self.0)) } }
struct G(usize);
impl LabelGroup for G { fn visit_values(&self, v: &mut impl LabelGroupVisitor) { v.write_value(LabelName::from_str("k"), &T(self.0)); } }
fn varint(b: &mut &[u8]) -> u64 {
    let (mut x, mut s) = (0, 0);
    loop { let c = b[0]; *b = &b[1..]; x |= ((c & 127) as u64) << s; s += 7; if c < 128 { return x } }
}
/// the fields of a message, which must end exactly at its end
fn fields(mut b: &[u8]) -> Vec<(u64, Vec<u8>)> {
    let mut out = vec![];
    while !b.is_empty() {
        let k = varint(&mut b);
        let n = match k & 7 { 0 => { varint(&mut b); 0 } 1 => 8, 2 => varint(&mut b) as usize, _ => panic!("wire type") };
        assert!(n <= b.len(), "a field longer than its message");
        out.push((k >> 3, b[..n].to_vec()));
        b = &b[n..];
    }
    out
}
fn main() {
    for n in [1, 127, 128, 16383, 16384, 16385] {
        let mut out = vec![];
        let mut e = ProtoEncoder::new(&mut out);
        let name = MetricName::from_str("m");
        CounterState::write_type(name, &mut e).unwrap();
        write_counter(&mut e, name, G(n), 1).unwrap();
        e.flush().unwrap();
        drop(e);
        let mut b = &out[..];
        let l = varint(&mut b) as usize;
        assert_eq!(l, b.len());
        let family = fields(b);
        let metric = fields(&family.iter().find(|f| f.0 == 4).unwrap().1);
        let label = fields(&metric.iter().find(|f| f.0 == 1).unwrap().1);
        assert_eq!(label.iter().find(|f| f.0 == 2).unwrap().1.len(), n);
    }
    let _ = |e: &mut ProtoEncoder<Vec<u8>>| e.write_help(MetricName::from_str("m"), "");
}
'''
