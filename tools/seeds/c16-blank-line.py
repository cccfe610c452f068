PROPERTY="C16"
NEEDS="a writer that fails exactly on the blank line between two families and then recovers"
BREAKS="the failure of the blank line's single byte is dropped, and the export goes on after the hole"
EDITS=[("core/src/text.rs","""    pub fn write_type(
        &mut self,
        name: &impl MetricNameEncoder,
        typ: MetricType,
    ) -> Result<(), std::io::Error> {
        if self.state == State::Metrics {
            self.write_line()?;
        }""","""    pub fn write_type(
        &mut self,
        name: &impl MetricNameEncoder,
        typ: MetricType,
    ) -> Result<(), std::io::Error> {
        if self.state == State::Metrics {
            self.write_line().or_else(|e| match e.kind() {
                io::ErrorKind::Other => Ok(()),
                _ => Err(e),
            })?;
        }""")]
DEMO='''
use measured::{metric::{name::MetricName, MetricFamilyEncoding}, text::TextEncoder, Counter};
use std::io::{Error, ErrorKind, Write};
struct Once { out: Vec<u8>, fail: usize, done: bool }
impl Write for Once {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if !self.done && self.out.len() + b.len() > self.fail { self.done = true; return Err(Error::new(ErrorKind::Other, "full")); }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let c = Counter::new();
    let export = |fail| {
        let mut e = TextEncoder::new(Once { out: vec![], fail, done: false });
        let r = c.collect_family_into(MetricName::from_str("a"), &mut e)
            .and_then(|()| c.collect_family_into(MetricName::from_str("b"), &mut e));
        (r.is_ok(), e.writer.out.len())
    };
    let (ok, n) = export(usize::MAX);
    assert!(ok);
    for i in 0..n { assert!(!export(i).0, "failure at byte {i} was hidden"); }
}
'''
