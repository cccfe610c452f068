PROPERTY="C13"
NEEDS="MetricName::try_from_str with a one-character name that is a digit"
BREAKS="the name \"7\" is accepted although a metric name must not start with a digit"
EDITS=[("core/src/metric/name.rs","""    if value.as_bytes()[0].is_ascii_digit() {
        return""","""    if matches!(value.as_bytes(), [b'0'..=b'9', _, ..]) {
        return""")]
DEMO='''
use measured::metric::name::MetricName;
fn main() {
    assert!(MetricName::try_from_str("a").is_ok());
    assert!(MetricName::try_from_str("7a").is_err());
    assert!(MetricName::try_from_str("7").is_err());
}
'''
