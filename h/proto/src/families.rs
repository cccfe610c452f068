//! C18 protobuf families, C16 failing writers.
use crate::nd;
use crate::rec::*;
use measured::label::{ComposedGroup, LabelGroup, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor, NoLabels};
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::group::Encoding;
use measured::metric::name::{MetricName, MetricNameEncoder, Total};
use measured::metric::MetricEncoding;
use measured::*;
use measured_prometheus_protobuf::ProtoEncoder;

/// The messages a reader must find, written from the schema
/// (io.prometheus.client.MetricFamily).
struct Want {
    r: Rec,
    /// where numbers in labels are
    num: [usize; 2],
    nums: usize,
}
const fn vlen(n: usize) -> usize {
    if n < 128 { 1 } else { 2 }
}
const fn field(n: usize) -> usize {
    1 + vlen(n) + n
}
struct Fam {
    name: &'static str,
    help: Option<&'static str>,
    ty: Option<u8>,
}
#[derive(Clone, Copy)]
enum V<'a> {
    S(&'a str),
    I(i64),
    F(f64),
}
/// field number of the sample within a metric
const COUNTER: u8 = 3;
const GAUGE: u8 = 2;
impl V<'_> {
    fn len(&self) -> usize {
        match self {
            V::S(s) => s.len(),
            V::I(i) => itoa::Buffer::new().format(*i).len(),
            V::F(f) => ryu::Buffer::new().format(*f).len(),
        }
    }
}
struct Sample<'a> {
    labels: &'a [(&'static str, V<'a>)],
    kind: u8,
    value: f64,
}
impl Sample<'_> {
    fn len(&self) -> usize {
        let mut n = field(9);
        for (k, v) in self.labels {
            n += field(field(k.len()) + field(v.len()));
        }
        n
    }
}
impl Want {
    fn new() -> Self {
        Want { r: Rec::new(), num: [0; 2], nums: 0 }
    }
    fn head(&mut self, tag: u8, len: usize) {
        self.r.byte(tag << 3 | 2);
        self.varint(len);
    }
    fn varint(&mut self, len: usize) {
        if len < 128 {
            self.r.byte(len as u8);
        } else {
            self.r.byte(len as u8 | 0x80);
            self.r.byte((len >> 7) as u8);
        }
    }
    fn string(&mut self, tag: u8, s: &str) {
        self.head(tag, s.len());
        self.r.put_long(s.as_bytes());
    }
    fn value(&mut self, v: &V) {
        let at = self.r.n + 1 + vlen(v.len());
        match v {
            V::S(s) => return self.string(2, s),
            V::I(i) => self.string(2, itoa::Buffer::new().format(*i)),
            V::F(f) => self.string(2, ryu::Buffer::new().format(*f)),
        }
        self.num[self.nums] = at;
        self.nums += 1;
    }
    fn family(mut self, f: Fam, samples: &[Sample]) -> Self {
        let mut n = field(f.name.len());
        if let Some(h) = f.help {
            n += field(h.len());
        }
        if f.ty.is_some() {
            n += 2;
        }
        for s in samples {
            n += field(s.len());
        }
        self.varint(n);
        self.string(1, f.name);
        if let Some(h) = f.help {
            self.string(2, h);
        }
        if let Some(t) = f.ty {
            self.r.byte(3 << 3);
            self.r.byte(t);
        }
        for s in samples {
            self.head(4, s.len());
            for (k, v) in s.labels {
                self.head(1, field(k.len()) + field(v.len()));
                self.string(1, k);
                self.value(v);
            }
            self.head(s.kind, 9);
            self.r.byte(1 << 3 | 1);
            self.r.put(&s.value.to_bits().to_le_bytes());
        }
        self
    }
    #[cfg(kani)]
    fn check(&self, got: &Rec) {
        use crate::stubs::TOKENS;
        let mut k = 0;
        each(got, &self.r, &mut |at, x, y| {
            if k < self.nums && at == self.num[k] + 1 {
                assert!(unsafe { TOKENS[x as usize - 97] == TOKENS[y as usize - 97] }, "exported number differs");
                k += 1;
            } else {
                assert!(x == y, "exported messages differ");
            }
        });
    }
    #[cfg(not(kani))]
    fn check(&self, got: &Rec) {
        same(got, &self.r);
    }
}
fn name(s: &'static str) -> &'static MetricName {
    MetricName::from_str(s)
}
type Enc = ProtoEncoder<Long>;
fn enc() -> Enc {
    ProtoEncoder::new(Long(Rec::new()))
}
fn done(mut e: Enc, want: &Want) {
    e.flush().unwrap();
    want.check(&e.writer.0);
    core::mem::forget(e);
}
/// labels of a sample
struct Lab<'a>(&'a [(&'static str, V<'a>)]);
impl LabelGroup for Lab<'_> {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        for (k, x) in self.0 {
            v.write_value(LabelName::from_str(k), x);
        }
    }
}
impl LabelValue for V<'_> {
    fn visit<X: LabelVisitor>(&self, v: X) -> X::Output {
        match self {
            V::S(s) => v.write_str(s),
            V::I(i) => v.write_int(*i),
            V::F(f) => v.write_float(*f),
        }
    }
}
fn counter(x: u64) -> CounterState {
    let c = CounterState::default();
    c.count.store(x, core::sync::atomic::Ordering::SeqCst);
    c
}
fn gauge(x: i64) -> GaugeState {
    let c = GaugeState::default();
    c.count.store(x, core::sync::atomic::Ordering::SeqCst);
    c
}
fn float(x: f64) -> FloatGaugeState {
    let c = FloatGaugeState::default();
    c.count.set(x);
    c
}
fn ascii<const N: usize>() -> [u8; N] {
    let mut b = [0; N];
    let mut i = 0;
    while i < N {
        b[i] = nd::u8();
        nd::assume(b[i] < 0x80);
        i += 1;
    }
    b
}
fn text(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}

/// how a family is exported
#[derive(Clone, Copy)]
struct Plan {
    name: &'static str,
    help: bool,
    ty: bool,
    samples: usize,
}
impl Plan {
    fn run(&self, x: u64, e: &mut Enc, want: Want) -> Want {
        let n = name(self.name);
        if self.help {
            e.write_help(n, "h").unwrap();
        }
        if self.ty {
            CounterState::write_type(n, e).unwrap();
        }
        let one = [("k", V::S("v"))];
        let first = Sample { labels: &[], kind: COUNTER, value: x as f64 };
        let second = Sample { labels: &one, kind: COUNTER, value: !x as f64 };
        let f = Fam { name: self.name, help: if self.help { Some("h") } else { None }, ty: if self.ty { Some(0) } else { None } };
        if self.samples == 0 {
            return want;
        }
        counter(x).collect_into(&(), NoLabels, n, e).unwrap();
        if self.samples == 1 {
            return want.family(f, &[first]);
        }
        counter(!x).collect_into(&(), Lab(&one), n, e).unwrap();
        want.family(f, &[first, second])
    }
}
/// every kind of family after the given one, with and without a flush between
fn pairs(help: bool, ty: bool, samples: usize, flush: bool) {
    let x = nd::u64();
    let a = Plan { name: "ab", help, ty, samples };
    macro_rules! second {
        ($($n:literal $help:literal $ty:literal $samples:literal;)*) => {$({
            let mut e = enc();
            let mut w = Want::new();
            w = a.run(x, &mut e, w);
            if flush {
                e.flush().unwrap();
            }
            w = Plan { name: $n, help: $help, ty: $ty, samples: $samples }.run(x, &mut e, w);
            done(e, &w);
        })*};
    }
    second! {
        "ac" true true 1;
        "a" false true 1;
        "abc" false false 1;
    }
}
/// an empty family in front of, between and after others
fn gaps(help: bool, ty: bool) {
    let x = nd::u64();
    let full = |n| Plan { name: n, help: true, ty: true, samples: 1 };
    let empty = |n| Plan { name: n, help, ty, samples: 0 };
    let mut e = enc();
    let mut w = Want::new();
    w = empty("a").run(x, &mut e, w);
    w = full("ab").run(x, &mut e, w);
    w = empty("abc").run(x, &mut e, w);
    w = full("ac").run(x, &mut e, w);
    w = empty("b").run(x, &mut e, w);
    done(e, &w);
}
fn long<const N: usize>() {
    let mut b = [b'y'; N];
    b[N - 1] = ascii::<1>()[0];
    let x = nd::u64();
    let labels = [("k", V::S(text(&b)))];
    let mut e = enc();
    CounterState::write_type(name("ab"), &mut e).unwrap();
    counter(x).collect_into(&(), Lab(&labels), name("ab"), &mut e).unwrap();
    done(e, &Want::new().family(Fam { name: "ab", help: None, ty: Some(0) },
        &[Sample { labels: &labels, kind: COUNTER, value: x as f64 }]));
}
fn number(v: V) {
    let x = nd::i64();
    let labels = [("k", v), ("lm", V::S(""))];
    let mut e = enc();
    gauge(x).collect_into(&(), Lab(&labels), name("ab"), &mut e).unwrap();
    done(e, &Want::new().family(Fam { name: "ab", help: None, ty: None },
        &[Sample { labels: &labels, kind: GAUGE, value: x as f64 }]));
}
/// a float label which has a spelling of its own
fn spelt(v: V<'static>, s: &'static str) {
    let x = nd::i64();
    let labels = [("k", v)];
    let want = [("k", V::S(s))];
    let mut e = enc();
    gauge(x).collect_into(&(), Lab(&labels), name("ab"), &mut e).unwrap();
    done(e, &Want::new().family(Fam { name: "ab", help: None, ty: None },
        &[Sample { labels: &want, kind: GAUGE, value: x as f64 }]));
}
#[derive(MetricGroup)]
struct Metrics {
    /// first
    one: Counter,
    none: Option<Gauge>,
    /// third
    #[metric(rename = "third")]
    gone: Option<Counter>,
    #[metric(namespace = "n")]
    inner: Inner,
}
#[derive(MetricGroup)]
struct Pair {
    one: Counter,
    two: Gauge,
}
#[derive(MetricGroup)]
struct Inner {
    /// x
    f: FloatGauge,
}

/// A failure within the first `first` bytes is reported by `run`, which writes
/// these; a later one when the encoder is flushed.
fn faulty(want: Want, first: usize, run: impl FnOnce(&mut ProtoEncoder<Faulty<'_>>) -> std::io::Result<()>, early: bool) {
    let e = ProtoEncoder::new(Faulty::new(&want.r));
    let late = if early { fails_early(e, first, run) } else { fails_late(e, first, run) };
    witness!(late, "failed after some bytes");
}
#[inline(never)]
fn fails_early<'a>(mut e: ProtoEncoder<Faulty<'a>>, first: usize, run: impl FnOnce(&mut ProtoEncoder<Faulty<'a>>) -> std::io::Result<()>) -> bool {
    nd::assume(e.writer.fail < first);
    e.writer.by = first;
    e.writer.kind = std::io::ErrorKind::Other;
    let r = run(&mut e);
    assert!(r.is_err(), "the result hides a failure of the writer");
    assert!(e.writer.failed && e.writer.at == e.writer.fail);
    let late = e.writer.at > 0;
    core::mem::forget((r, e));
    late
}
#[inline(never)]
fn fails_late<'a>(mut e: ProtoEncoder<Faulty<'a>>, first: usize, run: impl FnOnce(&mut ProtoEncoder<Faulty<'a>>) -> std::io::Result<()>) -> bool {
    nd::assume(e.writer.fail >= first);
    e.writer.from = first;
    let r = run(&mut e);
    assert!(r.is_ok(), "an error without a failure of the writer");
    core::mem::forget(r);
    let r = e.flush();
    let ok = r.is_ok();
    core::mem::forget(r);
    let f = &e.writer;
    assert!(ok == (f.fail == f.n), "the result hides a failure of the writer");
    assert!(f.failed != ok);
    if ok {
        assert!(f.at == f.n, "everything was written");
    }
    let late = !ok && f.at > first;
    core::mem::forget(e);
    late
}
fn sample() {
    let labels = [("k", V::S("v"))];
    let want = Want::new().family(Fam { name: "ab", help: Some("h"), ty: Some(0) },
        &[Sample { labels: &labels, kind: COUNTER, value: 7.0 }]);
    faulty(want, 0, |e| {
        e.write_help(name("ab"), "h")?;
        CounterState::write_type(name("ab"), e)?;
        counter(7).collect_into(&(), Lab(&labels), name("ab"), e)
    }, false);
}
fn two(early: bool) {
    let one = |n| Fam { name: n, help: None, ty: Some(1) };
    let want = Want::new()
        .family(one("a"), &[Sample { labels: &[], kind: GAUGE, value: 7.0 }]);
    let first = want.r.n;
    let want = want.family(one("b"), &[Sample { labels: &[], kind: GAUGE, value: 8.0 }]);
    faulty(want, first, |e| {
        GaugeState::write_type(name("a"), e)?;
        gauge(7).collect_into(&(), NoLabels, name("a"), e)?;
        FloatGaugeState::write_type(name("b"), e)?;
        float(8.0).collect_into(&(), NoLabels, name("b"), e)
    }, early);
}
fn help_next(early: bool) {
    let want = Want::new()
        .family(Fam { name: "a", help: None, ty: None }, &[Sample { labels: &[], kind: COUNTER, value: 7.0 }]);
    let first = want.r.n;
    let want = want.family(Fam { name: "b", help: Some(""), ty: None }, &[Sample { labels: &[], kind: COUNTER, value: 8.0 }]);
    faulty(want, first, |e| {
        counter(7).collect_into(&(), NoLabels, name("a"), e)?;
        e.write_help(name("b"), "")?;
        counter(8).collect_into(&(), NoLabels, name("b"), e)
    }, early);
}
fn sample_next(early: bool) {
    let want = Want::new()
        .family(Fam { name: "a", help: None, ty: None }, &[Sample { labels: &[], kind: GAUGE, value: 7.0 }]);
    let first = want.r.n;
    let want = want.family(Fam { name: "b", help: None, ty: None }, &[Sample { labels: &[], kind: GAUGE, value: 8.0 }]);
    faulty(want, first, |e| {
        float(7.0).collect_into(&(), NoLabels, name("a"), e)?;
        gauge(8).collect_into(&(), NoLabels, name("b"), e)
    }, early);
}
fn group(early: bool) {
    let m = Pair { one: Counter::new(), two: Gauge::new() };
    let want = Want::new()
        .family(Fam { name: "one", help: None, ty: Some(0) }, &[Sample { labels: &[], kind: COUNTER, value: 0.0 }]);
    let first = want.r.n;
    let want = want.family(Fam { name: "two", help: None, ty: Some(1) }, &[Sample { labels: &[], kind: GAUGE, value: 0.0 }]);
    faulty(want, first, |e| m.collect_group_into(e), early);
    core::mem::forget(m);
}

proof! {
[fmt] 11 fn c18_counter() {
    let x = nd::u64();
    let b = ascii::<3>();
    let labels = [("k", V::S(text(&b)))];
    let mut e = enc();
    e.write_help(name("ab"), "h").unwrap();
    CounterState::write_type(name("ab"), &mut e).unwrap();
    counter(x).collect_into(&(), Lab(&labels), name("ab"), &mut e).unwrap();
    done(e, &Want::new().family(Fam { name: "ab", help: Some("h"), ty: Some(0) },
        &[Sample { labels: &labels, kind: COUNTER, value: x as f64 }]));
}
[fmt] 11 fn c18_gauge() {
    let x = nd::i64();
    let mut e = enc();
    e.write_help(name("ab"), "h").unwrap();
    GaugeState::write_type(name("ab"), &mut e).unwrap();
    gauge(x).collect_into(&(), NoLabels, name("ab"), &mut e).unwrap();
    done(e, &Want::new().family(Fam { name: "ab", help: Some("h"), ty: Some(1) },
        &[Sample { labels: &[], kind: GAUGE, value: x as f64 }]));
}
[fmt] 11 fn c18_float() {
    let x = f64::from_bits(nd::u64());
    let mut e = enc();
    FloatGaugeState::write_type(name("ab"), &mut e).unwrap();
    float(x).collect_into(&(), NoLabels, name("ab"), &mut e).unwrap();
    done(e, &Want::new().family(Fam { name: "ab", help: None, ty: Some(1) },
        &[Sample { labels: &[], kind: GAUGE, value: x }]));
}
[fmt] 11 fn c18_after_nothing() { pairs(false, false, 0, false); }
[fmt] 11 fn c18_after_empty() { pairs(true, true, 0, false); }
[fmt] 11 fn c18_after_help() { pairs(true, false, 0, false); }
[fmt] 11 fn c18_after_type() { pairs(false, true, 0, false); }
[fmt] 11 fn c18_after_sample() { pairs(false, false, 1, false); }
[fmt] 11 fn c18_after_full() { pairs(true, true, 2, false); }
[fmt] 11 fn c18_after_flushed_empty() { pairs(true, true, 0, true); }
[fmt] 11 fn c18_after_flushed() { pairs(true, true, 1, true); }
[fmt] 11 fn c18_gaps() { gaps(true, true); }
[fmt] 11 fn c18_gaps_help() { gaps(true, false); }
[fmt] 11 fn c18_gaps_type() { gaps(false, true); }
[fmt] 11 fn c18_long_100() { long::<100>(); }
[fmt] 11 fn c18_long_128() { long::<128>(); }
[fmt] 11 fn c18_long_121() { long::<121>(); }
[fmt] 11 fn c18_int_label() { number(V::I(nd::i64())); }
[fmt] 11 fn c18_float_label() { number(V::F(1.5)); }
[fmt] 11 fn c18_spelt_label() {
    spelt(V::F(f64::INFINITY), "+Inf");
    spelt(V::F(f64::NEG_INFINITY), "-Inf");
    spelt(V::F(f64::NAN), "NaN");
    spelt(V::F(f64::from_bits(0xfff8000000000001)), "NaN");
}
[] 24 fn c18_negative_label() { spelt(V::I(-7), "-7"); }
[] 24 fn c18_least_label() { spelt(V::I(i64::MIN), "-9223372036854775808"); }
[] 24 fn c18_digits_label() { spelt(V::I(100), "100"); }
[] 24 fn c18_fraction_label() { spelt(V::F(-12.5), "-12.5"); }
[fmt] 16 fn c18_composed() {
    // names and labels put together from parts
    let x = f64::from_bits(nd::u64());
    let (a, b) = ([("k", V::S("1"))], [("l", V::S("2"))]);
    let all = [("k", V::S("1")), ("l", V::S("2"))];
    let n = name("ab").in_namespace("ns").with_suffix(Total);
    let mut e = enc();
    e.write_help(&n, "").unwrap();
    FloatGaugeState::write_type(&n, &mut e).unwrap();
    float(x).collect_into(&(), ComposedGroup(Lab(&a), Lab(&b)), &n, &mut e).unwrap();
    done(e, &Want::new().family(Fam { name: "ns_ab_total", help: Some(""), ty: Some(1) },
        &[Sample { labels: &all, kind: GAUGE, value: x }]));
}
[fmt] 11 fn c18_group() {
    let (x, y) = (nd::u64(), nd::u64());
    let m = Metrics { one: Counter::new(), none: None, gone: None, inner: Inner { f: FloatGauge::new() } };
    m.one.inc_by(x);
    m.inner.f.set(f64::from_bits(y));
    let mut e = enc();
    m.collect_group_into(&mut e).unwrap();
    done(e, &Want::new()
        .family(Fam { name: "one", help: Some("first"), ty: Some(0) }, &[Sample { labels: &[], kind: COUNTER, value: x as f64 }])
        .family(Fam { name: "n_f", help: Some("x"), ty: Some(1) }, &[Sample { labels: &[], kind: GAUGE, value: f64::from_bits(y) }]));
    core::mem::forget(m);
}
// ---------------------------------------------------------------- C16
[fmt] 50 fn c16_proto_sample() { sample(); }
[fmt] 60 fn c16_proto_two() { two(false); }
[fmt] 60 fn c16_proto_two_early() { two(true); }
[fmt] 60 fn c16_proto_help_next() { help_next(false); }
[fmt] 60 fn c16_proto_help_next_early() { help_next(true); }
[fmt] 60 fn c16_proto_sample_next() { sample_next(false); }
[fmt] 60 fn c16_proto_sample_next_early() { sample_next(true); }
[fmt] 60 fn c16_proto_group() { group(false); }
[fmt] 60 fn c16_proto_group_early() { group(true); }
[] 10 fn c16_proto_flush() {
    let want = Rec::new();
    let mut e = ProtoEncoder::new(Faulty::new(&want));
    e.writer.flush_fails = nd::bool();
    let r = e.flush();
    assert!(r.is_err() == e.writer.flush_fails);
    core::mem::forget(r);
}
}
