//! C19 metric groups, collected by an encoder that records every call.
use crate::model::*;
use crate::nd;
use measured::label::{ComposedGroup, LabelGroup, LabelGroupVisitor, LabelName, LabelValue};
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::group::{Encoding, MetricGroup};
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::{MetricName, MetricNameEncoder, WithNamespace};
use measured::metric::{MetricEncoding, MetricFamilyEncoding};
use measured::*;
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

const EVENTS: usize = 24;
pub const HELP: u8 = 1;
pub const TYPE: u8 = 2;
pub const SAMPLE: u8 = 3;
#[derive(Clone, Copy)]
pub struct Text {
    b: [u8; 32],
    n: usize,
}
/// a loop without a loop: the loop bound of a harness stays small
macro_rules! each_byte {
    ($n:expr, |$i:ident| $e:expr) => {
        each_byte!{@ $n, $i, $e, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15}
    };
    (@ $n:expr, $i:ident, $e:expr, $($k:literal)*) => {
        $( if $k < $n { let $i: usize = $k; $e; } )*
    };
}
impl Text {
    const NONE: Text = Text { b: [0; 32], n: 0 };
    fn is(&self, s: &str) -> bool {
        let mut ok = self.n == s.len();
        let (s, n) = (s.as_bytes(), s.len());
        each_byte!(n, |i| ok &= self.b[i] == s[i]);
        ok
    }
}
impl Write for Text {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> {
        let n = s.len();
        assert!(n <= 16, "text of the recorder");
        each_byte!(n, |i| self.b[self.n + i] = s[i]);
        self.n += s.len();
        Ok(s.len())
    }
    fn write_all(&mut self, s: &[u8]) -> std::io::Result<()> {
        self.write(s).map(|_| ())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
#[derive(Clone, Copy)]
pub struct Event {
    what: u8,
    /// counter 1, gauge 2, float gauge 3, histogram 4
    kind: u8,
    name: Text,
    help: Text,
    value: u64,
    extra: u64,
    labels: usize,
}
pub struct Log {
    ev: [Event; EVENTS],
    n: usize,
    /// position of the event `next` looks at
    pos: usize,
}
impl Log {
    fn new() -> Self {
        let e = Event { what: 0, kind: 0, name: Text::NONE, help: Text::NONE, value: 0, extra: 0, labels: 0 };
        Log { ev: [e; EVENTS], n: 0, pos: 0 }
    }
    fn of(g: &impl MetricGroup<Log>) -> Self {
        let mut l = Log::new();
        assert!(g.collect_group_into(&mut l).is_ok());
        l
    }
    fn add(&mut self, what: u8, kind: u8, name: impl MetricNameEncoder, value: u64, extra: u64, labels: usize) -> &mut Event {
        let i = self.n;
        self.n = i + 1;
        let e = &mut self.ev[i];
        e.what = what;
        e.kind = kind;
        e.value = value;
        e.extra = extra;
        e.labels = labels;
        name.encode_utf8(&mut e.name).unwrap();
        assert!(name.encode_len() == e.name.n, "announced name length");
        e
    }
    // ---- expectations, in order
    fn help(&mut self, name: &str, help: &str) {
        let e = &self.ev[self.pos];
        assert!(e.what == HELP && e.name.is(name) && e.help.is(help), "help text of a member");
        self.pos += 1;
    }
    fn family(&mut self, kind: u8, name: &str, value: u64) {
        self.typ(kind, name);
        self.sample(kind, name, value, 0);
    }
    fn typ(&mut self, kind: u8, name: &str) {
        let e = &self.ev[self.pos];
        assert!(e.what == TYPE && e.kind == kind && e.name.is(name), "type of a member");
        self.pos += 1;
    }
    fn sample(&mut self, kind: u8, name: &str, value: u64, labels: usize) {
        let e = &self.ev[self.pos];
        assert!(e.what == SAMPLE && e.kind == kind && e.name.is(name), "sample of a member");
        assert!(e.value == value && e.labels == labels, "value of a member");
        self.pos += 1;
    }
    fn end(&self) {
        assert!(self.n == self.pos, "nothing else is exported");
    }
}
impl Encoding for Log {
    type Err = ();
    fn write_help(&mut self, name: impl MetricNameEncoder, help: &str) -> Result<(), ()> {
        let e = self.add(HELP, 0, name, 0, 0, 0);
        e.help.write_all(help.as_bytes()).unwrap();
        Ok(())
    }
}
struct CountLabels(usize);
impl LabelGroupVisitor for CountLabels {
    type Output = ();
    fn write_value(&mut self, _: &LabelName, _: &impl LabelValue) {
        self.0 += 1;
    }
}
macro_rules! log {
    ([$($g:tt)*] $s:ty, $kind:literal, |$m:ident, $md:ident| $v:expr, $x:expr) => {
        impl $($g)* MetricEncoding<Log> for $s {
            fn write_type(n: impl MetricNameEncoder, enc: &mut Log) -> Result<(), ()> {
                enc.add(TYPE, $kind, n, 0, 0, 0);
                Ok(())
            }
            fn collect_into(&self, $md: &Self::Metadata, l: impl LabelGroup, n: impl MetricNameEncoder, enc: &mut Log) -> Result<(), ()> {
                let $m = self;
                let mut c = CountLabels(0);
                l.visit_values(&mut c);
                enc.add(SAMPLE, $kind, n, $v, $x, c.0);
                Ok(())
            }
        }
    };
}
log!([] CounterState, 1, |m, _d| m.count.load(SeqCst), 0);
log!([] GaugeState, 2, |m, _d| m.count.load(SeqCst) as u64, 0);
log!([] FloatGaugeState, 3, |m, _d| m.count.get().to_bits(), 0);
log!([<const N: usize>] HistogramState<N>, 4, |m, d| N as u64, d.get()[0].to_bits());

/// a metric type that reports its metadata
#[derive(Default)]
pub struct Tag;
impl measured::metric::MetricType for Tag {
    type Metadata = u64;
}
log!([] Tag, 5, |m, d| *d, 0);
type TagMetric = measured::metric::Metric<Tag>;
type TagVec = measured::metric::MetricVec<Tag, SizedSet>;

/// label set given at construction
pub struct SizedSet(usize);
impl measured::label::LabelGroupSet for SizedSet {
    type Group<'a> = KindGroup;
    type Unique = usize;
    fn cardinality(&self) -> Option<usize> {
        Some(self.0)
    }
    fn encode_dense(&self, v: usize) -> Option<usize> {
        Some(v)
    }
    fn decode_dense(&self, v: usize) -> KindGroup {
        kg(v)
    }
    fn encode(&self, _: KindGroup) -> Option<usize> {
        Some(1)
    }
    fn decode(&self, v: &usize) -> KindGroup {
        kg(*v)
    }
}

#[derive(MetricGroup, Default)]
pub struct Inner {
    /// inner help
    hits: Counter,
    level: Gauge,
}
fn inner() -> (Inner, u64, i64) {
    let i = Inner::default();
    let (a, b) = (nd::u64(), nd::i64());
    i.hits.inc_by(a);
    i.level.set(b);
    (i, a, b)
}
#[derive(MetricGroup)]
pub struct Plain {
    /// first
    a: Counter,
    #[metric(rename = "b_2")]
    b: FloatGauge,
    ///   padded help
    #[metric(rename = "c3")]
    c: Gauge,
}
#[derive(MetricGroup)]
pub struct Nested {
    /// top
    top: Counter,
    #[metric(namespace = "ns")]
    n: Inner,
    #[metric(flatten)]
    f: Inner,
    last: Gauge,
}
#[derive(MetricGroup)]
pub struct Mid {
    #[metric(namespace = "in")]
    a: Inner,
    #[metric(flatten)]
    b: Inner,
    #[metric(rename = "own_x")]
    x: Counter,
}
#[derive(MetricGroup)]
pub struct Deep {
    #[metric(namespace = "out")]
    m: Mid,
    #[metric(flatten)]
    k: Mid2,
}
#[derive(MetricGroup)]
pub struct Mid2 {
    #[metric(namespace = "p")]
    q: Inner,
}
#[derive(MetricGroup)]
pub struct Optional {
    a: Option<Counter>,
    #[metric(namespace = "g")]
    g: Option<Inner>,
    #[metric(flatten)]
    h: Option<Inner>,
    z: Counter,
}
#[derive(MetricGroup)]
pub struct Wrapped<'a> {
    #[metric(namespace = "arc")]
    a: Arc<Inner>,
    #[metric(flatten)]
    r: &'a Inner,
    #[metric(namespace = "c")]
    c: ComposedGroup<Inner, Arc<Inner>>,
}
#[derive(MetricGroup)]
pub struct Generic<M, G> {
    m: M,
    #[metric(namespace = "g")]
    g: G,
}
#[derive(MetricGroup)]
#[metric(new(meta: u64, size: usize, pre: Counter, th: Thresholds<2>))]
pub struct Made {
    plain: Counter,
    #[metric(metadata = meta)]
    tag: TagMetric,
    #[metric(label_set = SizedSet(size), metadata = meta + 1)]
    both: TagVec,
    #[metric(init = pre)]
    raw: Counter,
    #[metric(metadata = th)]
    hist: Histogram<2>,
    #[metric(label_set = SizedSet(size))]
    only: CounterVec<SizedSet>,
}
impl Log {
    fn inner(&mut self, names: [&str; 2], v: (u64, i64)) {
        self.help(names[0], "inner help");
        self.family(1, names[0], v.0);
        self.family(2, names[1], v.1 as u64);
    }
}

/// counts the calls of an encoder that fails once, at a given call
pub struct Failing {
    calls: u32,
    fail: u32,
    after: u32,
}
impl Failing {
    fn call(&mut self) -> Result<(), u32> {
        let k = self.calls;
        self.after += (k > self.fail) as u32;
        self.calls = k + 1;
        if k == self.fail { Err(k) } else { Ok(()) }
    }
}
impl Encoding for Failing {
    type Err = u32;
    fn write_help(&mut self, _: impl MetricNameEncoder, _: &str) -> Result<(), u32> {
        self.call()
    }
}
macro_rules! failing {
    ($($s:ty)*) => {$(
        impl MetricEncoding<Failing> for $s {
            fn write_type(_: impl MetricNameEncoder, enc: &mut Failing) -> Result<(), u32> {
                enc.call()
            }
            fn collect_into(&self, _: &(), _: impl LabelGroup, _: impl MetricNameEncoder, enc: &mut Failing) -> Result<(), u32> {
                enc.call()
            }
        }
    )*};
}
failing!(CounterState GaugeState FloatGaugeState);
/// collecting stops at the failing call and returns its error
fn stops(g: &impl MetricGroup<Failing>, calls: u32) {
    let fail = nd::u32();
    nd::assume(fail <= calls);
    let mut e = Failing { calls: 0, fail, after: 0 };
    let r = g.collect_group_into(&mut e);
    assert!(e.after == 0, "nothing is written after an error");
    if fail < calls {
        assert!(r == Err(fail) && e.calls == fail + 1, "the error is reported");
    } else {
        assert!(r == Ok(()) && e.calls == calls);
    }
    witness!(fail == calls - 1, "the last call fails");
}

proof! {
[] 8 fn c19_members() {
    let p = Plain { a: Counter::new(), b: FloatGauge::new(), c: Gauge::new() };
    let (a, b, c) = (nd::u64(), nd::f64(), nd::i64());
    p.a.inc_by(a);
    p.b.set(b);
    p.c.set(c);
    let mut l = Log::of(&p);
    l.help("a", "first");
    l.family(1, "a", a);
    l.family(3, "b_2", b.to_bits());
    l.help("c3", "padded help");
    l.family(2, "c3", c as u64);
    l.end();
}
[] 8 fn c19_namespace_and_flatten() {
    let ((n, a, b), (f, c, d)) = (inner(), inner());
    let g = Nested { top: Counter::new(), n, f, last: Gauge::new() };
    let (t, z) = (nd::u64(), nd::i64());
    g.top.inc_by(t);
    g.last.set(z);
    let mut l = Log::of(&g);
    l.help("top", "top");
    l.family(1, "top", t);
    l.inner(["ns_hits", "ns_level"], (a, b));
    l.inner(["hits", "level"], (c, d));
    l.family(2, "last", z as u64);
    l.end();
}
[] 8 fn c19_deep() {
    let ((i, a, b), (j, c, d), (k, e, f)) = (inner(), inner(), inner());
    let g = Deep { m: Mid { a: i, b: j, x: Counter::new() }, k: Mid2 { q: k } };
    let x = nd::u64();
    g.m.x.inc_by(x);
    let mut l = Log::of(&g);
    l.inner(["out_in_hits", "out_in_level"], (a, b));
    l.inner(["out_hits", "out_level"], (c, d));
    l.family(1, "out_own_x", x);
    l.inner(["p_hits", "p_level"], (e, f));
    l.end();
}
[] 8 fn c19_optional() {
    let ((i, a, b), (j, c, d)) = (inner(), inner());
    let x = nd::u64();
    let k = Counter::new();
    k.inc_by(x);
    let (pa, pg, ph) = (nd::bool(), nd::bool(), nd::bool());
    // one path per presence pattern
    macro_rules! with {
        ($pa:literal $pg:literal $ph:literal) => {
            if pa == $pa && pg == $pg && ph == $ph {
                let g = Optional { a: if $pa { Some(k) } else { None }, g: if $pg { Some(i) } else { None }, h: if $ph { Some(j) } else { None }, z: Counter::new() };
                let mut l = Log::of(&g);
                if $pa { l.family(1, "a", x); }
                if $pg { l.inner(["g_hits", "g_level"], (a, b)); }
                if $ph { l.inner(["hits", "level"], (c, d)); }
                l.family(1, "z", 0);
                l.end();
                return;
            }
        };
    }
    with!(true true true);
    with!(true true false);
    with!(true false true);
    with!(true false false);
    with!(false true true);
    with!(false true false);
    with!(false false true);
    with!(false false false);
}
[] 8 fn c19_wrapped() {
    let ((i, a, b), (j, c, d), (k, e, f), (m, x, y)) = (inner(), inner(), inner(), inner());
    let g = Wrapped { a: Arc::new(i), r: &j, c: ComposedGroup(k, Arc::new(m)) };
    let mut l = Log::of(&g);
    l.inner(["arc_hits", "arc_level"], (a, b));
    l.inner(["hits", "level"], (c, d));
    l.inner(["c_hits", "c_level"], (e, f));
    l.inner(["c_hits", "c_level"], (x, y));
    l.end();
}
[] 8 fn c19_wrapped_outside() {
    // the same wrappers around a whole group
    let (i, a, b) = inner();
    let mut l = Log::of(&&i);
    l.inner(["hits", "level"], (a, b));
    l.end();
    let mut l = Log::of(&Some(&i));
    l.inner(["hits", "level"], (a, b));
    l.end();
    Log::of(&None::<Inner>).end();
    let mut l = Log::of(&ComposedGroup(WithNamespace::new("o", &i), &i));
    l.inner(["o_hits", "o_level"], (a, b));
    l.inner(["hits", "level"], (a, b));
    l.end();
    let mut l = Log::of(&Arc::new(WithNamespace::new("o", Some(ComposedGroup(&i, None::<Inner>)))));
    l.inner(["o_hits", "o_level"], (a, b));
    l.end();
}
[] 8 fn c19_namespaces_nest() {
    let (i, a, b) = inner();
    let mut l = Log::of(&WithNamespace::new("a", WithNamespace::new("b", WithNamespace::new("c", &i))));
    l.inner(["a_b_c_hits", "a_b_c_level"], (a, b));
    l.end();
}
[] 8 fn c19_generic() {
    let (i, a, b) = inner();
    let x = nd::i64();
    let g = Generic { m: Gauge::new(), g: &i };
    g.m.set(x);
    let mut l = Log::of(&g);
    l.family(2, "m", x as u64);
    l.inner(["g_hits", "g_level"], (a, b));
    l.end();
    let g = Generic { m: Some(Counter::new()), g: None::<Inner> };
    let mut l = Log::of(&g);
    l.family(1, "m", 0);
    l.end();
}
[] 8 fn c19_constructor() {
    let (meta, b) = (nd::u64(), nd::f64());
    nd::assume(meta < u64::MAX && b < 100.0);
    let pre = Counter::new();
    let v = nd::u64();
    pre.inc_by(v);
    let g = Made::new(meta, 2, pre, Thresholds::with_buckets([b, 100.0]));
    assert!(*g.tag.get_metric().metadata() == meta, "metadata of a metric");
    assert!(*g.both.metadata() == meta + 1, "metadata of a vector");
    assert!(g.both.get_label_set().0 == 2 && g.only.get_label_set().0 == 2, "label set");
    assert!(g.hist.get_metric().metadata().get()[0].to_bits() == b.to_bits());
    assert!(g.raw.get_metric().count.load(SeqCst) == v, "initial value");
    assert!(g.plain.get_metric().count.load(SeqCst) == 0);
    core::mem::forget(g);
}
[] 8 fn c19_vector_member() {
    let g = HasVec { v: CounterVec::dense() };
    let (a, b) = (nd::u64(), nd::u64());
    g.v.inc_by(kg(0), a);
    g.v.inc_by(kg(2), b);
    let mut c = Same { name: "g_vv", types: 0, samples: 0, sum: 0, labels: 0 };
    WithNamespace::new("g", &g).collect_group_into(&mut c).unwrap();
    assert!(c.types == 1 && c.samples == 2 && c.labels == 2);
    assert!(c.sum == a.wrapping_add(b));
    core::mem::forget(g);
}
[] 8 fn c19_families() {
    // the family encodings used by hand-written groups
    let v = nd::u64();
    let c = Counter::new();
    c.inc_by(v);
    let mut l = Log::new();
    c.collect_family_into(MetricName::from_str("x"), &mut l).unwrap();
    let c = Some(c);
    c.collect_family_into(MetricName::from_str("y").in_namespace("n"), &mut l).unwrap();
    None::<Counter>.collect_family_into(MetricName::from_str("z"), &mut l).unwrap();
    l.family(1, "x", v);
    l.family(1, "n_y", v);
    l.end();
}
// ---------------------------------------------------------------- C16
[] 8 fn c16_group_stops_at_an_error() {
    let (n, f) = (Inner::default(), Inner::default());
    // 3 + 5 + 5 + 2 calls
    stops(&Nested { top: Counter::new(), n, f, last: Gauge::new() }, 15);
}
[] 8 fn c16_wrappers_stop_at_an_error() {
    let (i, j) = (Inner::default(), Inner::default());
    stops(&ComposedGroup(WithNamespace::new("o", Some(&i)), Arc::new(j)), 10);
}
[] 8 fn c16_vector_stops_at_an_error() {
    let v = CounterVec::<KindSet>::dense();
    v.inc(kg(0));
    v.inc(kg(2));
    stops(&Generic { m: &Gauge2(v), g: None::<Inner> }, 3);
}
}
#[derive(MetricGroup)]
pub struct HasVec {
    #[metric(rename = "vv")]
    v: CounterVec<KindSet>,
}
/// checks that everything is exported under one name
pub struct Same {
    name: &'static str,
    types: u32,
    samples: u32,
    labels: usize,
    sum: u64,
}
impl Same {
    fn name(&self, n: impl MetricNameEncoder) {
        let mut t = Text::NONE;
        n.encode_utf8(&mut t).unwrap();
        assert!(t.is(self.name), "name of a vector");
    }
}
impl Encoding for Same {
    type Err = ();
    fn write_help(&mut self, n: impl MetricNameEncoder, _: &str) -> Result<(), ()> {
        Ok(self.name(n))
    }
}
impl MetricEncoding<Same> for CounterState {
    fn write_type(n: impl MetricNameEncoder, enc: &mut Same) -> Result<(), ()> {
        enc.types += 1;
        Ok(enc.name(n))
    }
    fn collect_into(&self, _: &(), l: impl LabelGroup, n: impl MetricNameEncoder, enc: &mut Same) -> Result<(), ()> {
        enc.samples += 1;
        let mut c = CountLabels(0);
        l.visit_values(&mut c);
        enc.labels += c.0;
        enc.sum = enc.sum.wrapping_add(self.count.load(SeqCst));
        Ok(enc.name(n))
    }
}
/// a family by reference
pub struct Gauge2(CounterVec<KindSet>);
impl MetricFamilyEncoding<Failing> for &Gauge2 {
    fn collect_family_into(&self, name: impl MetricNameEncoder, enc: &mut Failing) -> Result<(), u32> {
        self.0.collect_family_into(name, enc)
    }
}
