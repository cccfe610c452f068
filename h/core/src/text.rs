//! C14 label values, C15 text exposition, C16 failing writers.
use crate::model::*;
use crate::nd;
use measured::label::{
    ComposedGroup, LabelGroup, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor, NoLabels,
};
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::group::Encoding;
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::{MetricName, Total};
use measured::metric::{MetricEncoding, MetricFamilyEncoding};
use measured::text::{BufferedTextEncoder, MetricType, TextEncoder};
use measured::*;
use std::io::{self, Write};

pub use crate::rec::*;
pub fn name(s: &'static str) -> &'static MetricName {
    MetricName::from_str(s)
}

/// one string label
pub struct L<'a>(pub &'a str);
impl LabelGroup for L<'_> {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        v.write_value(LabelName::from_str("l"), &self.0);
    }
}
enum Num {
    I(i64),
    F(f64),
}
impl LabelValue for Num {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        match self {
            Num::I(i) => v.write_int(*i),
            Num::F(f) => v.write_float(*f),
        }
    }
}
struct LN(Num);
impl LabelGroup for LN {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        v.write_value(LabelName::from_str("l"), &self.0);
    }
}

// ------------------------------------------------------------ streaming check
/// Skips a prefix of known length, then un-escapes until the terminator,
/// comparing with the original text on the fly.
struct Unescape<'a> {
    skip: usize,
    quoted: bool,
    want: &'a [u8],
    n: usize,
    at: usize,
    esc: bool,
    done: bool,
    tail: usize,
}
impl<'a> Unescape<'a> {
    fn new(skip: usize, quoted: bool, want: &'a [u8], n: usize) -> Self {
        Unescape { skip, quoted, want, n, at: 0, esc: false, done: false, tail: 0 }
    }
    #[inline(always)]
    fn byte(&mut self, b: u8) {
        if self.done {
            self.tail += 1;
        } else if self.esc {
            self.esc = false;
            assert!(b == b'n' || b == b'\\' || (self.quoted && b == b'"'), "unknown escape sequence");
            self.expect(if b == b'n' { b'\n' } else { b });
        } else if b == b'\\' {
            self.esc = true;
        } else if b == if self.quoted { b'"' } else { b'\n' } {
            self.done = true;
            assert!(self.at == self.n, "value was cut short");
        } else {
            assert!(b != b'\n', "raw line feed");
            self.expect(b);
        }
    }
    #[inline(always)]
    fn expect(&mut self, b: u8) {
        assert!(self.at < self.n, "value is longer than the original");
        assert!(self.want[self.at] == b, "value differs from the original");
        self.at += 1;
    }
}
impl Write for Unescape<'_> {
    fn write(&mut self, s: &[u8]) -> io::Result<usize> {
        self.write_all(s)?;
        Ok(s.len())
    }
    fn write_all(&mut self, s: &[u8]) -> io::Result<()> {
        let mut i = 0;
        if self.skip > 0 {
            // everything before the value is of fixed size
            if s.len() <= self.skip {
                self.skip -= s.len();
                return Ok(());
            }
            i = self.skip;
            self.skip = 0;
        }
        while i < s.len() {
            self.byte(s[i]);
            i += 1;
        }
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// The same for a value that needs no escaping.
struct Verbatim<'a> {
    skip: usize,
    want: &'a Rec,
    at: usize,
    done: bool,
    tail: usize,
}
impl Write for Verbatim<'_> {
    fn write(&mut self, s: &[u8]) -> io::Result<usize> {
        self.write_all(s)?;
        Ok(s.len())
    }
    fn write_all(&mut self, s: &[u8]) -> io::Result<()> {
        let mut i = 0;
        if self.skip > 0 {
            if s.len() <= self.skip {
                self.skip -= s.len();
                return Ok(());
            }
            i = self.skip;
            self.skip = 0;
        }
        while i < s.len() {
            if self.done {
                self.tail += 1;
            } else if s[i] == b'"' {
                self.done = true;
                assert!(self.at == self.want.n, "value was cut short");
            } else {
                assert!(self.at < self.want.n, "value is too long");
                let (a, b) = (s[i], self.want.at(self.at));
                #[cfg(kani)]
                if self.at == 1 && self.want.at(0) == crate::stubs::FLOAT {
                    let (a, b) = (a as usize - 97, b as usize - 97);
                    assert!(unsafe { crate::stubs::TOKENS[a] == crate::stubs::TOKENS[b] }, "number differs");
                    self.at += 1;
                    i += 1;
                    continue;
                }
                assert!(a == b, "value differs");
                self.at += 1;
            }
            i += 1;
        }
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn ascii<const N: usize>() -> [u8; N] {
    let mut b = [0; N];
    for x in b.iter_mut() {
        *x = nd::u8();
        nd::assume(*x < 0x80);
    }
    b
}
fn label_value(b: &[u8], n: usize) {
    let s = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
    let mut e = TextEncoder::new(Unescape::new(5, true, b, n));
    CounterState::new(7).collect_into(&(), L(s), name("m"), &mut e).unwrap();
    assert!(e.writer.done && e.writer.tail == 4, "value, closing brace, blank, 7, line feed");
}
fn help_value(b: &[u8], n: usize) {
    let s = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
    let mut e = TextEncoder::new(Unescape::new(9, false, b, n));
    e.write_help(name("m"), s).unwrap();
    assert!(e.writer.done && e.writer.tail == 0, "help line");
}

// ------------------------------------------------------------ failing writer
/// `run` must succeed exactly when no fault was hit
fn faulty(want: Rec, run: impl FnOnce(&mut TextEncoder<Faulty<'_>>) -> io::Result<()>) {
    let mut e = TextEncoder::new(Faulty::new(&want));
    let r = run(&mut e);
    let ok = r.is_ok();
    core::mem::forget(r);
    let f = &e.writer;
    assert!(ok == (f.fail == f.n), "the result hides a failure of the writer");
    assert!(f.failed != ok);
    if ok {
        assert!(f.at == f.n, "everything was written");
    }
    witness!(ok, "fault-free run");
    witness!(!ok && f.at > 0, "failed after some text");
}

fn hist<const N: usize>(le: [f64; N], b: [u64; N], inf: u64, sum: f64) -> HistogramState<N> {
    let _ = le;
    let mut h = HistogramState::<N>::default();
    let g = h.inner.get_mut();
    for i in 0..N {
        *g.buckets[i].get_mut() = b[i];
    }
    *g.inf.get_mut() = inf;
    g.sum.set(sum);
    h
}
fn finite() -> f64 {
    let f = nd::f64();
    nd::assume(f.is_finite());
    f
}

#[derive(Clone, Copy, LabelGroup)]
#[label(set = PairSet)]
struct Pair {
    two: Two,
    kind: Kind,
}

#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
enum One {
    A,
}
#[derive(Clone, Copy, LabelGroup)]
#[label(set = TwoSet)]
struct TwoGroup {
    two: Two,
    one: One,
}

proof! {
// ---------------------------------------------------------------- C14
[fmt1] 5 fn c14_ascii_0() { label_value(&[], 0); }
[fmt1] 5 fn c14_ascii_1() { label_value(&ascii::<1>(), 1); }
[fmt1] 5 fn c14_ascii_2() { label_value(&ascii::<2>(), 2); }
[fmt1] 5 fn c14_ascii_3() { label_value(&ascii::<3>(), 3); }
[fmt1] 7 fn c14_ascii_5_thorough() { label_value(&ascii::<5>(), 5); }
[fmt1] 5 fn c14_wide() {
    // a two-byte character next to arbitrary ASCII
    let a = ascii::<1>();
    label_value(&[0xc2 + (nd::u8() & 15), 0x80 | (nd::u8() & 63), a[0]], 3);
}
[fmt] 26 fn c14_int() {
    let i = nd::i64();
    let mut e = TextEncoder::new(Rec::new());
    CounterState::new(7).collect_into(&(), LN(Num::I(i)), name("m"), &mut e).unwrap();
    same(&e.writer, &Rec::new().s("m{l=\"").int(i).s("\"} ").int(7u64).s("\n"));
}
[fmt] 8 fn c14_float() {
    let f = nd::f64();
    // finite: the shortest decimal form; otherwise the names of the format
    let want = if f == f64::INFINITY { Rec::new().s("+Inf") }
        else if f == f64::NEG_INFINITY { Rec::new().s("-Inf") }
        else if f != f { Rec::new().s("NaN") }
        else { Rec::new().float(f) };
    let mut e = TextEncoder::new(Verbatim { skip: 5, want: &want, at: 0, done: false, tail: 0 });
    GaugeState::new(7).collect_into(&(), LN(Num::F(f)), name("m"), &mut e).unwrap();
    assert!(e.writer.done && e.writer.tail >= 4);
}
[] 60 fn c14_test_visitor() {
    // the visitor the crate offers for inspecting label values agrees
    use measured::label::LabelTestVisitor;
    assert!(Num::F(f64::INFINITY).visit(LabelTestVisitor) == "+Inf");
    assert!(Num::F(f64::NEG_INFINITY).visit(LabelTestVisitor) == "-Inf");
    assert!(Num::F(f64::NAN).visit(LabelTestVisitor) == "NaN");
    assert!("a\"b".visit(LabelTestVisitor) == "a\"b");
}
// ---------------------------------------------------------------- C15
[fmt] 200 fn c15_counter() {
    let v = nd::u64();
    let c = Counter::new();
    c.inc_by(v);
    let mut e = TextEncoder::new(Rec::new());
    e.write_help(name("c"), "help").unwrap();
    c.collect_family_into(name("c"), &mut e).unwrap();
    same(&e.writer, &Rec::new().s("# HELP c help\n# TYPE c counter\nc ").int(v).s("\n"));
    witness!(v > i64::MAX as u64, "count above i64::MAX");
}
[fmt] 200 fn c15_gauges() {
    // two families, the second without help
    let (v, f) = (nd::i64(), finite());
    let (g, h) = (Gauge::new(), FloatGauge::new());
    g.set(v);
    h.set(f);
    let mut e = TextEncoder::new(Rec::new());
    e.write_help(name("g"), "help").unwrap();
    g.collect_family_into(name("g"), &mut e).unwrap();
    h.collect_family_into(name("f").with_suffix(Total), &mut e).unwrap();
    same(&e.writer, &Rec::new().s("# HELP g help\n# TYPE g gauge\ng ").int(v)
        .s("\n\n# TYPE f_total gauge\nf_total ").float(f).s("\n"));
}
[fmt] 300 fn c15_after_flush() {
    // what was written before the last flush leaves no trace
    let (a, b) = (nd::u64(), nd::u64());
    let (x, y) = (Counter::new(), Counter::new());
    x.inc_by(a);
    y.inc_by(b);
    let mut e = TextEncoder::new(Rec::new());
    x.collect_family_into(name("x"), &mut e).unwrap();
    e.flush().unwrap();
    e.writer = Rec::new();
    e.write_help(name("y"), "h").unwrap();
    y.collect_family_into(name("y"), &mut e).unwrap();
    x.collect_family_into(name("x"), &mut e).unwrap();
    same(&e.writer, &Rec::new().s("# HELP y h\n# TYPE y counter\ny ").int(b).s("\n\n# TYPE x counter\nx ").int(a).s("\n"));
}
[fmt] 8 fn c15_vec() {
    let (a, b) = (nd::u64(), nd::u64());
    let v = CounterVec::<TwoSet>::dense();
    v.inc_by(TwoGroup { two: Two::Y, one: One::A }, a);
    v.inc_by(TwoGroup { two: Two::X, one: One::A }, b);
    let mut e = TextEncoder::new(Rec::new());
    v.collect_family_into(name("v"), &mut e).unwrap();
    // the order of the two lines is free
    let one = Rec::new().s("# TYPE v counter\nv{two=\"y\",one=\"a\"} ").int(a).s("\nv{two=\"x\",one=\"a\"} ").int(b).s("\n");
    let two = Rec::new().s("# TYPE v counter\nv{two=\"x\",one=\"a\"} ").int(b).s("\nv{two=\"y\",one=\"a\"} ").int(a).s("\n");
    let first = if e.writer.at(25) == b'y' { one } else { two };
    same(&e.writer, &first);
    core::mem::forget(v);
}
[fmt] 400 fn c15_histogram() {
    let le = [-0.5, 3.0];
    let (b, inf) = ([nd::u64(), nd::u64()], nd::u64());
    let total = b[0].checked_add(b[1]).and_then(|x| x.checked_add(inf));
    nd::assume(total.is_some());
    let total = total.unwrap();
    let sum = finite();
    let h = hist(le, b, inf, sum);
    let mut e = TextEncoder::new(Rec::new());
    <HistogramState<2> as MetricEncoding<_>>::write_type(name("h"), &mut e).unwrap();
    h.collect_into(&Thresholds::with_buckets(le), NoLabels, name("h"), &mut e).unwrap();
    same(&e.writer, &Rec::new()
        .s("# TYPE h histogram\nh_bucket{le=\"").float(le[0]).s("\"} ").int(b[0])
        .s("\nh_bucket{le=\"").float(le[1]).s("\"} ").int(b[0] + b[1])
        .s("\nh_bucket{le=\"+Inf\"} ").int(total)
        .s("\nh_sum ").float(sum)
        .s("\nh_count ").int(total).s("\n"));
    witness!(total > i64::MAX as u64, "count above i64::MAX");
}
[fmt] 400 fn c15_histogram_labels() {
    // every line of a labelled histogram carries the labels
    let le = [2.5];
    let (b, inf) = ([nd::u32() as u64], nd::u32() as u64);
    let sum = finite();
    let h = hist(le, b, inf, sum);
    let mut e = TextEncoder::new(Rec::new());
    h.collect_into(&Thresholds::with_buckets(le), Pair { two: Two::X, kind: Kind::B }, name("h"), &mut e).unwrap();
    same(&e.writer, &Rec::new()
        .s("h_bucket{two=\"x\",kind=\"b\",le=\"").float(le[0]).s("\"} ").int(b[0])
        .s("\nh_bucket{two=\"x\",kind=\"b\",le=\"+Inf\"} ").int(b[0] + inf)
        .s("\nh_sum{two=\"x\",kind=\"b\"} ").float(sum)
        .s("\nh_count{two=\"x\",kind=\"b\"} ").int(b[0] + inf).s("\n"));
}
[fmt] 300 fn c15_histogram_empty() {
    // no finite buckets at all
    let inf = nd::u64();
    let sum = finite();
    let h = hist([], [], inf, sum);
    let mut e = TextEncoder::new(Rec::new());
    h.collect_into(&Thresholds::with_buckets([]), NoLabels, name("h"), &mut e).unwrap();
    same(&e.writer, &Rec::new().s("h_bucket{le=\"+Inf\"} ").int(inf).s("\nh_sum ").float(sum).s("\nh_count ").int(inf).s("\n"));
}
[fmt] 300 fn c15_types() {
    // the type line of every metric type, and labels composed of two groups
    let mut e = TextEncoder::new(Rec::new());
    e.write_type(&name("a"), MetricType::Counter).unwrap();
    e.write_type(&name("b"), MetricType::Gauge).unwrap();
    e.write_type(&name("c"), MetricType::Histogram).unwrap();
    e.write_type(&name("d"), MetricType::Summary).unwrap();
    e.write_type(&name("e"), MetricType::Untyped).unwrap();
    let v = nd::i64();
    GaugeState::new(v).collect_into(&(), ComposedGroup(kg(0), Pair { two: Two::Y, kind: Kind::C }), name("x"), &mut e).unwrap();
    <FloatGaugeState as MetricEncoding<_>>::write_type(name("y"), &mut e).unwrap();
    <HistogramState<1> as MetricEncoding<_>>::write_type(name("z"), &mut e).unwrap();
    same(&e.writer, &Rec::new()
        .s("# TYPE a counter\n# TYPE b gauge\n# TYPE c histogram\n# TYPE d summary\n# TYPE e untyped\nx{kind=\"a\",two=\"y\",kind=\"c\"} ")
        .int(v).s("\n\n# TYPE y gauge\n# TYPE z histogram\n"));
}
[mc] 10 fn c15_help_1() { help_value(&ascii::<1>(), 1); }
[mc] 5 fn c15_help_3() { help_value(&ascii::<3>(), 3); }
[mc] 7 fn c15_help_5_thorough() { help_value(&ascii::<5>(), 5); }
[fmt bytes] 8 fn c15_buffered() {
    // the buffered encoder hands out the same bytes
    let a = nd::u64();
    let mut e = BufferedTextEncoder::new();
    CounterState::new(a).collect_into(&(), NoLabels, name("c"), &mut e).unwrap();
    let first = e.finish();
    let mut r = Rec::new();
    r.put(&first);
    same(&r, &Rec::new().s("c ").int(a).s("\n"));
    core::mem::forget((first, e));
}
[fmt bytes] 8 fn c15_buffered_empty() {
    let mut e = BufferedTextEncoder::new();
    CounterState::new(5).collect_into(&(), NoLabels, name("c"), &mut e).unwrap();
    let first = e.finish();
    let second = e.finish();
    assert!(!first.is_empty() && second.is_empty(), "handed out once");
    core::mem::forget((first, second, e));
}
[fmt bytes] 8 fn c15_buffered_reused() {
    let mut e = BufferedTextEncoder::new();
    CounterState::new(5).collect_into(&(), NoLabels, name("c"), &mut e).unwrap();
    core::mem::forget(e.finish());
    e.write_help(name("c"), "h").unwrap();
    let second = e.finish();
    let mut r = Rec::new();
    r.put(&second);
    same(&r, &Rec::new().s("# HELP c h\n"));
    core::mem::forget((second, e));
}
// ---------------------------------------------------------------- C16
[fmt1] 14 fn c16_counter() {
    faulty(Rec::new().s("# HELP c h\n# TYPE c counter\nc{l=\"v\"} ").int(5u64).s("\n"), |e| {
        e.write_help(name("c"), "h")?;
        <CounterState as MetricEncoding<_>>::write_type(name("c"), e)?;
        CounterState::new(5).collect_into(&(), L("v"), name("c"), e)
    });
}
[fmt1] 14 fn c16_labels() {
    faulty(Rec::new().s("c{two=\"x\",kind=\"b\",l=\"v\"} ").int(5i64).s("\n"), |e| {
        GaugeState::new(5).collect_into(&(), Pair { two: Two::X, kind: Kind::B }.compose_with(L("v")), name("c"), e)
    });
}
[fmt1] 14 fn c16_escaped() {
    faulty(Rec::new().s("c{l=\"a\\\\b\\\"c\\nd\"} ").float(5.0).s("\n# HELP c \\\\ \\n\n"), |e| {
        FloatGaugeState::new(5.0).collect_into(&(), L("a\\b\"c\nd"), name("c"), e)?;
        e.flush()?;
        e.write_help(name("c"), "\\ \n")
    });
}
[fmt1] 14 fn c16_histogram() {
    let h = hist([1.0], [2], 1, 4.0);
    let t = Thresholds::with_buckets([1.0]);
    faulty(Rec::new().s("h_bucket{le=\"").float(1.0).s("\"} ").int(2u64).s("\nh_bucket{le=\"+Inf\"} ").int(3u64)
        .s("\nh_sum ").float(4.0).s("\nh_count ").int(3u64).s("\n"), |e| {
        h.collect_into(&t, NoLabels, name("h"), e)
    });
}
[fmt1] 14 fn c16_vec() {
    // the first error ends the collection of a vector
    let v = CounterVec::<KindSet>::dense();
    v.inc_by(kg(0), 5);
    v.inc_by(kg(1), 5);
    faulty(Rec::new().s("# TYPE v counter\nv{kind=\"a\"} ").int(5u64).s("\nv{kind=\"b\"} ").int(5u64).s("\n"), |e| {
        v.collect_family_into(name("v"), e)
    });
    core::mem::forget(v);
}
[fmt1] 14 fn c16_namespaced() {
    let c = Counter::new();
    c.inc_by(5);
    faulty(Rec::new().s("# TYPE n_c_total counter\nn_c_total ").int(5u64).s("\n\n# HELP d h\n"), |e| {
        c.collect_family_into(name("c").in_namespace("n").with_suffix(Total), e)?;
        e.write_help(name("d"), "h")
    });
}
[fmt1] 14 fn c16_two_families() {
    let c = Counter::new();
    c.inc_by(5);
    faulty(Rec::new().s("# TYPE c counter\nc ").int(5u64).s("\n\n# TYPE d counter\nd ").int(5u64).s("\n"), |e| {
        c.collect_family_into(name("c"), e)?;
        c.collect_family_into(name("d"), e)
    });
}
[] 10 fn c16_flush() {
    let want = Rec::new();
    let mut e = TextEncoder::new(Faulty::new(&want));
    e.writer.flush_fails = nd::bool();
    let r = e.flush();
    assert!(r.is_err() == e.writer.flush_fails);
    core::mem::forget(r);
}
}
