//! C04 metric vectors against a map model, C24 cardinality and removal,
//! C25 scrapes of a vector.
use crate::model::*;
use crate::nd;
use measured::label::{LabelGroup, LabelGroupSet, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor};
use measured::metric::counter::CounterState;
use measured::metric::gauge::GaugeState;
use measured::metric::group::Encoding;
use measured::metric::name::{MetricName, MetricNameEncoder};
use measured::metric::{MetricEncoding, MetricFamilyEncoding};
use measured::*;
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::SeqCst;

/// Number of label groups of the test sets.
pub const K: usize = 3;

/// A label group identified by a number; its identifiers all hash alike, so
/// that every label group of a vector meets in one shard.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Id(pub usize);
impl Hash for Id {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(0)
    }
}
pub struct G(pub usize);
struct Int(usize);
impl LabelValue for Int {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_int(self.0 as i64)
    }
}
impl LabelGroup for G {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        v.write_value(LabelName::from_str("a"), &Int(self.0));
        v.write_value(LabelName::from_str("b"), &Int(self.0 + 100));
    }
}
/// Ids are shifted by 5 so that they differ from the dense index.
#[derive(Default)]
pub struct Alike<const DYN: bool>;
impl<const DYN: bool> LabelGroupSet for Alike<DYN> {
    type Group<'a> = G;
    type Unique = Id;
    fn cardinality(&self) -> Option<usize> {
        if DYN { None } else { Some(K) }
    }
    fn encode_dense(&self, v: Id) -> Option<usize> {
        if DYN { None } else { Some(v.0 - 5) }
    }
    fn decode_dense(&self, v: usize) -> G {
        G(v)
    }
    fn encode(&self, g: G) -> Option<Id> {
        Some(Id(g.0 + 5))
    }
    fn decode(&self, v: &Id) -> G {
        G(v.0 - 5)
    }
}
type Set = Alike<false>;

fn key() -> usize {
    nd::below(K)
}

/// what the vector should hold
struct Map {
    v: [Option<u64>; K],
    dense: bool,
}
impl Map {
    fn new(dense: bool) -> Self {
        Map { v: [None; K], dense }
    }
    fn add(&mut self, k: usize, x: u64) {
        self.v[k] = Some(self.v[k].unwrap_or(0).wrapping_add(x));
    }
    fn remove(&mut self, k: usize) -> Option<u64> {
        if self.dense { None } else { self.v[k].take() }
    }
    fn live(&self) -> usize {
        let mut n = 0;
        for i in 0..K {
            n += self.v[i].is_some() as usize;
        }
        n
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    Inc,
    Get,
    Mut,
    Touch,
    Remove,
}
use Op::*;

fn apply<L: for<'a> LabelGroupSet<Group<'a> = G>>(c: &mut CounterVec<L>, m: &mut Map, op: Op) {
    let k = key();
    let x = nd::u32() as u64;
    let id = c.with_labels(G(k));
    match op {
        Inc => {
            c.inc_by(G(k), x);
            m.add(k, x);
        }
        Get => {
            c.get_metric(id).inc_by(x);
            m.add(k, x);
        }
        Mut => {
            c.get_metric_mut(id).inc_by(x);
            m.add(k, x);
        }
        Touch => {
            // first use creates the group at zero, later uses change nothing
            let v = c.get_metric(id).count.load(SeqCst);
            assert!(v == m.v[k].unwrap_or(0), "value read");
            m.add(k, 0);
        }
        Remove => {
            let got = c.remove_metric(id).map(|s| s.count.load(SeqCst));
            assert!(got == m.remove(k), "removed state");
        }
    }
}
/// every label group holds exactly what the model says
fn values<L: for<'a> LabelGroupSet<Group<'a> = G>>(c: &mut CounterVec<L>, m: &Map) {
    for k in 0..K {
        let id = c.with_labels(G(k));
        if m.dense {
            if m.v[k].is_some() {
                assert!(c.get_metric(id).count.load(SeqCst) == m.v[k].unwrap(), "value");
            }
        } else {
            let got = c.remove_metric(id).map(|s| s.count.load(SeqCst));
            assert!(got == m.v[k], "value");
        }
    }
}
fn seq<L: for<'a> LabelGroupSet<Group<'a> = G>>(mut c: CounterVec<L>, dense: bool, ops: &[Op]) {
    let mut m = Map::new(dense);
    for op in ops {
        apply(&mut c, &mut m, *op);
    }
    witness!(m.live() > 0, "a live label group");
    values(&mut c, &m);
    core::mem::forget(c);
}
fn card<L: for<'a> LabelGroupSet<Group<'a> = G>>(mut c: CounterVec<L>, dense: bool, ops: &[Op], upper: Option<usize>) {
    let mut m = Map::new(dense);
    assert!(c.get_cardinality() == (0, upper), "nothing used yet");
    for op in ops {
        apply(&mut c, &mut m, *op);
        assert!(c.get_cardinality() == (m.live(), upper), "reported cardinality");
    }
    witness!(m.live() > 0, "a live label group");
    core::mem::forget(c);
}

// ------------------------------------------------------------ C25
#[derive(Clone, Copy)]
struct Sample {
    a: i64,
    b: i64,
    labels: usize,
    ordered: bool,
}
/// An encoder that counts the samples it is given, by label group.
struct Rec {
    types: usize,
    n: usize,
    type_first: bool,
    seen: [usize; K],
    v: [i64; K],
    bare: i64,
    names: bool,
}
impl Rec {
    fn new() -> Self {
        Rec { types: 0, n: 0, type_first: true, seen: [0; K], v: [0; K], bare: 0, names: true }
    }
    fn typ(&mut self, name: &impl MetricNameEncoder) {
        self.types += 1;
        self.type_first &= self.n == 0;
        self.names &= name.encode_len() == 4;
    }
    fn sample(&mut self, l: impl LabelGroup, name: &impl MetricNameEncoder, v: i64) {
        let mut p = Labels { s: Sample { a: -1, b: -1, labels: 0, ordered: true } };
        l.visit_values(&mut p);
        self.names &= name.encode_len() == 4;
        self.n += 1;
        if p.s.labels == 0 {
            self.bare = v;
            return;
        }
        assert!(p.s.labels == 2 && p.s.ordered && p.s.b == p.s.a + 100, "own labels");
        for k in 0..K {
            if p.s.a == k as i64 {
                self.seen[k] += 1;
                self.v[k] = v;
            }
        }
    }
    fn check(&self, want: &[Option<i64>; K]) {
        assert!(self.types == 1 && self.type_first, "type written once, before the samples");
        assert!(self.names, "family name");
        let mut live = 0;
        for k in 0..K {
            assert!(self.seen[k] == want[k].is_some() as usize, "each live label group exactly once");
            if let Some(w) = want[k] {
                assert!(self.v[k] == w, "own value");
                live += 1;
            }
        }
        assert!(live == self.n, "no sample for any other label group");
    }
}
struct Labels {
    s: Sample,
}
impl LabelGroupVisitor for Labels {
    type Output = ();
    fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
        let v = x.visit(IntOf);
        if name.as_str().as_bytes()[0] == b'a' {
            self.s.a = v;
        } else {
            self.s.ordered &= self.s.labels == 1;
            self.s.b = v;
        }
        self.s.labels += 1;
    }
}
struct IntOf;
impl LabelVisitor for IntOf {
    type Output = i64;
    fn write_int(self, x: i64) -> i64 {
        x
    }
    fn write_float(self, _: f64) -> i64 {
        -2
    }
    fn write_str(self, _: &str) -> i64 {
        -3
    }
}
impl Encoding for Rec {
    type Err = ();
    fn write_help(&mut self, _: impl MetricNameEncoder, _: &str) -> Result<(), ()> {
        Err(())
    }
}
impl MetricEncoding<Rec> for CounterState {
    fn write_type(name: impl MetricNameEncoder, e: &mut Rec) -> Result<(), ()> {
        e.typ(&name);
        Ok(())
    }
    fn collect_into(&self, _: &(), l: impl LabelGroup, name: impl MetricNameEncoder, e: &mut Rec) -> Result<(), ()> {
        e.sample(l, &name, self.count.load(SeqCst) as i64);
        Ok(())
    }
}
impl MetricEncoding<Rec> for GaugeState {
    fn write_type(name: impl MetricNameEncoder, e: &mut Rec) -> Result<(), ()> {
        e.typ(&name);
        Ok(())
    }
    fn collect_into(&self, _: &(), l: impl LabelGroup, name: impl MetricNameEncoder, e: &mut Rec) -> Result<(), ()> {
        e.sample(l, &name, self.count.load(SeqCst));
        Ok(())
    }
}
fn scrape<L: for<'a> LabelGroupSet<Group<'a> = G>>(mut c: CounterVec<L>, dense: bool, ops: &[Op]) {
    let mut m = Map::new(dense);
    for op in ops {
        apply(&mut c, &mut m, *op);
    }
    let mut r = Rec::new();
    c.collect_family_into(MetricName::from_str("name"), &mut r).unwrap();
    let mut want = [None; K];
    for k in 0..K {
        want[k] = m.v[k].map(|x| x as i64);
    }
    r.check(&want);
    witness!(m.live() > 0, "a live label group");
    core::mem::forget(c);
}

/// Concrete keys that spread over the shards, with symbolic amounts.
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = SpreadSet)]
struct Spread {
    kind: Kind,
    two: Two,
}
fn sp(i: usize) -> Spread {
    Spread { kind: kind(i % 3), two: if i / 3 == 0 { Two::X } else { Two::Y } }
}
fn spread(mut c: CounterVec<SpreadSet>, dense: bool) {
    let x = [nd::u32() as u64, nd::u32() as u64, nd::u32() as u64, nd::u32() as u64];
    for i in 0..4 {
        if i % 2 == 0 { c.inc_by(sp(i), x[i]) } else { c.get_metric_mut(c.with_labels(sp(i))).inc_by(x[i]) }
    }
    assert!(c.get_cardinality() == (4, Some(6)));
    let gone = c.remove_metric(c.with_labels(sp(1))).map(|s| s.count.load(SeqCst));
    assert!(gone == if dense { None } else { Some(x[1]) });
    assert!(c.remove_metric(c.with_labels(sp(5))).is_none());
    assert!(c.get_cardinality() == (if dense { 4 } else { 3 }, Some(6)));
    let again = c.get_metric(c.with_labels(sp(1))).count.load(SeqCst);
    assert!(again == if dense { x[1] } else { 0 }, "removed groups start again from zero");
    for i in [0, 2, 3] {
        assert!(c.get_metric(c.with_labels(sp(i))).count.load(SeqCst) == x[i]);
    }
    core::mem::forget(c);
}

/// A label set whose size decides the representation.
#[derive(Clone, Copy)]
struct Sized_(usize);
impl LabelGroupSet for Sized_ {
    type Group<'a> = G;
    type Unique = usize;
    fn cardinality(&self) -> Option<usize> {
        Some(self.0)
    }
    fn encode_dense(&self, v: usize) -> Option<usize> {
        Some(v)
    }
    fn decode_dense(&self, v: usize) -> G {
        G(v)
    }
    fn encode(&self, g: G) -> Option<usize> {
        if g.0 < self.0 { Some(g.0) } else { None }
    }
    fn decode(&self, v: &usize) -> G {
        G(*v)
    }
}

/// Every sample of label group `k` must be `x + k`.
struct Seen {
    x: u64,
    mask: u64,
    samples: usize,
    types: usize,
}
impl Encoding for Seen {
    type Err = ();
    fn write_help(&mut self, _: impl MetricNameEncoder, _: &str) -> Result<(), ()> {
        Err(())
    }
}
struct First(i64);
impl LabelVisitor for &mut First {
    type Output = ();
    fn write_int(self, x: i64) {
        self.0 = x;
    }
    fn write_float(self, _: f64) {}
    fn write_str(self, _: &str) {}
}
struct Key(First);
impl LabelGroupVisitor for Key {
    type Output = ();
    fn write_value(&mut self, n: &LabelName, x: &impl LabelValue) {
        if n.as_str() == "a" {
            x.visit(&mut self.0);
        }
    }
}
impl MetricEncoding<Seen> for CounterState {
    fn write_type(_: impl MetricNameEncoder, e: &mut Seen) -> Result<(), ()> {
        e.types += 1;
        Ok(())
    }
    fn collect_into(&self, _: &(), l: impl LabelGroup, _: impl MetricNameEncoder, e: &mut Seen) -> Result<(), ()> {
        let mut k = Key(First(-1));
        l.visit_values(&mut k);
        let k = k.0 .0 as u64;
        assert!(k < 8 && e.mask & (1 << k) == 0, "a label group is exported once");
        e.mask |= 1 << k;
        e.samples += 1;
        assert!(self.count.load(SeqCst) == e.x.wrapping_add(k), "value of a label group");
        Ok(())
    }
}
/// Label groups of every shard (numbers hash to different shards).
fn scrape_all(c: CounterVec<Sized_>) {
    let x = nd::u8() as u64;
    for k in [0usize, 1, 2, 3, 4, 6] {
        c.inc_by(G(k), x + k as u64);
    }
    let mut e = Seen { x, mask: 0, samples: 0, types: 0 };
    c.collect_family_into(MetricName::from_str("name"), &mut e).unwrap();
    assert!(e.types == 1 && e.samples == 6 && e.mask == 0b1011111, "exactly the label groups in use");
    core::mem::forget(c);
}

proof! {
// ---------------------------------------------------------------- C04
[] 6 fn c04_dense() { seq(CounterVec::<Set>::dense(), true, &[Inc, Mut, Remove, Get]); }
[] 6 fn c04_auto() { seq(CounterVec::<Set>::new(), true, &[Get, Mut, Touch]); }
[] 6 fn c04_sparse_inc_remove() { seq(CounterVec::<Set>::sparse(), false, &[Inc, Inc, Remove]); }
[] 6 fn c04_sparse_remove_inc() { seq(CounterVec::<Set>::sparse(), false, &[Inc, Remove, Inc]); }
[] 6 fn c04_sparse_four_thorough() { seq(CounterVec::<Set>::sparse(), false, &[Inc, Inc, Remove, Inc]); }
[] 6 fn c04_sparse_mut() { seq(CounterVec::<Set>::sparse(), false, &[Mut, Remove, Mut]); }
[] 6 fn c04_sparse_mixed() { seq(CounterVec::<Set>::sparse(), false, &[Mut, Get, Touch]); }
[] 6 fn c04_sparse_remove_twice() { seq(CounterVec::<Set>::sparse(), false, &[Get, Remove, Remove]); }
[] 6 fn c04_dynamic() { seq(CounterVec::<Alike<true>>::new(), false, &[Inc, Mut, Remove]); }
[] 6 fn c04_sparse_long_thorough() { seq(CounterVec::<Set>::sparse(), false, &[Inc, Mut, Get, Remove, Inc, Remove, Mut]); }
[] 6 fn c04_dense_long_thorough() { seq(CounterVec::<Set>::dense(), true, &[Inc, Mut, Get, Remove, Touch, Inc, Mut]); }
[] 8 fn c04_spread_sparse() { spread(CounterVec::sparse(), false); }
[] 8 fn c04_spread_dense() { spread(CounterVec::dense(), true); }
[] 6 fn c04_outside() {
    // a label group outside the set has no metric
    let k = nd::usize();
    let v = CounterVec::sparse_with_label_set(Sized_(K));
    assert!(v.try_with_labels(G(k)).is_some() == (k < K));
    let d = CounterVec::dense_with_label_set(Sized_(K));
    assert!(d.try_with_labels(G(k)).is_some() == (k < K));
    core::mem::forget((v, d));
}
[] 6 fn c04_gauge_kinds() {
    // the other metric types share the same vector code: one spot check each
    let (a, b) = (key(), key());
    nd::assume(a != b);
    let g = GaugeVec::<Set>::dense();
    let f = FloatGaugeVec::<Set>::dense();
    g.set(G(a), -7);
    f.set(G(a), 1.5);
    assert!(g.get_metric(g.with_labels(G(b))).count.load(SeqCst) == 0);
    assert!(f.get_metric(f.with_labels(G(b))).count.get() == 0.0);
    assert!(g.get_metric(g.with_labels(G(a))).count.load(SeqCst) == -7);
    assert!(f.get_metric(f.with_labels(G(a))).count.get() == 1.5);
    core::mem::forget((f, g));
}
[] 6 fn c04_ids() {
    // identifiers agree with the label groups they came from
    let (a, b) = (key(), key());
    let v = CounterVec::<Set>::sparse();
    assert!((v.with_labels(G(a)) == v.with_labels(G(b))) == (a == b));
    core::mem::forget(v);
}
// ---------------------------------------------------------------- C24
[] 6 fn c24_dense() { card(CounterVec::<Set>::dense(), true, &[Inc, Mut, Remove, Touch], Some(K)); }
[] 6 fn c24_sparse() { card(CounterVec::<Set>::sparse(), false, &[Inc, Touch, Remove], Some(K)); }
[] 6 fn c24_sparse_mut() { card(CounterVec::<Set>::sparse(), false, &[Mut, Mut, Remove], Some(K)); }
[] 6 fn c24_dynamic() { card(CounterVec::<Alike<true>>::new(), false, &[Inc, Remove], None); }
[] 6 fn c24_sparse_long_thorough() { card(CounterVec::<Set>::sparse(), false, &[Inc, Mut, Remove, Touch, Remove, Inc], Some(K)); }
[] 6 fn c24_init_dense() {
    let mut c = CounterVec::<Set>::dense();
    let mut m = Map::new(true);
    apply(&mut c, &mut m, Inc);
    if nd::bool() { apply(&mut c, &mut m, Mut) }
    c.init_all_dense();
    assert!(c.get_cardinality() == (K, Some(K)), "all present");
    for k in 0..K {
        assert!(c.get_metric(c.with_labels(G(k))).count.load(SeqCst) == m.v[k].unwrap_or(0), "recorded values stay");
    }
    c.init_all_dense();
    assert!(c.get_metric(c.with_labels(G(0))).count.load(SeqCst) == m.v[0].unwrap_or(0));
    core::mem::forget(c);
}
[] 6 fn c24_init_sparse() {
    let mut c = CounterVec::<Set>::sparse();
    let mut m = Map::new(false);
    apply(&mut c, &mut m, Inc);
    c.init_all_dense();
    assert!(c.get_cardinality() == (1, Some(K)), "does nothing when sparse");
    values(&mut c, &m);
    core::mem::forget(c);
}
[] 8 fn c24_spread() {
    // label groups in different shards are all counted
    let c = CounterVec::<SpreadSet>::sparse();
    for i in 0..6 {
        assert!(c.get_cardinality() == (i, Some(6)));
        c.inc(sp(i));
    }
    assert!(c.get_cardinality() == (6, Some(6)));
    assert!(c.remove_metric(c.with_labels(sp(2))).is_some());
    assert!(c.remove_metric(c.with_labels(sp(2))).is_none());
    assert!(c.get_cardinality() == (5, Some(6)));
    core::mem::forget(c);
}
[] 1030 fn c24_large() {
    // beyond the dense limit the vector is sparse and reports what was used
    let c = CounterVec::with_label_set(Sized_(1025));
    assert!(c.get_cardinality() == (0, Some(1025)));
    c.inc(G(1024));
    assert!(c.get_cardinality() == (1, Some(1025)));
    core::mem::forget(c);
}
// ---------------------------------------------------------------- C25
[] 6 fn c25_dense() { scrape(CounterVec::<Set>::dense(), true, &[Inc, Mut, Remove]); }
[] 6 fn c25_sparse() { scrape(CounterVec::<Set>::sparse(), false, &[Inc, Inc]); }
[] 6 fn c25_sparse_remove() { scrape(CounterVec::<Set>::sparse(), false, &[Inc, Mut, Remove]); }
[] 6 fn c25_sparse_mut() { scrape(CounterVec::<Set>::sparse(), false, &[Mut, Touch]); }
[] 6 fn c25_sparse_three_thorough() { scrape(CounterVec::<Set>::sparse(), false, &[Mut, Touch, Mut]); }
[] 6 fn c25_dynamic() { scrape(CounterVec::<Alike<true>>::new(), false, &[Inc, Mut]); }
[] 6 fn c25_sparse_long_thorough() { scrape(CounterVec::<Set>::sparse(), false, &[Inc, Mut, Remove, Touch, Inc]); }
[] 8 fn c25_all_shards() { scrape_all(CounterVec::sparse_with_label_set(Sized_(8))); }
[] 9 fn c25_all_cells() { scrape_all(CounterVec::dense_with_label_set(Sized_(8))); }
[] 6 fn c25_init() {
    let mut c = GaugeVec::<Set>::dense();
    let (k, x) = (key(), nd::i64());
    c.set(G(k), x);
    c.init_all_dense();
    let mut r = Rec::new();
    c.collect_family_into(MetricName::from_str("name"), &mut r).unwrap();
    let mut want = [Some(0); K];
    want[k] = Some(x);
    r.check(&want);
    core::mem::forget(c);
}
[] 6 fn c25_empty() {
    let c = GaugeVec::<Set>::dense();
    let d = GaugeVec::<Set>::sparse();
    for v in [&c, &d] {
        let mut r = Rec::new();
        v.collect_family_into(MetricName::from_str("name"), &mut r).unwrap();
        r.check(&[None; K]);
    }
    core::mem::forget((c, d));
}
[] 6 fn c25_single() {
    // a single metric is one sample without labels; an absent family is none
    let g = Gauge::new();
    let x = nd::i64();
    g.set(x);
    let mut r = Rec::new();
    g.collect_family_into(MetricName::from_str("name"), &mut r).unwrap();
    assert!(r.types == 1 && r.n == 1 && r.names);
    assert!(r.seen[0] + r.seen[1] + r.seen[2] == 0 && r.bare == x);
    let none: Option<Gauge> = None;
    none.collect_family_into(MetricName::from_str("name"), &mut r).unwrap();
    assert!(r.types == 1 && r.n == 1);
    let some = Some(g);
    some.collect_family_into(MetricName::from_str("name"), &mut r).unwrap();
    assert!(r.types == 2 && r.n == 2);
}
}
