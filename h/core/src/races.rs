//! C08 concurrent updates, C10 scrapes of histograms, C22 first uses.
use crate::nd;
use crate::race::{race, watch, Race};
use crate::vecs::{Alike, G};
use measured::metric::counter::CounterState;
use measured::metric::histogram;
use measured::metric::group::Encoding;
use measured::metric::name::{MetricName, MetricNameEncoder};
use measured::metric::{MetricEncoding, MetricFamilyEncoding};
use measured::*;
use std::sync::atomic::Ordering::SeqCst;

fn times(b: u64, n: usize) -> u64 {
    b.wrapping_mul(n as u64)
}

/// Initial value and two amounts (floating point arithmetic itself is C07's).
fn floats(run: impl Fn(f64, f64, f64)) {
    run(1.5, 0.25, -4.0)
}
/// the possible results of one `+a` among `n` (at most 2) times `+b`
fn sums(v: f64, a: f64, b: f64, n: usize, got: f64) -> bool {
    match n {
        0 => nd::feq(got, v + a),
        1 => nd::feq(got, v + a + b) || nd::feq(got, v + b + a),
        2 => nd::feq(got, v + a + b + b) || nd::feq(got, v + b + a + b) || nd::feq(got, v + b + b + a),
        _ => {
            // native replay only: any position
            (0..=n).any(|p| {
                let mut x = v;
                for i in 0..=n {
                    x += if i == p { a } else { b };
                }
                nd::feq(got, x)
            })
        }
    }
}
fn gauge(v: i64) -> Gauge {
    let g = Gauge::new();
    g.get_metric().count.store(v, SeqCst);
    g
}
fn gauge_op(k: usize, g: &Gauge, a: i64) {
    match k {
        0 => g.inc(),
        1 => g.dec(),
        2 => g.inc_by(a),
        _ => g.dec_by(a),
    }
}
fn gauge_delta(k: usize, a: i64) -> i64 {
    match k {
        0 => 1,
        1 => -1,
        2 => a,
        _ => a.wrapping_neg(),
    }
}
fn fgauge(v: f64) -> FloatGauge {
    let g = FloatGauge::new();
    g.set(v);
    g
}
fn fgauge_op(k: usize, g: &FloatGauge, a: f64) {
    match k {
        0 => g.inc(),
        1 => g.dec(),
        2 => g.inc_by(a),
        _ => g.dec_by(a),
    }
}
fn fgauge_delta(k: usize, a: f64) -> f64 {
    match k {
        0 => 1.0,
        1 => -1.0,
        2 => a,
        _ => -a,
    }
}
fn fgauge_race(k: usize, max: usize) {
    floats(|v, a, b| race(Race { max, spurious: 1 },
        || fgauge(v),
        |g| { watch(&g.get_metric().count); fgauge_op(k, g, a) },
        |g| g.inc_by(b),
        |g, (), n| assert!(sums(v, fgauge_delta(k, a), b, n, g.get_metric().count.get()), "a change was lost or applied twice")));
}
fn fgauge_set(k: usize) {
    floats(|v, a, b| race(Race { max: 2, spurious: 0 },
        || fgauge(v),
        |g| { watch(&g.get_metric().count); fgauge_op(k, g, a) },
        |g| g.set(b),
        |g, (), n| {
            let (d, got) = (fgauge_delta(k, a), g.get_metric().count.get());
            if n == 0 {
                assert!(nd::feq(got, v + d));
            } else {
                assert!(nd::feq(got, b + d) || nd::feq(got, b), "a change overwrote a later set");
            }
        }));
}

fn hist_race(max: usize) {
    floats(|_, x, y| race(Race { max, spurious: 1 },
        || Histogram::with_metadata(histogram::Thresholds::with_buckets([1.0])),
        |h| { unsafe { watch(&(*h.get_metric().inner.data_ptr()).sum) }; h.observe(x) },
        |h| h.observe(y),
        |h, (), n| {
            let m = h.get_metric();
            let mut i = m.inner.write();
            let below = (x <= 1.0) as usize + if y <= 1.0 { n } else { 0 };
            assert!(*i.buckets[0].get_mut() == below as u64, "bucket count");
            assert!(*i.inf.get_mut() == (n + 1 - below) as u64, "+Inf count");
            assert!(sums(0.0, x, y, n, i.sum.get_ex()), "sum");
        }));
}

// ------------------------------------------------------------- scrapes
/// The last number of each of the four lines of a histogram with one bucket.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Snap {
    bucket: u64,
    inf: u64,
    sum: f64,
    count: u64,
}
#[cfg(kani)]
mod lines {
    use super::Snap;
    use crate::stubs::{FLOAT, INT, TOKENS};
    pub struct Lines {
        line: usize,
        last: usize,
        token: bool,
        seen: bool,
        val: [u64; 4],
    }
    impl Lines {
        pub fn new() -> Self {
            Lines { line: 0, last: 0, token: false, seen: false, val: [0; 4] }
        }
        #[inline(always)]
        fn byte(&mut self, b: u8) {
            if self.token {
                self.last = b as usize - 97;
                self.token = false;
            } else if b == INT || b == FLOAT {
                self.token = true;
                self.seen = true;
            } else if b == b'\n' && self.seen {
                self.seen = false;
                self.val[self.line] = unsafe { TOKENS[self.last].1 };
                self.line += 1;
            }
        }
        pub fn snap(self) -> Snap {
            assert!(self.line == 4, "four lines");
            Snap { bucket: self.val[0], inf: self.val[1], sum: f64::from_bits(self.val[2]), count: self.val[3] }
        }
    }
    impl std::io::Write for Lines {
        fn write(&mut self, s: &[u8]) -> std::io::Result<usize> {
            self.write_all(s)?;
            Ok(s.len())
        }
        fn write_all(&mut self, s: &[u8]) -> std::io::Result<()> {
            // unrolled, so that the loop bound need not grow with the text
            macro_rules! step {
                ($($i:literal)*) => {$( if $i < s.len() { self.byte(s[$i]) } )*};
            }
            step!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
            assert!(s.len() <= 16, "recorder");
            Ok(())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
}
#[cfg(not(kani))]
mod lines {
    use super::Snap;
    pub struct Lines(Vec<u8>);
    impl Lines {
        pub fn new() -> Self {
            Lines(vec![])
        }
        pub fn snap(self) -> Snap {
            let t = String::from_utf8(self.0).unwrap();
            let v: Vec<&str> = t.lines().filter(|l| !l.starts_with('#')).map(|l| l.rsplit(' ').next().unwrap()).collect();
            assert!(v.len() == 4, "four lines");
            Snap { bucket: v[0].parse().unwrap(), inf: v[1].parse().unwrap(), sum: v[2].parse().unwrap(), count: v[3].parse().unwrap() }
        }
    }
    impl std::io::Write for Lines {
        fn write(&mut self, s: &[u8]) -> std::io::Result<usize> {
            self.0.write(s)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
}
use lines::Lines;

/// a histogram that has observed `b` small values and one of 4
fn loaded(b: u64) -> Histogram<1> {
    let mut h = Histogram::with_metadata(histogram::Thresholds::with_buckets([1.0]));
    {
        let mut m = h.get_metric_mut();
        let i = m.inner.get_mut();
        *i.buckets[0].get_mut() = b;
        *i.inf.get_mut() = 1;
        i.sum.set_mut(4.0);
    }
    h
}
fn scrape(h: &Histogram<1>) -> Snap {
    let mut e = text::TextEncoder::new(Lines::new());
    h.collect_family_into(MetricName::from_str("h"), &mut e).unwrap();
    e.writer.snap()
}
/// what a scrape of `loaded(b)` shows after `n` observations of `x`
fn expected(b: u64, x: f64, n: usize) -> Snap {
    let mut s = Snap { bucket: b, inf: b + 1, sum: 4.0, count: b + 1 };
    for _ in 0..n {
        s.sum += x;
        s.inf += 1;
        s.count += 1;
        s.bucket += (x <= 1.0) as u64;
    }
    s
}
/// one cell that a run of the interrupting operation fills
struct Slot<T>(std::cell::UnsafeCell<Option<T>>);
unsafe impl<T: Send> Sync for Slot<T> {}
impl<T> Slot<T> {
    fn new() -> Self {
        Slot(std::cell::UnsafeCell::new(None))
    }
    /// only one thread writes, the other reads after joining it
    fn put(&self, t: T) {
        unsafe { *self.0.get() = Some(t) }
    }
    fn peek(&self) -> Option<T>
    where
        T: Copy,
    {
        unsafe { *self.0.get() }
    }
    fn take(self) -> Option<T> {
        self.0.into_inner()
    }
}
fn torn_observation(x: f64) {
    let b = nd::u32() as u64;
    race(Race { max: 1, spurious: 0 },
        || (loaded(b), Slot::new()),
        |w| { unsafe { watch(&(*w.0.get_metric().inner.data_ptr()).sum) }; w.0.observe(x) },
        |w| w.1.put(scrape(&w.0)),
        |w, (), n| {
            if n > 0 {
                let s = w.1.take().unwrap();
                assert!(s == expected(b, x, 0) || s == expected(b, x, 1), "a scrape saw half of an observation");
            }
        });
}
fn torn_scrape(x: f64) {
    let b = nd::u32() as u64;
    race(Race { max: 2, spurious: 0 },
        || loaded(b),
        scrape,
        |h| h.observe(x),
        |_, s, n| {
            let mut ok = false;
            for i in 0..=n {
                ok |= s == expected(b, x, i);
            }
            assert!(ok, "a scrape saw half of an observation");
        });
}

// ---------------------------------------------------------- label groups
/// what removals have handed out
struct Acc(std::cell::UnsafeCell<(u64, usize)>);
unsafe impl Sync for Acc {}
impl Acc {
    fn new() -> Self {
        Acc(std::cell::UnsafeCell::new((0, 0)))
    }
    fn add(&self, x: Option<CounterState>) {
        // one thread at a time
        if let Some(s) = x {
            let c = unsafe { &mut *self.0.get() };
            c.0 = c.0.wrapping_add(s.count.load(SeqCst));
            c.1 += 1;
        }
    }
    fn get(&self) -> (u64, usize) {
        unsafe { *self.0.get() }
    }
}
type Vec3 = CounterVec<Alike<false>>;
fn remove(v: &Vec3, k: usize) -> Option<CounterState> {
    v.remove_metric(v.with_labels(G(k)))
}
fn value(v: &Vec3, k: usize) -> u64 {
    v.get_metric(v.with_labels(G(k))).count.load(SeqCst)
}
/// a vector in which label group 0 is unused, or holds `old`
fn vector(dense: bool, old: Option<u64>) -> Vec3 {
    let v = if dense { CounterVec::dense() } else { CounterVec::sparse() };
    if let Some(x) = old {
        v.inc_by(G(0), x);
    }
    v
}
/// an update is interrupted by updates of label group `k`
fn update_update(dense: bool, old: Option<u64>, k: usize, max: usize) {
    let (a, b) = (5, 100); // amounts are C05's and C08's
    race(Race { max, spurious: 0 },
        || vector(dense, old),
        |v| v.inc_by(G(0), a),
        |v| v.inc_by(G(k), b),
        |v, (), n| {
            let o = old.unwrap_or(0);
            let same = if k == 0 { times(b, n) } else { 0 };
            if dense {
                assert!(value(&v, 0) == o + a + same, "an update was lost or applied twice");
            } else {
                let got = remove(&v, 0).map(|s| s.count.load(SeqCst));
                assert!(got == Some(o + a + same), "an update was lost or applied twice");
                if k == 0 {
                    assert!(remove(&v, 0).is_none(), "the label group is there twice");
                }
            }
            if k != 0 && n > 0 {
                assert!(value(&v, k) == times(b, n), "an update of the other label group was lost");
            }
            core::mem::forget(v);
        });
}
/// an update is interrupted by a removal
fn update_remove(old: Option<u64>, k: usize) {
    let a = 5;
    race(Race { max: 1, spurious: 0 },
        || { let v = vector(false, old); if k != 0 { v.inc_by(G(k), 7); } (v, Acc::new()) },
        |w| w.0.inc_by(G(0), a),
        |w| w.1.add(remove(&w.0, k)),
        |w, (), n| {
            let (taken, _) = w.1.get();
            let rest = remove(&w.0, 0).map(|s| s.count.load(SeqCst));
            if k == 0 {
                assert!(rest.unwrap_or(0) + taken == old.unwrap_or(0) + a, "an update is neither in the metric nor in the removed state");
            } else {
                assert!(rest == Some(old.unwrap_or(0) + a), "the removal of another label group changed this one");
                assert!(n != 1 || taken == 7, "the other label group was removed");
            }
            core::mem::forget(w);
        });
}
/// a removal is interrupted by an update or another removal
fn remove_update(old: Option<u64>) {
    let b = 100;
    race(Race { max: 1, spurious: 0 },
        || vector(false, old),
        |v| remove(v, 0).map(|s| s.count.load(SeqCst)),
        |v| v.inc_by(G(0), b),
        |v, got, n| {
            let rest = remove(&v, 0).map(|s| s.count.load(SeqCst));
            assert!(rest.unwrap_or(0) + got.unwrap_or(0) == old.unwrap_or(0) + times(b, n), "an update is neither in the metric nor in the removed state");
            core::mem::forget(v);
        });
}
fn remove_remove() {
    let old = 3;
    race(Race { max: 1, spurious: 0 },
        || (vector(false, Some(old)), Acc::new()),
        |w| remove(&w.0, 0).map(|s| s.count.load(SeqCst)),
        |w| w.1.add(remove(&w.0, 0)),
        |w, got, _| {
            let (taken, times) = w.1.get();
            assert!(times + got.is_some() as usize == 1, "a state is removed exactly once");
            assert!(taken + got.unwrap_or(0) == old, "the removed state");
            core::mem::forget(w);
        });
}

/// counts families and samples
struct Tally {
    types: usize,
    samples: usize,
    sum: u64,
}
impl Encoding for Tally {
    type Err = ();
    fn write_help(&mut self, _: impl MetricNameEncoder, _: &str) -> Result<(), ()> {
        Ok(())
    }
}
impl MetricEncoding<Tally> for CounterState {
    fn write_type(_: impl MetricNameEncoder, e: &mut Tally) -> Result<(), ()> {
        e.types += 1;
        Ok(())
    }
    fn collect_into(&self, _: &(), _: impl LabelGroup, _: impl MetricNameEncoder, e: &mut Tally) -> Result<(), ()> {
        e.samples += 1;
        e.sum += self.count.load(SeqCst);
        Ok(())
    }
}
fn tally(v: &Vec3) -> Tally {
    let mut t = Tally { types: 0, samples: 0, sum: 0 };
    v.collect_family_into(MetricName::from_str("m"), &mut t).unwrap();
    t
}
/// a scrape is interrupted by an update of label group 0
fn scrape_update(dense: bool, old: Option<u64>) {
    race(Race { max: 1, spurious: 0 },
        || vector(dense, old),
        tally,
        |v| v.inc_by(G(0), 100),
        |v, t, n| {
            let o = old.unwrap_or(0);
            assert!(t.types == 1, "one type");
            assert!(t.samples <= 1 && (old.is_none() || t.samples == 1), "a label group is exported once");
            assert!(t.samples == 0 || (0..=n).any(|i| t.sum == o + times(100, i)), "a value it had during the scrape");
            core::mem::forget(v);
        });
}
/// a scrape is interrupted by the removal of label group 0 or 1 while both are live
fn scrape_remove(k: usize) {
    race(Race { max: 1, spurious: 0 },
        || { let v = vector(false, Some(3)); v.inc_by(G(1), 40); v },
        tally,
        |v| core::mem::forget(remove(v, k)),
        |v, t, _| {
            let left = if k == 0 { 40 } else { 3 };
            assert!(t.types == 1, "one type");
            assert!((t.samples == 2 && t.sum == 43) || (t.samples == 1 && t.sum == left), "the other label group is exported once");
            core::mem::forget(v);
        });
}
/// an update is interrupted by a scrape
fn update_scrape(dense: bool, old: Option<u64>) {
    race(Race { max: 1, spurious: 0 },
        || (vector(dense, old), Slot::new()),
        |w| w.0.inc_by(G(0), 5),
        |w| w.1.put(tally(&w.0)),
        |w, (), n| {
            if n > 0 {
                let t = w.1.take().unwrap();
                let o = old.unwrap_or(0);
                assert!(t.samples <= 1 && (old.is_none() || t.samples == 1), "a label group is exported once");
                assert!(t.samples == 0 || t.sum == o || t.sum == o + 5, "a value it had during the scrape");
            }
            core::mem::forget(w.0);
        });
}

proof! {
// ---------------------------------------------------------------- C08
[sched] 8 fn c08_counter() {
    let (v, a, b) = (nd::u64(), nd::u64(), nd::u64());
    race(Race { max: 2, spurious: 0 },
        || { let c = Counter::new(); c.get_metric().count.store(v, SeqCst); c },
        |c| { watch(&c.get_metric().count); c.inc_by(a) },
        |c| c.inc_by(b),
        |c, (), n| {
            let got = c.get_metric().count.load(SeqCst);
            assert!(got == v.wrapping_add(a).wrapping_add(times(b, n)), "an increment was lost or applied twice");
        });
}
[sched] 8 fn c08_counter_inc() {
    let (v, b) = (nd::u64(), nd::u64());
    race(Race { max: 2, spurious: 0 },
        || { let c = Counter::new(); c.get_metric().count.store(v, SeqCst); c },
        |c| { watch(&c.get_metric().count); c.inc() },
        |c| c.inc_by(b),
        |c, (), n| {
            let got = c.get_metric().count.load(SeqCst);
            assert!(got == v.wrapping_add(1).wrapping_add(times(b, n)), "an increment was lost or applied twice");
        });
}
[sched] 8 fn c08_gauge() {
    let (v, a, b, k) = (nd::i64(), nd::i64(), nd::i64(), nd::below(4));
    race(Race { max: 2, spurious: 1 },
        || gauge(v),
        |g| { watch(&g.get_metric().count); gauge_op(k, g, a) },
        |g| g.inc_by(b),
        |g, (), n| {
            let got = g.get_metric().count.load(SeqCst);
            assert!(got == v.wrapping_add(gauge_delta(k, a)).wrapping_add(times(b as u64, n) as i64), "a change was lost or applied twice");
        });
}
[sched] 8 fn c08_gauge_set_between() {
    // a concurrent set is never overwritten by a value computed before it
    let (v, a, b, k) = (nd::i64(), nd::i64(), nd::i64(), nd::below(4));
    race(Race { max: 2, spurious: 1 },
        || gauge(v),
        |g| { watch(&g.get_metric().count); gauge_op(k, g, a) },
        |g| g.set(b),
        |g, (), n| {
            let (d, got) = (gauge_delta(k, a), g.get_metric().count.load(SeqCst));
            if n == 0 {
                assert!(got == v.wrapping_add(d));
            } else {
                assert!(got == b || got == b.wrapping_add(d), "a change overwrote a later set");
            }
        });
}
[sched] 8 fn c08_gauge_set() {
    let (v, a, b) = (nd::i64(), nd::i64(), nd::i64());
    race(Race { max: 1, spurious: 1 },
        || gauge(v),
        |g| { watch(&g.get_metric().count); g.set(a) },
        |g| g.inc_by(b),
        |g, (), n| {
            let got = g.get_metric().count.load(SeqCst);
            assert!(got == a || (n > 0 && (1..=n).any(|i| got == a.wrapping_add(times(b as u64, i) as i64))), "the value set was changed");
        });
}
[sched] 6 fn c08_float_inc() { fgauge_race(0, 2); }
[sched] 6 fn c08_float_dec() { fgauge_race(1, 2); }
[sched] 6 fn c08_float_inc_by() { fgauge_race(2, 2); }
[sched] 6 fn c08_float_dec_by() { fgauge_race(3, 2); }
[sched] 6 fn c08_float_set_between() { fgauge_set(2); }
[sched] 6 fn c08_float_set_between_dec() { fgauge_set(1); }
[sched] 6 fn c08_float_set() {
    floats(|v, a, b| race(Race { max: 1, spurious: 1 },
        || fgauge(v),
        |g| { watch(&g.get_metric().count); g.set(a) },
        |g| g.inc_by(b),
        |g, (), n| {
            let mut x = a;
            let mut ok = false;
            for _ in 0..=n {
                ok |= nd::feq(g.get_metric().count.get(), x);
                x += b;
            }
            assert!(ok, "the value set was changed");
        }));
}
[sched] 14 fn c08_float_contended() {
    // up to 10 failed attempts and a set at any point of them (every set
    // stores another value, so that it fails an attempt)
    floats(|v, a, b| race(Race { max: 1, spurious: 10 },
        || (fgauge(v), Slot::new()),
        |w| { watch(&w.0.get_metric().count); w.0.inc_by(a) },
        |w| {
            let x = w.1.peek().map_or(b, |x| x - 8.0);
            w.1.put(x);
            w.0.set(x)
        },
        |w, (), _| {
            let got = w.0.get_metric().count.get();
            match w.1.take() {
                None => assert!(nd::feq(got, v + a), "a change was lost or applied twice"),
                Some(b) => assert!(nd::feq(got, b + a) || nd::feq(got, b), "a change overwrote a later set"),
            }
        }));
}
[sched] 9 fn c08_float_spurious() {
    // any number (up to 6) of failed attempts
    floats(|v, a, _| race(Race { max: 0, spurious: 6 },
        || fgauge(v),
        |g| { watch(&g.get_metric().count); g.inc_by(a) },
        |g| g.set(0.0),
        |g, (), n| if n == 0 { assert!(nd::feq(g.get_metric().count.get(), v + a), "the change was lost") }));
}
[sched] 6 fn c08_histogram() { hist_race(2); }
// ---------------------------------------------------------------- C10
[sched fmt] 5 fn c10_observation_below() { torn_observation(0.5); }
[sched fmt] 5 fn c10_observation_above() { torn_observation(2.0); }
[sched fmt] 5 fn c10_scrape_below() { torn_scrape(0.5); }
[sched fmt] 5 fn c10_scrape_above() { torn_scrape(2.0); }
// ---------------------------------------------------------------- C22
[sched] 6 fn c22_sparse_first_use() { update_update(false, None, 0, 1); }
[sched] 6 fn c22_sparse_first_use_other() { update_update(false, None, 1, 1); }
[sched] 6 fn c22_sparse_later_use() { update_update(false, Some(3), 0, 1); }
[sched] 6 fn c22_dense_first_use() { update_update(true, None, 0, 1); }
[sched] 6 fn c22_dense_first_use_other() { update_update(true, None, 1, 1); }
[sched] 6 fn c22_update_remove() { update_remove(Some(3), 0); }
[sched] 6 fn c22_update_remove_fresh() { update_remove(None, 0); }
[sched] 6 fn c22_update_remove_other() { update_remove(Some(3), 1); }
[sched] 6 fn c22_remove_update() { remove_update(Some(3)); }
[sched] 6 fn c22_remove_update_fresh() { remove_update(None); }
[sched] 6 fn c22_remove_remove() { remove_remove(); }
[sched] 6 fn c22_scrape_update_dense() { scrape_update(true, None); }
[sched] 6 fn c22_scrape_remove() { scrape_remove(0); }
[sched] 6 fn c22_scrape_remove_other() { scrape_remove(1); }
[sched] 6 fn c22_update_scrape_dense() { update_scrape(true, None); }
}
