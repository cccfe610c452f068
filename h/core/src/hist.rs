//! C09 histogram accounting, C11 thresholds, C12 timers.
use crate::clock::{self, Watch};
use crate::model::*;
use crate::nd;
use measured::metric::histogram::{HistogramState, HistogramStateInner, Thresholds};
use measured::*;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

fn thresholds<const N: usize>() -> Thresholds<N> {
    let mut le = [0.0; N];
    for i in 0..N {
        le[i] = nd::f64();
        if i > 0 {
            nd::assume(le[i - 1] < le[i]);
        }
        nd::assume(!le[i].is_nan());
    }
    Thresholds::with_buckets(le)
}
fn preset<const N: usize>(s: &HistogramState<N>) -> ([u64; N], u64) {
    let g = s.inner.read();
    let mut b = [0; N];
    for i in 0..N {
        b[i] = nd::u32() as u64;
        g.buckets[i].store(b[i], SeqCst);
    }
    let inf = nd::u32() as u64;
    g.inf.store(inf, SeqCst);
    (b, inf)
}
/// cumulative counts rose by one exactly where x <= le
fn check<const N: usize>(s: &HistogramState<N>, le: &[f64; N], pre: &([u64; N], u64), x: f64) {
    let g = s.inner.read();
    let (mut was, mut is) = (0, 0);
    for i in 0..N {
        was += pre.0[i];
        is += g.buckets[i].load(SeqCst);
        assert!(is == was + (x <= le[i]) as u64, "cumulative bucket count");
    }
    was += pre.1;
    is += g.inf.load(SeqCst);
    assert!(is == was + 1, "total count");
}
fn sum<const N: usize>(s: &HistogramState<N>) -> f64 {
    s.inner.read().sum.get()
}

fn observe_n<const N: usize>(op: usize) {
    let mut h = Histogram::<N>::with_metadata(thresholds());
    let x = nd::f64();
    let pre = preset(&*h.get_metric());
    match op {
        0 => h.observe(x),
        1 => h.get_metric().observe(x),
        _ => h.get_metric_mut().observe(x),
    }
    let m = h.get_metric();
    check(&*m, m.metadata().get(), &pre, x);
    witness!(x.is_nan(), "NaN observed");
    witness!(x > 0.0, "positive value observed");
    core::mem::forget(m);
    core::mem::forget(h);
}

fn observe_vec(mut v: HistogramVec<KindSet, 2>, op: usize, dense: bool) {
    let x = if dense { nd::f64() } else { nd::special_f64() };
    let id = v.with_labels(kg(1));
    let pre = if dense { preset(&*v.get_metric(id)) } else { ([0; 2], 0) };
    match op {
        0 => v.observe(kg(1), x),
        1 => v.get_metric(id).observe(x),
        _ => v.get_metric_mut(id).observe(x),
    }
    {
        let m = v.get_metric(id);
        check(&*m, m.metadata().get(), &pre, x);
    }
    // another label group is unaffected
    let other = v.with_labels(kg(2));
    let m = v.get_metric(other);
    assert!(m.inner.read().inf.load(SeqCst) == 0 && m.inner.read().buckets[0].load(SeqCst) == 0);
    core::mem::forget(m);
    core::mem::forget(v);
}

fn sum_op(op: usize, x: f64, y: f64) -> (f64, f64) {
    // prior sum x, observing y
    let mut h = Histogram::<1>::with_metadata(Thresholds::with_buckets([0.0]));
    h.get_metric().inner.write().sum.set(x);
    match op {
        0 => h.observe(y),
        _ => h.get_metric_mut().observe(y),
    }
    let got = sum(&*h.get_metric());
    (got, x + y)
}

fn one<const N: usize>(s: &HistogramState<N>) -> (u64, f64) {
    let g = s.inner.read();
    let mut n = g.inf.load(SeqCst);
    for i in 0..N {
        n += g.buckets[i].load(SeqCst);
    }
    (n, g.sum.get())
}

// start and end of the timed interval: symbolic seconds, nanoseconds chosen
// so that the exact number of seconds is representable
fn interval(borrow: bool) -> ((u64, u32), (u64, u32), f64) {
    let s = nd::u32() as u64 & 0xff_ffff;
    let d = nd::u32() as u64 & 0xf_ffff;
    if borrow {
        ((s, 750_000_000), (s + 1 + d, 250_000_000), d as f64 + 0.5)
    } else {
        ((s, 0), (s + d, 500_000_000), d as f64 + 0.5)
    }
}

fn timer_single(op: usize, borrow: bool) {
    let h = Histogram::<1>::with_metadata(Thresholds::with_buckets([100.0]));
    let (a, b, want) = interval(borrow);
    clock::at(a.0, a.1);
    let mut w = Watch::new();
    let t = h.start_timer();
    w.started();
    assert!(one(&*h.get_metric()).0 == 0, "starting records nothing");
    clock::at(b.0, b.1);
    w.stopping();
    match op {
        0 => drop(t),
        1 => {
            let d = t.observe();
            assert!(w.ok(d.as_secs_f64(), want), "returned duration");
        }
        _ => t.forget(),
    }
    let (n, s) = one(&*h.get_metric());
    if op == 2 {
        assert!(n == 0 && s == 0.0, "forgotten timer");
    } else {
        assert!(n == 1, "exactly one observation");
        assert!(w.ok(s, want), "elapsed seconds");
        #[cfg(kani)]
        assert!(h.get_metric().inner.read().buckets[0].load(SeqCst) == (want <= 100.0) as u64);
    }
    core::mem::forget(h);
}

fn timer_vec(v: HistogramVec<KindSet, 1>, op: usize) {
    let (a, b, want) = interval(op & 1 == 0);
    clock::at(a.0, a.1);
    let mut w = Watch::new();
    let t = v.start_timer(kg(1));
    w.started();
    clock::at(b.0, b.1);
    w.stopping();
    match op {
        0 => drop(t),
        1 => {
            let d = t.observe();
            assert!(w.ok(d.as_secs_f64(), want), "returned duration");
        }
        _ => t.forget(),
    }
    let id = v.with_labels(kg(1));
    let (n, s) = one(&*v.get_metric(id));
    if op == 2 {
        assert!(n == 0 && s == 0.0, "forgotten timer");
    } else {
        assert!(n == 1 && w.ok(s, want), "exactly one observation of the elapsed seconds");
    }
    let other = v.with_labels(kg(2));
    assert!(one(&*v.get_metric(other)).0 == 0, "other label group");
    core::mem::forget(v);
}

fn not_increasing<const N: usize>(le: &[f64; N]) -> bool {
    let mut bad = false;
    for i in 1..N {
        bad |= !(le[i - 1] < le[i]);
    }
    bad
}

fn with_buckets_n<const N: usize>() {
    let mut le = [0.0; N];
    for x in le.iter_mut() {
        *x = nd::f64();
    }
    nd::assume(!not_increasing(&le));
    let t = Thresholds::with_buckets(le);
    for i in 0..N {
        assert!(nd::feq(t.get()[i], le[i]), "bound kept");
    }
}

fn exponential(f: f64, f2: f64) {
    // operands for which start * factor^i is exact, whatever the evaluation order
    let s = nd::u32();
    nd::assume(s > 0);
    let start = s as f64;
    let t = Thresholds::<3>::exponential_buckets(start, f);
    assert!(t.get()[0] == start);
    assert!(t.get()[1] == start * f);
    assert!(t.get()[2] == start * f2);
}

proof! {
// ---------------------------------------------------------------- C09
[] 6 fn c09_observe_0() { observe_n::<0>(nd::below(3)); }
[] 6 fn c09_observe_1() { observe_n::<1>(nd::below(3)); }
[] 6 fn c09_observe_2() { observe_n::<2>(nd::below(3)); }
[] 7 fn c09_observe_3_shared() { observe_n::<3>(1); }
[] 7 fn c09_observe_3_exclusive() { observe_n::<3>(2); }
[] 8 fn c09_observe_5_thorough() { observe_n::<5>(nd::below(3)); }
[] 12 fn c09_observe_8_thorough() { observe_n::<8>(nd::below(3)); }
[] 6 fn c09_dense() { observe_vec(HistogramVec::dense_with_metadata(thresholds()), nd::below(3), true); }
[] 6 fn c09_sparse_observe() { observe_vec(HistogramVec::sparse_with_metadata(Thresholds::with_buckets([0.0, 1.5])), 0, false); }
[] 6 fn c09_sparse_shared() { observe_vec(HistogramVec::sparse_with_metadata(Thresholds::with_buckets([0.0, 1.5])), 1, false); }
[] 6 fn c09_sparse_exclusive() { observe_vec(HistogramVec::sparse_with_metadata(Thresholds::with_buckets([0.0, 1.5])), 2, false); }
[] 6 fn c09_state_by_index() {
    // the state itself, addressed by bucket number
    let mut s = HistogramState::<3>::default();
    let i = nd::below(4);
    let x = nd::special_f64();
    if nd::bool() { s.inner.read().observe(i, x) } else { s.inner.get_mut().observe_mut(i, x) }
    let g: &HistogramStateInner<3> = s.inner.get_mut();
    for j in 0..3 { assert!(g.buckets[j].load(SeqCst) == (i == j) as u64); }
    assert!(g.inf.load(SeqCst) == (i == 3) as u64);
    assert!(nd::feq(g.sum.get(), 0.0 + x));
}
[] 4 fn c09_sum_shared() {
    let (a, b) = sum_op(0, nd::special_f64(), nd::special_f64());
    assert!(nd::feq(a, b), "sum");
}
[] 4 fn c09_sum_exclusive() {
    let (a, b) = sum_op(1, nd::special_f64(), nd::special_f64());
    assert!(nd::feq(a, b), "sum");
}
[] 4 fn c09_sum_full_thorough() {
    let (a, b) = sum_op(nd::below(2), nd::f64(), nd::f64());
    assert!(nd::feq(a, b), "sum");
}
[] 6 fn c09_two_observations() {
    // a sequence of two observations, accounted in order
    let mut h = Histogram::<2>::with_metadata(thresholds());
    let (x, y) = (nd::special_f64(), nd::special_f64());
    h.observe(x);
    if nd::bool() { h.get_metric_mut().observe(y) } else { h.observe(y) }
    let m = h.get_metric();
    let le = *m.metadata().get();
    let g = m.inner.read();
    let mut c = 0;
    for i in 0..2 {
        c += g.buckets[i].load(SeqCst);
        assert!(c == (x <= le[i]) as u64 + (y <= le[i]) as u64);
    }
    assert!(c + g.inf.load(SeqCst) == 2);
    assert!(nd::feq(g.sum.get(), (0.0 + x) + y));
    core::mem::forget(g);
    core::mem::forget(m);
    core::mem::forget(h);
}
[] 6 fn c09_duration() {
    // durations count in seconds
    let mut h = Histogram::<1>::with_metadata(thresholds());
    let s = nd::u32() as u64 & 0xfffff;
    let d = Duration::new(s, 250_000_000);
    if nd::bool() { h.get_metric().observe_duration(d) } else { h.get_metric_mut().observe_duration(d) }
    let x = s as f64 + 0.25;
    let m = h.get_metric();
    check(&*m, m.metadata().get(), &([0], 0), x);
    assert!(sum(&*m) == x);
    core::mem::forget(m);
    core::mem::forget(h);
}
// ---------------------------------------------------------------- C11
[] 4 fn c11_with_buckets_0() { let t = Thresholds::<0>::with_buckets([]); assert!(t.get().len() == 0); }
[] 4 fn c11_with_buckets_1() { with_buckets_n::<1>(); }
[] 4 fn c11_with_buckets_2() { with_buckets_n::<2>(); }
[] 6 fn c11_with_buckets_4() { with_buckets_n::<4>(); }
[] 10 fn c11_with_buckets_8_thorough() { with_buckets_n::<8>(); }
[panics] 6 fn c11_with_buckets_2_rejects() {
    let le = [nd::f64(), nd::f64()];
    nd::assume(not_increasing(&le));
    let _ = Thresholds::with_buckets(le);
    never!("NEVER: bounds that are not strictly increasing were accepted");
}
[panics] 6 fn c11_with_buckets_4_rejects() {
    let le = [nd::f64(), nd::f64(), nd::f64(), nd::f64()];
    nd::assume(not_increasing(&le));
    let _ = Thresholds::with_buckets(le);
    never!("NEVER: bounds that are not strictly increasing were accepted");
}
[] 6 fn c11_linear() {
    // operands for which start + i*width is exact, whatever the evaluation order
    let start = (nd::i32() >> 4) as f64;
    let w = nd::u16();
    nd::assume(w > 0);
    let width = w as f64;
    let t = Thresholds::<3>::linear_buckets(start, width);
    assert!(t.get()[0] == start);
    assert!(t.get()[1] == start + width);
    assert!(t.get()[2] == start + (2 * w as u64) as f64);
}
[] 6 fn c11_linear_accepts() {
    let width = nd::f64();
    nd::assume(width > 0.0);
    let t = Thresholds::<2>::linear_buckets(nd::f64(), width);
    assert!(t.get().len() == 2);
}
[panics] 6 fn c11_linear_rejects() {
    let width = nd::f64();
    nd::assume(!(width > 0.0));
    let _ = Thresholds::<2>::linear_buckets(nd::f64(), width);
    never!("NEVER: a width that is not positive was accepted");
}
[powi] 6 fn c11_exponential_2() { exponential(2.0, 4.0); }
[powi] 6 fn c11_exponential_10() { exponential(10.0, 100.0); }
[powi] 6 fn c11_exponential_1p5() { exponential(1.5, 2.25); }
[powi] 6 fn c11_exponential_accepts() {
    let (s, f) = (nd::f64(), nd::f64());
    nd::assume(s > 0.0 && f > 1.0);
    let t = Thresholds::<2>::exponential_buckets(s, f);
    assert!(t.get().len() == 2);
}
[panics powi] 6 fn c11_exponential_rejects() {
    let (s, f) = (nd::f64(), nd::f64());
    nd::assume(!(s > 0.0 && f > 1.0));
    let _ = Thresholds::<2>::exponential_buckets(s, f);
    never!("NEVER: a start or factor outside the documented range was accepted");
}
// ---------------------------------------------------------------- C12
[clock] 4 fn c12_drop() { timer_single(0, nd::bool()); }
[clock] 4 fn c12_observe() { timer_single(1, nd::bool()); }
[clock] 4 fn c12_forget() { timer_single(2, nd::bool()); }
[clock] 5 fn c12_vec_dense_drop() { timer_vec(HistogramVec::dense_with_metadata(Thresholds::with_buckets([100.0])), 0); }
[clock] 5 fn c12_vec_dense_observe() { timer_vec(HistogramVec::dense_with_metadata(Thresholds::with_buckets([100.0])), 1); }
[clock] 5 fn c12_vec_dense_forget() { timer_vec(HistogramVec::dense_with_metadata(Thresholds::with_buckets([100.0])), 2); }
[clock] 5 fn c12_vec_sparse_drop() { timer_vec(HistogramVec::sparse_with_metadata(Thresholds::with_buckets([100.0])), 0); }
[clock] 5 fn c12_vec_sparse_observe() { timer_vec(HistogramVec::sparse_with_metadata(Thresholds::with_buckets([100.0])), 1); }
[clock] 5 fn c12_vec_sparse_forget() { timer_vec(HistogramVec::sparse_with_metadata(Thresholds::with_buckets([100.0])), 2); }
[clock] 4 fn c12_since() {
    // observe_duration_since, shared and exclusive, returns what it records
    let mut h = Histogram::<1>::with_metadata(Thresholds::with_buckets([100.0]));
    let (a, b, want) = interval(nd::bool());
    clock::at(a.0, a.1);
    let mut w = Watch::new();
    let t = Instant::now();
    w.started();
    clock::at(b.0, b.1);
    w.stopping();
    let d = if nd::bool() { h.get_metric().observe_duration_since(t) } else { h.get_metric_mut().observe_duration_since(t) };
    let (n, s) = one(&*h.get_metric());
    assert!(n == 1 && w.ok(s, want) && w.ok(d.as_secs_f64(), want));
    assert!(d.as_secs_f64() == s);
}
[clock] 5 fn c12_vec_since() {
    let v = HistogramVec::<KindSet, 1>::dense_with_metadata(Thresholds::with_buckets([100.0]));
    let (a, b, want) = interval(nd::bool());
    clock::at(a.0, a.1);
    let mut w = Watch::new();
    let t = Instant::now();
    w.started();
    clock::at(b.0, b.1);
    w.stopping();
    let d = v.observe_duration_since(kg(1), t);
    let (n, s) = one(&*v.get_metric(v.with_labels(kg(1))));
    assert!(n == 1 && w.ok(s, want) && w.ok(d.as_secs_f64(), want));
    assert!(d.as_secs_f64() == s);
    assert!(one(&*v.get_metric(v.with_labels(kg(0)))).0 == 0);
    core::mem::forget(v);
}
[] 5 fn c12_duration() {
    // durations are recorded in seconds
    let s = nd::u32() as u64 & 0xfffff;
    let d = Duration::new(s, 250_000_000);
    let v = HistogramVec::<KindSet, 1>::dense_with_metadata(Thresholds::with_buckets([nd::f64()]));
    v.observe_duration(kg(1), d);
    let (n, x) = one(&*v.get_metric(v.with_labels(kg(1))));
    assert!(n == 1 && x == s as f64 + 0.25);
    core::mem::forget(v);
}
}
