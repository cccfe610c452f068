//! C05 counters, C06 integer gauges, C07 float gauges: sequential arithmetic
//! of every access path against its specification.
use crate::model::*;
use crate::nd;
use measured::metric::counter::{write_counter, CounterState};
use measured::metric::gauge::{AtomicF64, FloatGaugeState, GaugeState};
use measured::*;
use std::sync::atomic::Ordering::SeqCst;

/// One operation of every vector access path from a symbolic previous value.
fn counter_vec(mut c: CounterVec<KindSet>, op: usize) {
    let v = nd::u64();
    let x = nd::u64();
    let add = if op == 0 || op == 1 { 1 } else { x };
    // exclusive access uses plain arithmetic: overflow is outside the claim there
    nd::assume(op == 0 || op == 2 || op == 5 || v.checked_add(add).is_some());
    c.inc_by(kg(1), v);
    let id = c.with_labels(kg(1));
    match op {
        0 => c.inc(kg(1)),
        1 => c.inc_mut(kg(1)),
        2 => c.inc_by(kg(1), x),
        3 => c.inc_by_mut(kg(1), x),
        4 => c.get_metric_mut(id).inc_by(x),
        _ => c.get_metric(id).inc_by(x),
    }
    assert!(c.get_metric(id).count.load(SeqCst) == v.wrapping_add(add));
    {
        let r = c.get_metric_mut(id);
        assert!(r.count.load(SeqCst) == v.wrapping_add(add));
    }
    witness!(v > 1, "non-trivial previous value");
    // vectors are not dropped: dropping is outside the claim and slow to encode
    core::mem::forget(c);
}

fn gauge_op(g: &mut Gauge, op: usize, x: i64, v: i64) -> i64 {
    match op {
        0 => { g.inc(); v.wrapping_add(1) }
        1 => { g.inc_by(x); v.wrapping_add(x) }
        2 => { g.dec(); v.wrapping_sub(1) }
        3 => { g.dec_by(x); v.wrapping_sub(x) }
        4 => { g.set(x); x }
        5 => { g.get_metric().inc(); v.wrapping_add(1) }
        6 => { g.get_metric().inc_by(x); v.wrapping_add(x) }
        7 => { g.get_metric().dec(); v.wrapping_sub(1) }
        8 => { g.get_metric().dec_by(x); v.wrapping_sub(x) }
        9 => { g.get_metric().set(x); x }
        10 => { nd::assume(v.checked_add(1).is_some()); g.get_metric_mut().inc(); v + 1 }
        11 => { nd::assume(v.checked_add(x).is_some()); g.get_metric_mut().inc_by(x); v + x }
        12 => { nd::assume(v.checked_sub(1).is_some()); g.get_metric_mut().dec(); v - 1 }
        13 => { nd::assume(v.checked_sub(x).is_some()); g.get_metric_mut().dec_by(x); v - x }
        _ => { g.get_metric_mut().set(x); x }
    }
}

fn gauge_vec(mut g: GaugeVec<KindSet>, op: usize) {
    let v = nd::i64();
    let x = nd::i64();
    g.set(kg(2), v);
    let id = g.with_labels(kg(2));
    let want = match op {
        0 => { g.inc(kg(2)); v.wrapping_add(1) }
        1 => { g.inc_by(kg(2), x); v.wrapping_add(x) }
        2 => { g.dec(kg(2)); v.wrapping_sub(1) }
        3 => { g.dec_by(kg(2), x); v.wrapping_sub(x) }
        4 => { g.set(kg(2), x); x }
        _ => {
            nd::assume(v.checked_sub(x).is_some());
            g.get_metric_mut(id).dec_by(x);
            v - x
        }
    };
    assert!(g.get_metric(id).count.load(SeqCst) == want);
    core::mem::forget(g);
}

/// (new value, expected value) of one float operation from value v
fn float_op(op: usize, v: f64, x: f64) -> (f64, f64) {
    let mut g = FloatGauge::new();
    g.set(v);
    let want = match op {
        0 => { g.inc(); v + 1.0 }
        1 => { g.inc_by(x); v + x }
        2 => { g.dec(); v - 1.0 }
        3 => { g.dec_by(x); v - x }
        4 => { g.set(x); x }
        5 => { g.get_metric_mut().inc(); v + 1.0 }
        6 => { g.get_metric_mut().inc_by(x); v + x }
        7 => { g.get_metric_mut().dec(); v - 1.0 }
        8 => { g.get_metric_mut().dec_by(x); v - x }
        _ => { g.get_metric_mut().set(x); x }
    };
    let got = g.get_metric().count.get();
    (got, want)
}

proof! {
// ---------------------------------------------------------------- C05
[] 4 fn c05_counter_ops() {
    // two symbolic operations out of every access path of a plain counter
    let mut c = Counter::new();
    let mut want: u64 = 0;
    assert!(c.get_metric().count.load(SeqCst) == 0);
    for _ in 0..2 {
        let x = nd::u64();
        let op = nd::below(7);
        let add = if op == 0 || op == 1 || op == 2 { 1 } else { x };
        nd::assume(op == 0 || op == 1 || op == 3 || op == 4 || want.checked_add(add).is_some());
        match op {
            0 => c.inc(),
            1 => c.get_metric().inc(),
            2 => c.inc_mut(),
            3 => c.inc_by(x),
            4 => c.get_metric().inc_by(x),
            5 => c.inc_by_mut(x),
            _ => c.get_metric_mut().inc_by(x),
        }
        want = want.wrapping_add(add);
        assert!(c.get_metric().count.load(SeqCst) == want);
    }
    witness!(want > u64::MAX / 2, "large count");
}
[] 5 fn c05_counter_dense() {
    let op = nd::below(6);
    counter_vec(CounterVec::dense(), op);
}
[] 5 fn c05_counter_sparse_inc() { counter_vec(CounterVec::sparse(), 0); }
[] 5 fn c05_counter_sparse_inc_mut() { counter_vec(CounterVec::sparse(), 1); }
[] 5 fn c05_counter_sparse_inc_by() { counter_vec(CounterVec::sparse(), 2); }
[] 5 fn c05_counter_sparse_inc_by_mut() { counter_vec(CounterVec::sparse(), 3); }
[] 5 fn c05_counter_sparse_get_mut() { counter_vec(CounterVec::sparse(), 4); }
[] 5 fn c05_counter_sparse_get() { counter_vec(CounterVec::sparse(), 5); }
[] 4 fn c05_counter_state() {
    let v = nd::u64();
    let x = nd::u64();
    let s = CounterState::new(v);
    assert!(s.count.load(SeqCst) == v);
    if nd::bool() {
        s.inc_by(x);
        assert!(s.count.load(SeqCst) == v.wrapping_add(x));
    } else {
        s.inc();
        assert!(s.count.load(SeqCst) == v.wrapping_add(1));
    }
}
[] 4 fn c05_counter_group_field() {
    // a counter written from a plain value is exported as that value
    let v = nd::u64();
    let mut r = CountRec(None);
    write_counter(&mut r, metric::name::MetricName::from_str("n"), label::NoLabels, v).unwrap();
    assert!(r.0 == Some(v));
}
// ---------------------------------------------------------------- C06
[] 4 fn c06_gauge_ops() {
    let mut g = Gauge::new();
    assert!(g.get_metric().count.load(SeqCst) == 0);
    let mut want: i64 = nd::i64();
    g.set(want);
    for _ in 0..2 {
        let op = nd::below(15);
        want = gauge_op(&mut g, op, nd::i64(), want);
        assert!(g.get_metric().count.load(SeqCst) == want);
    }
    witness!(want < 0, "negative gauge");
}
[] 5 fn c06_gauge_dense() {
    let op = nd::below(6);
    gauge_vec(GaugeVec::dense(), op);
}
[] 5 fn c06_gauge_sparse_inc() { gauge_vec(GaugeVec::sparse(), 0); }
[] 5 fn c06_gauge_sparse_inc_by() { gauge_vec(GaugeVec::sparse(), 1); }
[] 5 fn c06_gauge_sparse_dec() { gauge_vec(GaugeVec::sparse(), 2); }
[] 5 fn c06_gauge_sparse_dec_by() { gauge_vec(GaugeVec::sparse(), 3); }
[] 5 fn c06_gauge_sparse_set() { gauge_vec(GaugeVec::sparse(), 4); }
[] 5 fn c06_gauge_sparse_mut() { gauge_vec(GaugeVec::sparse(), 5); }
[] 4 fn c06_gauge_state() {
    let v = nd::i64();
    let s = GaugeState::new(v);
    assert!(s.count.load(SeqCst) == v);
    assert!(GaugeState::default().count.load(SeqCst) == 0);
    let mut r = GaugeRec(None);
    metric::gauge::write_gauge(&mut r, metric::name::MetricName::from_str("n"), label::NoLabels, v).unwrap();
    assert!(r.0 == Some(v));
}
// ---------------------------------------------------------------- C07
[] 3 fn c07_float_set() {
    let v = nd::f64();
    let x = nd::f64();
    let (a, w) = float_op(4, v, x);
    assert!(a.to_bits() == w.to_bits());
    let (a, w) = float_op(9, v, x);
    assert!(a.to_bits() == w.to_bits());
    assert!(FloatGaugeState::new(v).count.get().to_bits() == v.to_bits());
    assert!(FloatGaugeState::default().count.get().to_bits() == 0);
    assert!(AtomicF64::ZERO.get().to_bits() == 0);
    let mut r = FloatRec(None);
    metric::gauge::write_float_gauge(&mut r, metric::name::MetricName::from_str("n"), label::NoLabels, v).unwrap();
    assert!(r.0 == Some(v.to_bits()));
}
[] 3 fn c07_float_inc() {
    let v = nd::f64();
    let (a, w) = float_op(0, v, 0.0);
    assert!(nd::feq(a, w));
}
[] 3 fn c07_float_dec() {
    let v = nd::f64();
    let (a, w) = float_op(2, v, 0.0);
    assert!(nd::feq(a, w));
}
[] 3 fn c07_float_inc_by() {
    let (a, w) = float_op(1, nd::f64(), nd::f64());
    assert!(nd::feq(a, w));
    witness!(w.is_nan(), "NaN result");
}
[] 3 fn c07_float_dec_by() {
    let (a, w) = float_op(3, nd::f64(), nd::f64());
    assert!(nd::feq(a, w));
}
[] 3 fn c07_float_mut_inc() {
    let (a, w) = float_op(5, nd::f64(), 0.0);
    assert!(nd::feq(a, w));
}
[] 3 fn c07_float_mut_inc_by() {
    let (a, w) = float_op(6, nd::f64(), nd::f64());
    assert!(nd::feq(a, w));
}
[] 3 fn c07_float_mut_dec() {
    let (a, w) = float_op(7, nd::f64(), 0.0);
    assert!(nd::feq(a, w));
}
[] 3 fn c07_float_mut_dec_by() {
    let (a, w) = float_op(8, nd::f64(), nd::f64());
    assert!(nd::feq(a, w));
}
[] 5 fn c07_float_vec_dense() {
    // vector shorthands agree with the single-gauge path (operands from the special table)
    let v = nd::special_f64();
    let x = nd::special_f64();
    let g = FloatGaugeVec::<KindSet>::dense();
    g.set(kg(1), v);
    let want = match nd::below(5) {
        0 => { g.inc(kg(1)); v + 1.0 }
        1 => { g.inc_by(kg(1), x); v + x }
        2 => { g.dec(kg(1)); v - 1.0 }
        3 => { g.dec_by(kg(1), x); v - x }
        _ => { g.set(kg(1), x); x }
    };
    let id = g.with_labels(kg(1));
    assert!(nd::feq(g.get_metric(id).count.get(), want));
    core::mem::forget(g);
}
}
