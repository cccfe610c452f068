//! C20 the tokio collector.
use crate::nd;
use core::sync::atomic::Ordering::SeqCst;
use measured::label::{LabelGroup, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor};
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::group::Encoding;
use measured::metric::name::MetricNameEncoder;
use measured::metric::MetricEncoding;
use measured::MetricGroup;
use measured_tokio::{NamedRuntimesCollector, RuntimeCollector};
use std::io::{self, Write};
use tokio::runtime::*;

/// Texts are told apart by a polynomial of their bytes (a `match` on two equal
/// ones would not compile without a warning about the unreachable arm).
const P: u64 = 0x100_0000_01b3;
const fn text(s: &str) -> u64 {
    let b = s.as_bytes();
    let (mut h, mut i) = (0u64, 0);
    while i < b.len() {
        h = h.wrapping_mul(P).wrapping_add(b[i] as u64);
        i += 1;
    }
    h
}
struct Hash(u64);
impl Write for Hash {
    fn write(&mut self, s: &[u8]) -> io::Result<usize> {
        self.write_all(s).map(|_| s.len())
    }
    fn write_all(&mut self, s: &[u8]) -> io::Result<()> {
        let (mut h, mut i) = (self.0, 0);
        while i < s.len() {
            h = h.wrapping_mul(P).wrapping_add(s[i] as u64);
            i += 1;
        }
        self.0 = h;
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn name(n: &impl MetricNameEncoder) -> u64 {
    let mut b = Hash(0);
    n.encode_utf8(&mut b).unwrap();
    b.0
}
macro_rules! texts {
    ($($c:ident $t:literal)*) => {$(const $c: u64 = text($t);)*};
}
texts! {
    THREADS "threads" ACTIVE "active_tasks" QUEUED "queued_tasks" SCHEDULED "scheduled_tasks_total"
    YIELD "budget_forced_yield_count" MEAN "worker_mean_poll_time_seconds" NOOP "worker_noop_count"
    PARK "worker_park_count" STEAL "worker_steal_count" STEAL_OPS "worker_steal_operations_count"
    POLL "worker_poll_time_seconds" POLL_BUCKET "worker_poll_time_seconds_bucket"
    POLL_COUNT "worker_poll_time_seconds_count" POLL_SUM "worker_poll_time_seconds_sum"
    REG "registered_fds_total" DEREG "deregistered_fds_total" READY "io_ready_events_total"
    RUNTIME "runtime" WORKER_L "worker" OVERFLOW "overflow" KIND "kind" LE "le"
    K_WORKER "worker" K_BLOCKING "blocking" K_IDLE "idle" K_INJECTION "injection" K_0 "0" K_1 "1"
    REMOTE "remote" TRUE "true" FALSE "false" FOO "foo" BAR "bar"
}
const NONE: u64 = 0;
/// The labels of a sample: the text of each, or 1 + the number.
#[derive(Clone, Copy)]
struct Labels {
    runtime: u64,
    worker: u64,
    overflow: u64,
    kind: u64,
    has_le: bool,
    le: f64,
    n: u8,
}
struct Val<'a>(&'a mut u64, &'a mut f64);
impl LabelVisitor for Val<'_> {
    type Output = ();
    fn write_int(self, x: i64) {
        *self.0 = 1 + x as u64;
    }
    fn write_float(self, x: f64) {
        *self.1 = x;
    }
    fn write_str(self, x: &str) {
        *self.0 = text(x);
    }
}
impl LabelGroupVisitor for Labels {
    type Output = ();
    fn write_value(&mut self, l: &LabelName, v: &impl LabelValue) {
        let mut f = 0.0;
        let mut x = NONE;
        v.visit(Val(&mut x, &mut f));
        self.n += 1;
        match text(l.as_str()) {
            RUNTIME => self.runtime = x,
            WORKER_L => self.worker = x,
            OVERFLOW => self.overflow = x,
            KIND => self.kind = x,
            LE => (self.has_le, self.le) = (true, f),
            _ => panic!("an undocumented label"),
        }
    }
}

const SLOTS: usize = 37;
struct Rec {
    /// text of the name of each runtime
    names: [u64; 2],
    seen: [[u8; SLOTS]; 2],
    value: [[u64; SLOTS]; 2],
    /// seconds, for the durations
    seconds: [[f64; SLOTS]; 2],
}
impl Encoding for Rec {
    type Err = ();
    fn write_help(&mut self, n: impl MetricNameEncoder, _: &str) -> Result<(), ()> {
        match name(&n) {
            THREADS | ACTIVE | QUEUED | SCHEDULED | YIELD | MEAN | NOOP | PARK | STEAL | STEAL_OPS | POLL | REG | DEREG | READY => Ok(()),
            _ => panic!("an undocumented metric"),
        }
    }
}
fn worker(l: &Labels) -> usize {
    // a number, or its decimal digits
    match l.worker {
        1 | K_0 => 0,
        2 | K_1 => 1,
        _ => panic!("a sample of a worker without its number"),
    }
}
fn le(rt: usize, l: &Labels) -> usize {
    assert!(l.has_le, "a bucket without its bound");
    let n = unsafe { NUM_BUCKETS[rt] };
    for b in 0..n {
        let (s, ns) = unsafe { BOUND[rt][b] };
        let want = if b + 1 == n { f64::INFINITY } else { s as f64 + if ns == 0 { 0.0 } else { 0.5 } };
        if l.le == want {
            return b;
        }
    }
    panic!("a bucket with another bound");
}
impl Rec {
    fn put(&mut self, l: impl LabelGroup, n: impl MetricNameEncoder, v: u64, f: f64) -> Result<(), ()> {
        let mut g = Labels { runtime: NONE, worker: NONE, overflow: NONE, kind: NONE, has_le: false, le: 0.0, n: 0 };
        l.visit_values(&mut g);
        let rt = if g.runtime == self.names[0] { 0 } else { 1 };
        assert!(g.runtime == self.names[rt], "the name of the runtime");
        let (slot, labels) = match name(&n) {
            THREADS => match g.kind {
                K_WORKER => (0, 1),
                K_BLOCKING => (1, 1),
                K_IDLE => (2, 1),
                _ => panic!("kind of thread"),
            },
            ACTIVE => (3, 0),
            QUEUED => match g.kind {
                K_BLOCKING => (4, 1),
                K_INJECTION => (5, 1),
                K_0 | 1 => (6, 1),
                K_1 | 2 => (7, 1),
                _ => panic!("kind of queue"),
            },
            SCHEDULED => match (g.worker, g.overflow) {
                // the remote schedules are told apart by their worker
                (REMOTE, TRUE | FALSE) => (12, 2),
                (REMOTE, NONE) => (12, 1),
                (_, FALSE) => (8 + worker(&g), 2),
                (_, TRUE) => (10 + worker(&g), 2),
                _ => panic!("schedules of a worker"),
            },
            YIELD => (13, 0),
            MEAN => (14 + worker(&g), 1),
            NOOP => (16 + worker(&g), 1),
            PARK => (18 + worker(&g), 1),
            STEAL => (20 + worker(&g), 1),
            STEAL_OPS => (22 + worker(&g), 1),
            POLL_COUNT => (24 + worker(&g), 1),
            POLL_SUM => (26 + worker(&g), 1),
            POLL_BUCKET => (28 + 3 * worker(&g) + le(rt, &g), 2),
            REG => (34, 0),
            DEREG => (35, 0),
            READY => (36, 0),
            _ => panic!("an undocumented metric"),
        };
        assert!(g.n == labels + (self.names[rt] != NONE) as u8, "labels of a sample");
        self.seen[rt][slot] += 1;
        self.value[rt][slot] = v;
        self.seconds[rt][slot] = f;
        Ok(())
    }
}
macro_rules! kind {
    ($t:ty, |$s:ident| $v:expr, $f:expr) => {
        impl MetricEncoding<Rec> for $t {
            fn write_type(_: impl MetricNameEncoder, _: &mut Rec) -> Result<(), ()> {
                Ok(())
            }
            fn collect_into(&self, _: &(), l: impl LabelGroup, n: impl MetricNameEncoder, e: &mut Rec) -> Result<(), ()> {
                let $s = self;
                e.put(l, n, $v, $f)
            }
        }
    };
}
kind!(GaugeState, |s| s.count.load(SeqCst) as u64, 0.0);
kind!(CounterState, |s| s.count.load(SeqCst), 0.0);
kind!(FloatGaugeState, |s| 0, s.count.get());

fn bits(n: u32) -> u64 {
    let x = nd::u64();
    nd::assume(x >> n == 0);
    x
}
fn some_worker(buckets: usize) -> WorkerStats {
    WorkerStats {
        local_queue: bits(62) as usize,
        local_schedule: nd::u64(),
        overflow: nd::u64(),
        mean: bits(31),
        noop: nd::u64(),
        park: nd::u64(),
        steal: nd::u64(),
        steal_ops: nd::u64(),
        polls: nd::u64(),
        busy: bits(31),
        buckets: [bits(60), if buckets > 1 { bits(60) } else { 0 }, if buckets > 2 { bits(60) } else { 0 }],
    }
}
/// A runtime that reports anything.
fn runtime(rt: usize, workers: usize, buckets: usize) -> RuntimeMetrics {
    let s = Stats {
        blocking: bits(40) as usize,
        idle: bits(40) as usize,
        active: bits(62) as usize,
        blocking_queue: bits(62) as usize,
        injection_queue: bits(62) as usize,
        remote_schedule: nd::u64(),
        forced_yield: nd::u64(),
        registered: nd::u64(),
        deregistered: nd::u64(),
        ready: nd::u64(),
    };
    nd::assume(s.idle <= s.blocking);
    unsafe {
        STATS[rt] = s;
        NUM_WORKERS[rt] = workers;
        NUM_BUCKETS[rt] = buckets;
        for w in 0..workers {
            WORKER[rt][w] = some_worker(buckets);
        }
        for b in 0..buckets {
            BOUND[rt][b] = if b + 1 == buckets { (u64::MAX / 1_000_000_000, (u64::MAX % 1_000_000_000) as u32) } else { (rt as u64 + 3 * b as u64, 500_000_000) };
        }
    }
    RuntimeMetrics { id: rt }
}
fn rec(names: [u64; 2]) -> Rec {
    Rec { names, seen: [[0; SLOTS]; 2], value: [[0; SLOTS]; 2], seconds: [[0.0; SLOTS]; 2] }
}
fn is(r: &Rec, rt: usize, slot: usize, v: u64) {
    assert!(r.seen[rt][slot] == 1, "a statistic is exported once");
    assert!(r.value[rt][slot] == v, "value of a statistic");
}
fn secs(r: &Rec, rt: usize, slot: usize, v: u64) {
    assert!(r.seen[rt][slot] == 1, "a duration is exported once");
    assert!(r.seconds[rt][slot] == v as f64 + 0.5, "a duration in seconds");
}
fn check(r: &Rec, rt: usize) {
    let (s, workers, buckets) = unsafe { (&STATS[rt], NUM_WORKERS[rt], NUM_BUCKETS[rt]) };
    is(r, rt, 0, workers as u64);
    is(r, rt, 1, (s.blocking - s.idle) as u64);
    is(r, rt, 2, s.idle as u64);
    is(r, rt, 3, s.active as u64);
    is(r, rt, 4, s.blocking_queue as u64);
    is(r, rt, 5, s.injection_queue as u64);
    is(r, rt, 12, s.remote_schedule);
    is(r, rt, 13, s.forced_yield);
    is(r, rt, 34, s.registered);
    is(r, rt, 35, s.deregistered);
    is(r, rt, 36, s.ready);
    for w in 0..workers {
        let x = unsafe { &WORKER[rt][w] };
        is(r, rt, 6 + w, x.local_queue as u64);
        is(r, rt, 8 + w, x.local_schedule);
        is(r, rt, 10 + w, x.overflow);
        secs(r, rt, 14 + w, x.mean);
        is(r, rt, 16 + w, x.noop);
        is(r, rt, 18 + w, x.park);
        is(r, rt, 20 + w, x.steal);
        is(r, rt, 22 + w, x.steal_ops);
        is(r, rt, 24 + w, x.polls);
        secs(r, rt, 26 + w, x.busy);
        let mut total = 0;
        for b in 0..buckets {
            total += x.buckets[b];
            is(r, rt, 28 + 3 * w + b, total);
        }
    }
    let mut n = 0u32;
    for slot in 0..SLOTS {
        n += r.seen[rt][slot] as u32;
    }
    assert!(n as usize == 11 + workers * (10 + buckets), "no other sample");
}
fn unnamed(workers: usize, buckets: usize) {
    // a second runtime is there and not asked for
    runtime(1, 1, 0);
    let c = RuntimeCollector::new(runtime(0, workers, buckets));
    let mut r = rec([NONE, FOO]);
    c.collect_group_into(&mut r).unwrap();
    check(&r, 0);
    assert!(r.seen[1] == [0; SLOTS]);
}
fn two(workers: [usize; 2], buckets: [usize; 2]) {
    let (a, b) = (runtime(0, workers[0], buckets[0]), runtime(1, workers[1], buckets[1]));
    let c = NamedRuntimesCollector::new();
    c.add(a, "foo");
    c.add(b, String::from("bar"));
    let mut r = rec([FOO, BAR]);
    c.collect_group_into(&mut r).unwrap();
    check(&r, 0);
    check(&r, 1);
}

proof! {
[] 66 fn c20_no_worker() { unnamed(0, 1); }
[] 66 fn c20_worker() { unnamed(1, 0); }
[] 66 fn c20_workers() { unnamed(2, 1); }
[] 66 fn c20_buckets() { unnamed(1, 3); }
[] 66 fn c20_two() { two([1, 0], [0, 1]); }
[] 66 fn c20_two_with_buckets_thorough() { two([2, 1], [2, 3]); }
[] 66 fn c20_none() {
    let mut r = rec([FOO, BAR]);
    NamedRuntimesCollector::new().collect_group_into(&mut r).unwrap();
    assert!(r.seen == [[0; SLOTS]; 2]);
}
[] 66 fn c20_current() {
    runtime(0, 1, 0);
    runtime(1, 1, 0);
    unsafe { CURRENT = 1 };
    let c = RuntimeCollector::current().with_name("bar");
    let d = NamedRuntimesCollector::default();
    d.add_current("foo");
    let mut r = rec([FOO, BAR]);
    c.collect_group_into(&mut r).unwrap();
    check(&r, 1);
    assert!(r.seen[0] == [0; SLOTS]);
    let mut r = rec([BAR, FOO]);
    d.collect_group_into(&mut r).unwrap();
    check(&r, 1);
}
[] 66 fn c20_anew() {
    // each collection samples anew
    let c = RuntimeCollector::new(runtime(0, 1, 0));
    let mut r = rec([NONE, FOO]);
    c.collect_group_into(&mut r).unwrap();
    check(&r, 0);
    runtime(0, 1, 1);
    let mut r = rec([NONE, FOO]);
    c.collect_group_into(&mut r).unwrap();
    check(&r, 0);
}
}
