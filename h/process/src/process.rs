//! C21 the process collector.
use crate::nd;
use core::sync::atomic::Ordering::SeqCst;
use measured::label::{LabelGroup, LabelGroupVisitor, LabelName, LabelValue};
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::group::Encoding;
use measured::metric::name::MetricNameEncoder;
use measured::metric::MetricEncoding;
use measured::MetricGroup;
use measured_process::ProcessCollector;
use procfs::process::{Limit, LimitValue, Limits, Stat};
use procfs::*;
use std::io::{self, Write};

const NAMES: [&str; 7] = [
    "open_fds",
    "max_fds",
    "virtual_memory_bytes",
    "resident_memory_bytes",
    "cpu_seconds_total",
    "threads",
    "start_time_seconds",
];
/// How often each statistic was exported, and its value.
struct Rec {
    seen: [u8; 7],
    value: [i64; 7],
}
struct Match {
    at: usize,
    ok: [bool; 7],
}
impl Write for Match {
    fn write(&mut self, s: &[u8]) -> io::Result<usize> {
        self.write_all(s).map(|_| s.len())
    }
    fn write_all(&mut self, s: &[u8]) -> io::Result<()> {
        for &b in s {
            macro_rules! step {
                ($($i:literal)*) => {$(
                    self.ok[$i] &= self.at < NAMES[$i].len() && NAMES[$i].as_bytes()[self.at] == b;
                )*};
            }
            step!(0 1 2 3 4 5 6);
            self.at += 1;
        }
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn index(n: &impl MetricNameEncoder) -> usize {
    let mut m = Match { at: 0, ok: [true; 7] };
    n.encode_utf8(&mut m).unwrap();
    macro_rules! step {
        ($($i:literal)*) => {$(
            if m.ok[$i] && m.at == NAMES[$i].len() {
                return $i;
            }
        )*};
    }
    step!(0 1 2 3 4 5 6);
    panic!("an undocumented metric");
}
impl Encoding for Rec {
    type Err = ();
    fn write_help(&mut self, n: impl MetricNameEncoder, _: &str) -> Result<(), ()> {
        index(&n);
        Ok(())
    }
}
struct NoLabel;
impl LabelGroupVisitor for NoLabel {
    type Output = ();
    fn write_value(&mut self, _: &LabelName, _: &impl LabelValue) {
        panic!("a label");
    }
}
impl Rec {
    fn put(&mut self, l: impl LabelGroup, n: impl MetricNameEncoder, v: i64) -> Result<(), ()> {
        l.visit_values(&mut NoLabel);
        let i = index(&n);
        self.seen[i] += 1;
        self.value[i] = v;
        Ok(())
    }
}
macro_rules! kind {
    ($t:ty, |$s:ident| $v:expr) => {
        impl MetricEncoding<Rec> for $t {
            fn write_type(n: impl MetricNameEncoder, _: &mut Rec) -> Result<(), ()> {
                index(&n);
                Ok(())
            }
            fn collect_into(&self, _: &(), l: impl LabelGroup, n: impl MetricNameEncoder, e: &mut Rec) -> Result<(), ()> {
                let $s = self;
                e.put(l, n, $v)
            }
        }
    };
}
kind!(GaugeState, |s| s.count.load(SeqCst));
kind!(CounterState, |s| s.count.load(SeqCst) as i64);
kind!(FloatGaugeState, |s| s.count.get() as i64);

fn bits(n: u32) -> u64 {
    let x = nd::u64();
    nd::assume(x >> n == 0);
    x
}
/// every field that could be mistaken for another differs freely
fn stat() -> Stat {
    Stat {
        ppid: nd::i32(),
        utime: bits(30),
        stime: bits(30),
        cutime: bits(30) as i64,
        cstime: bits(30) as i64,
        num_threads: bits(32) as i64,
        starttime: bits(30),
        vsize: bits(62),
        rss: bits(50),
        rsslim: nd::u64(),
        ..Stat::default()
    }
}
fn limit() -> LimitValue {
    if nd::bool() {
        LimitValue::Value(bits(62))
    } else {
        LimitValue::Unlimited
    }
}
fn limits() -> Limits {
    let l = |s, h| Limit { soft_limit: s, hard_limit: h };
    Limits {
        max_open_files: l(limit(), limit()),
        max_processes: l(limit(), limit()),
        max_locked_memory: l(limit(), limit()),
        ..Limits::default()
    }
}
fn entry(pid: i32, fds: bool, lim: bool, st: bool) -> Entry {
    Entry {
        pid,
        alive: true,
        has_fds: fds,
        fds: bits(40) as usize,
        has_limits: lim,
        limits: limits(),
        has_stat: st,
        stat: stat(),
    }
}
fn own_pid() -> i32 {
    #[cfg(kani)]
    {
        77
    }
    #[cfg(not(kani))]
    {
        std::process::id() as i32
    }
}
/// The calling process, always with every statistic.
fn caller(not: i32) {
    let pid = own_pid();
    assert!(pid != not);
    unsafe {
        CALLER = pid;
        set(1, entry(pid, true, true, true));
    }
}
fn collect(c: &ProcessCollector) -> Rec {
    let mut r = Rec { seen: [0; 7], value: [0; 7] };
    c.collect_group_into(&mut r).unwrap();
    r
}
fn has(r: &Rec, i: usize, there: bool, v: i64) {
    assert!(r.seen[i] == there as u8, "presence of a statistic");
    assert!(!there || r.value[i] == v, "value of a statistic");
}
/// `x` in whole units of `n`
fn units(r: i64, x: u64, n: u64) -> bool {
    r >= 0 && r as u64 * n <= x && x < (r as u64 + 1) * n
}
fn check(r: &Rec, e: &Entry, start: Option<(u64, u64)>) {
    has(r, 0, e.has_fds, e.fds as i64);
    match e.limits.max_open_files.soft_limit {
        LimitValue::Value(x) => has(r, 1, e.has_limits, x as i64),
        LimitValue::Unlimited => has(r, 1, false, 0),
    }
    has(r, 2, e.has_stat, e.stat.vsize as i64);
    has(r, 3, e.has_stat, (e.stat.rss << 12) as i64);
    has(r, 5, e.has_stat, e.stat.num_threads);
    has(r, 4, e.has_stat, r.value[4]);
    if e.has_stat {
        assert!(units(r.value[4], e.stat.utime + e.stat.stime, 100), "CPU time in seconds");
    }
    assert!(r.seen[6] == start.is_some() as u8, "presence of the start time");
    if let Some((ticks, boot)) = start {
        assert!(units(r.value[6] - boot as i64, ticks, 100), "start time");
    }
}
/// A process which is not the caller; each statistic is there or not, now and
/// when the collector is made.
fn other(fds: bool, lim: bool, st: bool, st0: bool, boot: bool) {
    let pid = 1 << 24;
    caller(pid);
    let e = entry(pid, fds, lim, st);
    let mut old = entry(pid, true, true, st0);
    old.stat.starttime = e.stat.starttime;
    let b = bits(40);
    unsafe {
        HAS_BOOT = boot;
        BOOT = b;
        set(0, old);
    }
    let c = ProcessCollector::new(pid);
    unsafe { set(0, e) };
    let r = collect(&c);
    let start = if st0 && boot { Some((old.stat.starttime, b)) } else { None };
    check(&r, &e, start);
}

proof! {
[] 24 fn c21_all() { other(true, true, true, true, true); }
[] 24 fn c21_no_fds() { other(false, true, true, true, true); }
[] 24 fn c21_no_limits() { other(true, false, true, true, true); }
[] 24 fn c21_no_stat() { other(true, true, false, true, true); }
[] 24 fn c21_no_stat_at_first() { other(true, true, true, false, true); }
[] 24 fn c21_no_boot_time() { other(true, true, true, true, false); }
[] 24 fn c21_nothing() { other(false, false, false, false, false); }
[] 24 fn c21_any_pid() {
    // the process asked for is the one named, and only this one
    let pid = nd::i32();
    unsafe { (HAS_BOOT, BOOT) = (true, 7); };
    let c = ProcessCollector::new(pid);
    let r = collect(&c);
    for n in r.seen {
        assert!(n == 0, "a process that is gone exports nothing");
    }
    unsafe { assert!(ASKS > 0 && !ASKED_ELSE && ASKED == pid) };
}
[] 24 fn c21_gone() {
    // gone, while the caller lives on
    let pid = 1 << 24;
    caller(pid);
    let mut e = entry(pid, true, true, true);
    e.alive = nd::bool();
    unsafe {
        (HAS_BOOT, BOOT) = (true, bits(40));
        set(0, e);
    }
    let c = ProcessCollector::new(pid);
    e.alive = false;
    unsafe { set(0, e) };
    let r = collect(&c);
    for n in r.seen {
        assert!(n == 0, "a process that is gone exports nothing");
    }
}
[] 24 fn c21_self() {
    let b = bits(40);
    let pid = 1 << 24;
    caller(pid);
    unsafe {
        (HAS_BOOT, BOOT) = (true, b);
        // some other process
        set(0, entry(pid, true, true, true));
    }
    let c = ProcessCollector::for_self();
    let r = collect(&c);
    let e = unsafe { ENTRY[1].assume_init() };
    check(&r, &e, Some((e.stat.starttime, b)));
}
[] 24 fn c21_twice() {
    // each collection samples anew
    let pid = 1 << 24;
    caller(pid);
    let e = entry(pid, true, true, true);
    let b = bits(40);
    unsafe {
        (HAS_BOOT, BOOT) = (true, b);
        set(0, e);
    }
    let c = ProcessCollector::new(pid);
    let start = Some((e.stat.starttime, b));
    check(&collect(&c), &e, start);
    let mut f = entry(pid, true, false, true);
    f.stat.starttime = e.stat.starttime;
    unsafe { set(0, f) };
    check(&collect(&c), &f, start);
}
}
