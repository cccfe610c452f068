//! Recorded output and failing writers.
#![allow(dead_code)]
use crate::nd;
use std::io::{self, Write};

// ------------------------------------------------------------ recorder
/// Output buffer in rows, so that each byte is tracked on its own.
pub const ROW: usize = 60;
pub const ROWS: usize = 6;
pub struct Rec {
    pub b: [[u8; ROW]; ROWS],
    pub n: usize,
}
impl Rec {
    pub fn new() -> Self {
        Rec { b: [[0; ROW]; ROWS], n: 0 }
    }
    #[inline(always)]
    pub fn at(&self, i: usize) -> u8 {
        self.b[i / ROW][i % ROW]
    }
    /// a byte of the first row (symbolic index)
    #[inline(always)]
    pub fn early(&self, i: usize) -> u8 {
        if cfg!(kani) { self.b[0][i] } else { self.at(i) }
    }
    pub fn s(mut self, s: &str) -> Self {
        self.put(s.as_bytes());
        self
    }
    pub fn int(self, i: impl itoa::Integer) -> Self {
        self.s(itoa::Buffer::new().format(i))
    }
    pub fn float(self, f: f64) -> Self {
        self.s(ryu::Buffer::new().format(f))
    }
    #[inline(always)]
    pub fn put(&mut self, s: &[u8]) {
        // unrolled, so that the loop bound of a harness need not grow with
        // the text it writes
        macro_rules! step {
            ($($i:literal)*) => {$( self.nth(s, $i); )*};
        }
        if s.len() <= 12 {
            step!(0 1 2 3 4 5 6 7 8 9 10 11);
        } else {
            step!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
            let mut i = 32;
            while i < s.len() {
                self.byte(s[i]);
                i += 1;
            }
        }
    }
    #[inline(never)]
    fn nth(&mut self, s: &[u8], i: usize) {
        if i < s.len() {
            self.byte(s[i]);
        }
    }
    /// the same for texts of known length
    #[inline(always)]
    pub fn put_long(&mut self, mut s: &[u8]) {
        while s.len() > 32 {
            self.put(&s[..32]);
            s = &s[32..];
        }
        self.put(s);
    }
    #[inline(always)]
    pub fn byte(&mut self, b: u8) {
        self.b[self.n / ROW][self.n % ROW] = b;
        self.n += 1;
    }
}
impl Write for Rec {
    fn write(&mut self, s: &[u8]) -> io::Result<usize> {
        self.put(s);
        Ok(s.len())
    }
    fn write_all(&mut self, s: &[u8]) -> io::Result<()> {
        self.put(s);
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// Compares byte by byte; `f(position, got, expected)`.  One small function per
/// step: the encoder's loop analysis is quadratic in the size of a function.
#[cfg(kani)]
pub fn each(a: &Rec, b: &Rec, f: &mut impl FnMut(usize, u8, u8)) {
    assert!(a.n == b.n, "exported bytes differ in length");
    #[inline(never)]
    fn one<F: FnMut(usize, u8, u8)>(a: &Rec, b: &Rec, row: usize, i: usize, f: &mut F) {
        if row * ROW + i < b.n {
            f(row * ROW + i, a.b[row][i], b.b[row][i]);
        }
    }
    let mut row = 0;
    while row * ROW < b.n {
        macro_rules! step {
            ($($i:literal)*) => {$( one(a, b, row, $i, f); )*};
        }
        step!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29
            30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59);
        row += 1;
    }
}
#[cfg(kani)]
pub fn same(a: &Rec, b: &Rec) {
    use crate::stubs::{FLOAT, INT, TOKENS};
    let mut last = 0;
    each(a, b, &mut |_, x, y| {
        if last == INT || last == FLOAT {
            // two tokens: compare the numbers
            assert!(unsafe { TOKENS[x as usize - 97] == TOKENS[y as usize - 97] }, "exported number differs");
            last = 0;
        } else {
            assert!(x == y, "exported text differs");
            last = y;
        }
    });
}
#[cfg(not(kani))]
pub fn same(a: &Rec, b: &Rec) {
    let t = |r: &Rec| (0..r.n).map(|i| r.at(i)).collect::<Vec<_>>();
    if t(a) != t(b) {
        println!("got:\n{}\nexpected:\n{}", String::from_utf8_lossy(&t(a)), String::from_utf8_lossy(&t(b)));
        panic!("exported text differs");
    }
}

/// Written to in few, long parts of known length.
pub struct Long(pub Rec);
impl Write for Long {
    fn write(&mut self, s: &[u8]) -> io::Result<usize> {
        self.0.put_long(s);
        Ok(s.len())
    }
    fn write_all(&mut self, s: &[u8]) -> io::Result<()> {
        self.0.put_long(s);
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------ failing writer
/// Fails at byte `fail`, for good or (`recovers`) only once, and checks what
/// it accepts before that against the fault-free output.  A single `write`
/// accepts one byte and is interrupted once at byte `intr`.
pub struct Faulty<'a> {
    pub want: &'a Rec,
    pub n: usize,
    pub at: usize,
    pub fail: usize,
    /// no fault before this byte
    pub from: usize,
    /// the fault is hit when this many bytes have been offered
    pub by: usize,
    offered: usize,
    pub intr: usize,
    pub interrupted: bool,
    pub failed: bool,
    pub recovers: bool,
    pub kind: io::ErrorKind,
    pub flush_fails: bool,
}
impl<'a> Faulty<'a> {
    pub fn new(want: &'a Rec) -> Self {
        #[cfg(kani)]
        assert!(want.n < ROW);
        let fail = nd::below(want.n + 1);
        let intr = nd::usize();
        Faulty { want, n: want.n, at: 0, fail, from: 0, by: usize::MAX, offered: 0, intr, interrupted: false, failed: false, recovers: nd::bool(), kind: error_kind(nd::below(6)), flush_fails: false }
    }
    #[inline(always)]
    fn accept(&mut self, b: u8) {
        if self.at >= self.from {
            self.failed |= self.at == self.fail;
        }
        if !self.failed {
            assert!(self.at < self.n, "more text than without faults");
            assert!(b == self.want.early(self.at), "accepted bytes are not a prefix of the fault-free output");
            self.at += 1;
        }
    }
    /// `before`: the fault had been hit before this call
    fn result<T>(&self, before: bool, t: T) -> io::Result<T> {
        if self.failed & !(before & self.recovers) { Err(io::Error::from(self.kind)) } else { Ok(t) }
    }
}
pub fn error_kind(i: usize) -> io::ErrorKind {
    use io::ErrorKind::*;
    match i {
        0 => Other,
        1 => WouldBlock,
        2 => TimedOut,
        3 => BrokenPipe,
        4 => WriteZero,
        _ => UnexpectedEof,
    }
}
impl Write for Faulty<'_> {
    fn write(&mut self, s: &[u8]) -> io::Result<usize> {
        if s.is_empty() {
            return Ok(0);
        }
        if self.at == self.intr && !self.interrupted {
            self.interrupted = true;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let before = self.failed;
        self.accept(s[0]);
        self.result(before, 1)
    }
    fn write_all(&mut self, s: &[u8]) -> io::Result<()> {
        let before = self.failed;
        let mut i = 0;
        while i < s.len() {
            self.accept(s[i]);
            i += 1;
        }
        self.offered += s.len();
        if self.offered >= self.by {
            assert!(self.failed);
            self.failed = true;
        }
        self.result(before, ())
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fails { Err(io::Error::from(io::ErrorKind::Other)) } else { Ok(()) }
    }
}
