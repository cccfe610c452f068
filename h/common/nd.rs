//! Nondeterministic inputs.  Under Kani every call is a fresh symbolic value;
//! natively the values are taken from the counterexample being replayed.
#![allow(dead_code)]

#[cfg(kani)]
mod imp {
    macro_rules! prim {
        ($($t:ident)*) => {$(
            #[inline(always)]
            pub fn $t() -> $t { kani::any() }
        )*};
    }
    prim!(u8 u16 u32 u64 i64 i32 usize f64);
    #[inline(always)]
    pub fn bool() -> bool {
        let x: u8 = kani::any();
        x & 1 == 1
    }
    #[inline(always)]
    pub fn assume(b: bool) {
        kani::assume(b)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        static Q: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
    }
    pub fn load(v: Vec<Vec<u8>>) {
        Q.with(|q| *q.borrow_mut() = v.into());
    }
    fn next(n: usize) -> Vec<u8> {
        let mut v = Q.with(|q| q.borrow_mut().pop_front()).unwrap_or_default();
        v.resize(n, 0);
        v
    }
    macro_rules! prim {
        ($($t:ident)*) => {$(
            pub fn $t() -> $t {
                let v = next(core::mem::size_of::<$t>());
                $t::from_le_bytes(v.try_into().unwrap())
            }
        )*};
    }
    prim!(u8 u16 u32 u64 i64 i32 usize f64);
    pub fn bool() -> bool {
        u8() & 1 == 1
    }
    pub struct AssumeFailed;
    pub struct Accepted(pub &'static str);
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(AssumeFailed)
        }
    }
}

pub use imp::*;

/// a value below `n`
#[inline(always)]
pub fn below(n: usize) -> usize {
    let x = usize();
    assume(x < n);
    x
}

/// A float from a table that contains every class a float operation
/// distinguishes (used where a fully symbolic float makes the query too slow).
pub fn special_f64() -> f64 {
    const T: [u64; 12] = [
        0x0000000000000000, // 0
        0x8000000000000000, // -0
        0x3ff0000000000000, // 1
        0xbff0000000000000, // -1
        0x3ff8000000000000, // 1.5
        0x4340000000000000, // 2^53
        0x7fefffffffffffff, // MAX
        0xffefffffffffffff, // MIN
        0x7ff0000000000000, // inf
        0xfff0000000000000, // -inf
        0x7ff8000000000000, // NaN
        0x0000000000000001, // min subnormal
    ];
    f64::from_bits(T[below(12)])
}

/// equal as observed floats: same bits, or both NaN
#[inline(always)]
pub fn feq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a != a && b != b)
}

/// Reaching this point must be possible (checked by the driver).
#[macro_export]
macro_rules! witness {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        {
            let _ = $c;
        }
    }};
}

/// Reaching this point is a violation (used after calls that must panic).
#[macro_export]
macro_rules! never {
    ($m:literal) => {{
        #[cfg(kani)]
        kani::cover!(true, $m);
        #[cfg(not(kani))]
        std::panic::panic_any($crate::nd::Accepted($m));
    }};
}
