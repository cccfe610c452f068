//! Models installed in place of code outside the repository (listed as
//! assumptions in the evidence).  Only compiled under Kani.
#![allow(dead_code)]
use core::time::Duration;
use std::time::Instant;

// ---- parking_lot slow paths: in a sequential harness they mean "would block"
// (a lock is already held), in a concurrent one the blocked path is pruned.
/// an interrupting operation is running (see race.rs)
pub static mut BUSY: bool = false;
fn blocked() {
    if unsafe { !BUSY } {
        assert!(false, "an uncontended operation would block forever");
    }
    kani::assume(false);
}
pub fn lock_exclusive_slow(_: &parking_lot::RawRwLock, _: Option<Instant>) -> bool {
    blocked();
    false
}
pub fn lock_shared_slow(_: &parking_lot::RawRwLock, _: bool, _: Option<Instant>) -> bool {
    blocked();
    false
}
pub fn unlock_exclusive_slow(_: &parking_lot::RawRwLock, _: bool) {
    blocked();
}
pub fn unlock_shared_slow(_: &parking_lot::RawRwLock) {
    blocked();
}
pub fn downgrade_slow(_: &parking_lot::RawRwLock) {
    blocked();
}

// ---- one CPU: 4 shards
pub fn available_parallelism() -> std::io::Result<core::num::NonZeroUsize> {
    Ok(core::num::NonZeroUsize::new(1).unwrap())
}

// ---- number formatting: the value goes into a table, the text is a token
// naming its slot, so that the text stays concrete
pub static mut TOKENS: [(u8, u64); 24] = [(0, 0); 24];
pub static mut NTOKENS: usize = 0;
pub const INT: u8 = 1;
pub const FLOAT: u8 = 2;
#[inline(always)]
unsafe fn token(mark: u8, kind: u8, v: u64, out: *mut u8) {
    let i = NTOKENS;
    assert!(i < 24, "token table");
    TOKENS[i] = (kind, v);
    NTOKENS = i + 1;
    *out = mark;
    *out.add(1) = b'a' + i as u8;
}
unsafe fn int_parts<I>(i: &I) -> (bool, u64) {
    let signed = core::any::type_name::<I>().as_bytes()[0] == b'i';
    let p = i as *const I;
    let raw: i128 = match (core::mem::size_of::<I>(), signed) {
        (1, true) => *(p as *const i8) as i128,
        (2, true) => *(p as *const i16) as i128,
        (4, true) => *(p as *const i32) as i128,
        (8, true) => *(p as *const i64) as i128,
        (1, false) => *(p as *const u8) as i128,
        (2, false) => *(p as *const u16) as i128,
        (4, false) => *(p as *const u32) as i128,
        (8, false) => *(p as *const u64) as i128,
        _ => *(p as *const i128),
    };
    if raw < 0 {
        (true, (-raw) as u64)
    } else {
        (false, raw as u64)
    }
}
pub fn itoa_format<I: itoa::Integer>(b: &mut itoa::Buffer, i: I) -> &str {
    unsafe {
        let (neg, v) = int_parts(&i);
        let p = b as *mut itoa::Buffer as *mut u8;
        token(INT, neg as u8, v, p);
        core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, 2))
    }
}
pub fn ryu_format<F: ryu::Float>(b: &mut ryu::Buffer, f: F) -> &str {
    unsafe {
        let (k, v) = if core::mem::size_of::<F>() == 8 {
            (2, *(&f as *const F as *const u64))
        } else {
            (3, *(&f as *const F as *const u32) as u64)
        };
        let p = b as *mut ryu::Buffer as *mut u8;
        token(FLOAT, k, v, p);
        core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, 2))
    }
}
// one-byte token, where the number itself is irrelevant
pub fn itoa_format1<I: itoa::Integer>(b: &mut itoa::Buffer, _: I) -> &str {
    unsafe {
        let bytes: &mut [u8; 40] = &mut *(b as *mut itoa::Buffer as *mut [u8; 40]);
        bytes[0] = b'1';
        core::str::from_utf8_unchecked(&bytes[..1])
    }
}
pub fn ryu_format1<F: ryu::Float>(b: &mut ryu::Buffer, _: F) -> &str {
    unsafe {
        let bytes: &mut [u8; 24] = &mut *(b as *mut ryu::Buffer as *mut [u8; 24]);
        bytes[0] = b'1';
        core::str::from_utf8_unchecked(&bytes[..1])
    }
}

// ---- memchr: its specification
pub unsafe fn memchr_raw(n1: u8, s: *const u8, e: *const u8) -> Option<*const u8> {
    let mut p = s;
    while p < e {
        if *p == n1 {
            return Some(p);
        }
        p = p.add(1);
    }
    None
}
pub unsafe fn memchr2_raw(n1: u8, n2: u8, s: *const u8, e: *const u8) -> Option<*const u8> {
    let mut p = s;
    while p < e {
        if *p == n1 || *p == n2 {
            return Some(p);
        }
        p = p.add(1);
    }
    None
}
pub unsafe fn memchr3_raw(n1: u8, n2: u8, n3: u8, s: *const u8, e: *const u8) -> Option<*const u8> {
    let mut p = s;
    while p < e {
        if *p == n1 || *p == n2 || *p == n3 {
            return Some(p);
        }
        p = p.add(1);
    }
    None
}

// ---- clock: a symbolic monotonic clock, set by the harness
pub static mut CLOCK: (u64, u32) = (0, 0);
#[repr(C)]
struct RawInstant {
    s: i64,
    n: u32,
}
pub fn instant_now() -> Instant {
    unsafe {
        let r = RawInstant { s: CLOCK.0 as i64, n: CLOCK.1 };
        core::mem::transmute::<RawInstant, Instant>(r)
    }
}

// ---- powi: repeated multiplication (small exponents)
pub fn powi(x: f64, n: i32) -> f64 {
    assert!(n >= 0 && n < 8, "exponent outside the model");
    match n {
        0 => 1.0,
        1 => x,
        2 => x * x,
        3 => x * x * x,
        _ => {
            let mut r = x * x * x;
            let mut i = 3;
            while i < n {
                r *= x;
                i += 1;
            }
            r
        }
    }
}

// ---- bytes: reserving always moves to a fresh, large enough buffer
pub fn bytes_reserve(b: &mut bytes::BytesMut, additional: usize) {
    let n = b.len();
    assert!(n + additional <= 192, "buffer model");
    let mut fresh = bytes::BytesMut::with_capacity(192);
    unsafe {
        let mut i = 0;
        while i < n {
            *fresh.as_mut_ptr().add(i) = b[i];
            i += 1;
        }
        fresh.set_len(n);
    }
    core::mem::forget(core::mem::replace(b, fresh));
}

// ---- allocation from typed objects (small ones), which the encoder tracks
// word by word; dealloc is a no-op
#[repr(C, align(128))]
pub struct Obj([u64; 64]);
macro_rules! pool {
    ($($n:ident $i:literal)*) => {
        $(static mut $n: Obj = Obj([0; 64]);)*
        #[inline(always)]
        unsafe fn pool(i: usize) -> *mut u8 {
            $(if i == $i { return &raw mut $n as *mut u8; })*
            unreachable!()
        }
    };
}
pool!(P0 0 P1 1 P2 2 P3 3 P4 4 P5 5);
static mut POOL_NEXT: usize = 0;
extern "Rust" {
    fn __rust_alloc(size: usize, align: usize) -> *mut u8;
}
pub unsafe fn alloc(l: core::alloc::Layout) -> *mut u8 {
    if l.size() <= 512 && POOL_NEXT < 6 {
        let p = pool(POOL_NEXT);
        POOL_NEXT += 1;
        return p;
    }
    __rust_alloc(l.size(), l.align())
}
pub unsafe fn dealloc(_: *mut u8, _: core::alloc::Layout) {}

// ---- rotation spelled with shifts, which the encoder folds for constants
pub fn rotate_left(x: usize, n: u32) -> usize {
    let n = n & 63;
    if n == 0 { x } else { (x << n) | (x >> (64 - n)) }
}

// ---- atomics of racing operations: sequential, interruptible before each access
use core::sync::atomic::Ordering;
macro_rules! rmw {
    ($($name:ident |$a:ident, $b:ident| $e:expr;)*) => {$(
        pub unsafe fn $name<T: Copy, U: Copy>(p: *mut T, v: U, _: Ordering) -> T {
            crate::race::hook();
            let old = *p;
            match core::mem::size_of::<T>() {
                1 => { let $a = *(p as *mut u8); let $b = *(&v as *const U as *const u8); *(p as *mut u8) = $e; }
                4 => { let $a = *(p as *mut u32); let $b = *(&v as *const U as *const u32); *(p as *mut u32) = $e; }
                8 => { let $a = *(p as *mut u64); let $b = *(&v as *const U as *const u64); *(p as *mut u64) = $e; }
                _ => unreachable!(),
            }
            old
        }
    )*};
}
rmw! {
    atomic_add |a, b| a.wrapping_add(b);
    atomic_sub |a, b| a.wrapping_sub(b);
    atomic_and |a, b| a & b;
    atomic_or |a, b| a | b;
    atomic_xor |a, b| a ^ b;
}
pub unsafe fn atomic_load<T: Copy, const V: bool>(p: *const T, _: Ordering) -> T {
    crate::race::hook();
    *p
}
pub unsafe fn atomic_store<T: Copy, const V: bool>(p: *mut T, v: T, _: Ordering) {
    crate::race::hook();
    *p = v;
}
pub unsafe fn atomic_swap<T: Copy>(p: *mut T, v: T, _: Ordering) -> T {
    crate::race::hook();
    let old = *p;
    *p = v;
    old
}
unsafe fn same<T: Copy>(a: &T, b: &T) -> bool {
    let (a, b) = (a as *const T, b as *const T);
    match core::mem::size_of::<T>() {
        1 => *(a as *const u8) == *(b as *const u8),
        4 => *(a as *const u32) == *(b as *const u32),
        8 => *(a as *const u64) == *(b as *const u64),
        _ => unreachable!(),
    }
}
pub unsafe fn atomic_compare_exchange<T: Copy>(p: *mut T, old: T, new: T, _: Ordering, _: Ordering) -> Result<T, T> {
    crate::race::hook();
    let cur = *p;
    if same(&cur, &old) {
        *p = new;
        Ok(cur)
    } else {
        Err(cur)
    }
}
pub unsafe fn atomic_compare_exchange_weak<T: Copy>(p: *mut T, old: T, new: T, _: Ordering, _: Ordering) -> Result<T, T> {
    crate::race::hook();
    let cur = *p;
    if same(&cur, &old) && !crate::race::spurious(p as usize) {
        *p = new;
        Ok(cur)
    } else {
        Err(cur)
    }
}

// ---- one-time initialisation: started, run, completed, interruptible between
static mut INITIALISING: usize = 0;
pub fn call_once_force<F: FnOnce(&std::sync::OnceState)>(o: &std::sync::Once, f: F) {
    unsafe {
        crate::race::hook();
        let p = o as *const std::sync::Once as *mut u32;
        if *p == 0 {
            return;
        }
        if INITIALISING == p as usize {
            blocked();
        }
        INITIALISING = p as usize;
        crate::race::hook();
        let s: core::mem::MaybeUninit<std::sync::OnceState> = core::mem::MaybeUninit::zeroed();
        f(&*s.as_ptr());
        crate::race::hook();
        *p = 0;
        INITIALISING = 0;
        assert!(o.is_completed(), "model of Once");
    }
}
