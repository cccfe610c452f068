/// Declares one harness: an ordinary function (used natively for replay) and,
/// under Kani, a proof harness calling it with the requested stub groups.
#[macro_export]
macro_rules! proof {
    ($([$($g:ident)*] $u:literal fn $name:ident() $body:block)*) => {
        $( $crate::proof1!{@ [locks par $($g)*] [] $u $name $body} )*
        #[cfg(not(kani))]
        pub const ALL: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

#[macro_export]
macro_rules! proof1 {
    (@ [panics $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [$($r)*] [$($a)* #[kani::should_panic]] $($t)*}
    };
    (@ [cadical $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [$($r)*] [$($a)* #[kani::solver(cadical)]] $($t)*}
    };
    (@ [kissat $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [$($r)*] [$($a)* #[kani::solver(kissat)]] $($t)*}
    };
    (@ [minisat $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [$($r)*] [$($a)* #[kani::solver(minisat)]] $($t)*}
    };
    (@ [locks $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [$($r)*] [$($a)*
            #[kani::stub(parking_lot::RawRwLock::lock_exclusive_slow, crate::stubs::lock_exclusive_slow)]
            #[kani::stub(parking_lot::RawRwLock::lock_shared_slow, crate::stubs::lock_shared_slow)]
            #[kani::stub(parking_lot::RawRwLock::unlock_exclusive_slow, crate::stubs::unlock_exclusive_slow)]
            #[kani::stub(parking_lot::RawRwLock::unlock_shared_slow, crate::stubs::unlock_shared_slow)]
            #[kani::stub(parking_lot::RawRwLock::downgrade_slow, crate::stubs::downgrade_slow)]
        ] $($t)*}
    };
    (@ [par $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [$($r)*] [$($a)*
            #[kani::stub(std::thread::available_parallelism, crate::stubs::available_parallelism)]
            #[kani::stub(usize::rotate_left, crate::stubs::rotate_left)]
        ] $($t)*}
    };
    (@ [sched $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [$($r)*] [$($a)*
            #[kani::stub(std::sync::Once::call_once_force, crate::stubs::call_once_force)]
            #[kani::stub(core::sync::atomic::atomic_load, crate::stubs::atomic_load)]
            #[kani::stub(core::sync::atomic::atomic_store, crate::stubs::atomic_store)]
            #[kani::stub(core::sync::atomic::atomic_swap, crate::stubs::atomic_swap)]
            #[kani::stub(core::sync::atomic::atomic_add, crate::stubs::atomic_add)]
            #[kani::stub(core::sync::atomic::atomic_sub, crate::stubs::atomic_sub)]
            #[kani::stub(core::sync::atomic::atomic_and, crate::stubs::atomic_and)]
            #[kani::stub(core::sync::atomic::atomic_or, crate::stubs::atomic_or)]
            #[kani::stub(core::sync::atomic::atomic_xor, crate::stubs::atomic_xor)]
            #[kani::stub(core::sync::atomic::atomic_compare_exchange, crate::stubs::atomic_compare_exchange)]
            #[kani::stub(core::sync::atomic::atomic_compare_exchange_weak, crate::stubs::atomic_compare_exchange_weak)]
        ] $($t)*}
    };
    (@ [fmt $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [mc $($r)*] [$($a)*
            #[kani::stub(ryu::Buffer::format, crate::stubs::ryu_format)]
            #[kani::stub(ryu::Buffer::format_finite, crate::stubs::ryu_format)]
            #[kani::stub(itoa::Buffer::format, crate::stubs::itoa_format)]
        ] $($t)*}
    };
    (@ [fmt1 $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [mc $($r)*] [$($a)*
            #[kani::stub(ryu::Buffer::format, crate::stubs::ryu_format1)]
            #[kani::stub(ryu::Buffer::format_finite, crate::stubs::ryu_format1)]
            #[kani::stub(itoa::Buffer::format, crate::stubs::itoa_format1)]
        ] $($t)*}
    };
    (@ [mc $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [$($r)*] [$($a)*
            #[kani::stub(mc::memchr::memchr_raw, crate::stubs::memchr_raw)]
            #[kani::stub(mc::memchr::memchr2_raw, crate::stubs::memchr2_raw)]
            #[kani::stub(mc::memchr::memchr3_raw, crate::stubs::memchr3_raw)]
        ] $($t)*}
    };
    (@ [bytes $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [$($r)*] [$($a)*
            #[kani::stub(bytes::BytesMut::reserve_inner, crate::stubs::bytes_reserve)]
        ] $($t)*}
    };
    (@ [pool $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [$($r)*] [$($a)*
            #[kani::stub(std::alloc::alloc, crate::stubs::alloc)]
            #[kani::stub(std::alloc::dealloc, crate::stubs::dealloc)]
        ] $($t)*}
    };
    (@ [clock $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [$($r)*] [$($a)*
            #[kani::stub(std::time::Instant::now, crate::stubs::instant_now)]
        ] $($t)*}
    };
    (@ [powi $($r:ident)*] [$($a:tt)*] $($t:tt)*) => {
        $crate::proof1!{@ [$($r)*] [$($a)*
            #[kani::stub(f64::powi, crate::stubs::powi)]
        ] $($t)*}
    };
    (@ [] [$($a:tt)*] $u:literal $name:ident $body:block) => {
        pub fn $name() $body
        #[cfg(kani)]
        pub mod $name {
            #[allow(unused_imports)]
            use memchr as mc;
            #[kani::proof]
            #[kani::unwind($u)]
            $($a)*
            pub fn h() {
                super::$name();
                kani::cover!(true, "end of harness reached");
            }
        }
    };
}
