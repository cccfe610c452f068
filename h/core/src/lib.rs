#![recursion_limit = "512"]
#![allow(static_mut_refs)]
#[path = "../../common/proof.rs"]
#[macro_use]
pub mod proof_macros;
#[path = "../../common/nd.rs"]
#[macro_use]
pub mod nd;
#[cfg(kani)]
#[path = "../../common/stubs.rs"]
pub mod stubs;
#[path = "../../common/race.rs"]
pub mod race;
#[path = "../../common/rec.rs"]
pub mod rec;
pub mod clock;
pub mod model;

macro_rules! modules {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        /// every harness, for native replay
        #[cfg(not(kani))]
        pub const HARNESSES: &[(&str, &[(&str, fn())])] = &[$((stringify!($m), $m::ALL)),*];
    };
}
modules! { scalars hist names text vecs labels groups races }
