//! libc, with process 77, 100 clock ticks per second and pages of 4096 bytes.
#![no_std]
pub use real::*;

pub unsafe fn getpid() -> pid_t {
    77
}
pub unsafe fn sysconf(name: c_int) -> c_long {
    match name {
        _SC_CLK_TCK => 100,
        _SC_PAGESIZE => 4096,
        _ => -1,
    }
}
