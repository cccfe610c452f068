//! A stand-in for procfs with the part of its interface that describes single
//! processes.  The harness fills in the process table.
#![allow(static_mut_refs)]
use std::path::PathBuf;

#[derive(Debug)]
pub enum ProcError {
    PermissionDenied(Option<PathBuf>),
    NotFound(Option<PathBuf>),
    Incomplete(Option<PathBuf>),
    Other(String),
}
pub type ProcResult<T> = Result<T, ProcError>;

/// What the operating system knows about one process.  Plain flags instead of
/// options, which keeps the encoding small.
#[derive(Clone, Copy)]
pub struct Entry {
    pub pid: i32,
    pub alive: bool,
    pub has_fds: bool,
    pub fds: usize,
    pub has_limits: bool,
    pub limits: process::Limits,
    pub has_stat: bool,
    pub stat: process::Stat,
}
/// the monitored process, and the calling one when it is another
pub static mut PIDS: [i32; 2] = [0, 0];
pub static mut ALIVE: [bool; 2] = [false, false];
pub static mut ENTRY: [core::mem::MaybeUninit<Entry>; 2] = [core::mem::MaybeUninit::uninit(), core::mem::MaybeUninit::uninit()];
pub static mut CALLER: i32 = 0;
pub static mut HAS_BOOT: bool = false;
pub static mut BOOT: u64 = 0;
/// the process id asked for, how often, and whether another one was
pub static mut ASKED: i32 = 0;
pub static mut ASKS: u32 = 0;
pub static mut ASKED_ELSE: bool = false;
pub fn set(slot: usize, e: Entry) {
    unsafe {
        PIDS[slot] = e.pid;
        ALIVE[slot] = e.alive;
        ENTRY[slot] = core::mem::MaybeUninit::new(e);
    }
}
fn when<T>(b: bool, t: T) -> ProcResult<T> {
    if b { Ok(t) } else { gone() }
}
fn gone<T>() -> ProcResult<T> {
    Err(ProcError::NotFound(None))
}
pub fn boot_time_secs() -> ProcResult<u64> {
    unsafe { when(HAS_BOOT, BOOT) }
}
pub fn ticks_per_second() -> u64 {
    100
}
pub fn page_size() -> u64 {
    4096
}

pub mod process {
    use super::*;
    pub struct Process {
        pid: i32,
        slot: usize,
    }
    impl Process {
        pub fn new(pid: i32) -> ProcResult<Process> {
            unsafe {
                ASKED_ELSE |= ASKS > 0 && ASKED != pid;
                ASKED = pid;
                ASKS += 1;
                if ALIVE[0] && PIDS[0] == pid {
                    return Ok(Process { pid, slot: 0 });
                }
                if ALIVE[1] && PIDS[1] == pid {
                    return Ok(Process { pid, slot: 1 });
                }
            }
            gone()
        }
        pub fn myself() -> ProcResult<Process> {
            Process::new(unsafe { CALLER })
        }
        fn entry(&self) -> &'static Entry {
            unsafe { ENTRY[self.slot].assume_init_ref() }
        }
        pub fn pid(&self) -> i32 {
            self.pid
        }
        pub fn is_alive(&self) -> bool {
            unsafe { ALIVE[self.slot] }
        }
        pub fn fd_count(&self) -> ProcResult<usize> {
            when(self.entry().has_fds, self.entry().fds)
        }
        pub fn limits(&self) -> ProcResult<Limits> {
            when(self.entry().has_limits, self.entry().limits)
        }
        pub fn stat(&self) -> ProcResult<Stat> {
            when(self.entry().has_stat, self.entry().stat)
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum LimitValue {
        Unlimited,
        Value(u64),
    }
    #[derive(Debug, Clone, Copy)]
    pub struct Limit {
        pub soft_limit: LimitValue,
        pub hard_limit: LimitValue,
    }
    #[derive(Debug, Clone, Copy)]
    pub struct Limits {
        pub max_cpu_time: Limit,
        pub max_file_size: Limit,
        pub max_data_size: Limit,
        pub max_stack_size: Limit,
        pub max_core_file_size: Limit,
        pub max_resident_set: Limit,
        pub max_processes: Limit,
        pub max_open_files: Limit,
        pub max_locked_memory: Limit,
        pub max_address_space: Limit,
        pub max_file_locks: Limit,
        pub max_pending_signals: Limit,
        pub max_msgqueue_size: Limit,
        pub max_nice_priority: Limit,
        pub max_realtime_priority: Limit,
        pub max_realtime_timeout: Limit,
    }
    #[derive(Debug, Clone, Copy)]
    pub struct Stat {
        pub pid: i32,
        pub comm: &'static str,
        pub state: char,
        pub ppid: i32,
        pub pgrp: i32,
        pub session: i32,
        pub tty_nr: i32,
        pub tpgid: i32,
        pub flags: u32,
        pub minflt: u64,
        pub cminflt: u64,
        pub majflt: u64,
        pub cmajflt: u64,
        pub utime: u64,
        pub stime: u64,
        pub cutime: i64,
        pub cstime: i64,
        pub priority: i64,
        pub nice: i64,
        pub num_threads: i64,
        pub itrealvalue: i64,
        pub starttime: u64,
        pub vsize: u64,
        pub rss: u64,
        pub rsslim: u64,
        pub startcode: u64,
        pub endcode: u64,
        pub startstack: u64,
        pub kstkesp: u64,
        pub kstkeip: u64,
        pub signal: u64,
        pub blocked: u64,
        pub sigignore: u64,
        pub sigcatch: u64,
        pub wchan: u64,
        pub nswap: u64,
        pub cnswap: u64,
        pub exit_signal: Option<i32>,
        pub processor: Option<i32>,
        pub rt_priority: Option<u32>,
        pub policy: Option<u32>,
        pub delayacct_blkio_ticks: Option<u64>,
        pub guest_time: Option<u64>,
        pub cguest_time: Option<i64>,
        pub start_data: Option<u64>,
        pub end_data: Option<u64>,
        pub start_brk: Option<u64>,
        pub arg_start: Option<u64>,
        pub arg_end: Option<u64>,
        pub env_start: Option<u64>,
        pub env_end: Option<u64>,
        pub exit_code: Option<i32>,
    }
    impl Stat {
        pub fn rss_bytes(&self) -> u64 {
            self.rss * page_size()
        }
    }
    impl Default for Limits {
        fn default() -> Self {
            let l = Limit { soft_limit: LimitValue::Unlimited, hard_limit: LimitValue::Unlimited };
            Limits { max_cpu_time: l, max_file_size: l, max_data_size: l, max_stack_size: l, max_core_file_size: l, max_resident_set: l, max_processes: l, max_open_files: l, max_locked_memory: l, max_address_space: l, max_file_locks: l, max_pending_signals: l, max_msgqueue_size: l, max_nice_priority: l, max_realtime_priority: l, max_realtime_timeout: l }
        }
    }
    impl Default for Stat {
        fn default() -> Self {
            Stat { pid: 0, comm: "", state: 'R', ppid: 0, pgrp: 0, session: 0, tty_nr: 0, tpgid: 0, flags: 0, minflt: 0, cminflt: 0, majflt: 0, cmajflt: 0, utime: 0, stime: 0, cutime: 0, cstime: 0, priority: 0, nice: 0, num_threads: 0, itrealvalue: 0, starttime: 0, vsize: 0, rss: 0, rsslim: 0, startcode: 0, endcode: 0, startstack: 0, kstkesp: 0, kstkeip: 0, signal: 0, blocked: 0, sigignore: 0, sigcatch: 0, wchan: 0, nswap: 0, cnswap: 0, exit_signal: None, processor: None, rt_priority: None, policy: None, delayacct_blkio_ticks: None, guest_time: None, cguest_time: None, start_data: None, end_data: None, start_brk: None, arg_start: None, arg_end: None, env_start: None, env_end: None, exit_code: None }
        }
    }
}
