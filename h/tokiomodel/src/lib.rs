//! A stand-in for tokio with the part of its interface that describes a
//! runtime.  The harness sets what each runtime reports.
#![allow(static_mut_refs)]

pub mod runtime {
    use core::ops::Range;
    use core::time::Duration;

    pub const WORKERS: usize = 2;
    pub const BUCKETS: usize = 3;
    /// What one worker reports.
    #[derive(Clone, Copy)]
    pub struct WorkerStats {
        pub local_queue: usize,
        pub local_schedule: u64,
        pub overflow: u64,
        pub mean: u64,
        pub noop: u64,
        pub park: u64,
        pub steal: u64,
        pub steal_ops: u64,
        pub polls: u64,
        pub busy: u64,
        pub buckets: [u64; BUCKETS],
    }
    /// What one runtime reports; durations in units of half a second.
    #[derive(Clone, Copy)]
    pub struct Stats {
        pub blocking: usize,
        pub idle: usize,
        pub active: usize,
        pub blocking_queue: usize,
        pub injection_queue: usize,
        pub remote_schedule: u64,
        pub forced_yield: u64,
        pub registered: u64,
        pub deregistered: u64,
        pub ready: u64,
    }
    const W: WorkerStats = WorkerStats {
        local_queue: 0,
        local_schedule: 0,
        overflow: 0,
        mean: 0,
        noop: 0,
        park: 0,
        steal: 0,
        steal_ops: 0,
        polls: 0,
        busy: 0,
        buckets: [0; BUCKETS],
    };
    const S: Stats = Stats {
        blocking: 0,
        idle: 0,
        active: 0,
        blocking_queue: 0,
        injection_queue: 0,
        remote_schedule: 0,
        forced_yield: 0,
        registered: 0,
        deregistered: 0,
        ready: 0,
    };
    pub static mut STATS: [Stats; 2] = [S, S];
    pub static mut WORKER: [[WorkerStats; WORKERS]; 2] = [[W; WORKERS]; 2];
    pub static mut NUM_WORKERS: [usize; 2] = [0; 2];
    /// 0: no histogram
    pub static mut NUM_BUCKETS: [usize; 2] = [0; 2];
    /// the runtime of the calling thread
    pub static mut CURRENT: usize = 0;
    /// bucket bounds in nanoseconds; u64::MAX for the last one
    pub static mut BOUND: [[(u64, u32); BUCKETS]; 2] = [[(0, 0); BUCKETS]; 2];

    #[derive(Clone, Debug)]
    pub struct RuntimeMetrics {
        pub id: usize,
    }
    #[derive(Clone, Debug)]
    pub struct Handle {
        id: usize,
    }
    impl Handle {
        pub fn current() -> Self {
            Handle { id: unsafe { CURRENT } }
        }
        pub fn metrics(&self) -> RuntimeMetrics {
            RuntimeMetrics { id: self.id }
        }
    }
    fn half(x: u64) -> Duration {
        Duration::new(x, 500_000_000)
    }
    macro_rules! of_runtime {
        ($($f:ident $field:ident $t:ty;)*) => {$(
            pub fn $f(&self) -> $t {
                unsafe { STATS[self.id].$field }
            }
        )*};
    }
    macro_rules! of_worker {
        ($($f:ident $field:ident $t:ty;)*) => {$(
            pub fn $f(&self, worker: usize) -> $t {
                self.worker(worker).$field
            }
        )*};
    }
    impl RuntimeMetrics {
        fn worker(&self, w: usize) -> &'static WorkerStats {
            assert!(w < self.num_workers(), "no such worker");
            unsafe { &WORKER[self.id][w] }
        }
        pub fn num_workers(&self) -> usize {
            unsafe { NUM_WORKERS[self.id] }
        }
        of_runtime! {
            num_blocking_threads blocking usize;
            num_idle_blocking_threads idle usize;
            active_tasks_count active usize;
            blocking_queue_depth blocking_queue usize;
            injection_queue_depth injection_queue usize;
            remote_schedule_count remote_schedule u64;
            budget_forced_yield_count forced_yield u64;
            io_driver_fd_registered_count registered u64;
            io_driver_fd_deregistered_count deregistered u64;
            io_driver_ready_count ready u64;
        }
        of_worker! {
            worker_local_queue_depth local_queue usize;
            worker_local_schedule_count local_schedule u64;
            worker_overflow_count overflow u64;
            worker_noop_count noop u64;
            worker_park_count park u64;
            worker_steal_count steal u64;
            worker_steal_operations steal_ops u64;
            worker_poll_count polls u64;
        }
        pub fn worker_mean_poll_time(&self, worker: usize) -> Duration {
            half(self.worker(worker).mean)
        }
        pub fn worker_total_busy_duration(&self, worker: usize) -> Duration {
            half(self.worker(worker).busy)
        }
        pub fn poll_count_histogram_enabled(&self) -> bool {
            unsafe { NUM_BUCKETS[self.id] != 0 }
        }
        pub fn poll_count_histogram_num_buckets(&self) -> usize {
            unsafe { NUM_BUCKETS[self.id] }
        }
        pub fn poll_count_histogram_bucket_range(&self, bucket: usize) -> Range<Duration> {
            assert!(bucket < self.poll_count_histogram_num_buckets(), "no such bucket");
            let b = |i: usize| unsafe { Duration::new(BOUND[self.id][i].0, BOUND[self.id][i].1) };
            let start = if bucket == 0 { Duration::ZERO } else { b(bucket - 1) };
            start..b(bucket)
        }
        pub fn poll_count_histogram_bucket_count(&self, worker: usize, bucket: usize) -> u64 {
            assert!(bucket < self.poll_count_histogram_num_buckets(), "no such bucket");
            self.worker(worker).buckets[bucket]
        }
    }
}
