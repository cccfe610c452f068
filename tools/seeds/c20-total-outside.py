PROPERTY="C20"
NEEDS="a runtime with at least two workers and the poll time histogram enabled"
BREAKS="the running total of the buckets is not reset between workers, so the buckets of the second worker include the polls of the first"
EDITS=[("tokio/src/lib.rs","        |rt| for worker in 0..rt.num_workers() {\n            let worker_label = Worker(worker);\n            if rt.poll_count_histogram_enabled() {\n                let buckets = rt.poll_count_histogram_num_buckets();\n                let mut total = 0;\n                for bucket in 0..buckets {\n                    let le = histogram_le(rt, bucket);\n                    total += rt.poll_count_histogram_bucket_count(worker, bucket);\n                    write_counter!(Bucket, worker_label.compose_with(le), total);\n                }\n            }\n            let count = rt.worker_poll_count(worker);\n            write_counter!(Count, worker_label, count);\n            let busy = rt.worker_total_busy_duration(worker);\n            write_float_gauge!(Sum, worker_label, busy.as_secs_f64());\n        }\n","        |rt| {\n            let mut total = 0;\n            for worker in 0..rt.num_workers() {\n                let worker_label = Worker(worker);\n                if rt.poll_count_histogram_enabled() {\n                    for bucket in 0..rt.poll_count_histogram_num_buckets() {\n                        let le = histogram_le(rt, bucket);\n                        total += rt.poll_count_histogram_bucket_count(worker, bucket);\n                        write_counter!(Bucket, worker_label.compose_with(le), total);\n                    }\n                }\n                let count = rt.worker_poll_count(worker);\n                write_counter!(Count, worker_label, count);\n                let busy = rt.worker_total_busy_duration(worker);\n                write_float_gauge!(Sum, worker_label, busy.as_secs_f64());\n            }\n        }\n")]
DEPS='measured = { path = "$repo/core" }\nmeasured-tokio = { path = "$repo/tokio" }\ntokio = { version = "1.37", features = ["rt", "rt-multi-thread"] }'
FLAGS="--cfg=tokio_unstable"
DEMO='''
use measured::{text::BufferedTextEncoder, MetricGroup};
fn main() {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_metrics_poll_count_histogram().build().unwrap();
    let m = rt.handle().metrics();
    let polls = |w: usize| (0..m.poll_count_histogram_num_buckets()).map(|i| m.poll_count_histogram_bucket_count(w, i)).sum::<u64>();
    // until both workers have polled something (they publish it when they park)
    for _ in 0..400 {
        if polls(0) > 0 && polls(1) > 0 { break; }
        for _ in 0..8 {
            rt.spawn(async { std::thread::sleep(std::time::Duration::from_millis(1)); });
        }
        std::thread::sleep(std::time::Duration::from_millis(30));
    }
    assert!(polls(0) > 0 && polls(1) > 0, "the workers did not run");
    std::thread::sleep(std::time::Duration::from_millis(100));
    let mut e = BufferedTextEncoder::new();
    measured_tokio::RuntimeCollector::new(m.clone()).collect_group_into(&mut e).unwrap();
    let text = String::from_utf8(e.finish().to_vec()).unwrap();
    for w in 0..2 {
        let line = text.lines().find(|l| l.starts_with("worker_poll_time_seconds_bucket") && l.contains(&format!("worker=\\"{w}\\"")) && l.contains("+Inf")).expect(&text);
        let n: u64 = line.rsplit(' ').next().unwrap().parse().unwrap();
        assert_eq!(n, polls(w), "{text}");
    }
}
'''
