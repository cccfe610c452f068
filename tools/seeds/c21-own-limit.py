PROPERTY="C21"
NEEDS="a collector for a process other than the calling one, with another limit of open files"
BREAKS="the limit of open files is that of the calling process"
EDITS=[("process/src/lib.rs","            if let Ok(limits) = p.limits() {","            let limits = procfs::process::Process::myself().and_then(|p| p.limits());\n            if let Ok(limits) = limits {")]
DEPS='measured = { path = "$repo/core" }\nmeasured-process = { path = "$repo/process" }'
DEMO='''
use measured::{text::BufferedTextEncoder, MetricGroup};
use std::io::{BufRead, BufReader};
fn main() {
    let mut c = std::process::Command::new("sh").args(["-c", "ulimit -Sn 37; echo ready; exec sleep 60"]).stdout(std::process::Stdio::piped()).spawn().unwrap();
    let mut line = String::new();
    BufReader::new(c.stdout.take().unwrap()).read_line(&mut line).unwrap();
    let mut e = BufferedTextEncoder::new();
    measured_process::ProcessCollector::new(c.id() as i32).collect_group_into(&mut e).unwrap();
    let text = String::from_utf8(e.finish().to_vec()).unwrap();
    c.kill().unwrap();
    c.wait().unwrap();
    assert!(text.lines().any(|l| l == "max_fds 37"), "{text}");
}
'''
