// Replays one solver counterexample natively, without any stub:
//   replay <module::harness> <hex,hex,...>
// exit 0: the property held; 3: an assumption failed; 10: a call that must be
// rejected was accepted; 11: an assertion of the harness or of the code failed.
use std::panic;

fn main() {
    let mut a = std::env::args().skip(1);
    let name = a.next().expect("harness name");
    let bytes = a.next().unwrap_or_default();
    let vals: Vec<Vec<u8>> = bytes
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| {
            (0..s.len() / 2)
                .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
                .collect()
        })
        .collect();
    let f = HARNESSES
        .iter()
        .flat_map(|(m, l)| l.iter().map(move |(n, f)| (format!("{m}::{n}"), *f)))
        .find(|(n, _)| *n == name)
        .map(|(_, f)| f)
        .expect("unknown harness");
    let r = panic::catch_unwind(move || {
        nd::load(vals);
        f()
    });
    match r {
        Ok(()) => println!("held"),
        Err(e) if e.is::<nd::AssumeFailed>() => {
            println!("assumption not met");
            std::process::exit(3)
        }
        Err(e) => {
            if let Some(nd::Accepted(m)) = e.downcast_ref::<nd::Accepted>() {
                println!("reproduced: {m}");
                std::process::exit(10)
            }
            println!("reproduced: panic");
            std::process::exit(11)
        }
    }
}
