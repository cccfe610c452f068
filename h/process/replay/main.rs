use process_h::{nd, HARNESSES};
include!("../../common/replay_main.rs");
