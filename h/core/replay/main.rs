use core_h::{nd, HARNESSES};
include!("../../common/replay_main.rs");
