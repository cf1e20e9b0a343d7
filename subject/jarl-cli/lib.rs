#![allow(dead_code, unused)]

#[path = "../../build/repo/crates/jarl/src/logging.rs"]
pub mod logging;
#[path = "../../build/repo/crates/jarl/src/status.rs"]
pub mod status;

/// `init_logging` is private to the crate.
pub fn vp_init_logging(level: logging::LogLevel) {
    logging::init_logging(level)
}
