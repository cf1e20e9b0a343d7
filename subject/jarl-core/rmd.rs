#[path = "../../build/repo/crates/jarl-core/src/rmd/extraction.rs"]
pub mod extraction;
