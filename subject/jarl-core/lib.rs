#![allow(dead_code, unused)]

#[path = "../../build/repo/crates/jarl-core/src/description.rs"]
pub mod description;
#[path = "../../build/repo/crates/jarl-core/src/directive.rs"]
pub mod directive;
#[path = "../../build/repo/crates/jarl-core/src/error.rs"]
pub mod error;
#[path = "../../build/repo/crates/jarl-core/src/fs.rs"]
pub mod fs;
#[path = "../../build/repo/crates/jarl-core/src/location.rs"]
pub mod location;
#[path = "../../build/repo/crates/jarl-core/src/rule_set.rs"]
pub mod rule_set;

// rmd/mod.rs itself is out: its tests run the whole linter.
pub mod rmd;
