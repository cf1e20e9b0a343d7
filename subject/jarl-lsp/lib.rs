#![allow(dead_code, unused)]

#[path = "../../build/repo/crates/jarl-lsp/src/client.rs"]
pub mod client;
#[path = "../../build/repo/crates/jarl-lsp/src/document.rs"]
pub mod document;
