//! Stand-in for biome_rowan: the part of its interface a linter uses, over trees built by the
//! air_r_parser stand-in.
pub mod ast;
mod text;
mod tree;
pub use ast::*;
pub use text::*;
pub use tree::*;
pub mod syntax {
    pub use crate::tree::*;
}
