//! The tokens and comments of R code.

use air_r_parser::{RParserOptions, parse};
use biome_rowan::{Direction, TriviaPieceKind};

pub struct Code {
    /// Every token but the end of the file, without its surroundings.
    pub tokens: Vec<String>,
    pub comments: Vec<String>,
}

/// None: a syntax error.
pub fn code(t: &str) -> Option<Code> {
    let p = parse(t, RParserOptions::default());
    if p.has_error() {
        return None;
    }
    let mut c = Code { tokens: vec![], comments: vec![] };
    for k in p.syntax().descendants_tokens(Direction::Next) {
        let mut add = |ps: biome_rowan::SyntaxTrivia<_>| {
            for x in ps.pieces() {
                if matches!(x.kind(), TriviaPieceKind::SingleLineComment) {
                    c.comments.push(x.text().trim_end().to_string());
                }
            }
        };
        add(k.leading_trivia());
        if !k.text_trimmed().is_empty() {
            c.tokens.push(k.text_trimmed().to_string());
        }
        add(k.trailing_trivia());
    }
    Some(c)
}
