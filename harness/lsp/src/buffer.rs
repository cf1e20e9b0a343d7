//! The reference: an editor buffer that converts positions by counting code units from
//! the start of the line, straight from the LSP specification. Line terminators are
//! "\n" and "\r\n" (lone "\r" is outside the domain of these checks).

use jarl_lsp::document::PositionEncoding;
use lsp_types::Position;
use vpkit::proptest::prelude::*;
use vpkit::serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(crate = "vpkit::serde")]
pub enum Enc {
    U8,
    U16,
    U32,
}

impl Enc {
    pub fn real(self) -> PositionEncoding {
        match self {
            Enc::U8 => PositionEncoding::UTF8,
            Enc::U16 => PositionEncoding::UTF16,
            Enc::U32 => PositionEncoding::UTF32,
        }
    }
    pub fn units(self, c: char) -> usize {
        match self {
            Enc::U8 => c.len_utf8(),
            Enc::U16 => c.len_utf16(),
            Enc::U32 => 1,
        }
    }
}

pub fn enc() -> impl Strategy<Value = Enc> + Clone {
    prop_oneof![Just(Enc::U8), Just(Enc::U16), Just(Enc::U32)]
}

/// Lines as (start offset, end offset without the terminator).
pub fn lines(text: &str) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut start = 0;
    for (i, c) in text.char_indices() {
        if c == '\n' {
            let end = if i > start && text[..i].ends_with('\r') { i - 1 } else { i };
            out.push((start, end));
            start = i + 1;
        }
    }
    out.push((start, text.len()));
    out
}

/// Byte offset of a position; None when the position is not one of the document.
pub fn offset(text: &str, line: usize, ch: usize, e: Enc) -> Option<usize> {
    let ls = lines(text);
    let (a, b) = *ls.get(line)?;
    let mut units = 0;
    for (i, c) in text[a..b].char_indices() {
        if units == ch {
            return Some(a + i);
        }
        if units > ch {
            return None;
        }
        units += e.units(c);
    }
    if units > ch { None } else { Some(b) }
}

/// The position of a character boundary that is not inside a "\r\n".
pub fn position(text: &str, off: usize, e: Enc) -> Position {
    let line = text[..off].matches('\n').count();
    let start = text[..off].rfind('\n').map_or(0, |i| i + 1);
    let ch: usize = text[start..off].chars().map(|c| e.units(c)).sum();
    Position::new(line as u32, ch as u32)
}

pub fn inside_crlf(text: &str, off: usize) -> bool {
    text[..off].ends_with('\r') && text[off..].starts_with('\n')
}

/// Pieces of text: no lone "\r", so that every "\r" is followed by "\n".
pub fn atom() -> impl Strategy<Value = &'static str> + Clone {
    prop_oneof![
        8 => prop::sample::select(vec!["a", "b", "x", "1", " ", "<-", "foo(", ")", "\"", "#"]),
        2 => Just("é"),
        2 => Just("🌍"),
        2 => Just("日本"),
        1 => prop::sample::select(vec!["e\u{301}", "\u{2028}", "\u{feff}", "\0", "\t", "\u{85}", "\u{10ffff}", "ß"]),
        4 => Just("\n"),
        3 => Just("\r\n"),
    ]
}

pub fn text(max: usize) -> impl Strategy<Value = String> + Clone {
    prop::collection::vec(atom(), 0..max).prop_map(|v| v.concat())
}
