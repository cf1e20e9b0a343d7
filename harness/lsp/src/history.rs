use crate::buffer::{self, Enc};
use jarl_lsp::document::TextDocument;
use lsp_types::{Position, Range, TextDocumentContentChangeEvent};
use std::process::ExitCode;
use vpkit::proptest::prelude::*;
use vpkit::serde::{Deserialize, Serialize};
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq};

/// A place in whatever the buffer is then: fractions of the line count and line length.
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Place {
    line: u16,
    col: u16,
    /// > 0: as many units past the end of the line
    beyond: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Target {
    /// insertion at a place
    At(Place),
    /// the range between two places
    Between(Place, Place),
    /// from a place, over this many characters
    Over(Place, u8),
    /// relative to where the previous change of the same notification ended
    After(i8, u8),
    /// the whole text
    All,
    /// the whole text, as a change without a range
    Full,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Edit {
    target: Target,
    text: String,
    range_length: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Bad {
    LineOob(u32),
    BothLineOob(u32),
    MidUnit(u16),
    Inverted(Place, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Note {
    edits: Vec<Edit>,
    version: i32,
    /// put one invalid change at this index
    bad: Option<(u8, Bad)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    enc: Enc,
    initial: String,
    /// put before it, that many times
    filler: (String, u32),
    version: i32,
    notes: Vec<Note>,
}

impl Case {
    fn text(&self) -> String {
        self.filler.0.repeat(self.filler.1 as usize) + &self.initial
    }
}

fn place() -> impl Strategy<Value = Place> + Clone {
    (any::<u16>(), any::<u16>(), prop_oneof![8 => Just(0u32), 1 => 1u32..4, 1 => prop::sample::select(vec![100, 65536, i32::MAX as u32, u32::MAX])])
        .prop_map(|(line, col, beyond)| Place { line, col, beyond })
}

fn edit() -> impl Strategy<Value = Edit> + Clone {
    let target = prop_oneof![
        3 => place().prop_map(Target::At),
        2 => (place(), place()).prop_map(|(a, b)| Target::Between(a, b)),
        4 => (place(), 0u8..6).prop_map(|(a, n)| Target::Over(a, n)),
        3 => (-4i8..5, 0u8..4).prop_map(|(d, n)| Target::After(d, n)),
        1 => Just(Target::All),
        1 => Just(Target::Full),
    ];
    (target, prop_oneof![10 => buffer::text(6), 1 => buffer::text(80), 1 => "[a-z]{20,200}"], prop::option::of(prop_oneof![0u32..9, any::<u32>()])).prop_map(|(target, text, range_length)| Edit { target, text, range_length })
}

fn bad() -> impl Strategy<Value = Bad> + Clone {
    prop_oneof![
        prop::sample::select(vec![0u32, 1, 5, 1000, u32::MAX]).prop_map(Bad::LineOob),
        prop::sample::select(vec![0u32, 1, 5, 1000, u32::MAX]).prop_map(Bad::BothLineOob),
        any::<u16>().prop_map(Bad::MidUnit),
        (place(), 1u8..4).prop_map(|(p, n)| Bad::Inverted(p, n)),
    ]
}

fn case(with_bad: bool) -> impl Strategy<Value = Case> {
    any_case(with_bad, Just((String::new(), 0)))
}

/// Texts of many lines or with very long ones.
fn large() -> impl Strategy<Value = Case> {
    let line = prop_oneof![
        (buffer::text(6), 200u32..700).prop_map(|(t, n)| (t + "\n", n)),
        (prop::sample::select(vec!["ab", "é", "🌍", "日x", "x🌍"]).prop_map(String::from), prop_oneof![200u32..1500, 33_000u32..66_500]),
        Just((String::from("\r\n"), 66_000)),
    ];
    any_case(false, line)
}

fn any_case(with_bad: bool, filler: impl Strategy<Value = (String, u32)>) -> impl Strategy<Value = Case> {
    let b = if with_bad {
        prop_oneof![1 => Just(None), 1 => (any::<u8>(), bad()).prop_map(Some)].boxed()
    } else {
        Just(None).boxed()
    };
    let note = (prop::collection::vec(edit(), 0..5), prop_oneof![9 => 0i32..100, 1 => any::<i32>()], b)
        .prop_map(|(edits, version, bad)| Note { edits, version, bad });
    (buffer::enc(), buffer::text(30), filler, any::<i32>(), prop_oneof![15 => prop::collection::vec(note.clone(), 0..12), 1 => prop::collection::vec(note, 12..50)])
        .prop_map(|(enc, initial, filler, version, notes)| Case { enc, initial, filler, version, notes })
}

fn frac(n: usize, f: u16) -> usize {
    // 0..=n
    (f as usize * (n + 1)) >> 16
}

/// A valid position (line, character) and the offset it means.
fn resolve(text: &str, p: &Place, e: Enc) -> (Position, usize) {
    let ls = buffer::lines(text);
    let line = frac(ls.len() - 1, p.line);
    let (a, b) = ls[line];
    let bounds: Vec<usize> = text[a..b].char_indices().map(|(i, _)| a + i).chain([b]).collect();
    let off = if p.beyond > 0 { b } else { bounds[frac(bounds.len() - 1, p.col)] };
    let mut pos = buffer::position(text, off, e);
    if p.beyond > 0 {
        pos.character = pos.character.saturating_add(p.beyond);
    }
    (pos, off)
}

/// Moves n characters to the right (or left) of a boundary, never into a CRLF.
fn shift(text: &str, off: usize, n: i64) -> usize {
    let bounds: Vec<usize> = text
        .char_indices()
        .map(|(i, _)| i)
        .chain([text.len()])
        .filter(|&i| !buffer::inside_crlf(text, i))
        .collect();
    let k = bounds.iter().position(|&b| b >= off).unwrap_or(bounds.len() - 1) as i64;
    bounds[(k + n).clamp(0, bounds.len() as i64 - 1) as usize]
}

/// The change as sent, and its effect on the model.
fn make(text: &str, e: Enc, ed: &Edit, last: usize) -> (Option<Range>, usize, usize) {
    let (mut s, mut t);
    match &ed.target {
        Target::At(p) => {
            s = resolve(text, p, e);
            t = s;
        }
        Target::Between(p, q) => {
            s = resolve(text, p, e);
            t = resolve(text, q, e);
            if t.1 < s.1 {
                std::mem::swap(&mut s, &mut t);
            }
        }
        Target::Over(p, n) => {
            s = resolve(text, p, e);
            let o = shift(text, s.1, *n as i64);
            t = if *n == 0 || o == s.1 { s } else { (buffer::position(text, o, e), o) };
        }
        Target::After(d, n) => {
            let a = shift(text, last.min(text.len()), *d as i64);
            let b = shift(text, a, *n as i64);
            s = (buffer::position(text, a, e), a);
            t = (buffer::position(text, b, e), b);
        }
        // the whole document, as a change without a range
        Target::Full => return (None, 0, text.len()),
        Target::All => {
            s = (Position::new(0, 0), 0);
            t = (buffer::position(text, text.len(), e), text.len());
        }
    }
    // Two positions past the same end of line, in order.
    if s.1 == t.1 && s.0.line == t.0.line && s.0.character > t.0.character {
        std::mem::swap(&mut s, &mut t);
    }
    (Some(Range::new(s.0, t.0)), s.1, t.1)
}

fn make_bad(text: &str, e: Enc, b: &Bad) -> Option<Range> {
    let n = buffer::lines(text).len() as u32;
    match b {
        Bad::LineOob(k) => Some(Range::new(Position::new(0, 0), Position::new(n.saturating_add(*k), 0))),
        Bad::BothLineOob(k) => {
            let p = Position::new(n.saturating_add(*k), 0);
            Some(Range::new(p, p))
        }
        Bad::MidUnit(f) => {
            let multi: Vec<usize> = text.char_indices().filter(|(_, c)| e.units(*c) > 1).map(|(i, _)| i).collect();
            if multi.is_empty() {
                let p = Position::new(n, 0);
                return Some(Range::new(p, p));
            }
            let o = multi[frac(multi.len() - 1, *f)];
            let p = buffer::position(text, o, e);
            let mid = Position::new(p.line, p.character + 1);
            Some(match f % 3 {
                0 => Range::new(p, mid),
                1 => Range::new(mid, mid),
                _ => Range::new(mid, buffer::position(text, text.len(), e)),
            })
        }
        Bad::Inverted(p, k) => {
            let (_, o) = resolve(text, p, e);
            let o2 = shift(text, o, -(*k as i64));
            if o2 == o {
                // nothing to the left
                if text.is_empty() {
                    let p = Position::new(n, 0);
                    return Some(Range::new(p, p));
                }
                return Some(Range::new(buffer::position(text, shift(text, 0, 1), e), Position::new(0, 0)));
            }
            Some(Range::new(buffer::position(text, o, e), buffer::position(text, o2, e)))
        }
    }
}

fn same(doc: &TextDocument, text: &str, version: i32, e: Enc, what: &str) -> Result<(), Fail> {
    ensure_eq!(doc.content(), text, format!("{what}-content"), "content of the document");
    ensure_eq!(doc.version(), version, format!("{what}-version"), "version of the document");
    let ls = buffer::lines(text);
    ensure_eq!(doc.line_count(), ls.len(), format!("{what}-lines"), "number of lines of {text:?}");
    for (i, (a, b)) in ls.iter().enumerate() {
        let got = doc.position_to_offset(Position::new(i as u32, 0), e.real()).ok();
        ensure_eq!(got, Some(*a), format!("{what}-lines"), "start of line {i} of {text:?}");
        let got = doc.position_to_offset(Position::new(i as u32, u32::MAX), e.real()).ok();
        ensure_eq!(got, Some(*b), format!("{what}-lines"), "end of line {i} of {text:?}");
    }
    Ok(())
}

fn run(c: &Case) -> Outcome {
    let e = c.enc;
    let mut model = c.text();
    let mut version = c.version;
    let mut doc = TextDocument::new(c.text(), c.version).with_language_id("r");
    same(&doc, &model, version, e, "open")?;
    let (mut batches, mut refused, mut after_refusal, mut beyond, mut shifted, mut full) = (0, 0, 0, 0, 0, 0);
    for (i, n) in c.notes.iter().enumerate() {
        let mut next = model.clone();
        let mut last = 0;
        let mut sent = vec![];
        let mut moved = false;
        let bad_at = n.bad.as_ref().map(|(k, _)| *k as usize % (n.edits.len() + 1));
        let mut edits = n.edits.iter();
        for k in 0..n.edits.len() + bad_at.iter().len() {
            if Some(k) == bad_at {
                let range = make_bad(&next, e, &n.bad.as_ref().unwrap().1);
                sent.push(TextDocumentContentChangeEvent { range, range_length: None, text: "zz\n".into() });
                continue;
            }
            let ed = edits.next().unwrap();
            let (range, a, b) = make(&next, e, ed, last);
            if moved && a < last {
                shifted += 1;
            }
            if ed.text.len() != b - a {
                moved = true;
            }
            if range.is_some_and(|r| buffer::position(&next, b, e).character < r.end.character) {
                beyond += 1;
            }
            next.replace_range(a..b, &ed.text);
            last = a + ed.text.len();
            full += range.is_none() as usize;
            sent.push(TextDocumentContentChangeEvent { range, range_length: range.and(ed.range_length), text: ed.text.clone() });
        }
        if sent.len() > 1 && moved {
            batches += 1;
        }
        let shown = format!("{sent:?}");
        let r = doc.apply_changes(sent, n.version, e.real());
        if bad_at.is_some() {
            ensure!(r.is_err(), "accepted-invalid", "notification {i} has an invalid member and was accepted: {shown} on {model:?}");
            same(&doc, &model, version, e, "refused")?;
            refused += 1;
        } else {
            if let Err(x) = &r {
                return Err(Fail::new("refused-valid", format!("notification {i} is valid and was refused ({x}): {shown} on {model:?} ({e:?})")));
            }
            model = next;
            version = n.version;
            let what = if refused > 0 { "after-refusal" } else { "edit" };
            if refused > 0 && moved {
                after_refusal += 1;
            }
            same(&doc, &model, version, e, what).map_err(|f| Fail::new(f.sig, format!("after notification {i} {shown}: {}", f.msg)))?;
        }
        ensure_eq!(doc.language_id(), Some("r"), "language", "language id");
    }
    let bad_possible = c.notes.iter().any(|n| n.bad.is_some());
    let nt = if bad_possible { refused > 0 } else { batches > 0 };
    Ok(Info::when(nt)
        .label_if(batches > 0, "multi-change batch")
        .label_if(shifted > 0, "change before an earlier one of its batch")
        .label_if(beyond > 0, "position past end of line")
        .label_if(full > 0, "change without a range")
        .label_if(refused > 0, "refused batch")
        .label_if(after_refusal > 0, "edit after a refusal")
        .label_if(c.initial.contains("\r\n"), "CRLF"))
}

pub fn c01() -> ExitCode {
    let mut ck = Check::new("C01");
    ck.assume("the editor sends positions valid in its own buffer; lone \\r line terminators are not generated");
    ck.prop(
        "edit_history",
        "an initial text and up to 11 change notifications of up to 4 changes each, every change drawn against the buffer as it is then, all encodings; non-trivial: some notification has two or more changes and one of them changes the text length",
        60_000,
        3_000_000,
        || case(false),
        run,
    );
    ck.prop(
        "large_texts",
        "the same with texts of hundreds or thousands of lines, or with lines of more than 65536 characters; non-trivial as before",
        200,
        6_000,
        large,
        run,
    );
    ck.finish()
}

pub fn c03() -> ExitCode {
    let mut ck = Check::new("C03");
    ck.assume("lone \\r line terminators are not generated");
    ck.prop(
        "refused_batches",
        "as C01's histories, with an invalid change (line past the end, position inside a character, inverted range) put at a random place of about half of the notifications; non-trivial: a notification was refused",
        60_000,
        3_000_000,
        || case(true),
        run,
    );
    ck.finish()
}
