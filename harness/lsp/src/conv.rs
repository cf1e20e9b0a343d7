use crate::buffer::{self, Enc};
use jarl_lsp::document::{DocumentKey, PositionEncoding, TextDocument};
use lsp_types::{Position, PositionEncodingKind, Url};
use std::process::ExitCode;
use vpkit::proptest::prelude::*;
use vpkit::serde::{Deserialize, Serialize};
use vpkit::{Check, Info, Outcome, ensure, ensure_eq};

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Doc {
    enc: Enc,
    text: String,
}

fn run(d: &Doc) -> Outcome {
    let (t, e) = (&d.text, d.enc);
    let doc = TextDocument::new(t.clone(), 0);
    let ls = buffer::lines(t);
    ensure_eq!(doc.line_count(), ls.len(), "line-count", "number of lines of {t:?}");
    let bounds: Vec<usize> = t.char_indices().map(|(i, _)| i).chain([t.len()]).collect();
    let mut prev: Option<Position> = None;
    let mut positions = vec![];
    for &o in &bounds {
        let got = doc.offset_to_position(o, e.real());
        ensure!(got.is_ok(), "offset-refused", "offset {o} of {t:?} was refused: {got:?}");
        let got = got.unwrap();
        if buffer::inside_crlf(t, o) {
            // no editor position exists there
            ensure_eq!(got.line, buffer::position(t, o, e).line, "crlf-line", "line of offset {o} of {t:?}");
            continue;
        }
        ensure_eq!(got, buffer::position(t, o, e), "offset-to-position", "offset {o} of {t:?} in {e:?}");
        let back = doc.position_to_offset(got, e.real()).ok();
        ensure_eq!(back, Some(o), "round-trip", "position {got:?} of offset {o} of {t:?} in {e:?}");
        ensure!(prev.is_none_or(|p| p < got), "order", "offset {o} of {t:?}: {got:?} is not after {prev:?}");
        prev = Some(got);
        positions.push((o, got));
    }
    // Positions, on and around every line.
    let mut clamped = 0;
    for (l, (a, b)) in ls.iter().enumerate() {
        let width: usize = t[*a..*b].chars().map(|c| e.units(c)).sum();
        for ch in (0..width + 4).chain([width + 1000, u32::MAX as usize]) {
            let want = buffer::offset(t, l, ch, e);
            let got = doc.position_to_offset(Position::new(l as u32, ch as u32), e.real()).ok();
            clamped += usize::from(ch > width);
            let sig = match (want, got) {
                (None, Some(_)) => "mid-character-accepted",
                (Some(_), None) => "position-refused",
                _ => "position-to-offset",
            };
            ensure_eq!(got, want, sig, "position {l}:{ch} of {t:?} in {e:?}");
        }
    }
    for k in [0usize, 1, 7, 100_000, (u32::MAX as usize) - ls.len()] {
        let l = ls.len() + k;
        let got = doc.position_to_offset(Position::new(l as u32, 0), e.real());
        ensure!(got.is_err(), "line-oob-accepted", "line {l} of {t:?} was mapped to {got:?}");
    }
    for k in [1usize, 2, 50, usize::MAX - t.len()] {
        let o = t.len() + k;
        let got = doc.offset_to_position(o, e.real());
        ensure!(got.is_err(), "offset-oob-accepted", "offset {o} of {t:?} was mapped to {got:?}");
        let got = doc.range_of_text(0, o, e.real());
        ensure!(got.is_err(), "range-oob-accepted", "range 0..{o} of {t:?} was mapped to {got:?}");
    }
    // Ranges.
    let step = (positions.len() / 6).max(1);
    for (a, p) in positions.iter().step_by(step) {
        for (b, q) in positions.iter().rev().step_by(step) {
            let r = doc.range_of_text(*a, *b, e.real()).ok().map(|r| (r.start, r.end));
            ensure_eq!(r, Some((*p, *q)), "range", "range {a}..{b} of {t:?} in {e:?}");
        }
    }
    let wide = t.chars().any(|c| c.len_utf8() > 1);
    Ok(Info::when(wide && ls.len() > 1)
        .label_if(t.chars().any(|c| c.len_utf16() > 1), "surrogate pair")
        .label_if(t.contains("\r\n"), "CRLF")
        .label_if(t.is_empty(), "empty")
        .label_if(clamped > 0, "past end of line"))
}

pub fn c02() -> ExitCode {
    let mut ck = Check::new("C02");
    ck.assume("lone \\r line terminators are not generated; offsets inside a CRLF have no editor position");
    ck.prop(
        "conversions",
        "texts of up to 40 pieces (ASCII, 2-4 byte characters, \\n, \\r\\n, separators that are not line terminators), every character boundary and every position up to 3 units past every line end, in each encoding; non-trivial: two lines or more and a multi-byte character",
        20_000,
        600_000,
        || (buffer::enc(), buffer::text(40)).prop_map(|(enc, text)| Doc { enc, text }),
        run,
    );
    ck.prop(
        "arbitrary_text",
        "any characters (lone \\r removed); non-trivial as above",
        10_000,
        400_000,
        || {
            (buffer::enc(), prop::collection::vec(prop_oneof![4 => any::<char>(), 1 => Just('\n')], 0..40)).prop_map(|(enc, v)| {
                let text: String = v.into_iter().filter(|c| *c != '\r').collect();
                Doc { enc, text }
            })
        },
        run,
    );
    ck.prop(
        "large_texts",
        "texts of hundreds or thousands of lines, or with lines of more than 65536 characters, at 12 random places; non-trivial: all",
        300,
        8_000,
        || {
            let line = prop_oneof![
                (buffer::text(6), 200u32..700).prop_map(|(t, n)| (t + "\n", n)),
                (prop::sample::select(vec!["ab", "é", "🌍", "日x", "x🌍"]).prop_map(String::from), prop_oneof![200u32..1500, 33_000u32..66_500]),
                Just((String::from("\r\n"), 66_000)),
            ];
            (buffer::enc(), line, buffer::text(20), prop::collection::vec(any::<u32>(), 12))
        },
        |(enc, (unit, n), tail, picks)| {
            let t = unit.repeat(*n as usize) + tail;
            let doc = TextDocument::new(t.clone(), 0);
            for p in picks.iter().chain([&0, &u32::MAX]) {
                let mut o = (t.len() as u64 * u64::from(*p) / u64::from(u32::MAX)) as usize;
                while !t.is_char_boundary(o) || buffer::inside_crlf(&t, o) {
                    o -= 1;
                }
                let want = buffer::position(&t, o, *enc);
                ensure_eq!(doc.offset_to_position(o, enc.real()).ok(), Some(want), "offset-to-position", "offset {o} of {n} times {unit:?} and {tail:?} in {enc:?}");
                ensure_eq!(doc.position_to_offset(want, enc.real()).ok(), Some(o), "round-trip", "offset {o} of {n} times {unit:?} and {tail:?} in {enc:?}");
            }
            Ok(Info::nontrivial())
        },
    );
    ck.exhaustive(
        "encodings",
        "the three encodings and their LSP names, and other names",
        vec!["utf-8", "utf-16", "utf-32", "", "UTF-8", "utf8", "utf-7", "latin1", "utf-64"].into_iter().map(String::from).collect(),
        |name: &String| {
            let kind = PositionEncodingKind::from(name.clone());
            let got = PositionEncoding::try_from(&kind).ok();
            let want = match name.as_str() {
                "utf-8" => Some(PositionEncoding::UTF8),
                "utf-16" => Some(PositionEncoding::UTF16),
                "utf-32" => Some(PositionEncoding::UTF32),
                _ => None,
            };
            ensure_eq!(got, want, "encoding-name", "encoding named {name:?}");
            if let Some(e) = got {
                let back = PositionEncodingKind::from(e);
                ensure_eq!(back, kind, "encoding-name", "name of {e:?}");
            }
            ensure_eq!(PositionEncoding::default(), PositionEncoding::UTF16, "encoding-default", "default encoding");
            Ok(Info::when(want.is_some()))
        },
    );
    ck.prop(
        "document_keys",
        "file URIs from absolute paths with spaces and non-ASCII characters, and untitled: URIs; non-trivial: a path with a character that is percent-encoded",
        2_000,
        50_000,
        || (prop::collection::vec("[a-zA-Z0-9 éß%#._-]{1,8}", 1..5), any::<bool>()),
        |(parts, file)| {
            let path = format!("/{}", parts.join("/"));
            if parts.iter().any(|p| p == "." || p == "..") {
                return Ok(Info::trivial());
            }
            let uri = if *file { Url::from_file_path(&path).unwrap() } else { Url::parse(&format!("untitled:Untitled-{}", parts.len())).unwrap() };
            let k = DocumentKey::new(uri.clone());
            ensure_eq!(k.uri(), &uri, "key-uri", "uri of a key");
            ensure_eq!(DocumentKey::from(uri.clone()), k, "key-uri", "key from uri");
            ensure_eq!(k.clone().into_url(), uri, "key-uri", "into_url");
            let want = file.then(|| std::path::PathBuf::from(&path));
            ensure_eq!(k.file_path(), want, "key-path", "file path of {uri}");
            Ok(Info::when(*file && uri.as_str().contains('%')))
        },
    );
    ck.finish()
}
