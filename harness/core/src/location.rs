use jarl_core::error::ParseError;
use jarl_core::location::Location;
use std::collections::hash_map::DefaultHasher;
use std::fmt;
use std::path::PathBuf;
use std::process::ExitCode;
use vpkit::proptest::prelude::*;
use vpkit::{Check, Info, ensure, ensure_eq};

struct With<'a>(Location, &'a str);
impl fmt::Display for With<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt_with(f, &self.1)
    }
}

fn n() -> impl Strategy<Value = usize> + Clone {
    prop_oneof![4 => 0usize..4, 2 => 0usize..1000, 1 => any::<usize>(), 1 => Just(usize::MAX)]
}

pub fn c12() -> ExitCode {
    let _ = DefaultHasher::new();
    let mut ck = Check::new("C12");
    ck.prop(
        "locations",
        "pairs of locations with small, equal, large and maximal rows and columns; non-trivial: the two differ",
        60_000,
        1_000_000,
        || (n(), n(), n(), n()),
        |&(r, c, r2, c2)| {
            let (a, b) = (Location::new(r, c), Location::new(r2, c2));
            ensure_eq!((a.row(), a.column()), (r, c), "accessors", "row and column");
            ensure_eq!(a == b, (r, c) == (r2, c2), "equality", "equality of {a:?} and {b:?}");
            ensure_eq!(a.cmp(&b), (r, c).cmp(&(r2, c2)), "order", "order of {a:?} and {b:?}");
            ensure_eq!(a.partial_cmp(&b), Some((r, c).cmp(&(r2, c2))), "order", "order of {a:?} and {b:?}");
            let j = serde_json::to_value(a).unwrap();
            ensure_eq!(j, serde_json::json!({"row": r, "column": c}), "json", "JSON form");
            let back: Result<Location, _> = serde_json::from_value(j);
            ensure_eq!(back.ok(), Some(a), "json", "JSON round trip");
            let d = Location::default();
            ensure_eq!((d.row(), d.column()), (0, 0), "default", "default location");
            Ok(Info::when(a != b))
        },
    );
    ck.prop(
        "rendering",
        "any message at any location; non-trivial: the row differs from the column",
        30_000,
        1_000_000,
        || (any::<String>(), n(), n()),
        |(m, r, c)| {
            let got = With(Location::new(*r, *c), m).to_string();
            ensure_eq!(got, format!("{m} at line {r} column {c}"), "rendered", "rendered message");
            Ok(Info::when(r != c))
        },
    );
    ck.prop(
        "syntax_error_message",
        "file names of any characters; non-trivial: not only letters",
        30_000,
        1_000_000,
        || prop_oneof!["[a-zA-Z/._ -]{1,20}", any::<String>()],
        |p: &String| {
            let e = ParseError { filename: PathBuf::from(p) };
            let m = e.to_string();
            ensure!(m.contains(p.as_str()), "filename", "{m:?} does not name {p:?}");
            let other = ParseError { filename: PathBuf::from(format!("{p}x")) }.to_string();
            ensure!(m != other, "filename", "the messages for {p:?} and {p:?}x are the same");
            let mark = ParseError { filename: PathBuf::from("\u{1}mark\u{1}") }.to_string();
            ensure_eq!(m, mark.replace("\u{1}mark\u{1}", p), "filename", "the message is that of any other file, but for the name");
            let dynamic: &dyn std::error::Error = &e;
            ensure_eq!(dynamic.to_string(), m, "filename", "message as an error");
            Ok(Info::when(p.chars().any(|c| !c.is_ascii_alphabetic())))
        },
    );
    ck.finish()
}
