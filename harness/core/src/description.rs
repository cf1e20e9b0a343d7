use jarl_core::description::Description;
use std::process::ExitCode;
use vpkit::proptest::prelude::*;
use vpkit::serde::{Deserialize, Serialize};
use vpkit::{Check, Info, Outcome, ensure, ensure_eq};

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Dep {
    /// R (>= x), with spacing before the parenthesis, after it, after the operator and before the end
    R { version: String, gaps: [Gap; 4] },
    /// R without a version
    Bare,
    /// nothing between two commas
    Nothing,
    /// R with another operator
    Other(String, String),
    /// another package, with an optional requirement
    Package(String, Option<String>),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Gap {
    None,
    Space,
    Spaces,
    Tab,
    /// a continuation line
    Line,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Field {
    name: String,
    /// the value's lines; all but the first are continuation lines
    lines: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    before: Vec<Field>,
    depends: Option<(Gap, Vec<(Dep, Gap, Gap)>)>,
    trailing_comma: bool,
    after: Vec<Field>,
    indent: String,
    crlf: bool,
    leading_blank: bool,
    final_newline: bool,
}

fn gap() -> impl Strategy<Value = Gap> + Clone {
    prop_oneof![4 => Just(Gap::None), 4 => Just(Gap::Space), 1 => Just(Gap::Spaces), 1 => Just(Gap::Tab), 2 => Just(Gap::Line)]
}

fn version() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        "[0-9]{1,2}\\.[0-9]{1,2}",
        "[0-9]{1,2}\\.[0-9]{1,2}\\.[0-9]{1,3}",
        "[0-9]\\.[0-9]-[0-9]",
        "[0-9]{1,4}([.-][0-9]{1,5}){0,4}",
    ]
}

fn dep() -> impl Strategy<Value = Dep> + Clone {
    let names = prop_oneof![
        prop::sample::select(vec!["Rcpp", "R6", "Rdpack", "R.utils", "R2admb", "RR", "r", "methods", "stats4", "dplyr", "data.table", "R.", "tibbleR"]).prop_map(String::from),
        "[A-Za-z][A-Za-z0-9.]{1,6}".prop_filter("R itself", |s| s != "R"),
    ];
    let req = prop::option::of((prop::sample::select(vec![">=", ">", "==", "<", "<=", "!="]), version()).prop_map(|(o, v)| format!("({o} {v})")));
    prop_oneof![
        5 => (version(), [gap(), gap(), gap(), gap()]).prop_map(|(version, gaps)| Dep::R { version, gaps }),
        1 => Just(Dep::Bare),
        1 => Just(Dep::Nothing),
        1 => (prop::sample::select(vec!["<", "<=", "==", ">", "!="]), version()).prop_map(|(o, v)| Dep::Other(o.into(), v)),
        5 => (names, req).prop_map(|(n, r)| Dep::Package(n, r)),
    ]
}

fn field() -> impl Strategy<Value = Field> + Clone {
    let name = prop::sample::select(vec![
        "Package", "Version", "Title", "Description", "Imports", "Suggests", "LinkingTo", "Authors@R", "SystemRequirements", "Dependsx", "XDepends",
        "depends", "DEPENDS", "\"Depends\"", "Depends@R", "Depend", "Config/Depends", "Enhances", "Config/testthat/edition", "Roxygen", "URL",
    ])
    .prop_map(String::from);
    let line = prop_oneof![
        Just(String::new()),
        Just("R (>= 9.9.9)".to_string()),
        Just("Depends: R (>= 8.8.8)".to_string()),
        Just("Depends:".to_string()),
        Just("https://x.org: see R (>= 7.7)".to_string()),
        Just(".".to_string()),
        Just("person(\"A\", \"B\", role = c(\"aut\", \"cre\"))".to_string()),
        "[ -~é]{0,20}",
    ];
    (name, prop::collection::vec(line, 1..4)).prop_map(|(name, lines)| Field { name, lines })
}

fn case() -> impl Strategy<Value = Case> {
    (
        prop_oneof![12 => prop::collection::vec(field(), 0..4), 1 => prop::collection::vec(field(), 4..30)],
        prop::option::weighted(0.93, (gap(), prop_oneof![20 => prop::collection::vec((dep(), gap(), gap()), 0..5), 1 => prop::collection::vec((dep(), gap(), gap()), 5..40)])),
        prop::bool::weighted(0.1),
        prop_oneof![12 => prop::collection::vec(field(), 0..4), 1 => prop::collection::vec(field(), 4..30)],
        prop::sample::select(vec![" ", "    ", "\t", "  \t"]).prop_map(String::from),
        any::<bool>(),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(before, depends, trailing_comma, after, indent, crlf, leading_blank, final_newline)| Case {
            before,
            depends,
            trailing_comma,
            after,
            indent,
            crlf,
            leading_blank,
            final_newline,
        })
}

fn render(c: &Case) -> (String, Vec<String>) {
    let mut versions = vec![];
    let mut out = vec![];
    let g = |x: Gap| match x {
        Gap::None => String::new(),
        Gap::Space => " ".into(),
        Gap::Spaces => "   ".into(),
        Gap::Tab => "\t".into(),
        Gap::Line => format!("\n{}", c.indent),
    };
    let put = |f: &Field, out: &mut Vec<String>| {
        out.push(format!("{}: {}", f.name, f.lines[0]));
        for l in &f.lines[1..] {
            out.push(format!("{}{}", c.indent, l));
        }
    };
    for f in &c.before {
        put(f, &mut out);
    }
    if let Some((first, deps)) = &c.depends {
        let mut s = format!("Depends:{}", g(*first));
        for (i, (d, pre, post)) in deps.iter().enumerate() {
            s += &g(*pre);
            match d {
                Dep::R { version, gaps } => {
                    versions.push(version.clone());
                    s += &format!("R{}({}>={}{}{})", g(gaps[0]), g(gaps[1]), g(gaps[2]), version, g(gaps[3]));
                }
                Dep::Bare => s += "R",
                Dep::Nothing => (),
                Dep::Other(o, v) => s += &format!("R ({o} {v})"),
                Dep::Package(n, r) => {
                    s += n;
                    if let Some(r) = r {
                        s += &format!(" {r}");
                    }
                }
            }
            s += &g(*post);
            if i + 1 < deps.len() || c.trailing_comma {
                s += ",";
            }
        }
        out.extend(s.split('\n').map(String::from));
    }
    for f in &c.after {
        put(f, &mut out);
    }
    let eol = if c.crlf { "\r\n" } else { "\n" };
    let mut s = String::new();
    if c.leading_blank {
        s += eol;
    }
    s += &out.join(eol);
    if c.final_newline {
        s += eol;
    }
    (s, versions)
}

fn structured(c: &Case) -> Outcome {
    let (text, want) = render(c);
    let got = Description::get_depend_r_version(&text);
    ensure!(got.is_ok(), "refused", "refused {text:?}: {got:?}");
    let got = got.unwrap();
    let sig = if got.len() < want.len() {
        "version-missed"
    } else if got.len() > want.len() {
        "version-invented"
    } else {
        "version"
    };
    ensure_eq!(got, want, sig, "R versions of {text:?}");
    let deps = c.depends.iter().flat_map(|d| &d.1);
    let bare = deps.clone().any(|d| matches!(d.0, Dep::Bare));
    let other = deps.clone().any(|d| matches!(d.0, Dep::Other(..)));
    Ok(Info::when(!want.is_empty() && c.before.len() + c.after.len() > 0)
        .label_if(bare, "R without a version")
        .label_if(other, "R with another operator")
        .label_if(want.len() > 1, "several R requirements")
        .label_if(c.depends.is_none(), "no Depends")
        .label_if(c.crlf, "CRLF"))
}

pub fn c05() -> ExitCode {
    let mut ck = Check::new("C05");
    ck.assume("a DESCRIPTION has one Depends field, and continuation lines start with a space or tab");
    ck.prop(
        "structured",
        "DESCRIPTION files of up to 8 fields around a Depends field (R with and without version and other operators, packages whose names start with R), spacing and line breaks anywhere DCF allows them, LF or CRLF; non-trivial: at least one R (>= x) and another field",
        100_000,
        3_000_000,
        case,
        structured,
    );
    ck.prop(
        "never_crashes",
        "malformed text made of DESCRIPTION fragments; non-trivial: it has a Depends field mentioning R",
        100_000,
        3_000_000,
        || {
            let a = prop_oneof![
                prop::sample::select(vec![
                    "Depends:", "Depends", "R", "R ", "(", ")", ">=", ")(", "R (", "R )", "R )(", "(>= 4.3.0)", ",", ":", "\n", "\r\n", "\n  ", "4.1", "é", "\u{a0}", "Package: x",
                    "\n\n", " ", "\t",
                ])
                .prop_map(String::from),
                any::<String>(),
            ];
            prop::collection::vec(a, 0..14).prop_map(|v| v.concat())
        },
        |t: &String| {
            let r = Description::get_depend_r_version(t);
            if let Ok(v) = &r {
                for x in v {
                    ensure!(t.contains(x.as_str()) && !x.trim().is_empty(), "version-invented", "{x:?} is not in {t:?}");
                }
                if !t.contains("Depends") {
                    ensure!(v.is_empty(), "version-invented", "no Depends field in {t:?}, but {v:?}");
                }
            }
            Ok(Info::when(t.contains("Depends:") && t.contains("R ")))
        },
    );
    ck.finish()
}
