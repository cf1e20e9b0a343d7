//! C37: rules that need a version of R apply where the project needs that version.

use crate::run::Tree;
use crate::world;
use std::collections::{BTreeMap, BTreeSet};
use std::process::ExitCode;
use vpkit::proptest::collection::{btree_map, btree_set, vec};
use vpkit::proptest::option;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;
use vpkit::serde_json::Value as Json;
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq};

type Version = (u32, u32, u32);

/// The rule, the version of R that has what it proposes, code, and fixed code.
const CODE: &[(&str, Version, &str, &str)] = &[
    ("any_is_na", (0, 0, 0), "any(is.na(x))", "anyNA(x)"),
    ("list2df", (4, 0, 0), "do.call(cbind.data.frame, x)", "list2DF(x)"),
    ("coalesce", (4, 4, 0), "y <- if (is.null(x)) z else x", "y <- x %||% z"),
    ("grepv", (4, 5, 0), "grep('a', x, value = TRUE)", "grepv('a', x)"),
];

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Description {
    Folder,
    File { crlf: bool, latin1: bool, before: usize, requirements: Vec<Requirement>, place: usize },
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Requirement {
    R(u32, u32, Option<u32>),
    /// not what a version is
    Odd(usize),
    Unversioned,
    Other(usize),
}

const ODD: &[&str] = &["4", "4.", "x.y", "4.5.0.1", "99999999999.0", "+4.5", "4.-5", "", "4,5", "v4.5", "4.5.0-rc"];

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    files: BTreeSet<String>,
    descriptions: BTreeMap<String, Description>,
    /// in the configuration of these folders, all rules apply
    configs: BTreeSet<String>,
    option: Option<String>,
    /// what is checked: a folder or a file
    paths: Vec<String>,
    cwd: String,
    fix: bool,
}

fn dir_of(f: &str) -> &str {
    f.rfind('/').map_or("", |i| &f[..i])
}

fn join(d: &str, n: &str) -> String {
    if d.is_empty() { n.to_string() } else { format!("{d}/{n}") }
}

fn describe(d: &Description) -> Option<(Vec<u8>, Known)> {
    let Description::File { crlf, latin1, before, requirements, place } = d else { return None };
    let mut r = vec![];
    let mut known = Known::No;
    for q in requirements {
        r.push(match q {
            Requirement::R(a, b, c) => {
                let v = (*a, *b, c.unwrap_or(0));
                known = match known {
                    Known::No => Known::Yes(v),
                    Known::Yes(w) => Known::Yes(w.max(v)),
                    Known::Unclear => Known::Unclear,
                };
                format!("R (>= {a}.{b}{})", c.map_or(String::new(), |c| format!(".{c}")))
            }
            Requirement::Odd(i) => {
                if *i < ODD.len() {
                    // What it means is not clear: nothing may be what is known.
                    known = Known::Unclear;
                }
                format!("R (>= {})", ODD[i % ODD.len()])
            }
            Requirement::Unversioned => "R".to_string(),
            Requirement::Other(i) => ["utils (>= 4.5.0)", "Rcpp (>= 9.9.9)", "methods"][i % 3].to_string(),
        });
    }
    let field = match place {
        0 | 1 | 2 => "Depends",
        3 => "Imports",
        _ => "Suggests",
    };
    if *place > 2 {
        known = Known::No;
    }
    let mut t = ["", "Package: a\nVersion: 9.9.9\n", "Package: a\nDescription: Some text\n    with R (>= 9.9.9) in it.\n", "Imports: R6 (>= 4.5.0)\n"][before % 4].to_string();
    if *latin1 {
        t += "Author: \u{0}\n";
    }
    if !r.is_empty() {
        t += &format!("{field}:{}{}\n", if *place == 1 { "\n    " } else { " " }, r.join(if *place == 2 { ",\n    " } else { ", " }));
    }
    t += "License: GPL\n";
    if *crlf {
        t = t.replace('\n', "\r\n");
    }
    Some((t.bytes().map(|b| if b == 0 { 0xE9 } else { b }).collect(), known))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Known {
    No,
    Yes(Version),
    Unclear,
}

/// None: refused
fn parse(s: &str) -> Option<Version> {
    let parts: Vec<&str> = s.split('.').collect();
    let n = |i: usize| -> Option<u32> {
        let p = parts[i];
        if p.is_empty() || !p.bytes().all(|b| b.is_ascii_digit()) { None } else { p.parse().ok() }
    };
    match parts.len() {
        2 => Some((n(0)?, n(1)?, 0)),
        3 => Some((n(0)?, n(1)?, n(2)?)),
        _ => None,
    }
}

fn code(f: &str) -> String {
    let lines: String = CODE.iter().map(|c| format!("{}\n", c.2)).collect();
    if world::is_doc(f) { world::doc(&[lines]) } else { lines }
}

fn look(c: &Case) -> Outcome {
    let t = Tree::new("c37");
    for f in &c.files {
        t.put(f, code(f));
    }
    let mut known: BTreeMap<&str, Known> = BTreeMap::new();
    for (d, x) in &c.descriptions {
        match describe(x) {
            Some((b, k)) => {
                t.put(&join(d, "DESCRIPTION"), b);
                known.insert(d, k);
            }
            None => t.mkdir(&join(d, "DESCRIPTION")),
        }
    }
    t.put("jarl.toml", "[lint]\nselect = ['any_is_na', 'list2df', 'coalesce', 'grepv']\n");
    for d in &c.configs {
        t.put(&join(d, "jarl.toml"), "[lint]\nselect = ['any_is_na', 'list2df', 'coalesce', 'grepv']\n");
    }
    t.mkdir(&c.cwd);
    let before = t.files();
    let root = t.root();
    let mut args: Vec<String> = vec!["check".into(), "--output-format=json".into(), "--allow-no-vcs".into()];
    args.extend(c.paths.iter().map(|p| root.join(p).to_string_lossy().into_owned()));
    if let Some(o) = &c.option {
        args.push(format!("--min-r-version={o}"));
    }
    if c.fix {
        args.push("--fix".into());
    }
    let o = t.jarl(&c.cwd, &args)?;
    let wanted: BTreeSet<&String> = c.files.iter().filter(|f| c.paths.iter().any(|p| p.is_empty() || p == *f || f.starts_with(&format!("{p}/")))).collect();
    let forced = match c.option.as_deref().map(parse) {
        Some(None) => {
            if !wanted.is_empty() {
                ensure!(o.code.is_some_and(|c| c != 0 && c != 1) || (o.code == Some(1) && o.stdout.is_empty()), "accepted", "{:?}: {}", c.option, o.show());
                ensure!(t.files() == before, "changed-although-refused", "{}", o.show());
            }
            return Ok(Info::when(!wanted.is_empty()).label("refused"));
        }
        Some(Some(v)) => Some(v),
        None => None,
    };
    let v: Json = vpkit::serde_json::from_str(&o.stdout).map_err(|e| Fail::new("json", format!("{e}: {}", o.show())))?;
    ensure!(v["errors"].as_array().is_none_or(|e| e.is_empty()), "errors", "{}", o.show());
    let mut got: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for d in v["diagnostics"].as_array().into_iter().flatten() {
        let f = root.join(&c.cwd).join(d["filename"].as_str().unwrap_or("?"));
        let f = f.strip_prefix(&root).unwrap_or(&f).to_string_lossy().into_owned();
        got.entry(f).or_default().insert(d["message"]["name"].as_str().unwrap_or("?").to_string());
    }
    let after = t.files();
    let (mut below, mut above, mut seen) = (0, 0, BTreeSet::new());
    for f in &c.files {
        let mut d = dir_of(f);
        let near = loop {
            if let Some(k) = known.get(d) {
                break *k;
            }
            if d.is_empty() {
                break Known::No;
            }
            d = dir_of(d);
        };
        let near = forced.map_or(near, Known::Yes);
        let none = BTreeSet::new();
        let said = got.get(f).unwrap_or(&none);
        if !wanted.contains(f) {
            ensure!(said.is_empty() && after[f] == before[f], "not-asked", "{f}");
            continue;
        }
        seen.insert(format!("{near:?}"));
        let fixed = c.fix && !world::is_doc(f);
        for (rule, needs, from, to) in CODE {
            let on = match near {
                _ if *needs == (0, 0, 0) => true,
                Known::No => false,
                Known::Unclear => continue,
                Known::Yes(v) => v >= *needs,
            };
            if on { above += 1 } else { below += 1 }
            if fixed {
                let now = String::from_utf8_lossy(&after[f]).into_owned();
                let (a, b) = (now.lines().any(|l| l == *from), now.lines().any(|l| l == *to));
                // A fix which is not safe is not applied.
                let safe = jarl_core::rule_set::Rule::from_name(rule).is_some_and(|r| r.has_safe_fix());
                ensure!(a != b, "text", "{rule} of {f}:\n{now}");
                ensure!(b == (on && safe), format!("fixed-{rule}"), "with {near:?}, {rule} of {f}:\n{now}");
                ensure!(!on || !said.contains(*rule), format!("reported-{rule}"), "{rule} of {f} is fixed and reported");
            }
            if !fixed || !on {
                ensure_eq!(said.contains(*rule), on, format!("reported-{rule}"), "whether {rule} is reported in {f}, where the version is {near:?}");
            }
        }
    }
    Ok(Info::when(below > 0 && above > 0).label_if(c.option.is_some(), "option").label_if(seen.len() > 1, "several versions").label_if(c.fix, "fix"))
}

fn cases() -> impl Strategy<Value = Case> {
    const FILES: &[&str] = &["a.R", "R/b.R", "R/c.r", "tests/testthat/t.R", "vignettes/v.Rmd", "p/a.R", "p/R/d.R", "p/R/unix/e.R", "p/inst/x/f.R", "q/R/g.R", "q/z.qmd"];
    const DIRS: &[&str] = &["", "p", "q", "R", "p/inst", "p/inst/x", "tests"];
    let number = || prop_oneof![4 => 3..6u32, 1 => Just(0), 1 => 0..200u32];
    let requirement = prop_oneof![
        6 => (3..6u32, number(), option::of(number())).prop_map(|(a, b, c)| Requirement::R(a, b, c)),
        3 => select(vec![(4, 0, None), (4, 0, Some(0)), (3, 9, Some(9)), (4, 4, None), (4, 3, Some(99)), (4, 4, Some(0)), (4, 5, None), (4, 5, Some(0)), (4, 4, Some(100)), (5, 0, None), (4, 10, None), (10, 0, None)]).prop_map(|(a, b, c)| Requirement::R(a, b, c)),
        1 => (0..ODD.len()).prop_map(Requirement::Odd),
        1 => Just(Requirement::Unversioned),
        2 => (0..3usize).prop_map(Requirement::Other),
    ];
    let description = prop_oneof![
        1 => Just(Description::Folder),
        20 => (prop::bool::weighted(0.1), prop::bool::weighted(0.1), 0..4usize, vec(requirement, 0..3), prop_oneof![8 => 0..3usize, 1 => 3..5usize]).prop_map(|(crlf, latin1, before, requirements, place)| Description::File { crlf, latin1, before, requirements, place }),
    ];
    let option = option::weighted(
        0.25,
        prop_oneof![
            4 => (3..6u32, number(), option::of(number())).prop_map(|(a, b, c)| format!("{a}.{b}{}", c.map_or(String::new(), |c| format!(".{c}")))),
            2 => select(vec!["4.5", "4.4.0", "4.4", "4.0.0", "3.9.9", "04.05", "0.0"]).prop_map(String::from),
            2 => select(ODD).prop_map(String::from),
            1 => select(vec!["4.5.+0", "+4.5.0", "4 .5", " 4.5", "4.5 ", "٤.٥", "4..5", ".5", "4.5.", "4.5.0.0", "latest", "0x4.5", "4e0.5", "4.5\n", "-4.5"]).prop_map(String::from),
        ],
    );
    let paths = prop_oneof![
        4 => Just(vec![String::new()]),
        2 => vec(select(FILES).prop_map(String::from), 1..4),
        1 => vec(select(&["R", "p", "q", "p/inst", "tests", "p/R"][..]).prop_map(String::from), 1..3),
    ];
    (
        btree_set(select(FILES).prop_map(String::from), 1..7),
        btree_map(prop_oneof![3 => Just(""), 3 => select(DIRS)].prop_map(String::from), description, 0..4),
        btree_set(select(&["R", "p", "q", "p/R"][..]).prop_map(String::from), 0..2),
        option,
        paths,
        select(vec!["", "", "p", "R", "elsewhere"]),
        prop::bool::weighted(0.25),
    )
        .prop_map(|(files, descriptions, configs, option, paths, cwd, fix)| {
            // A file can only be named if it is there.
            let paths: Vec<String> = paths.into_iter().filter(|p| p.is_empty() || files.contains(p) || files.iter().any(|f| f.starts_with(&format!("{p}/")))).collect();
            let paths = if paths.is_empty() { vec![String::new()] } else { paths };
            Case { files, descriptions, configs, option, paths, cwd: cwd.to_string(), fix }
        })
}

pub fn c37() -> ExitCode {
    let mut ck = Check::new("C37");
    ck.assume("the parser, tree and pattern matching are the stand-ins of /verif/standins, which pass all of jarl's own tests; versions such as `4` or `4.5.0.1` in a DESCRIPTION are not judged");
    ck.prop("project", "folders of several, also nested, projects with DESCRIPTION files of any layout, with configurations, checked as a whole, in part or file by file from anywhere, with and without --min-r-version and --fix: what is reported and fixed in each file against the version of its project; non-trivial: some rules apply to a file and others do not, or a version was refused", 5_000, 150_000, cases, look);
    ck.finish()
}
