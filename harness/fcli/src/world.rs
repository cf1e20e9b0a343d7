//! Projects: files with R code in them, and what linting them in this process says.

use jarl_core::check::get_checks;
use jarl_core::config::{ArgsConfig, Config, build_config};
use jarl_core::diagnostic::Diagnostic;
use jarl_core::package::PackageAnalysis;
use std::collections::BTreeMap;
use std::path::Path;
use vpgen::Opts;
use vpkit::Fail;
use vpkit::proptest::collection::vec;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;

pub const NAMES: &[&str] = &[
    "a.R", "b.r", "z.R", "sub/c.R", "sub/deep/e.R", "sub dir/d.R", "é日.R", "x,y.R", "p%41.R", "q:r.R", "n'q.R", "odd[1].R", "doc.Rmd", "sub/doc.qmd", "w.rmd", "A.R", "-x.R",
];

pub fn is_doc(name: &str) -> bool {
    name.to_lowercase().ends_with("md")
}

/// R code, mostly with something to report in it.
pub fn code(directives: bool) -> BoxedStrategy<String> {
    prop_oneof![
        8 => vpgen::program(Opts { comments: true, directives, max: 4, depth: 2 }),
        1 => Just(String::new()),
        1 => Just("x <- 1\n".to_string()),
        2 => select(vec!["any(is.na(x))\n", "x == NA; any(is.na(y))\n", "f <- function() {\n  any(is.na(x))\n}\n", "list(b = 1, a = 1, c = 1, a = 2, c = 2, b = 2)\n", "list(`a\nb` = 1, `a\nb` = 2)\n", "list('100%' = 1, '100%' = 2)\n", "'é'; x == NA\n", "class(x) == 'a'\nany(is.na(x))\n"]).prop_map(String::from),
    ]
    .boxed()
}

pub fn broken() -> BoxedStrategy<String> {
    prop_oneof![
        select(vec!["x <- (\n", "f(}\n", "any(is.na(x)) )\n", "1 +\n", "\"abc\n", "if (x) {\n", "x y\n"]).prop_map(String::from),
        (code(false), select(vec!["\n)", "\n}", "\nf(", "\n1 2"])).prop_map(|(a, b)| a + b),
    ]
    .boxed()
}

/// A document with these pieces of code as its chunks.
pub fn doc(chunks: &[String]) -> String {
    let mut s = "---\ntitle: é\n---\n\nText.\n".to_string();
    for c in chunks {
        s += &format!("\n```{{r}}\n{}\n```\n\nMore.\n", c.trim_end());
    }
    s
}

pub fn file(directives: bool, breaks: u32) -> BoxedStrategy<(String, String)> {
    (select(NAMES), prop_oneof![(30 - breaks) => code(directives), breaks => broken()], vec(code(directives), 0..3))
        .prop_map(|(n, t, more)| {
            let text = if is_doc(n) { doc(&[&[t][..], &more].concat()) } else { t };
            (n.to_string(), text)
        })
        .boxed()
}

pub fn files(directives: bool, breaks: u32, max: usize) -> BoxedStrategy<BTreeMap<String, String>> {
    vec(file(directives, breaks), 0..=max).prop_map(|v| v.into_iter().collect()).boxed()
}

pub fn args() -> ArgsConfig {
    ArgsConfig {
        files: vec![],
        fix: false,
        unsafe_fixes: false,
        fix_only: false,
        select: String::new(),
        extend_select: String::new(),
        ignore: String::new(),
        min_r_version: None,
        allow_dirty: true,
        allow_no_vcs: true,
        assignment: None,
    }
}

pub fn config(a: &ArgsConfig) -> Config {
    build_config(a, None, vec![]).expect("config")
}

/// What linting this text says, in the order it is reported in; None: it does not parse.
pub fn lint(name: &str, text: &str, c: &Config) -> Result<Option<Vec<Diagnostic>>, Fail> {
    let r = vpkit::guard(|| get_checks(text, Path::new(name), c, &PackageAnalysis::default())).map_err(|m| Fail::new("panic", m))?;
    Ok(r.ok().map(|mut d| {
        d.sort();
        d
    }))
}
