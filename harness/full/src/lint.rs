//! Linting a text in this process, through the API the command line and the server use.

use jarl_core::check::get_checks;
use jarl_core::config::{ArgsConfig, Config, build_config};
use jarl_core::diagnostic::Diagnostic;
use jarl_core::error::ParseError;
use jarl_core::package::PackageAnalysis;
use jarl_core::settings::Settings;
use jarl_core::rule_set::Rule;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicBool, Ordering};
use vpkit::Fail;

pub fn args() -> ArgsConfig {
    ArgsConfig {
        files: vec![],
        fix: false,
        unsafe_fixes: false,
        fix_only: false,
        select: String::new(),
        extend_select: String::new(),
        ignore: String::new(),
        min_r_version: Some("4.5.0".into()),
        allow_dirty: true,
        allow_no_vcs: true,
        assignment: None,
    }
}

/// Rules `select` (empty: the default ones), R version known and recent.
pub fn config(select: &str) -> Config {
    build_config(&ArgsConfig { select: select.into(), ..args() }, None, vec![]).expect("config")
}

#[allow(dead_code)]
pub fn config_with(a: ArgsConfig, s: &Settings) -> anyhow::Result<Config> {
    build_config(&a, Some(s), vec![])
}

/// A diagnostic, as far as users see it.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct D {
    pub start: usize,
    pub end: usize,
    pub rule: String,
    pub body: String,
    pub help: Option<String>,
    pub fix: Option<(usize, usize, String)>,
    pub loc: Option<(usize, usize)>,
}

pub fn plain(d: &Diagnostic) -> D {
    D {
        start: usize::from(d.range.start()),
        end: usize::from(d.range.end()),
        rule: d.message.name.clone(),
        body: d.message.body.clone(),
        help: d.message.suggestion.clone(),
        fix: (!d.fix.to_skip).then(|| (d.fix.start, d.fix.end, d.fix.content.clone())),
        loc: d.location.as_ref().map(|l| (l.row(), l.column())),
    }
}

/// None: a syntax error.
pub fn lint_as(text: &str, file: &str, c: &Config) -> Result<Option<Vec<D>>, Fail> {
    match get_checks(text, Path::new(file), c, &PackageAnalysis::default()) {
        Ok(ds) => Ok(Some(ds.iter().map(plain).collect())),
        Err(e) => match e.downcast_ref::<ParseError>() {
            Some(p) if p.filename == PathBuf::from(file) => Ok(None),
            Some(p) => Err(Fail::new("parse-error-file", format!("the syntax error of {file} names {:?}", p.filename))),
            None => failed(text, file, &e).map(|()| None),
        },
    }
}

/// Set by the check that is about it (C20); others have nothing to say about such texts.
pub static STRICT: AtomicBool = AtomicBool::new(false);

/// Linting or fixing `text` failed, with no syntax error in it: which rule failed?
pub fn failed(text: &str, file: &str, e: &anyhow::Error) -> Result<(), Fail> {
    if !STRICT.load(Ordering::Relaxed) {
        return Ok(());
    }
    static EACH: OnceLock<Vec<(&str, Config)>> = OnceLock::new();
    let each = EACH.get_or_init(|| Rule::all().iter().map(|r| (r.name(), config(r.name()))).collect());
    let why = format!("{e:#}");
    let rule = each.iter().find(|(_, c)| get_checks(text, Path::new(file), c, &PackageAnalysis::default()).is_err_and(|x| format!("{x:#}") == why));
    let what = why.rsplit(": ").next().unwrap().replace(' ', "-").to_lowercase();
    Err(Fail::new(format!("failed-{}-{what}", rule.map_or("?", |r| r.0)), format!("linting failed: {why}")))
}

pub fn lint(text: &str, c: &Config) -> Result<Option<Vec<D>>, Fail> {
    lint_as(text, "a.R", c)
}

pub fn sorted(mut v: Vec<D>) -> Vec<D> {
    v.sort();
    v
}

/// Row from 1 and column from 0 of a byte offset, lines ending in `\n`.
pub fn row_col(text: &str, at: usize) -> (usize, usize) {
    let before = &text.as_bytes()[..at];
    let row = before.iter().filter(|b| **b == b'\n').count();
    let from = before.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
    (row + 1, String::from_utf8_lossy(&before[from..]).chars().count())
}
