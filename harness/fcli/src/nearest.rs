//! C30: each file is governed by its nearest configuration.

use crate::run::Tree;
use jarl_core::rule_set::Rule;
use std::collections::{BTreeMap, BTreeSet};
use std::process::ExitCode;
use vpkit::proptest::collection::vec;
use vpkit::proptest::option;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::{select, subsequence};
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq};

const DIRS: &[&str] = &["", "a", "a/b", "a/b/c", "d", "d/e", "a/é x", ".hid"];
const CODE: &[(&str, &str)] = &[
    ("any_is_na", "any(is.na(x))"),
    ("equals_na", "w <- x == NA"),
    ("any_duplicated", "any(duplicated(x))"),
    ("class_equals", "if (class(x) == \"a\") 1"),
    ("assignment", "y = 1"),
    ("expect_null", "expect_equal(x, NULL)"),
];
const RULES: &[&str] = &["any_is_na", "equals_na", "any_duplicated", "class_equals", "assignment", "expect_null"];
const INVALID: &[&[u8]] = &[
    b"[lint]\nselect = ['nope']\n",
    b"[lint]\nextend-select = ['nope']\n",
    b"[lint]\nignore = ['any_is_na', 'nope']\n",
    b"[lint]\nfixable = ['nope']\n",
    b"[lint]\nunfixable = ['']\n",
    b"[lint]\nunknown-field = 1\n",
    b"[lint]\nselect = 'any_is_na'\n",
    b"[lint\n",
    b"[linter]\nselect = []\n",
    b"select = ['any_is_na']\n",
    b"[lint.assignment]\noperator = '->'\n",
    b"[lint]\nassignment = 'x'\n",
    b"[lint.assignment]\nunknown = 1\n",
    b"[lint.duplicated_arguments]\nskipped-functions = ['a']\nextend-skipped-functions = ['b']\n",
    b"[lint.undesirable_function]\nother = ['a']\n",
    b"[lint]\ndefault-exclude = 'yes'\n",
    b"\xff\xfe",
];

#[derive(Clone, Debug, Default, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde", default)]
struct Settings {
    select: Option<Vec<String>>,
    extend: Option<Vec<String>>,
    ignore: Option<Vec<String>>,
    /// `=` or `<-`, and whether it is written in the old way
    assignment: Option<(String, bool)>,
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Config {
    Valid(Settings),
    Invalid(usize),
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    files: Vec<String>,
    /// by directory: jarl.toml, .jarl.toml
    configs: BTreeMap<String, (Option<Config>, Option<Config>)>,
    user: Option<Config>,
    /// the user's configuration is in $XDG_CONFIG_HOME, is hidden
    user_at: (bool, bool),
    /// Folders named like a configuration, which aren't one: where, and is it hidden?
    #[serde(default)]
    folders: Vec<(String, bool)>,
    /// what is checked, and how it is written
    paths: Vec<(String, u8)>,
    from: String,
    cli: Settings,
}

fn join(d: &str, n: &str) -> String {
    if d.is_empty() { n.to_string() } else { format!("{d}/{n}") }
}

fn dir_of(f: &str) -> &str {
    f.rfind('/').map_or("", |i| &f[..i])
}

fn toml(c: &Config) -> Vec<u8> {
    let s = match c {
        Config::Invalid(i) => return INVALID[i % INVALID.len()].to_vec(),
        Config::Valid(s) => s,
    };
    let mut t = "[lint]\n".to_string();
    for (k, v) in [("select", &s.select), ("extend-select", &s.extend), ("ignore", &s.ignore)] {
        if let Some(v) = v {
            t += &format!("{k} = {v:?}\n");
        }
    }
    match &s.assignment {
        Some((op, true)) => t += &format!("assignment = {op:?}\n"),
        Some((op, false)) => t += &format!("\n[lint.assignment]\noperator = {op:?}\n"),
        None => {}
    }
    t.into_bytes()
}

/// The configuration file of the nearest directory: where it is, and what it is.
fn nearest<'a>(c: &'a Case, file: &str) -> Option<(String, &'a Config)> {
    let mut d = dir_of(file);
    loop {
        if let Some((a, b)) = c.configs.get(d)
            && let Some(x) = a.as_ref().or(b.as_ref())
        {
            return Some((d.to_string(), x));
        }
        if d.is_empty() {
            return c.user.as_ref().map(|x| ("the user's".to_string(), x));
        }
        d = dir_of(d);
    }
}

/// Rule and line of what is reported in a file.
fn expected(c: &Case, file: &str) -> BTreeSet<(String, u64)> {
    let none = Settings::default();
    let t = match nearest(c, file) {
        Some((_, Config::Valid(s))) => s,
        _ => &none,
    };
    let mut on: BTreeSet<&str> = match c.cli.select.as_ref().or(t.select.as_ref()) {
        Some(v) => v.iter().map(String::as_str).collect(),
        None => RULES.iter().copied().filter(|r| Rule::from_name(r).unwrap().is_enabled_by_default()).collect(),
    };
    on.extend(c.cli.extend.as_ref().or(t.extend.as_ref()).into_iter().flatten().map(String::as_str));
    for r in [&c.cli.ignore, &t.ignore].into_iter().flatten().flatten() {
        on.remove(r.as_str());
    }
    let op = c.cli.assignment.as_ref().or(t.assignment.as_ref()).map_or("<-", |a| &a.0);
    let first = if file.ends_with("Rmd") { 2 } else { 1 };
    let mut out = BTreeSet::new();
    for (i, (rule, code)) in CODE.iter().enumerate() {
        let line = first + i as u64;
        if *rule != "assignment" && on.contains(rule) {
            out.insert((rule.to_string(), line));
        }
        if on.contains("assignment") {
            if op == "<-" && code.contains(" = ") || op == "=" && code.contains("<-") {
                out.insert(("assignment".to_string(), line));
            }
        }
    }
    out
}

fn check(c: &Case) -> Outcome {
    let t = Tree::new("c30");
    let text: String = CODE.iter().map(|(_, l)| format!("{l}\n")).collect();
    for d in DIRS {
        t.mkdir(d);
    }
    for f in &c.files {
        t.put(f, if f.ends_with("Rmd") { format!("```{{r}}\n{text}```\n") } else { text.clone() });
    }
    for (d, (a, b)) in &c.configs {
        for (n, x) in [("jarl.toml", a), (".jarl.toml", b)] {
            if let Some(x) = x {
                t.put(&join(d, n), toml(x));
            }
        }
    }
    for (d, hidden) in &c.folders {
        let file = c.configs.get(d).and_then(|(a, b)| if *hidden { b.as_ref() } else { a.as_ref() });
        if file.is_none() {
            t.mkdir(&join(d, if *hidden { ".jarl.toml" } else { "jarl.toml" }));
        }
    }
    let xdg = t.home().join("xdg");
    if let Some(u) = &c.user {
        let base = if c.user_at.0 { xdg.clone() } else { t.home().join(".config") };
        t.put_at(&base.join("jarl").join(if c.user_at.1 { ".jarl.toml" } else { "jarl.toml" }), toml(u));
    }
    let top = t.root();
    let mut args = vec!["check".to_string()];
    let mut checked = BTreeSet::new();
    for (p, style) in &c.paths {
        let up: String = if c.from.is_empty() { String::new() } else { c.from.split('/').map(|_| "../").collect() };
        args.push(match style % 3 {
            0 => format!("./{up}{p}"),
            1 => join(&top.to_string_lossy(), p),
            _ if p == &c.from => ".".to_string(),
            _ => format!("{up}./{p}"),
        });
        for f in &c.files {
            let below = if p.is_empty() { Some(f.as_str()) } else { f.strip_prefix(&format!("{p}/")) };
            if f == p || below.is_some_and(|b| !b.split('/').any(|s| s.starts_with('.'))) {
                checked.insert(f.clone());
            }
        }
    }
    for (k, v) in [("select", &c.cli.select), ("extend-select", &c.cli.extend), ("ignore", &c.cli.ignore)] {
        if let Some(v) = v {
            args.push(format!("--{k}={}", v.join(",")));
        }
    }
    if let Some((op, _)) = &c.cli.assignment {
        args.push(format!("--assignment={op}"));
    }
    args.push("--output-format=json".into());
    let env: Vec<(&str, String)> = if c.user_at.0 { vec![("XDG_CONFIG_HOME", xdg.to_string_lossy().into_owned())] } else { vec![] };
    let env: Vec<(&str, &str)> = env.iter().map(|(k, v)| (*k, v.as_str())).collect();
    let o = t.jarl_env(&c.from, &args, &env)?;
    let what = format!("`jarl {}` in {:?}", args.join(" ").replace(&*top.to_string_lossy(), "TOP"), c.from);
    ensure!(o.signal.is_none() && matches!(o.code, Some(0 | 1 | 255)), "crash", "{what}: {}", o.show());
    // Configurations that are not valid.
    let bad: BTreeSet<&String> = checked.iter().filter(|f| matches!(nearest(c, f), Some((_, Config::Invalid(_))))).collect();
    let any_bad = c.configs.values().flat_map(|(a, b)| [a, b]).chain([&c.user]).flatten().any(|x| matches!(x, Config::Invalid(_)));
    if any_bad && bad.is_empty() {
        return Ok(Info::trivial());
    }
    let mut got: BTreeMap<String, BTreeSet<(String, u64)>> = BTreeMap::new();
    match vpkit::serde_json::from_str::<vpkit::serde_json::Value>(&o.stdout) {
        Ok(j) => {
            for d in j["diagnostics"].as_array().into_iter().flatten() {
                let p = top.join(&c.from).join(d["filename"].as_str().unwrap_or_default());
                let p = std::fs::canonicalize(&p).map_err(|e| Fail::new("no-such-file", format!("{what}: {}: {e}", p.display())))?;
                let p = p.strip_prefix(std::fs::canonicalize(&top).unwrap()).unwrap().to_string_lossy().into_owned();
                let rule = d["message"]["name"].as_str().unwrap_or_default().to_string();
                let line = d["location"]["row"].as_u64().unwrap_or(0);
                if RULES.contains(&rule.as_str()) {
                    let new = got.entry(p.clone()).or_default().insert((rule.clone(), line));
                    ensure!(new, "reported-twice", "{what}: {rule} in {p} line {line}");
                }
            }
        }
        Err(_) => ensure!(!bad.is_empty() || (checked.is_empty() && o.code == Some(0)), "no-json", "{what}: {}", o.show()),
    }
    if !bad.is_empty() {
        ensure_eq!(o.code, Some(255), "invalid-configuration-accepted", "{what}: {bad:?} governed by an invalid configuration\n{}", o.show());
        ensure!(!o.stderr.trim().is_empty() || !o.stdout.trim().is_empty(), "silent", "{what}");
        for f in &bad {
            ensure!(got.get(*f).is_none_or(BTreeSet::is_empty), "linted-with-an-invalid-configuration", "{what}: {f}: {:?}", got[*f]);
        }
        return Ok(Info::nontrivial().label("invalid configuration"));
    }
    for f in &c.files {
        let e = if checked.contains(f) { expected(c, f) } else { BTreeSet::new() };
        let by = nearest(c, f).map_or("no configuration".to_string(), |(d, _)| format!("the configuration of {d:?}"));
        ensure_eq!(got.remove(f).unwrap_or_default(), e, if by.contains("user's") { "not-the-users-configuration" } else { "not-its-configuration" }, "{what}: rules and lines in {f}, governed by {by}\n{}", o.stderr);
    }
    ensure!(got.is_empty(), "not-a-file", "{what}: {got:?}");
    let by: BTreeSet<String> = checked.iter().map(|f| nearest(c, f).map_or_else(|| "defaults".into(), |n| n.0)).collect();
    Ok(Info::when(by.len() > 1)
        .label_if(by.len() > 2, "three configurations or more")
        .label_if(by.contains("the user's"), "the user's configuration")
        .label_if(by.contains("the user's") && by.len() > 1, "the user's and others")
        .label_if(c.cli.select.is_some() || c.cli.extend.is_some() || c.cli.ignore.is_some() || c.cli.assignment.is_some(), "options")
        .label_if(c.configs.values().any(|(a, b)| a.is_some() && b.is_some()), "two files in one directory")
        .label_if(c.paths.len() > 1, "several paths"))
}

fn rules() -> BoxedStrategy<Vec<String>> {
    subsequence(RULES.to_vec(), 0..RULES.len()).prop_map(|v| v.into_iter().map(String::from).collect()).boxed()
}

fn settings(w: f64) -> BoxedStrategy<Settings> {
    let nonempty = || rules().prop_map(|v| if v.is_empty() { vec!["equals_na".to_string()] } else { v });
    (option::weighted(w, nonempty()), option::weighted(w / 2.0, nonempty()), option::weighted(w / 2.0, nonempty()), option::weighted(w / 2.0, (select(vec!["=", "<-"]).prop_map(String::from), any::<bool>())))
        .prop_map(|(select, extend, ignore, assignment)| Settings { select, extend, ignore, assignment })
        .boxed()
}

fn config() -> BoxedStrategy<Config> {
    prop_oneof![40 => settings(0.7).prop_map(Config::Valid), 1 => (0..INVALID.len()).prop_map(Config::Invalid)].boxed()
}

fn cases() -> impl Strategy<Value = Case> {
    let file = (select(DIRS), select(vec!["x.R", "y.Rmd", "z.r"])).prop_map(|(d, n)| join(d, n));
    let configs = vec((select(DIRS), prop_oneof![6 => (config().prop_map(Some), Just(None)), 2 => (Just(None), config().prop_map(Some)), 1 => (config().prop_map(Some), config().prop_map(Some))]), 0..4);
    (
        vec(file, 1..7),
        configs,
        option::weighted(0.4, config()),
        any::<(bool, bool)>(),
        (any::<bool>(), vec((any::<usize>(), any::<bool>(), any::<u8>()), 1..5)),
        prop_oneof![2 => Just(""), 3 => select(DIRS)],
        prop_oneof![2 => Just(Settings::default()), 1 => settings(0.3)],
        prop_oneof![4 => Just(vec![]), 1 => vec((select(DIRS).prop_map(String::from), any::<bool>()), 1..3)],
    )
        .prop_map(|(files, configs, user, user_at, (all, paths), from, cli, folders)| {
            let files: Vec<String> = files.into_iter().collect::<BTreeSet<_>>().into_iter().collect();
            let mut paths: Vec<(String, u8)> = paths
                .into_iter()
                .map(|(i, file, style)| (if file { files[i % files.len()].clone() } else { DIRS[i % DIRS.len()].to_string() }, style))
                .collect();
            if all {
                paths = vec![(String::new(), paths[0].1)];
            }
            Case { files, configs: configs.into_iter().map(|(d, c)| (d.to_string(), c)).collect(), user, user_at, folders, paths, from: from.to_string(), cli }
        })
}

pub fn c30() -> ExitCode {
    let mut ck = Check::new("C30");
    ck.assume("an invalid configuration that governs none of the checked files is not judged; nor which of two invalid ones is named");
    ck.prop("nearest", "files governed by several configurations, or by an invalid one", 3000, 60000, cases, check);
    ck.finish()
}
