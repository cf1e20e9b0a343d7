//! C23: only the fixes that the user allowed are applied.

use crate::run::Tree;
use crate::world;
use jarl_core::rule_set::{Category, Rule};
use std::collections::{BTreeMap, HashSet};
use std::process::ExitCode;
use vpkit::proptest::collection::vec;
use vpkit::proptest::option;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;
use vpkit::{Check, Info, Outcome, ensure, ensure_eq};

/// Lines that only one rule has a fix for.
const LINES: &[(&str, &str)] = &[
    ("any_is_na", "any(is.na(x))"),
    ("any_duplicated", "any(duplicated(x))"),
    ("equals_na", "z <- x == NA"),
    ("equals_null", "z <- x == NULL"),
    ("true_false_symbol", "z <- T"),
    ("redundant_equals", "z <- y == TRUE"),
    ("all_equal", "if (!all.equal(x, y)) foo()"),
    ("lengths", "sapply(x, length)"),
    ("which_grepl", "which(grepl(\"a.\", x))"),
    ("grepv", "grep(\"i.\", x, value = TRUE)"),
    ("expect_null", "expect_equal(x, NULL)"),
    ("sort", "x[order(x)]"),
    ("outer_negation", "any(!x)"),
    ("numeric_leading_zero", "z <- .1"),
    ("matrix_apply", "apply(x, 1, sum)"),
    ("assignment", "z = 1"),
];

#[derive(Clone, Debug, Default, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde", default)]
struct Lists {
    select: Option<Vec<String>>,
    extend: Option<Vec<String>>,
    ignore: Option<Vec<String>>,
    fixable: Option<Vec<String>>,
    unfixable: Option<Vec<String>>,
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    files: BTreeMap<String, String>,
    /// the lines of `lines.R`
    lines: Vec<usize>,
    toml: Option<Lists>,
    cli: Lists,
    fix: bool,
    unsafe_fixes: bool,
    fix_only: bool,
    version: Option<String>,
    more: Vec<String>,
}

fn expand(v: &[String]) -> HashSet<Rule> {
    v.iter()
        .flat_map(|n| -> Vec<Rule> {
            if n == "ALL" {
                Rule::all().to_vec()
            } else if let Ok(c) = n.parse::<Category>() {
                Rule::all().iter().filter(|r| r.has_category(c)).copied().collect()
            } else {
                vec![Rule::from_name(n).expect("a rule")]
            }
        })
        .collect()
}

/// The rules whose fixes may be applied.
fn allowed(c: &Case) -> HashSet<Rule> {
    let t = c.toml.clone().unwrap_or_default();
    let mut s = match c.cli.select.as_ref().or(t.select.as_ref()) {
        Some(v) => expand(v),
        None => Rule::all().iter().filter(|r| r.is_enabled_by_default()).copied().collect(),
    };
    if let Some(v) = c.cli.extend.as_ref().or(t.extend.as_ref()) {
        s.extend(expand(v));
    }
    for v in [&c.cli.ignore, &t.ignore, &t.unfixable].into_iter().flatten() {
        let v = expand(v);
        s.retain(|r| !v.contains(r));
    }
    if let Some(v) = &t.fixable {
        let v = expand(v);
        s.retain(|r| v.contains(r));
    }
    let version = c.version.as_ref().map(|v| {
        let n: Vec<u32> = v.split('.').map(|x| x.parse().unwrap()).collect();
        (n[0], n[1], n.get(2).copied().unwrap_or(0))
    });
    s.retain(|r| r.minimum_r_version().is_none_or(|m| version.is_some_and(|v| v >= m)));
    s.retain(|r| r.has_safe_fix() || (r.has_unsafe_fix() && c.unsafe_fixes));
    s
}

fn put(t: &Tree, c: &Case) {
    for (n, x) in &c.files {
        t.put(n, x);
    }
    t.put("lines.R", c.lines.iter().map(|i| format!("{}\n", LINES[i % LINES.len()].1)).collect::<String>());
}

fn check(c: &Case) -> Outcome {
    let t = Tree::new("c23");
    put(&t, c);
    if let Some(l) = &c.toml {
        let mut s = "[lint]\n".to_string();
        for (k, v) in [("select", &l.select), ("extend-select", &l.extend), ("ignore", &l.ignore), ("fixable", &l.fixable), ("unfixable", &l.unfixable)] {
            if let Some(v) = v {
                s += &format!("{k} = {v:?}\n");
            }
        }
        t.put("jarl.toml", s);
    }
    let before = t.files();
    let mut args = vec!["check".to_string(), ".".to_string(), "--allow-no-vcs".into()];
    for (k, v) in [("select", &c.cli.select), ("extend-select", &c.cli.extend), ("ignore", &c.cli.ignore)] {
        if let Some(v) = v {
            args.push(format!("--{k}={}", v.join(",")));
        }
    }
    for (k, v) in [("--fix", c.fix), ("--unsafe-fixes", c.unsafe_fixes), ("--fix-only", c.fix_only)] {
        if v {
            args.push(k.into());
        }
    }
    let version: Vec<String> = c.version.iter().flat_map(|v| ["--min-r-version".to_string(), v.clone()]).collect();
    args.extend(version.clone());
    args.extend(c.more.clone());
    let o = t.jarl("", &args)?;
    ensure!(o.signal.is_none() && matches!(o.code, Some(0 | 1 | 255)), "crash", "`jarl {}`: {}", args.join(" "), o.show());
    ensure!(!o.stderr.contains("jarl failed"), "refused", "`jarl {}`: {}", args.join(" "), o.show());
    let after = t.files();
    let what = |n: &str| format!("{n} after `jarl {}`", args.join(" "));
    let may = if c.fix || c.unsafe_fixes || c.fix_only { allowed(c) } else { HashSet::new() };
    ensure_eq!(after.keys().collect::<Vec<_>>(), before.keys().collect::<Vec<_>>(), "files-come-or-go", "{}", what("files"));
    for (n, x) in &before {
        let is_r = n.to_lowercase().ends_with(".r");
        if !is_r || may.is_empty() {
            let sig = if is_r { "fix-that-is-not-allowed" } else { "not-an-r-file" };
            ensure_eq!(String::from_utf8_lossy(&after[n]), String::from_utf8_lossy(x), sig, "{}", what(n));
        }
    }
    // Line by line, which fixes took place.
    let text = String::from_utf8_lossy(&after["lines.R"]).into_owned();
    let now: Vec<&str> = text.lines().collect();
    ensure_eq!(now.len(), c.lines.len(), "lines", "{}:\n{text}", what("lines.R"));
    let (mut fixed, mut kept) = (0, 0);
    for (i, l) in c.lines.iter().zip(&now) {
        let (rule, line) = LINES[i % LINES.len()];
        if Rule::from_name(rule).is_some_and(|r| may.contains(&r)) {
            ensure!(*l != line, "fix-withheld", "{}: {rule} is allowed: {line}", what("lines.R"));
            fixed += 1;
        } else {
            ensure_eq!(*l, line, "fix-that-is-not-allowed", "{}: {rule} is not allowed", what("lines.R"));
            kept += 1;
        }
    }
    // The whole: as if only these rules existed, and everything about them was allowed.
    if !may.is_empty() {
        let r = Tree::new("c23r");
        put(&r, c);
        let mut names: Vec<&str> = may.iter().map(|r| r.name()).collect();
        names.sort();
        let mut args = vec!["check".to_string(), ".".into(), "--allow-no-vcs".into(), "--fix".into(), "--unsafe-fixes".into(), format!("--select={}", names.join(","))];
        args.extend(version);
        r.jarl("", &args)?;
        let expected = r.files();
        for (n, x) in &expected {
            ensure_eq!(String::from_utf8_lossy(&after[n]), String::from_utf8_lossy(x), "not-the-allowed-fixes", "{}, against `jarl {}`", what(n), args.join(" "));
        }
    }
    let l = c.toml.as_ref();
    Ok(Info::when(kept > 0 && (fixed > 0 || before != after))
        .label_if(may.is_empty(), "nothing allowed")
        .label_if(!c.unsafe_fixes && c.fix, "safe fixes only")
        .label_if(c.unsafe_fixes, "unsafe fixes too")
        .label_if(c.fix_only, "fix only")
        .label_if(l.is_some_and(|l| l.fixable.is_some()), "fixable")
        .label_if(l.is_some_and(|l| l.unfixable.is_some()), "unfixable")
        .label_if(before != after, "files changed"))
}

fn names() -> BoxedStrategy<Vec<String>> {
    let one = prop_oneof![
        6 => (0..LINES.len()).prop_map(|i| LINES[i].0.to_string()),
        2 => select(Category::ALL.iter().map(|c| c.as_str().to_string()).collect::<Vec<_>>()),
        2 => select(Rule::all().iter().map(|r| r.name().to_string()).collect::<Vec<_>>()),
        1 => Just("ALL".to_string()),
    ];
    vec(one, 1..5).boxed()
}

fn lists(weight: f64) -> BoxedStrategy<Lists> {
    let l = move || option::weighted(weight, prop_oneof![8 => names(), 1 => Just(vec![])]);
    (l(), l(), l(), l(), l()).prop_map(|(select, extend, ignore, fixable, unfixable)| Lists { select, extend, ignore, fixable, unfixable }).boxed()
}

fn cases() -> impl Strategy<Value = Case> {
    let cli = (option::weighted(0.25, names()), option::weighted(0.2, names()), option::weighted(0.2, names()))
        .prop_map(|(select, extend, ignore)| Lists { select, extend, ignore, ..Default::default() });
    (
        world::files(true, 3, 2),
        vec(0..LINES.len(), 1..9),
        option::weighted(0.7, lists(0.3)),
        cli,
        prop_oneof![1 => Just((false, false, false)), 2 => Just((true, false, false)), 2 => Just((true, true, false)), 1 => Just((false, true, false)), 2 => any::<(bool, bool, bool)>()],
        option::weighted(0.3, select(vec!["4.5", "4.5.0", "4.0", "3.6.3", "5.0", "4.6"]).prop_map(String::from)),
        prop_oneof![5 => Just(vec![]), 1 => Just(vec!["--output-format=json".to_string()]), 1 => Just(vec!["--statistics".to_string()])],
    )
        .prop_map(|(mut files, lines, toml, cli, (fix, unsafe_fixes, fix_only), version, more)| {
            files.retain(|n, _| !n.starts_with('-'));
            Case { files, lines, toml, cli, fix, unsafe_fixes, fix_only, version, more }
        })
}

pub fn c23() -> ExitCode {
    let mut ck = Check::new("C23");
    ck.assume("that a rule finds and fixes what it documents is C39 and C40; here, which of the fixes take place");
    ck.prop("allowed", "a fix took place, and one that is not allowed did not", 3000, 60000, cases, check);
    ck.finish()
}
