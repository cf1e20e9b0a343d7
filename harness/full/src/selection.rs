//! C25: what a rule reports does not depend on the other rules; selections combine as documented.

use crate::lint::{D, args, config, lint, sorted};
use jarl_core::config::{ArgsConfig, build_config};
use jarl_core::rule_set::{Category, Rule};
use jarl_core::settings::{LinterSettings, Settings};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::process::ExitCode;
use vpgen::{Opts, corpus, near_miss, program};
use vpkit::proptest::collection::vec;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select as pick;
use vpkit::{Check, Info, Outcome, ensure, ensure_eq};

/// Rules about suppression comments, which look at what the other rules report.
fn about_comments(r: &str) -> bool {
    r.ends_with("_suppression")
}

fn names() -> Vec<String> {
    Rule::all().iter().map(|r| r.name().to_string()).collect()
}

fn union(t: &str, picked: &[usize]) -> Outcome {
    let all = names();
    let set: BTreeSet<String> = picked.iter().map(|i| all[i % all.len()].clone()).collect();
    if set.is_empty() {
        return Ok(Info::trivial());
    }
    let sel = |s: &BTreeSet<String>| s.iter().cloned().collect::<Vec<_>>().join(",");
    let keep = |v: Vec<D>| sorted(v.into_iter().filter(|d| !about_comments(&d.rule)).collect());
    let Some(together) = lint(t, &config(&sel(&set)))? else {
        return Ok(Info::trivial().label("syntax error"));
    };
    ensure!(together.iter().all(|d| set.contains(&d.rule)), "unselected", "with the rules {set:?}, {:?} is reported for {t:?}", together.iter().find(|d| !set.contains(&d.rule)));
    let mut alone = vec![];
    let mut rules = BTreeSet::new();
    for r in set.iter().filter(|r| !about_comments(r)) {
        let ds = lint(t, &config(r))?.unwrap();
        if !ds.is_empty() {
            rules.insert(r.clone());
        }
        alone.extend(ds);
    }
    ensure_eq!(keep(together), keep(alone), "not-the-union", "the diagnostics of {t:?} with the rules {set:?}, and those of each of the rules alone");
    Ok(Info::when(rules.len() >= 2).label_if(rules.len() >= 3, "three or more rules report").label_if(t.contains("jarl-ignore"), "has suppressions"))
}

/// The names of a selection.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sel {
    cli: [String; 3],
    toml: [Option<Vec<String>>; 5],
    v: Option<String>,
    fix: u8,
}

fn name() -> impl Strategy<Value = String> + Clone {
    let rule = (0usize..500).prop_map(|i| { let n = names(); n[i % n.len()].clone() });
    let group = pick(vec!["PERF", "READ", "CORR", "SUSP", "TESTTHAT", "COMM", "ALL", "PERF", "READ", "CORR", "SUSP"]);
    let bad = pick(vec!["", " ", "foo", "perf", "any_is_na2", "ANY_IS_NA", "all", "any-is-na", "é", "Perf", "any_is_n", "DEFAULT"]);
    let spaced = |s: String| format!(" {s} ");
    prop_oneof![20 => rule.clone(), 12 => group.prop_map(str::to_string), 1 => bad.prop_map(str::to_string), 1 => rule.prop_map(spaced)]
}

fn expand(xs: &[String]) -> Result<BTreeSet<String>, String> {
    let mut out = BTreeSet::new();
    for x in xs {
        let x = x.trim();
        if x == "ALL" {
            out.extend(names());
        } else if let Some(c) = Category::ALL.iter().find(|c| c.as_str() == x) {
            out.extend(Rule::all().iter().filter(|r| r.categories().contains(c)).map(|r| r.name().to_string()));
        } else if names().iter().any(|n| n == x) {
            out.insert(x.to_string());
        } else {
            return Err(x.to_string());
        }
    }
    Ok(out)
}

fn select_ok(s: &Sel) -> Outcome {
    let cli = |i: usize| if s.cli[i].is_empty() { None } else { Some(s.cli[i].split(',').map(str::to_string).collect::<Vec<_>>()) };
    let has_toml = s.toml.iter().any(|t| t.is_some());
    let st = Settings { linter: LinterSettings { select: s.toml[0].clone(), extend_select: s.toml[1].clone(), ignore: s.toml[2].clone(), fixable: s.toml[3].clone(), unfixable: s.toml[4].clone(), ..LinterSettings::default() } };
    let a = ArgsConfig { select: s.cli[0].clone(), extend_select: s.cli[1].clone(), ignore: s.cli[2].clone(), min_r_version: s.v.clone(), fix: s.fix > 0, unsafe_fixes: s.fix > 1, ..args() };
    let got = build_config(&a, has_toml.then_some(&st), vec![]);
    let mut bad = vec![];
    let mut ex = |x: Option<Vec<String>>| x.map(|v| expand(&v).unwrap_or_else(|e| { bad.push(e); BTreeSet::new() }));
    let (c0, c1, c2) = (ex(cli(0)), ex(cli(1)), ex(cli(2)));
    let t: Vec<_> = s.toml.iter().map(|x| ex(x.clone())).collect();
    if !bad.is_empty() {
        let Err(e) = got else {
            return Err(vpkit::Fail::new("accepted", format!("unknown names {bad:?} are accepted: {s:?}")));
        };
        let e = format!("{e:#}");
        ensure!(bad.iter().any(|b| e.contains(b.as_str())), "error-names-nothing", "the error about one of {bad:?} is {e:?}");
        return Ok(Info::nontrivial().label("unknown name"));
    }
    let c = match got {
        Ok(c) => c,
        Err(e) => return Err(vpkit::Fail::new("refused", format!("{s:?} is refused: {e:#}"))),
    };
    let default: BTreeSet<String> = Rule::all().iter().filter(|r| r.is_enabled_by_default()).map(|r| r.name().to_string()).collect();
    let mut want = c0.clone().or(t[0].clone()).unwrap_or(default);
    want.extend(c1.clone().or(t[1].clone()).unwrap_or_default());
    for x in [&c2, &t[2]].into_iter().flatten() {
        want.retain(|r| !x.contains(r));
    }
    let v = s.v.as_ref().map(|v| { let mut p = v.split('.').map(|x| x.parse::<u32>().unwrap()); (p.next().unwrap(), p.next().unwrap(), p.next().unwrap_or(0)) });
    want.retain(|r| {
        let r = Rule::from_name(r).unwrap();
        let version = r.minimum_r_version().is_none_or(|m| v.is_some_and(|v| m <= v));
        let fix = s.fix != 1 || !r.has_unsafe_fix();
        version && fix
    });
    let got: BTreeSet<String> = c.rules_to_apply.iter().map(|r| r.name().to_string()).collect();
    ensure_eq!(got, want, "selection", "the rules selected by {s:?}");
    let fields = s.cli.iter().filter(|x| !x.is_empty()).count() + t.iter().flatten().count();
    Ok(Info::when(fields >= 2).label_if(fields >= 4, "four or more options").label_if(want.is_empty(), "no rule"))
}

/// The rule named by a diagnostic of the corpus is the one that was selected: all rules are
/// reachable by selecting them alone, and each is one of the union.
fn alone(i: usize) -> Outcome {
    let s = &corpus()[i];
    let all: Vec<usize> = (0..names().len()).collect();
    let _ = BTreeMap::<u8, u8>::new();
    union(&s.text, &all)?;
    Ok(Info::nontrivial())
}

pub fn c25() -> ExitCode {
    let mut ck = Check::new("C25");
    ck.assume("the parser, tree and comment attachment are the stand-ins of /verif/standins, which pass all of jarl's own tests");
    let set = || prop_oneof![3 => vec(0usize..500, 1..12), 1 => vec(0usize..500, 30..200)];
    let o = Opts { comments: true, directives: false, max: 5, depth: 3 };
    ck.prop("programs", "a program and a set of rules: what is reported is the union of what each rule reports alone; non-trivial: two or more of the rules report something", 6_000, 150_000, move || (program(o), set()), |(t, s)| union(t, s));
    ck.prop("suppressed", "the same with suppression comments, rules about these aside", 4_000, 100_000, move || (program(Opts { directives: true, ..o }), set()), |(t, s)| union(t, s));
    ck.prop("near-misses", "snippets of jarl's tests with tokens changed, and a set of rules", 6_000, 150_000, move || (near_miss(), set()), |(t, s)| union(t, s));
    ck.exhaustive("corpus", "every snippet of jarl's tests and all rules", (0..corpus().len()).collect(), |i| alone(*i));
    ck.prop(
        "selections",
        "names of rules and groups, ALL, unknown names in select, extend-select, ignore, from the command line and the configuration, minimum R version, fix options, against set operations; non-trivial: two or more options given, or an unknown name",
        40_000,
        600_000,
        || {
            let list = || prop_oneof![2 => Just(String::new()), 3 => vec(name(), 1..4).prop_map(|v| v.join(","))];
            let tl = || prop::option::of(vec(name(), 0..4));
            let v = pick(vec![None, Some("4.5.0"), Some("4.4"), Some("4.5"), Some("3.6.1"), Some("4.4.0"), Some("4.3.9"), Some("5.0"), Some("10.0"), Some("0.0.0")]).prop_map(|v| v.map(str::to_string));
            ([list(), list(), list()], [tl(), tl(), tl(), tl(), tl()], v, 0u8..3).prop_map(|(cli, toml, v, fix)| Sel { cli, toml, v, fix })
        },
        select_ok,
    );
    ck.finish()
}
