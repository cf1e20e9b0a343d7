//! C46: names and values that jarl does not know.

use crate::run::Tree;
use std::collections::BTreeMap;
use std::process::ExitCode;
use vpkit::proptest::collection::vec;
use vpkit::proptest::option;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;
use vpkit::{Check, Info, Outcome, ensure, ensure_eq};

const FIELDS: [&str; 5] = ["select", "extend-select", "ignore", "fixable", "unfixable"];

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Config {
    lists: Vec<Option<Vec<String>>>,
    assignment: Option<(bool, String)>,
    /// of another table, valid or not
    more: String,
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    configs: BTreeMap<String, Config>,
    user: Option<Config>,
    flags: Vec<Option<Vec<String>>>,
    assignment: Option<String>,
    action: Vec<String>,
}

/// Known in any case, with blanks around or not.
fn known(n: &str) -> bool {
    let n = n.trim();
    n == "ALL" || ["COMM", "CORR", "SUSP", "PERF", "READ", "TESTTHAT"].contains(&n) || jarl_core::rule_set::Rule::all().iter().any(|r| r.name() == n)
}

fn unknown(l: &Option<Vec<String>>) -> Vec<String> {
    l.iter().flatten().filter(|n| !known(n)).map(|n| n.trim().to_string()).collect()
}

const OPERATORS: [&str; 2] = ["<-", "="];

const MORE: &[(&str, bool)] = &[
    ("", true),
    ("[lint.undesirable_function]\nfunctions = ['a']\n", true),
    ("[lint.undesirable_function]\nfunctions = ['a']\nextend-functions = ['b']\n", false),
    ("[lint.undesirable_function]\nfunction = ['a']\n", false),
    ("[lint.unused_function]\nthreshold-ignore = 3\n", true),
    ("[lint.unused_function]\nthreshold-ignore = -3\n", false),
    ("[lint.implicit_assignment]\nskipped-functions = ['a']\n", true),
    ("[lint.duplicated_arguments]\nskipped-functions = 'a'\n", false),
    ("[format]\nwidth = 3\n", false),
    ("[lint.any_is_na]\n", false),
];

impl Config {
    fn text(&self) -> String {
        let mut t = "[lint]\n".to_string();
        for (k, l) in FIELDS.iter().zip(&self.lists) {
            if let Some(l) = l {
                t += &format!("{k} = {l:?}\n");
            }
        }
        match &self.assignment {
            Some((false, v)) => t += &format!("assignment = {v:?}\n"),
            Some((true, v)) => t += &format!("[lint.assignment]\noperator = {v:?}\n"),
            _ => {}
        }
        t + &self.more
    }
    fn readable(&self) -> bool {
        self.assignment.as_ref().is_none_or(|a| OPERATORS.contains(&&*a.1)) && MORE.iter().any(|m| m.0 == self.more && m.1)
    }
}

fn look(c: &Case) -> Outcome {
    let t = Tree::new("c46");
    let mut faults = vec![];
    let mut unreadable = vec![];
    let user = t.home().join(".config/jarl/jarl.toml");
    let all = c.configs.iter().map(|(d, x)| (t.root().join(if d.is_empty() { "jarl.toml".into() } else { format!("{d}/jarl.toml") }), x)).chain(c.user.iter().map(|x| (user.clone(), x)));
    for (p, x) in all {
        t.put_at(&p, x.text());
        // The one of the user is for files without another.
        if p == user && c.configs.contains_key("") {
            continue;
        }
        if !x.readable() {
            unreadable.push(p.to_string_lossy().into_owned());
        }
        for (k, l) in FIELDS.iter().zip(&x.lists) {
            let u = unknown(l);
            if !u.is_empty() {
                faults.push((format!("field `{k}` in"), u));
            }
        }
    }
    let mut args: Vec<String> = ["check", ".", "--allow-no-vcs"].map(String::from).to_vec();
    for (k, l) in FIELDS.iter().zip(&c.flags) {
        if let Some(l) = l {
            args.push(format!("--{k}={}", l.join(",")));
            let u = unknown(&Some(l.clone()).filter(|l| !l.join(",").is_empty()));
            if !u.is_empty() {
                faults.push((format!("`--{k}`:"), u));
            }
        }
    }
    let mut values = vec![];
    if let Some(a) = &c.assignment {
        args.push(format!("--assignment={a}"));
        if !OPERATORS.contains(&a.as_str()) {
            values.push(a);
        }
    }
    args.extend(c.action.iter().cloned());
    for (n, x) in [("a.R", "any(is.na(x))\n"), ("sub/b.R", "y <- any(is.na(x))\nx == NA\n"), ("sub/deep/c.R", "x == NA\n")] {
        t.put(n, x);
    }
    let before = t.files();
    let o = t.jarl("", &args)?;
    let wrong = !faults.is_empty() || !unreadable.is_empty() || !values.is_empty();
    let show = || format!("{args:?} with {:?} and the user's {:?}\n{}", c.configs.iter().map(|(d, x)| (d, x.text())).collect::<Vec<_>>(), c.user.as_ref().map(Config::text), o.show());
    if !wrong {
        ensure!(o.code == Some(0) || o.code == Some(1), "accepted", "everything is known: {}", show());
        return Ok(Info::when(!c.configs.is_empty() || !args[3..].is_empty()).label("known"));
    }
    ensure_eq!(o.code, Some(255), "exit", "exit code for {faults:?}, {unreadable:?}, {values:?}: {}", show());
    ensure!(o.stdout.is_empty(), "stdout", "something is printed: {}", show());
    ensure!(t.files() == before, "changed", "files are changed: {}", show());
    // One of them is told.
    let cause = o.stderr.trim_end();
    let told = faults.iter().any(|(k, u)| {
        let mut rest = match cause.split_once(&format!("Unknown rules in {k}")) {
            Some((_, r)) => r,
            None => return false,
        };
        if let Some((_, r)) = rest.split_once("'jarl.toml':") {
            rest = r;
        }
        let names: Vec<String> = rest.trim().split(", ").map(|n| if n.starts_with("\"\"") { String::new() } else { n.to_string() }).collect();
        names == *u
    }) || unreadable.iter().any(|p| cause.contains(&**p))
        || values.iter().any(|v| cause.ends_with(format!("`--assignment`: {v}").trim_end()));
    ensure!(told, "untold", "none of {faults:?}, {unreadable:?}, {values:?} is told: {}", show());
    Ok(Info::nontrivial().label(if !faults.is_empty() { "unknown rule" } else { "unknown value" }))
}

fn list(bad: f64) -> BoxedStrategy<Option<Vec<String>>> {
    let good = select(vec!["any_is_na", "equals_na", "CORR", "SUSP", "PERF", "ALL", " browser", "READ ", "TESTTHAT", "coalesce"]);
    let wrong = select(vec!["corr", "All", "any_is_nan", "", " ", "any-is-na", "equals_na.", "é", "Any_is_na", "CORRECT", "rule 1", "any_is_na,", "any_is_na,equals_na", "any_is_na;", "*", "!any_is_na", "all", "TESTTHAT:", "any_is_na()", "`any_is_na`"]);
    option::weighted(0.4, vec((prop::bool::weighted(bad), good, wrong).prop_map(|(b, g, w)| if b { w } else { g }.to_string()), 1..4)).boxed()
}

fn config() -> BoxedStrategy<Config> {
    let assignment = option::weighted(0.2, (any::<bool>(), select(vec!["<-", "=", "=", "<-", "<<-", "", " ="]).prop_map(String::from)));
    (vec(list(0.08), 5), assignment, prop_oneof![6 => Just(""), 1 => select(MORE).prop_map(|m| m.0)].prop_map(String::from)).prop_map(|(lists, assignment, more)| Config { lists, assignment, more }).boxed()
}

fn cases() -> impl Strategy<Value = Case> {
    let dirs = (option::weighted(0.6, config()), option::weighted(0.4, config()), option::weighted(0.2, config()), option::weighted(0.2, config()));
    let action = select(vec!["", "", "--fix", "--fix --unsafe-fixes", "--fix-only", "--add-jarl-ignore", "--statistics", "--output-format=json", "--output-format=github", "--with-timing"]).prop_map(|a| a.split_whitespace().map(String::from).collect());
    (dirs, vec(list(0.08), 3), option::weighted(0.15, select(vec!["<-", "=", "==", "", "<- "]).prop_map(String::from)), action).prop_map(|((root, sub, deep, user), flags, assignment, action)| {
        let configs = [("", root), ("sub", sub), ("sub/deep", deep)].into_iter().filter_map(|(d, x)| Some((d.to_string(), x?))).collect();
        // A comma separates names on the command line.
        let flags: Vec<Option<Vec<String>>> = flags.into_iter().map(|l: Option<Vec<String>>| l.filter(|l| !l.iter().any(|n| n.contains(',')))).collect();
        Case { configs, user, flags, assignment, action }
    })
}

pub fn c46() -> ExitCode {
    let mut ck = Check::new("C46");
    ck.assume("the names of the groups of rules are those of the documentation; those of the rules are read from jarl's registry, which C10 compares with the documentation");
    ck.prop("refused", "known and unknown names in every list of up to three configurations, the user's, and the options of the command line, other unknown values and tables, with every action: refused whole or accepted, and told; non-trivial: something unknown, or lists to read", 5_000, 60_000, cases, look);
    ck.finish()
}
