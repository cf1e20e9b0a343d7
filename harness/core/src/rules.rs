use jarl_core::rule_set::{ALL_RULES, Category, DefaultStatus, FixStatus, Rule, RuleSet};
use std::collections::{BTreeMap, HashSet};
use std::process::ExitCode;
use vpkit::proptest::prelude::*;
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq};

/// A row of the published list of rules (docs/rules.qmd).
#[derive(Debug, Clone)]
struct Row {
    categories: Vec<String>,
    fix: FixStatus,
    disabled: bool,
    version: Option<(u32, u32, u32)>,
    deprecated: bool,
}

fn docs() -> PathList {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let base = std::path::PathBuf::from(root).join("build/repo/docs");
    let text = std::fs::read_to_string(base.join("rules.qmd")).expect("docs/rules.qmd");
    let code = |c: &str| match c {
        "comments" => "COMM",
        "correctness" => "CORR",
        "suspicious" => "SUSP",
        "performance" => "PERF",
        "readability" => "READ",
        "testthat" => "TESTTHAT",
        o => panic!("unknown group {o} in docs/rules.qmd"),
    };
    let mut rows = BTreeMap::new();
    for l in text.lines() {
        let Some(l) = l.trim().strip_prefix("c(\"") else { continue };
        let cells: Vec<&str> = l.trim_end_matches(',').trim_end_matches(')').strip_suffix('"').unwrap_or(l).split("\", \"").collect();
        let [name, groups, fix, cond] = cells[..] else { panic!("row {l}") };
        let mut categories: Vec<String> = groups.split(", ").map(|g| code(g).to_string()).collect();
        categories.sort();
        let version = cond.split("R >= ").nth(1).map(|v| {
            let mut p = v.split(|c: char| !c.is_ascii_digit()).map(|x| x.parse::<u32>().unwrap_or(0));
            (p.next().unwrap_or(0), p.next().unwrap_or(0), p.next().unwrap_or(0))
        });
        let page = std::fs::read_to_string(base.join("rules").join(format!("{name}.md"))).unwrap_or_default();
        rows.insert(
            name.to_string(),
            Row {
                categories,
                fix: match fix {
                    "✅" => FixStatus::Safe,
                    "❌" => FixStatus::None,
                    _ => FixStatus::Unsafe,
                },
                disabled: cond.contains("Disabled by default"),
                version,
                deprecated: page.to_lowercase().contains("this rule is deprecated"),
            },
        );
    }
    rows
}

type PathList = BTreeMap<String, Row>;

fn name_case(name: &String, rows: &PathList) -> Outcome {
    let listed = rows.get(name);
    let rule = Rule::from_name(name);
    ensure_eq!(rule.is_some(), listed.is_some(), "listed", "is {name:?} a rule (published list: {})", listed.is_some());
    let (Some(r), Some(row)) = (rule, listed) else { return Ok(Info::trivial()) };
    ensure_eq!(r.name(), name.as_str(), "name", "name of the rule named {name}");
    ensure_eq!(r.to_string(), *name, "name", "displayed name");
    let mut c: Vec<String> = r.categories().iter().map(|c| c.as_str().to_string()).collect();
    c.sort();
    ensure_eq!(c, row.categories, format!("categories-{name}"), "groups of {name}");
    ensure_eq!(r.fix_status(), row.fix, format!("fix-{name}"), "fix status of {name}");
    ensure_eq!(r.is_disabled_by_default(), row.disabled, format!("default-{name}"), "is {name} disabled by default");
    ensure_eq!(r.minimum_r_version(), row.version, format!("version-{name}"), "minimum R version of {name}");
    ensure_eq!(r.is_deprecated(), row.deprecated, format!("deprecated-{name}"), "is {name} deprecated");
    if let Some(d) = r.deprecation() {
        let repl = Rule::from_name(d.replacement);
        ensure!(repl.is_some_and(|x| x != r && !x.is_deprecated()), format!("replacement-{name}"), "replacement of {name}: {:?}", d.replacement);
    }
    // The predicates say what the status says.
    ensure_eq!(
        (r.has_safe_fix(), r.has_unsafe_fix(), r.has_no_fix()),
        (row.fix == FixStatus::Safe, row.fix == FixStatus::Unsafe, row.fix == FixStatus::None),
        format!("fix-{name}"),
        "fix predicates of {name}"
    );
    ensure_eq!(r.is_enabled_by_default(), !row.disabled, format!("default-{name}"), "is {name} enabled by default");
    ensure_eq!(r.default_status() == DefaultStatus::Disabled, row.disabled, format!("default-{name}"), "default status of {name}");
    for c in Category::ALL {
        ensure_eq!(r.has_category(*c), row.categories.iter().any(|x| x == c.as_str()), format!("categories-{name}"), "{name} in {c}");
        let n = Rule::by_category(*c).filter(|x| *x == r).count();
        ensure_eq!(n, usize::from(r.has_category(*c)), "by-category", "{name} among the rules of {c}");
    }
    for s in [FixStatus::None, FixStatus::Safe, FixStatus::Unsafe] {
        let n = Rule::by_fix_status(s).filter(|x| *x == r).count();
        ensure_eq!(n, usize::from(r.fix_status() == s), "by-fix", "{name} among the rules with fix {s:?}");
    }
    ensure_eq!(Rule::enabled_by_default().filter(|x| *x == r).count(), usize::from(!row.disabled), "by-default", "{name} among the enabled rules");
    ensure_eq!(Rule::disabled_by_default().filter(|x| *x == r).count(), usize::from(row.disabled), "by-default", "{name} among the disabled rules");
    ensure_eq!(Rule::all().iter().filter(|x| **x == r).count(), 1, "all", "{name} among all rules");
    ensure_eq!(ALL_RULES.iter().filter(|x| **x == r).count(), 1, "all", "{name} among ALL_RULES");
    Ok(Info::nontrivial())
}

fn order_of(it: impl Iterator<Item = Rule>) -> Vec<&'static str> {
    it.map(|r| r.name()).collect()
}

/// Rule sets against the vectors they were made from.
fn set_case((a, b, probe, by): &(Vec<u8>, Vec<u8>, u8, u8)) -> Outcome {
    let all = Rule::all();
    let pick = |v: &Vec<u8>| -> Vec<Rule> { v.iter().map(|i| all[*i as usize % all.len()]).collect() };
    let (va, vb) = (pick(a), pick(b));
    let p = all[*probe as usize % all.len()];
    let sets = [RuleSet::from_rules(va.clone()), va.iter().copied().collect::<RuleSet>(), va.iter().collect::<RuleSet>()];
    for s in &sets {
        ensure_eq!(s.iter().copied().collect::<Vec<_>>(), va, "iter", "rules of a set");
        ensure_eq!(s.len(), va.len(), "len", "size");
        ensure_eq!(s.is_empty(), va.is_empty(), "len", "emptiness");
        ensure_eq!(s.contains(&p), va.contains(&p), "contains", "contains {p}");
        ensure_eq!(s.contains_name(p.name()), va.contains(&p), "contains", "contains the name {p}");
        ensure!(!s.contains_name(&format!("{p}x")) && !s.contains_name("") && !s.contains_name(&p.name().to_uppercase()), "contains", "contains an unknown name");
        ensure_eq!(*s, sets[0], "equality", "sets built from the same rules");
        ensure_eq!(*s == RuleSet::from_rules(vb.clone()), va == vb, "equality", "equality with another set");
        let keep = |r: &Rule| (r.name().len() + *by as usize) % 3 == 0;
        let f = s.clone().filter(keep);
        let want: Vec<Rule> = va.iter().copied().filter(|r| keep(r)).collect();
        ensure_eq!(f.iter().copied().collect::<Vec<_>>(), want, "filter", "filtered set");
    }
    Ok(Info::when(va.len() > 1 && va.iter().collect::<HashSet<_>>().len() > 1))
}

pub fn c10() -> ExitCode {
    let mut ck = Check::new("C10");
    ck.assume("the published list of rules is docs/rules.qmd, deprecations are those of the rule's page");
    let rows = docs();
    let mut names: Vec<String> = rows.keys().cloned().collect();
    names.extend(Rule::all().iter().map(|r| r.name().to_string()).filter(|n| !rows.contains_key(n)));
    ck.exhaustive("every_rule", "every published rule and every rule of the registry", names.clone(), |n| name_case(n, &rows));
    ck.exhaustive("registry", "the registry as a whole", vec![0u8], |_| {
        let n: HashSet<&str> = Rule::all().iter().map(|r| r.name()).collect();
        ensure_eq!(n.len(), Rule::all().len(), "unique", "distinct names");
        ensure_eq!(Rule::all().len(), rows.len(), "all", "number of rules");
        let all_set = RuleSet::all();
        ensure_eq!(all_set.iter().collect::<Vec<_>>(), Rule::all().iter().collect::<Vec<_>>(), "all", "the set of all rules");
        ensure!(RuleSet::empty().is_empty() && RuleSet::empty().len() == 0, "empty", "the empty set");
        // Selections keep the order of the registry and split it.
        let reg = order_of(Rule::all().iter().copied());
        let sorted = |v: Vec<&'static str>| v.windows(2).all(|w| reg.iter().position(|x| *x == w[0]) < reg.iter().position(|x| *x == w[1]));
        let (e, d) = (order_of(Rule::enabled_by_default()), order_of(Rule::disabled_by_default()));
        ensure_eq!(e.len() + d.len(), reg.len(), "by-default", "enabled and disabled rules");
        ensure!(sorted(e) && sorted(d), "order", "order of the rules by default status");
        let total: usize = [FixStatus::None, FixStatus::Safe, FixStatus::Unsafe].into_iter().map(|s| Rule::by_fix_status(s).count()).sum();
        ensure_eq!(total, reg.len(), "by-fix", "rules by fix status");
        let codes: HashSet<&str> = Category::ALL.iter().map(|c| c.as_str()).collect();
        ensure_eq!(codes.len(), Category::ALL.len(), "category-codes", "distinct category codes");
        for c in Category::ALL {
            ensure_eq!(c.as_str().parse::<Category>(), Ok(*c), "category-codes", "category of the code {c}");
            ensure_eq!(c.to_string(), c.as_str(), "category-codes", "displayed category");
        }
        for code in ["COMM", "CORR", "SUSP", "PERF", "READ", "TESTTHAT"] {
            ensure!(code.parse::<Category>().is_ok_and(|c| c.as_str() == code), "category-codes", "published code {code}");
        }
        Ok(Info::nontrivial())
    });
    let names2 = names.clone();
    ck.prop(
        "unknown_names",
        "any text, and mutations of rule names (case, one character added, removed or replaced, padding) and of category codes; non-trivial: a mutation that is not itself a name",
        60_000,
        2_000_000,
        move || {
            let n = names2.clone();
            let m = (prop::sample::select(n), 0u8..8, any::<u16>(), "[a-z_ 0-9]").prop_map(|(n, k, at, c)| {
                let at = at as usize % n.len();
                match k {
                    0 => n.to_uppercase(),
                    1 => format!("{}{c}{}", &n[..at], &n[at..]),
                    2 => format!("{}{}", &n[..at], &n[at + 1..]),
                    3 => format!("{}{c}{}", &n[..at], &n[at + 1..]),
                    4 => format!(" {n}"),
                    5 => format!("{n} "),
                    6 => n.replace('_', "-"),
                    _ => n[..at].to_string(),
                }
            });
            prop_oneof![8 => m, 1 => any::<String>(), 1 => prop::sample::select(vec!["perf", "Perf", "COM", "COMM ", "ALL", "TESTTHAT2", "READ", "", "SUSP,PERF"]).prop_map(String::from)]
        },
        |n: &String| {
            let listed = rows.contains_key(n);
            let got = Rule::from_name(n);
            ensure_eq!(got.is_some(), listed, "unknown-name", "is {n:?} a rule");
            let cat = Category::ALL.iter().any(|c| c.as_str() == n);
            ensure_eq!(n.parse::<Category>().is_ok(), cat, "unknown-category", "is {n:?} a category");
            Ok(Info::when(!listed && !cat))
        },
    );
    ck.prop(
        "rule_sets",
        "rule sets built three ways from vectors of up to 20 rules (repetitions included), probed and filtered; non-trivial: two different rules or more",
        40_000,
        1_000_000,
        || (prop::collection::vec(any::<u8>(), 0..20), prop::collection::vec(any::<u8>(), 0..4), any::<u8>(), any::<u8>()),
        set_case,
    );
    ck.prop(
        "hashing",
        "rules as keys of a set: as many entries as distinct names; non-trivial: a repetition",
        5_000,
        100_000,
        || prop::collection::vec(any::<u8>(), 0..40),
        |v| {
            let all = Rule::all();
            let s: HashSet<Rule> = v.iter().map(|i| all[*i as usize % all.len()]).collect();
            let n: HashSet<&str> = v.iter().map(|i| all[*i as usize % all.len()].name()).collect();
            if s.len() != n.len() {
                return Err(Fail::new("hash", format!("{} rules, {} names", s.len(), n.len())));
            }
            Ok(Info::when(n.len() < v.len()))
        },
    );
    ck.finish()
}
