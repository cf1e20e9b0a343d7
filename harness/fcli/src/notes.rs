//! C45: the warnings, notes and hints around the violations.

use crate::run::{Out, Tree};
use jarl_core::rule_set::Rule;
use std::collections::{BTreeMap, BTreeSet};
use std::process::ExitCode;
use vpkit::proptest::option;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::{select, subsequence};
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq, serde_json};

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Config {
    hidden: bool,
    select: Option<Vec<String>>,
    extend: Option<Vec<String>>,
    ignore: Option<Vec<String>>,
    /// 0 none, 1 as a string, 2 as a table
    assignment: u8,
}

impl Config {
    fn text(&self) -> String {
        let mut t = "[lint]\n".to_string();
        for (k, l) in [("select", &self.select), ("extend-select", &self.extend), ("ignore", &self.ignore)] {
            if let Some(l) = l {
                t += &format!("{k} = {l:?}\n");
            }
        }
        match self.assignment {
            1 => t += "assignment = '='\n",
            2 => t += "[lint.assignment]\noperator = '='\n",
            _ => {}
        }
        t
    }
    fn names(&self) -> impl Iterator<Item = &String> {
        [&self.select, &self.extend, &self.ignore].into_iter().flatten().flatten()
    }
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    /// by folder
    configs: BTreeMap<String, Config>,
    user: Option<Config>,
    /// violations by file
    files: BTreeMap<String, usize>,
    broken: bool,
    cwd: String,
    /// what is looked at, from there
    path: String,
    select: Option<Vec<String>>,
    extend: Option<Vec<String>>,
    ignore: Option<Vec<String>>,
    assignment: Option<String>,
    timing: bool,
    level: Option<String>,
    hint: Option<String>,
    spaces: bool,
}

fn sections(o: &Out) -> (String, BTreeMap<String, Vec<String>>, Vec<String>) {
    let (mut body, mut out, mut order, mut now) = (String::new(), BTreeMap::<String, Vec<String>>::new(), vec![], None::<String>);
    for l in o.stdout.lines() {
        let name = l.strip_prefix("── ").and_then(|l| l.split_once(' ')).filter(|(n, r)| ["Summary", "Warnings", "Notes"].contains(n) && !r.is_empty() && r.chars().all(|c| c == '─'));
        if let Some((n, _)) = name {
            order.push(n.to_string());
            out.entry(n.to_string()).or_default();
            now = Some(n.to_string());
        } else if let Some(n) = &now {
            if !l.is_empty() {
                out.get_mut(n).unwrap().push(l.to_string());
            }
        } else {
            body += l;
            body += "\n";
        }
    }
    (body, out, order)
}

fn look(c: &Case) -> Outcome {
    let t = Tree::new("c45");
    let at = |d: &str, f: &str| if d.is_empty() { f.to_string() } else { format!("{d}/{f}") };
    let file = |x: &Config| if x.hidden { ".jarl.toml" } else { "jarl.toml" };
    for (d, x) in &c.configs {
        t.put(&at(d, file(x)), x.text());
    }
    let user = t.home().join(".config/jarl/jarl.toml");
    if let Some(u) = &c.user {
        t.put_at(&user, u.text());
    }
    for (n, k) in &c.files {
        t.put(n, "any(is.na(x))\n".repeat(*k) + "browser\n");
    }
    if c.broken {
        t.put("sub/broken.R", "f(\n");
    }
    for d in ["sub/deep", "other"] {
        t.mkdir(d);
    }
    // The path, from the root.
    let target = if c.path == "." { c.cwd.clone() } else { at(&c.cwd, &c.path) };
    let under = |d: &str, of: &str| of.is_empty() || d == of || d.starts_with(&format!("{of}/"));
    let found: Vec<&String> = c.files.keys().filter(|f| under(f, &target)).collect();
    // The configurations in use: the nearest one above, and all those below.
    let above = c.configs.keys().filter(|d| under(&target, d)).max_by_key(|d| d.len());
    let mut used: Vec<(Option<&String>, &Config)> = above.into_iter().chain(c.configs.keys().filter(|d| under(d, &target) && **d != target)).map(|d| (Some(d), &c.configs[d])).collect();
    if above.is_none() && let Some(u) = &c.user {
        used.push((None, u));
    }

    let sep = if c.spaces { " , " } else { "," };
    let mut args: Vec<String> = vec!["check".into(), c.path.clone()];
    let lists = [("select", &c.select), ("extend-select", &c.extend), ("ignore", &c.ignore)];
    for (k, l) in lists {
        if let Some(l) = l {
            args.push(format!("--{k}={}", l.join(sep)));
        }
    }
    if let Some(a) = &c.assignment {
        args.push(format!("--assignment={a}"));
    }
    let plain = args.clone();
    if c.timing {
        args.push("--with-timing".into());
    }
    if let Some(l) = &c.level {
        args.push(format!("--log-level={l}"));
    }
    let env: Vec<(&str, &str)> = c.hint.iter().map(|h| ("JARL_N_VIOLATIONS_HINT_STAT", h.as_str())).collect();
    let run = |a: &[String], more: &[&str], env: &[(&str, &str)]| t.jarl_env(&c.cwd, &a.iter().cloned().chain(more.iter().map(|s| s.to_string())).collect::<Vec<_>>(), env);

    let json = run(&plain, &["--output-format=json"], &[])?;
    let v: serde_json::Value = serde_json::from_str(&json.stdout).map_err(|e| Fail::new("json", format!("{e}\n{}", json.show())))?;
    let total = v["diagnostics"].as_array().map_or(0, Vec::len);
    let errors = v["errors"].as_array().map_or(0, Vec::len);
    let nothing = found.is_empty() && !(c.broken && under("sub/broken.R", &target));

    // What is to be said.
    let mut warnings: BTreeSet<String> = BTreeSet::new();
    if c.assignment.is_some() {
        warnings.insert("`--assignment` is deprecated. Use `[lint.assignment]` in jarl.toml instead.".into());
    }
    if used.iter().any(|(_, x)| x.assignment == 1) {
        warnings.insert("Argument `assignment` in `[lint]` is deprecated. Use `[lint.assignment]` with `operator` instead.".into());
    }
    let names: BTreeSet<&String> = lists.into_iter().filter_map(|l| l.1.as_ref()).flatten().chain(used.iter().flat_map(|x| x.1.names())).collect();
    let mut deprecated = 0;
    for n in names {
        if let Some(d) = Rule::from_name(n).and_then(|r| r.deprecation()) {
            deprecated += 1;
            warnings.insert(format!("Rule `{n}` is deprecated since v{}. Use `{}` instead.", d.version, d.replacement));
        }
    }
    let elsewhere = match &used[..] {
        [(d, x)] => match d {
            Some(d) if **d == c.cwd => None,
            Some(d) => Some(t.root().join(at(d, file(x))).to_string_lossy().into_owned()),
            None => Some(user.to_string_lossy().into_owned()),
        },
        _ => None,
    };

    for format in ["concise", "full"] {
        let o = run(&args, &["--output-format", format], &env)?;
        let show = || format!("{args:?} {env:?} in {:?}\n{}", c.cwd, o.show());
        ensure_eq!(o.code, json.code, format!("exit-{format}"), "exit code\n{}", show());
        let (body, said, order) = sections(&o);
        if nothing {
            ensure!(body.starts_with("Warning: No R files found under the given path(s).\n") && order.is_empty(), "no-files", "{}", show());
            continue;
        }
        let got = said.get("Warnings").cloned().unwrap_or_default();
        let set: BTreeSet<String> = got.iter().cloned().collect();
        ensure_eq!(&set, &warnings, format!("warnings-{format}"), "warnings\n{}", show());
        // That of configurations may be repeated for each of them.
        ensure!(got.iter().filter(|w| !w.starts_with("Argument `assignment`")).count() == set.iter().filter(|w| !w.starts_with("Argument `assignment`")).count(), format!("warnings-twice-{format}"), "{}", show());
        let notes = said.get("Notes").cloned().unwrap_or_default();
        ensure_eq!(notes.iter().filter(|n| n.starts_with("Checked files in: ")).count(), c.timing as usize, format!("timing-{format}"), "notes about the time\n{}", show());
        let got: Vec<&String> = notes.iter().filter(|n| !n.starts_with("Checked files in: ")).collect();
        let want: Vec<String> = elsewhere.iter().map(|p| format!("Used '{p}'")).collect();
        ensure_eq!(got, want.iter().collect::<Vec<_>>(), format!("used-{format}"), "notes about the configuration\n{}", show());
        for (n, l) in &said {
            ensure!(!l.is_empty(), "empty-section", "{n}\n{}", show());
        }
        let ranks: Vec<usize> = order.iter().map(|n| ["Summary", "Warnings", "Notes"].iter().position(|x| x == n).unwrap()).collect();
        ensure!(ranks.windows(2).all(|w| w[0] < w[1]), "sections", "{order:?}\n{}", show());
        // The hint.
        let n = c.hint.as_ref().and_then(|h| h.parse::<i32>().ok()).unwrap_or(15);
        let hint = said.get("Summary").into_iter().flatten().filter(|l| l.contains("`--statistics`")).cloned().collect::<Vec<_>>();
        let want: Vec<String> = (total > 0 && total as i64 > n as i64).then(|| format!("More than {n} errors reported, use `--statistics` to get the count by rule.")).into_iter().collect();
        ensure_eq!(hint, want, format!("hint-{format}"), "hint for {total} violations\n{}", show());
        // None of it changes the rest.
        let p = run(&plain, &["--output-format", format], &[])?;
        let bare = sections(&p).0;
        ensure_eq!(bare.trim_end_matches('\n'), body.trim_end_matches('\n'), format!("body-{format}"), "what is said before the summary, with and without {:?} {env:?}", &args[plain.len()..]);
        if c.level.is_none() {
            ensure_eq!(&p.stderr, &o.stderr, format!("stderr-{format}"), "stderr with and without {:?} {env:?}", &args[plain.len()..]);
        }
    }
    for more in [["--output-format", "json"], ["--output-format", "github"]] {
        let (o, p) = (run(&args, &more, &env)?, run(&plain, &more, &[])?);
        ensure_eq!((&o.stdout, o.code), (&p.stdout, p.code), format!("structured-{}", more[1]), "output with and without {:?} {env:?}", &args[plain.len()..]);
        if more[1] == "github" && !nothing {
            ensure!(o.stdout.lines().all(|l| l.starts_with("::")), "github-lines", "{}", o.show());
        }
    }
    if !nothing {
        let o = run(&args, &["--statistics"], &env)?;
        let got: Vec<&str> = o.stdout.lines().filter(|l| l.starts_with("Used ")).collect();
        let want: Vec<String> = elsewhere.iter().filter(|_| total > 0).map(|p| format!("Used '{p}'")).collect();
        ensure_eq!(got, want.iter().map(String::as_str).collect::<Vec<_>>(), "used-statistics", "notes about the configuration\n{}", o.show());
        ensure_eq!(o.code, json.code, "exit-statistics", "exit code\n{}", o.show());
    }
    Ok(Info::when(!warnings.is_empty() || elsewhere.is_some() || total > 10).label_if(deprecated > 0, "deprecated rule").label_if(elsewhere.is_some(), "configuration elsewhere").label_if(warnings.len() > 1, "several warnings").label_if(errors > 0, "error").label_if(nothing, "no files"))
}

fn names() -> BoxedStrategy<Option<Vec<String>>> {
    option::weighted(0.4, subsequence(vec!["any_is_na", "browser", "CORR", "SUSP", "ALL", "coalesce"], 1..4).prop_shuffle().prop_map(|l| l.into_iter().map(String::from).collect())).boxed()
}

fn config() -> BoxedStrategy<Config> {
    (prop::bool::weighted(0.2), names(), names(), names(), 0..3u8).prop_map(|(hidden, select, extend, ignore, assignment)| Config { hidden, select, extend, ignore, assignment }).boxed()
}

fn cases() -> impl Strategy<Value = Case> {
    let dirs = (option::weighted(0.5, config()), option::weighted(0.3, config()), option::weighted(0.2, config()), option::weighted(0.25, config()));
    let files = vpkit::proptest::collection::btree_map(select(vec!["a.R", "sub/b.R", "sub/deep/c.R", "sub/d.r"]).prop_map(String::from), 0..12usize, 1..4);
    let place = select(vec![("", "."), ("", "."), ("sub", "."), ("sub", "deep"), ("", "sub"), ("", "other"), ("sub/deep", ".")]);
    let more = (prop::bool::weighted(0.3), option::weighted(0.3, select(vec!["error", "warn", "info", "debug", "trace"])), option::weighted(0.4, select(vec!["0", "1", "3", "10", "-1", "15", "x", "", "99999999999"])), any::<bool>());
    (dirs, files, prop::bool::weighted(0.15), place, (names(), names(), names(), option::weighted(0.2, select(vec!["<-", "="]))), more).prop_map(|((root, sub, deep, user), files, broken, (cwd, path), (s, e, i, assignment), (timing, level, hint, spaces))| {
        let configs = [("", root), ("sub", sub), ("sub/deep", deep)].into_iter().filter_map(|(d, x)| Some((d.to_string(), x?))).collect();
        let own = |x: Option<&str>| x.map(String::from);
        Case { configs, user, files, broken, cwd: cwd.into(), path: path.into(), select: s, extend: e, ignore: i, assignment: own(assignment), timing, level: own(level), hint: own(hint), spaces }
    })
}

pub fn c45() -> ExitCode {
    let mut ck = Check::new("C45");
    ck.assume("the parser, tree and pattern matching are the stand-ins of /verif/standins, which pass all of jarl's own tests; whether the warning about `assignment` in `[lint]` is repeated for every configuration is not judged");
    ck.prop("around", "folders with up to three configurations and the user's, run from and on any of them, with deprecated rules and options, timing, log levels and thresholds of the hint: sections, warnings, notes and hint of both human formats against a model, and everything else against the plain run; non-trivial: a warning, a note, or more than ten violations", 1_200, 30_000, cases, look);
    ck.finish()
}
