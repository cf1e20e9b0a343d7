//! C31: the files that are checked.

use crate::run::Tree;
use std::collections::{BTreeMap, BTreeSet};
use std::process::ExitCode;
use vpkit::proptest::collection::vec;
use vpkit::proptest::option;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq};

const SEGMENTS: &[&str] = &["x", "y", "R", "renv", "tests", "a b", "d.R", "revdep"];
const NAMES: &[&str] = &["a.R", "b.R", "ab.R", "c.r", "doc.Rmd", "e.qmd", "f.rmd", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-z.R", "n.txt", "o.Rproj", "p.R.bak", "é.R", "x"];
const DEFAULT: &[&str] = &[".git/", "renv/", "revdep/", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-*.R"];

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Config {
    exclude: Option<Vec<String>>,
    include: Option<Vec<String>>,
    default_exclude: Option<bool>,
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    files: Vec<String>,
    configs: BTreeMap<String, Config>,
    /// paths, and how they are written
    paths: Vec<(String, u8)>,
    from: String,
    no_default_exclude: bool,
}

fn join(d: &str, n: &str) -> String {
    if d.is_empty() { n.to_string() } else { format!("{d}/{n}") }
}

fn dir_of(f: &str) -> &str {
    f.rfind('/').map_or("", |i| &f[..i])
}

/// One segment against `*`, `?`, `[abc]` and `{a,b}`.
fn segment(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|i| segment(&p[1..], &s[i..])),
        Some('?') => !s.is_empty() && segment(&p[1..], &s[1..]),
        Some('[') => {
            let end = p.iter().position(|c| *c == ']').unwrap();
            !s.is_empty() && p[1..end].contains(&s[0]) && segment(&p[end + 1..], &s[1..])
        }
        Some('{') => {
            let end = p.iter().position(|c| *c == '}').unwrap();
            p[1..end].split(|c| *c == ',').any(|alt| segment(&[alt, &p[end + 1..]].concat(), s))
        }
        Some(c) => s.first() == Some(c) && segment(&p[1..], &s[1..]),
    }
}

fn segments(p: &[&str], s: &[&str]) -> bool {
    match p.first() {
        None => s.is_empty(),
        // At the end, `**` is everything inside.
        Some(&"**") if p.len() == 1 => !s.is_empty(),
        Some(&"**") => (0..=s.len()).any(|i| segments(&p[1..], &s[i..])),
        Some(x) => !s.is_empty() && segment(&x.chars().collect::<Vec<_>>(), &s[0].chars().collect::<Vec<_>>()) && segments(&p[1..], &s[1..]),
    }
}

/// Does a line of a `.gitignore` match this path?
fn line(pattern: &str, path: &str, is_dir: bool) -> bool {
    let only_dir = pattern.ends_with('/');
    let p = pattern.trim_end_matches('/');
    let anchored = p.contains('/');
    let mut v: Vec<&str> = p.trim_start_matches('/').split('/').collect();
    if !anchored {
        v.insert(0, "**");
    }
    (is_dir || !only_dir) && segments(&v, &path.split('/').collect::<Vec<_>>())
}

fn any_line<'a>(patterns: impl IntoIterator<Item = &'a str> + Clone, path: &str, is_dir: bool) -> bool {
    patterns.into_iter().any(|p| line(p, path, is_dir))
}

/// Does one match the file, or a directory it is in?
fn file_or_parent<'a>(patterns: impl IntoIterator<Item = &'a str> + Clone, path: &str) -> bool {
    let parents = path.match_indices('/').any(|(i, _)| any_line(patterns.clone(), &path[..i], true));
    parents || any_line(patterns, path, false)
}

fn nearest<'a>(c: &'a Case, mut d: &str) -> Option<(&'a str, &'a Config)> {
    loop {
        if let Some((k, v)) = c.configs.get_key_value(d) {
            return Some((k, v));
        }
        if d.is_empty() {
            return None;
        }
        d = dir_of(d);
    }
}

fn inside<'a>(d: &str, f: &'a str) -> Option<&'a str> {
    if d.is_empty() { Some(f) } else { f.strip_prefix(d)?.strip_prefix('/') }
}

impl Config {
    fn excluding(&self, no_default: bool) -> Vec<&str> {
        let d = self.default_exclude.unwrap_or(true) && !no_default;
        self.exclude.iter().flatten().map(String::as_str).chain(DEFAULT.iter().copied().filter(|_| d)).collect()
    }
}

/// Is this file checked? None: not judged.
fn expected(c: &Case, f: &str) -> Option<bool> {
    let explicit = c.paths.iter().any(|(p, _)| p == f);
    let roots: Vec<&str> = c.paths.iter().map(|(p, _)| p.as_str()).filter(|p| inside(p, f).is_some()).collect();
    if !explicit && roots.is_empty() {
        return Some(false);
    }
    let lower = f.to_lowercase();
    let is_r = lower.ends_with(".r") || lower.ends_with(".rmd") || lower.ends_with(".qmd");
    if !explicit && !is_r {
        return Some(false);
    }
    let own = nearest(c, dir_of(f));
    let (passes, certain) = match own {
        Some((d, k)) => {
            let rel = inside(d, f).unwrap();
            let included = k.include.as_ref().is_none_or(|v| v.is_empty() || file_or_parent(v.iter().map(String::as_str), rel));
            (included && !file_or_parent(k.excluding(c.no_default_exclude), rel), true)
        }
        None if c.no_default_exclude => (true, true),
        // As seen from the working directory, and from each path.
        None => {
            let below = |r: &str| file_or_parent(DEFAULT.iter().copied(), inside(r, f).unwrap());
            let here = inside(&c.from, f).map_or(false, |_| below(&c.from));
            let free = !here && !roots.iter().any(|r| below(r));
            (free, free || (roots.iter().all(|r| below(r)) && (here || inside(&c.from, f).is_none())))
        }
    };
    if explicit {
        // What patterns do to a file that is given isn't documented.
        return passes.then_some(true);
    }
    if !certain {
        return None;
    }
    if passes {
        // A directory left out by an outer configuration, which has a configuration of its own.
        for r in &roots {
            let mut a = dir_of(f);
            while a != *r {
                if let Some((d, k)) = nearest(c, dir_of(a))
                    && own.is_none_or(|o| o.0 != d)
                    && any_line(k.excluding(c.no_default_exclude), inside(d, a).unwrap(), true)
                {
                    return None;
                }
                if nearest(c, dir_of(a)).is_none() && own.is_some() && any_line(DEFAULT.iter().copied(), a, true) {
                    return None;
                }
                a = dir_of(a);
            }
        }
    }
    Some(passes)
}

fn check(c: &Case) -> Outcome {
    let t = Tree::new("c31");
    t.mkdir(&c.from);
    for f in &c.files {
        t.put(f, if f.to_lowercase().ends_with("md") { "```{r}\nany(is.na(x))\n```\n" } else { "any(is.na(x))\n" });
    }
    for (d, k) in &c.configs {
        let mut s = "[lint]\n".to_string();
        for (n, v) in [("exclude", &k.exclude), ("include", &k.include)] {
            if let Some(v) = v {
                s += &format!("{n} = {v:?}\n");
            }
        }
        if let Some(b) = k.default_exclude {
            s += &format!("default-exclude = {b}\n");
        }
        t.put(&join(d, "jarl.toml"), s);
    }
    let top = t.root();
    let up: String = if c.from.is_empty() { String::new() } else { c.from.split('/').map(|_| "../").collect() };
    let mut args = vec!["check".to_string(), "--output-format=json".into()];
    for (p, style) in &c.paths {
        args.push(match (style % 4, inside(&c.from, p)) {
            (0, _) => join(&top.to_string_lossy(), p),
            (1, Some(rel)) if !rel.is_empty() => rel.to_string(),
            (2, _) => format!("{up}./x/../{p}"),
            _ if *p == c.from => ".".to_string(),
            _ => format!("{up}{}", if p.is_empty() { "." } else { p }),
        });
    }
    if c.no_default_exclude {
        args.push("--no-default-exclude".into());
    }
    let o = t.jarl(&c.from, &args)?;
    let what = format!("`jarl {}` in {:?}", args.join(" ").replace(&*top.to_string_lossy(), "TOP"), c.from);
    let j: vpkit::serde_json::Value = vpkit::serde_json::from_str(&o.stdout).map_err(|e| Fail::new("no-json", format!("{what}: {e}\n{}", o.show())))?;
    let mut got: BTreeMap<String, usize> = BTreeMap::new();
    for d in j["diagnostics"].as_array().into_iter().flatten() {
        let p = top.join(&c.from).join(d["filename"].as_str().unwrap_or_default());
        let p = std::fs::canonicalize(&p).map_err(|e| Fail::new("no-such-file", format!("{what}: {}: {e}", p.display())))?;
        *got.entry(p.strip_prefix(std::fs::canonicalize(&top).unwrap()).unwrap().to_string_lossy().into_owned()).or_default() += 1;
    }
    let (mut yes, mut no) = (0, 0);
    for f in &c.files {
        let n = got.remove(f).unwrap_or(0);
        ensure!(n < 2, "checked-twice", "{what}: {f} {n} times");
        let by = nearest(c, dir_of(f)).map_or("no configuration".into(), |(d, k)| format!("{d:?} {k:?}"));
        match expected(c, f) {
            None => {}
            Some(true) => {
                ensure_eq!(n, 1, "file-left-out", "{what}: {f}, governed by {by}\n{}", o.stderr);
                yes += 1;
            }
            Some(false) => {
                ensure_eq!(n, 0, "file-too-many", "{what}: {f}, governed by {by}");
                no += c.paths.iter().any(|(p, _)| inside(p, f).is_some()) as usize;
            }
        }
    }
    ensure!(got.is_empty(), "not-a-file", "{what}: {got:?}");
    let used = |g: fn(&Config) -> bool| c.files.iter().any(|f| nearest(c, dir_of(f)).is_some_and(|(_, k)| g(k)));
    Ok(Info::when(yes > 0 && no > 0)
        .label_if(used(|k| k.exclude.is_some()), "exclude")
        .label_if(used(|k| k.include.is_some()), "include")
        .label_if(c.configs.len() > 1, "several configurations")
        .label_if(c.configs.is_empty(), "no configuration")
        .label_if(c.no_default_exclude, "--no-default-exclude")
        .label_if(c.paths.len() > 1, "several paths"))
}

fn pattern() -> BoxedStrategy<String> {
    let d = || select(SEGMENTS);
    let n = || select(NAMES);
    let glob = || select(vec!["*.R", "a*.R", "?b.R", "[ab].R", "*.{Rmd,qmd}", "*", "*b.R", "é.*", "import-*", "*.r", "a?.R"]);
    prop_oneof![
        3 => n().prop_map(String::from),
        3 => glob().prop_map(String::from),
        3 => d().prop_map(|d| format!("{d}/")),
        1 => d().prop_map(String::from),
        2 => n().prop_map(|n| format!("/{n}")),
        2 => d().prop_map(|d| format!("/{d}/")),
        2 => (d(), n()).prop_map(|(d, n)| format!("{d}/{n}")),
        2 => (d(), glob()).prop_map(|(d, g)| format!("{d}/{g}")),
        2 => (d(), glob()).prop_map(|(d, g)| format!("{d}/**/{g}")),
        2 => (d(), glob()).prop_map(|(d, g)| format!("**/{d}/{g}")),
        1 => (d(), d()).prop_map(|(a, b)| format!("{a}/{b}/")),
        1 => (d(), d(), n()).prop_map(|(a, b, n)| format!("{a}/{b}/{n}")),
        1 => d().prop_map(|d| format!("**/{d}/")),
        1 => d().prop_map(|d| format!("{d}/**")),
        1 => (glob(), n()).prop_map(|(g, n)| format!("{}/{n}", g.trim_end_matches(".R"))),
    ]
    .boxed()
}

fn cases() -> impl Strategy<Value = Case> {
    let dir = || vec(select(SEGMENTS), 0..4).prop_map(|v| v.join("/"));
    let config = (option::weighted(0.6, vec(pattern(), 0..3)), option::weighted(0.3, vec(pattern(), 0..3)), option::weighted(0.25, any::<bool>()))
        .prop_map(|(exclude, include, default_exclude)| Config { exclude, include, default_exclude });
    (
        vec(dir(), 1..5),
        vec((any::<usize>(), select(NAMES)), 2..14),
        vec((any::<usize>(), config), 0..4),
        vec((any::<usize>(), 0..10u8, any::<u8>()), 1..4),
        any::<usize>(),
        prop::bool::weighted(0.15),
    )
        .prop_map(|(dirs, names, configs, paths, from, no_default_exclude)| {
            let mut all: BTreeSet<String> = BTreeSet::from([String::new()]);
            for d in &dirs {
                let mut d = d.as_str();
                while !d.is_empty() {
                    all.insert(d.to_string());
                    d = dir_of(d);
                }
            }
            let all: Vec<String> = all.into_iter().collect();
            let files: BTreeSet<String> = names.into_iter().map(|(i, n)| join(&all[i % all.len()], n)).filter(|f| !all.contains(f)).collect();
            let files: Vec<String> = files.into_iter().collect();
            let mut all_dirs: Vec<String> = vec![];
            for f in &files {
                let mut d = dir_of(f);
                loop {
                    all_dirs.push(d.to_string());
                    if d.is_empty() {
                        break;
                    }
                    d = dir_of(d);
                }
            }
            all_dirs.push(String::new());
            all_dirs.sort();
            all_dirs.dedup();
            let pick = |i: usize| all_dirs[i % all_dirs.len()].clone();
            let paths = paths
                .into_iter()
                .map(|(i, kind, style)| match kind {
                    0..4 => (String::new(), style),
                    4..8 => (pick(i), style),
                    _ if files.is_empty() => (String::new(), style),
                    _ => (files[i % files.len()].clone(), style),
                })
                .collect();
            let from = if from % 3 == 0 { pick(from / 3) } else { String::new() };
            Case { configs: configs.into_iter().map(|(i, c)| (pick(i), c)).collect(), paths, from, no_default_exclude, files }
        })
}

pub fn c31() -> ExitCode {
    let mut ck = Check::new("C31");
    ck.assume("the directory walker and its pattern matcher are stand-ins written from the documentation of the `ignore` crate; the oracle has a matcher of its own");
    ck.assume("not judged: given files that a pattern matches, directories left out by an outer configuration that have a configuration of their own, hidden and git-ignored files");
    ck.prop("found", "some files below the paths are checked and some are not", 3000, 60000, cases, check);
    ck.finish()
}
