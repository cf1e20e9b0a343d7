//! C36: cross-file checks of packages against a model of what was written.

use crate::lint::{D, config, plain};
use jarl_core::check::get_checks;
use jarl_core::config::Config;
use jarl_core::package::compute_package_analysis;
use jarl_core::rule_options::unused_function::{ResolvedUnusedFunctionOptions, UnusedFunctionOptions};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::process::ExitCode;
use vpgen::crlf;
use vpkit::proptest::collection::vec;
use vpkit::proptest::prelude::*;
use vpkit::{Check, Fail, Info, Outcome, Scratch, ensure};

const NAMES: [&str; 18] = ["foo", "foo2", "bar_x", "été", "fooé", "alpha", "Beta", "run_all", "fo", "foo.bar", "new.cls", ".hidden", ".onLoad", "on_load", "long_name_1", "Beta.x.y", "日本", "x1"];
const HOOKS: [&str; 7] = [".onLoad", "on_load", ".onAttach", ".onDetach", ".onUnload", ".Last.lib", ".First.lib"];
const PLACES: [&str; 15] = ["R", "R", "R", "R", "R", "R/unix", "tests", "tests/testthat", "tests/testthat/src", "inst/tinytest", "inst/tests", "inst/tests/R", "src", "src/lib", "vignettes"];
const R_FILES: [&str; 8] = ["a.R", "b.R", "B.R", "aa.r", "zzz.R", "a-1.R", "é.R", "AllGenerics.R"];
const C_FILES: [&str; 8] = ["a.c", "b.cpp", "c.h", "d.cc", "e.hpp", "f.c", "init.c", "g.cxx"];
const SKIPS: [&[&str]; 6] = [&[], &[], &[], &["^foo"], &["2$", "^B"], &["^zz", "_"]];
/// Where the packages are. The second one may be in the first.
const PARENTS: [&str; 8] = ["p", "src/p", "tests/p", "inst/tests/p", "R/p", "a b/é", "p/tests/testthat/inner", "p/inst/other/inner"];

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Item {
    /// A definition, the way it is written, a name used in it.
    Def(usize, usize, Option<usize>),
    Use(usize, usize),
    /// A comment of its own line.
    Comment(usize),
    /// Neither a top-level definition nor a use.
    Mention(usize, usize),
    Noise(usize),
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct File {
    place: usize,
    name: usize,
    items: Vec<Item>,
    crlf: bool,
    /// 1: in another encoding, 2: does not parse.
    odd: usize,
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Pkg {
    parent: usize,
    files: Vec<File>,
    exports: Vec<(usize, usize)>,
    decoys: Vec<(usize, usize)>,
    description: bool,
    namespace: bool,
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    pkgs: Vec<Pkg>,
    skip: usize,
    order: Vec<usize>,
    drop: Vec<bool>,
}

/// The text of a file and the lines (from 0) of its definitions.
struct Text {
    text: String,
    defs: Vec<(usize, usize)>,
    uses: BTreeSet<usize>,
    mentions: BTreeSet<usize>,
}

fn render(f: &File, c: bool) -> Text {
    let (mut t, mut defs, mut uses, mut mentions) = (String::new(), vec![], BTreeSet::new(), BTreeSet::new());
    for item in &f.items {
        let at = t.matches('\n').count();
        match item {
            Item::Use(n, w) if c => {
                let x = NAMES[*n];
                uses.insert(*n);
                t += &match w % 4 {
                    0 => format!("  call = Rf_lang1(Rf_install(\"{x}\"));\n"),
                    1 => format!("#define HELPER \"{x}\"\n"),
                    2 => format!("  Function f = ns[\"{x}\"];\n"),
                    _ => format!("# define {}(q) eval_r(\"{x}(q)\")\n", "ZZ"),
                };
            }
            _ if c => t += "static int zz = 1;\n",
            Item::Def(n, w, u) => {
                let x = NAMES[*n];
                defs.push((*n, at));
                let u = u.map(|u| {
                    uses.insert(u);
                    NAMES[u]
                });
                let b = u.map_or("qq + 1".into(), |u| format!("{u}(qq)"));
                t += &match w % 8 {
                    0 => format!("{x} <- function(qq) {b}\n"),
                    1 => format!("{x} <- function(qq) {{\n  {b}\n}}\n"),
                    2 => format!("{x} = function(qq) {b}\n"),
                    3 => format!("{x} <- \\(qq) {b}\n"),
                    4 => format!("{x}<-function (qq,\n  zz = {{\n1 }}) {{\n  if (qq) {{\n{b}\n}} else \"}}\"\n}}\n"),
                    5 => format!("{x}   <-   function(qq) {{ # {{ \"\n  zz <- '#'\n  {b}\n}}\n"),
                    6 => format!("{x} <- function(qq = r\"(\\)\", zz = \"\\\"\") {b}\n"),
                    _ => format!("{x} <- function() {{ qq <- \"'\"; {b} }}\n"),
                };
            }
            Item::Use(n, w) => {
                let x = NAMES[*n];
                uses.insert(*n);
                t += &match w % 14 {
                    0 => format!("{x}()\n"),
                    1 => format!("qq <- lapply(zz, {x})\n"),
                    2 => format!("do.call(\"{x}\", list())\n"),
                    3 => format!("`{x}`(1)\n"),
                    4 => format!("pkg:::{x}(1)\n"),
                    5 => format!("match.fun('{x}')\n"),
                    6 => format!("zz |> {x}()\n"),
                    7 => format!("if (qq) {{\n  {x}()\n}}\n"),
                    8 => format!("#' \\Sexpr{{pkg:::{x}(qq)}}\n"),
                    9 => format!("glue(\"zz {{{x}(qq)}} zz\")\n"),
                    10 => format!("qq <- \"zz\n{x}(1)\n\"\n"),
                    11 => format!("qq$zz <- function(zz) {x}(zz)\n"),
                    12 => format!("zz({x}=1, {x})\n"),
                    _ => format!("~{x}(.zz)\n"),
                };
            }
            Item::Comment(n) => t += &format!("{}# see {}()\n", if n % 2 == 0 { "" } else { "  " }, NAMES[*n]),
            Item::Mention(n, w) => {
                let x = NAMES[*n];
                mentions.insert(*n);
                t += &match w % 9 {
                    0 => format!("{x} <- 3\n"),
                    1 => format!("local({{\n  {x} <- function() 1\n}})\n"),
                    2 => format!("if (qq) {{\n{x} <- function() 1\n}}\n"),
                    3 => format!("qq <- \"\n{x} <- function() 1\n\"\n"),
                    4 => format!("qq <- r\"---(\n{x} = function() 1 \" )\"\n{x} <- function() 1\n)---\"\n"),
                    5 => format!("qq <- list(\n{x} = function() 1\n)\n"),
                    6 => format!("qq # {x}\n"),
                    7 => format!("{x} <- functional(1)\n"),
                    _ => format!("{x}$zz <- function() 1\n"),
                };
            }
            Item::Noise(w) => {
                t += ["\n", "qq <- 1\n", "# {\n", "zz <- '\\'{'\n", "qq <- c(1, # (\n 2)\n", "zz[[1]]\n", "`a{b` <- 1\n", "qq == function() 1\n", "#' @export\n", "r <- \"(\"\n"][w % 10];
            }
        }
    }
    match f.odd {
        2 if !c => t += "}\n",
        _ => (),
    }
    if f.crlf {
        t = crlf(&t);
    }
    Text { text: t, defs, uses, mentions }
}

fn exported(n: usize, w: usize) -> String {
    let x = NAMES[n];
    let re = x.replace('.', "\\\\.");
    match w % 18 {
        0 => format!("export({x})\n"),
        1 => format!("export(\"{x}\")\n"),
        2 => format!("export(`{x}`)\n"),
        3 => format!("export(\n  zz,\n  {x}\n)\n"),
        4 => format!("export(zz1); export({x})\n"),
        5 => format!("export({x}) # (zz)\n"),
        6 => format!("if (getRversion() >= \"4.0.0\") export({x})\n"),
        7 => format!("if (TRUE) {{\n  export(zz, {x})\n}}\n"),
        8 => format!("exportPattern(\"^{re}$\")\n"),
        9 => format!("exportPattern(\"^zz\", '^{re}$')\n"),
        10 => format!("S3method(print, zz, {x})\n"),
        11 => format!("S3method(\n  \"print\",\n  \"zz\", {x}\n)\n"),
        12 => match x.split_once('.') {
            Some((g, c)) if !g.is_empty() => format!("S3method({g}, {c})\n"),
            _ => format!("exportMethods({x})\n"),
        },
        13 => match x.rsplit_once('.') {
            Some((g, c)) if !g.is_empty() => format!("S3method(pkg::{g},\"{c}\")\n"),
            _ => format!("export( {x} , zz )\n"),
        },
        14 => format!("export(zz,\n# a comment (\n'{x}')\n"),
        15 => format!("export(zz1, {x}, zz2) ; importFrom(zz, qq)\n"),
        16 => format!("export (zz, {x})\n"),
        _ => format!("exportPattern(\"^[^\\\\W]*{re}$\")\n"),
    }
}

/// What does not export `n`.
fn decoy(n: usize, w: usize) -> String {
    let x = NAMES[n];
    match w % 7 {
        0 => format!("# export({x})\n"),
        1 => format!("importFrom(zz, {x})\n"),
        2 => format!("export({x}zz)\n"),
        3 => format!("  # exportPattern(\"{x}\")\n"),
        4 => format!("exportPattern(\"^{x}zz$\")\n"),
        5 => format!("export(zz) # export({x})\n"),
        _ => format!("S3method({x}zz, zz, zz{x})\n"),
    }
}

struct Written {
    path: PathBuf,
    file: File,
    pkg: usize,
    text: Text,
    c: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Scope {
    R,
    Tests,
    Inst,
    Src,
    Out,
}

fn scope(place: &str) -> Scope {
    match place {
        "R" | "R/unix" => Scope::R,
        "tests" | "tests/testthat" | "tests/testthat/src" => Scope::Tests,
        "inst/tinytest" | "inst/tests" | "inst/tests/R" => Scope::Inst,
        "src" | "src/lib" => Scope::Src,
        _ => Scope::Out,
    }
}

fn diagnostics(w: &Written, c: &Config, a: &jarl_core::package::PackageAnalysis) -> Result<Vec<D>, Fail> {
    match get_checks(&w.text.text, &w.path, c, a) {
        Ok(ds) => Ok(ds.iter().map(plain).filter(|d| d.rule == "unused_function" || d.rule == "duplicated_function_definition").collect()),
        Err(e) => Err(Fail::new("failed", format!("{}: {e:#}", w.path.display()))),
    }
}

fn look(case: &Case) -> Outcome {
    let s = Scratch::new("c36");
    let mut files: Vec<Written> = vec![];
    let mut roots = vec![];
    for (k, p) in case.pkgs.iter().enumerate() {
        // The second package is never where the first is.
        let parent = match (k, PARENTS[p.parent % PARENTS.len()]) {
            (0, x) if x.contains("inner") => "p",
            (1, x) if roots.contains(&s.path().join(x)) => "q",
            (_, x) => x,
        };
        let root = s.path().join(parent);
        roots.push(root.clone());
        std::fs::create_dir_all(&root).unwrap();
        if p.description || parent.contains("inner") {
            std::fs::write(root.join("DESCRIPTION"), "Package: p\n").unwrap();
        }
        if p.namespace {
            let mut ns = String::from("# Generated\n\n");
            for i in 0..p.exports.len().max(p.decoys.len()) {
                ns += &p.decoys.get(i).map_or(String::new(), |(n, w)| decoy(*n, *w));
                ns += &p.exports.get(i).map_or(String::new(), |(n, w)| exported(*n, *w));
            }
            std::fs::write(root.join("NAMESPACE"), ns).unwrap();
        }
        for f in &p.files {
            let place = PLACES[f.place % PLACES.len()];
            let c = place.starts_with("src");
            let name = if c { C_FILES[f.name % C_FILES.len()] } else { R_FILES[f.name % R_FILES.len()] };
            let path = root.join(place).join(name);
            if files.iter().any(|w| w.path == path) {
                continue;
            }
            let text = render(f, c);
            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
            let mut bytes = text.text.clone().into_bytes();
            if f.odd == 1 {
                bytes.extend(b"# caf\xe9 \xff\n");
            }
            std::fs::write(&path, &bytes).unwrap();
            files.push(Written { path, file: f.clone(), pkg: k, text, c });
        }
    }
    let is_package = |k: usize| case.pkgs[k].description || roots[k].to_str().unwrap().contains("inner");
    let place = |w: &Written| PLACES[w.file.place % PLACES.len()];
    let mut c = config("unused_function,duplicated_function_definition");
    let skips: Vec<String> = SKIPS[case.skip % SKIPS.len()].iter().map(|x| x.to_string()).collect();
    c.rule_options.unused_function = ResolvedUnusedFunctionOptions::resolve(Some(&UnusedFunctionOptions { threshold_ignore: None, skipped_functions: Some(skips) })).unwrap();
    let skipped = |x: &str| match case.skip % SKIPS.len() {
        3 => x.starts_with("foo"),
        4 => x.ends_with('2') || x.starts_with('B'),
        5 => x.starts_with("zz") || x.contains('_'),
        _ => false,
    };

    // The linted files, in some order.
    let mut lint: Vec<usize> = (0..files.len()).filter(|i| !files[*i].c).collect();
    for (i, o) in case.order.iter().enumerate() {
        if !lint.is_empty() {
            let n = lint.len();
            lint.swap(i % n, o % n);
        }
    }
    let all: Vec<PathBuf> = lint.iter().map(|i| files[*i].path.clone()).collect();
    let analysis = compute_package_analysis(&all, &c);
    let mut got: BTreeMap<usize, Vec<D>> = BTreeMap::new();
    for &i in &lint {
        if files[i].file.odd == 0 {
            let mut d = diagnostics(&files[i], &c, &analysis)?;
            d.sort();
            got.insert(i, d);
        }
    }

    // What the model says: must, may.
    let (mut reports, mut judged) = (0, 0);
    for (&i, ds) in &got {
        let w = &files[i];
        let r_dir = roots[w.pkg].join("R");
        let pkg = &case.pkgs[w.pkg];
        let offset = |line: usize| w.text.text.split_inclusive('\n').take(line).map(str::len).sum::<usize>();
        // Definitions of a package, in order.
        let defs: Vec<(usize, usize, usize)> = {
            let mut fs: Vec<usize> = (0..files.len()).filter(|j| files[*j].path.parent() == Some(&r_dir)).collect();
            fs.sort_by(|a, b| files[*a].path.cmp(&files[*b].path));
            fs.iter().flat_map(|j| files[*j].text.defs.iter().map(|(n, l)| (*j, *n, *l))).collect()
        };
        let in_r = w.path.parent() == Some(&r_dir) && is_package(w.pkg);
        let mut want_dup = vec![];
        for (at, (j, n, l)) in defs.iter().enumerate() {
            if *j == i && in_r && let Some((fj, _, fl)) = defs[..at].iter().find(|d| d.1 == *n) {
                let help = format!("Other definition at {}:{}:1", files[*fj].path.display(), fl + 1);
                want_dup.push((offset(*l), offset(*l) + NAMES[*n].len(), format!("`{}` is defined more than once in this package.", NAMES[*n]), Some(help)));
            }
        }
        want_dup.sort();
        let got_dup: Vec<_> = ds.iter().filter(|d| d.rule != "unused_function").map(|d| (d.start, d.end, d.body.clone(), d.help.clone())).collect();
        reports += want_dup.len();
        ensure!(got_dup == want_dup, if got_dup.len() > want_dup.len() { "duplicate-too-many" } else { "duplicate" }, "{}: reported {got_dup:?}, expected {want_dup:?}\n{}", w.path.display(), w.text.text);

        let unused: Vec<&D> = ds.iter().filter(|d| d.rule == "unused_function").collect();
        let sc = scope(place(w));
        let nested = |other: &Written| other.pkg != w.pkg && files[i].path.starts_with(&roots[w.pkg]) && other.path.starts_with(&roots[w.pkg]) && !roots[w.pkg].starts_with(&roots[other.pkg]);
        let mut seen = BTreeSet::new();
        for (n, l) in &w.text.defs {
            let x = NAMES[*n];
            let here: Vec<&&D> = unused.iter().filter(|d| d.start == offset(*l) && d.end == offset(*l) + x.len()).collect();
            seen.insert(offset(*l));
            let mine = |o: &&Written| o.pkg == w.pkg && match sc {
                Scope::R => scope(place(o)) != Scope::Out,
                _ => scope(place(o)) == sc,
            };
            let used = files.iter().filter(mine).any(|o| o.text.uses.contains(n));
            let exported = pkg.exports.iter().any(|(e, w)| e == n || (w % 18 == 17 && NAMES[*n].ends_with(NAMES[*e])));
            let quiet = !is_package(w.pkg) || !pkg.namespace || place(w) == "R/unix" || matches!(sc, Scope::Out | Scope::Src) || skipped(x) || used || (sc == Scope::R && (exported || HOOKS.contains(&x)));
            if quiet {
                let why = if used { "used" } else if exported { "exported" } else { "not-subject" };
                ensure!(here.is_empty(), why, "`{x}` is reported in {} although {why}: {here:?}", w.path.display());
                judged += used as usize + exported as usize;
                continue;
            }
            // Reported for sure if nothing else in the package has the name.
            let mentioned = files.iter().any(|o| (o.pkg == w.pkg || nested(o)) && {
                let all = o.text.uses.contains(n) || o.text.mentions.contains(n);
                let def = o.text.defs.iter().any(|d| d.0 == *n) && (o.pkg != w.pkg || scope(place(o)) != sc || place(o) == "R/unix");
                all || def
            });
            // Possible methods of a generic.
            let generic = sc == Scope::R && x.match_indices('.').any(|(p, _)| p > 0 && files.iter().any(|o| o.text.text.contains(&x[..p])));
            let no_r = !files.iter().any(|o| o.pkg == w.pkg && o.path.parent() == Some(&r_dir));
            if mentioned || generic || no_r {
                continue;
            }
            judged += 1;
            reports += 1;
            ensure!(here.len() == 1, "not-reported", "`{x}` at line {} of {} is used nowhere, but reported {} times\n{}", l + 1, w.path.display(), here.len(), w.text.text);
            let place = match sc {
                Scope::R => String::new(),
                Scope::Tests => " in tests/".into(),
                _ => format!(" in inst/{}/", if place(w).contains("tiny") { "tinytest" } else { "tests" }),
            };
            let help = format!("Defined at {}:{}:1 but never called{place}", w.path.display(), l + 1);
            ensure!(here[0].help.as_deref() == Some(&help), "help", "the help is {:?}, expected {help:?}", here[0].help);
        }
        for d in unused {
            ensure!(seen.contains(&d.start), "not-a-definition", "{d:?} is not at a definition of {}\n{}", w.path.display(), w.text.text);
        }
    }

    // Neither the order nor the selection of the files matters.
    let again: Vec<usize> = lint.iter().rev().copied().enumerate().filter(|(k, _)| !case.drop.get(*k).copied().unwrap_or(false)).map(|x| x.1).collect();
    let paths: Vec<PathBuf> = again.iter().map(|i| files[*i].path.clone()).collect();
    let analysis = compute_package_analysis(&paths, &c);
    for i in again.iter().filter(|i| files[**i].file.odd == 0) {
        let mut d = diagnostics(&files[*i], &c, &analysis)?;
        d.sort();
        ensure!(d == got[i], "selection", "{} alone or in another order: {d:?}, before {:?}", files[*i].path.display(), got[i]);
    }
    Ok(Info::when(reports > 0 && judged > 1).label(if reports > 3 { "many reports" } else if reports > 0 { "reports" } else { "none" }).label_if(case.pkgs.len() > 1, "two packages").label_if(again.len() < lint.len(), "selection"))
}

fn item() -> impl Strategy<Value = Item> {
    let n = || 0..NAMES.len();
    prop_oneof![
        5 => (n(), 0..8usize, vpkit::proptest::option::weighted(0.25, n())).prop_map(|(a, b, c)| Item::Def(a, b, c)),
        2 => (n(), 0..56usize).prop_map(|(a, b)| Item::Use(a, b)),
        1 => n().prop_map(Item::Comment),
        1 => (n(), 0..9usize).prop_map(|(a, b)| Item::Mention(a, b)),
        1 => (0..10usize).prop_map(Item::Noise),
    ]
}

fn case() -> impl Strategy<Value = Case> {
    let file = (0..PLACES.len(), 0..8usize, vec(item(), 0..5), any::<bool>(), prop_oneof![8 => Just(0usize), 1 => Just(1), 1 => Just(2)]).prop_map(|(place, name, items, crlf, odd)| File { place, name, items, crlf, odd });
    let pkg = (0..PARENTS.len(), vec(file, 1..7), vec((0..NAMES.len(), 0..18usize), 0..4), vec((0..NAMES.len(), 0..7usize), 0..3), prop::bool::weighted(0.93), prop::bool::weighted(0.93)).prop_map(|(parent, files, exports, decoys, description, namespace)| Pkg { parent, files, exports, decoys, description, namespace });
    (vec(pkg, 1..=2), 0..SKIPS.len(), vec(0..40usize, 0..12), vec(any::<bool>(), 0..12)).prop_map(|(pkgs, skip, order, drop)| Case { pkgs, skip, order, drop })
}

pub fn run() -> ExitCode {
    let mut ck = Check::new("C36");
    ck.assume("definitions are written as the scanner documents: at the start of a line, `function` or `\\` on the line of the assignment");
    ck.assume("reports of names that occur in the package only outside of uses (another scope's definitions, local variables, trailing comments) are not judged, nor those of possible S3 methods");
    ck.prop("packages", "reports were expected and more than one function judged", 16000, 400000, case, look);
    ck.finish()
}
