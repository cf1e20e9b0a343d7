//! C28: the same files and options give the same answer, whatever the scheduling.

use crate::run::Tree;
use crate::world;
use std::collections::BTreeMap;
use std::process::ExitCode;
use vpkit::proptest::collection::vec;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::{select, subsequence};
use vpkit::{Check, Info, Outcome, ensure_eq};

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    files: BTreeMap<String, String>,
    /// directory, contents of its jarl.toml
    configs: BTreeMap<String, String>,
    package: bool,
    args: Vec<String>,
    paths: Vec<String>,
    /// how the runs differ: seeds of the walker and of the order of the paths
    seeds: Vec<u64>,
    from: String,
}

fn shuffled(v: &[String], mut seed: u64) -> Vec<String> {
    let mut v = v.to_vec();
    for i in (1..v.len()).rev() {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.swap(i, (seed >> 33) as usize % (i + 1));
    }
    v
}

fn check(c: &Case) -> Outcome {
    let mut first: Option<(String, BTreeMap<String, Vec<u8>>)> = None;
    let mut several = false;
    for (i, seed) in c.seeds.iter().enumerate() {
        let t = Tree::new("c28");
        t.mkdir(&c.from);
        for (n, x) in &c.files {
            t.put(n, x);
        }
        for (d, x) in &c.configs {
            t.put(&format!("{d}/jarl.toml"), x);
        }
        if c.package {
            t.put("DESCRIPTION", "Package: p\nVersion: 0.0.1\n");
            t.put("NAMESPACE", "export(f1)\n");
        }
        let up = if c.from.is_empty() { "" } else { "../" };
        let mut args = vec!["check".to_string()];
        // The first and the second run give the same command line.
        let paths = if i < 2 { c.paths.clone() } else { shuffled(&c.paths, *seed) };
        args.extend(paths.iter().map(|p| if p.is_empty() { format!("{up}.") } else { format!("{up}./{p}") }));
        args.extend(c.args.iter().cloned());
        let o = t.jarl_env(&c.from, &args, &[("VP_WALK_SEED", &seed.to_string())])?;
        let root = t.root().to_string_lossy().into_owned();
        several |= !o.stderr.contains("jarl failed") && !o.stdout.contains("All checks passed") && o.stdout.lines().count() + o.stderr.lines().count() > 3;
        let text = format!("exit {:?} {:?}\n{}\n{}", o.code, o.signal, o.stdout, o.stderr).replace(&root, "ROOT");
        let now = (text, t.files());
        match &first {
            None => first = Some(now),
            Some(f) => {
                let how = if i < 2 { "run-again" } else { "paths-in-another-order" };
                // Of several invalid configurations, the one met first is reported.
                if i >= 2 && f.0.contains("jarl failed") && now.0.contains("jarl failed") {
                    continue;
                }
                ensure_eq!(&now.0, &f.0, how, "output of `jarl {}`", args.join(" "));
                ensure_eq!(&now.1, &f.1, how, "files after `jarl {}`", args.join(" "));
            }
        }
    }
    Ok(Info::when(several)
        .label_if(c.configs.len() > 1, "several configurations")
        .label_if(c.package, "package")
        .label_if(c.paths.len() > 1, "several paths")
        .label_if(c.args.iter().any(|a| a == "--fix"), "fixing")
        .label_if(c.args.iter().any(|a| a.starts_with("--add-jarl-ignore")), "adding suppressions"))
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        5 => vec(select(vec!["any(is.na(x))", "g(b = 1, a = 1, c = 1, a = 2, c = 2, b = 2)", "x == NA", "any(duplicated(x))", "f1 <- function() 1", "f2 <- function(x) f3(x)", "f3 <- function(x) f1()", "f4 <- function() NULL", "f1 <- 2", "class(x) == 'a'", "y = 1", "for (i in 1:length(x)) {}", "T", "while (TRUE) {}"]), 0..5).prop_map(|v| v.join("\n") + "\n"),
        1 => world::code(true),
        1 => world::broken(),
    ]
    .boxed()
}

fn cases() -> impl Strategy<Value = Case> {
    const DIRS: &[&str] = &["", "R", "sub", "sub/deep", "p", "p/R"];
    const BASE: &[&str] = &["a.R", "b.R", "c.R", "d.Rmd"];
    let file = (select(DIRS), select(BASE), text()).prop_map(|(d, n, t)| {
        let t = if n.ends_with("Rmd") { world::doc(&[t]) } else { t };
        ([d, n].iter().filter(|s| !s.is_empty()).copied().collect::<Vec<_>>().join("/"), t)
    });
    let valid = select(vec![
        "[lint]\n", "[lint]\nextend-select = ['ALL']\n", "[lint]\nselect = ['any_is_na', 'unused_function', 'duplicated_function_definition']\n", "[lint]\nassignment = '='\n", "[lint]\nignore = ['any_is_na']\n", "[lint]\nselect = ['browser', 'equals_na']\n", "[lint]\nexclude = ['a.R']\n",
    ]);
    let config = prop_oneof![12 => valid, 1 => select(vec![
        "[lint]\nignore = ['unknown1']\n", "[lint]\nunknown = 1\nother = 2\nthird = 3\n", "[lint]\nselect = ['a1', 'b1']\n", 
    ])];
    let args = (
        prop_oneof![
            3 => Just(vec![]), 2 => Just(vec!["--output-format=json"]), 2 => Just(vec!["--output-format=concise"]), 1 => Just(vec!["--output-format=github"]), 3 => Just(vec!["--statistics"]),
            2 => Just(vec!["--fix", "--allow-no-vcs"]), 1 => Just(vec!["--fix", "--unsafe-fixes", "--allow-no-vcs"]), 1 => Just(vec!["--fix"]), 2 => Just(vec!["--add-jarl-ignore"]),
        ],
        prop_oneof![8 => Just(""), 8 => Just("--select=ALL"), 4 => Just("--extend-select=unused_function,duplicated_function_definition"), 4 => Just("--assignment=="), 1 => Just("--select=zzz1,zzz2")],
    )
        .prop_map(|(a, s)| a.into_iter().chain(Some(s).filter(|s| !s.is_empty())).map(String::from).collect::<Vec<_>>());
    let paths = prop_oneof![2 => Just(vec![String::new()]), 3 => subsequence(vec!["", "R", "sub", "sub/deep", "p", "p/R", "a.R", "sub/a.R", "b.R"], 1..6).prop_map(|v| v.into_iter().map(String::from).collect())];
    (
        vec(file, 1..10).prop_map(|v| v.into_iter().collect()),
        prop_oneof![2 => Just(BTreeMap::new()), 3 => vec((select(DIRS), config), 1..4).prop_map(|v| v.into_iter().map(|(d, c)| (d.to_string(), c.to_string())).collect())],
        prop::bool::weighted(0.4),
        args,
        paths,
        vec(any::<u64>(), 3..6),
        select(vec!["", "", "R", "elsewhere"]).prop_map(String::from),
    )
        .prop_map(|(files, configs, package, args, paths, seeds, from)| Case { files, configs, package, args, paths, seeds, from })
}

pub fn c28() -> ExitCode {
    let mut ck = Check::new("C28");
    ck.assume("the directory walker and the thread pool are stand-ins: the walker gives its entries in an order drawn from a seed, the pool gives its results in the order of its input like rayon's indexed iterators");
    ck.prop(
        "scheduling",
        "there is something to report",
        1500,
        30000,
        cases,
        check,
    );
    ck.finish()
}
