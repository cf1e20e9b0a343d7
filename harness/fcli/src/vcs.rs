//! C32: fixing is refused, as a whole, where version control could not bring the files back.

use crate::run::Tree;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::ExitCode;
use vpkit::proptest::collection::vec;
use vpkit::proptest::option;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;
use vpkit::{Check, Info, Outcome, ensure, ensure_eq};

const ZONES: &[&str] = &["", "p", "p/q", "s", "s/t"];
/// A linked work tree of the repository of `p`.
const LINKED: &str = "wt";

#[derive(Clone, Debug, PartialEq, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Dirt {
    Modified,
    Staged,
    Untracked,
    UntrackedOther,
    Deleted,
    OtherModified,
    StagedThenBack,
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Zone {
    repo: bool,
    dirt: Option<Dirt>,
    config: Option<String>,
    /// `.gitignore`
    ignored: Option<String>,
    linked_file: Option<usize>,
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    zones: Vec<Zone>,
    /// the linked work tree, and whether something is uncommitted in it
    linked: Option<Option<Dirt>>,
    paths: Vec<usize>,
    all: bool,
    from: usize,
    allow_dirty: bool,
    allow_no_vcs: bool,
    args: Vec<String>,
}

const BAD: &str = "any(is.na(x))\n";

fn join(d: &str, n: &str) -> String {
    if d.is_empty() { n.to_string() } else { format!("{d}/{n}") }
}

fn soil(t: &Tree, d: &str, dirt: &Option<Dirt>) -> Result<(), vpkit::Fail> {
    match dirt {
        None => {}
        Some(Dirt::Modified) => t.put(&join(d, "a.R"), format!("{BAD}y\n")),
        Some(Dirt::Staged) => {
            t.put(&join(d, "a.R"), format!("{BAD}y\n"));
            t.git(d, &["add", "-f", "a.R"])?;
        }
        Some(Dirt::StagedThenBack) => {
            let was = t.get(&join(d, "a.R"));
            t.put(&join(d, "a.R"), format!("{BAD}y\n"));
            t.git(d, &["add", "-f", "a.R"])?;
            t.put(&join(d, "a.R"), was);
        }
        Some(Dirt::Untracked) => t.put(&join(d, "new.R"), BAD),
        Some(Dirt::UntrackedOther) => t.put(&join(d, "x/y/new.txt"), "a\n"),
        Some(Dirt::Deleted) => std::fs::remove_file(t.root().join(d).join("notes.txt")).unwrap(),
        Some(Dirt::OtherModified) => t.put(&join(d, "notes.txt"), "changed\n"),
    }
    Ok(())
}

/// The repository a file is in.
fn repo_of(p: &Path, top: &Path) -> Option<PathBuf> {
    p.ancestors().skip(1).take_while(|a| a.starts_with(top)).find(|a| a.join(".git").exists()).map(Path::to_path_buf)
}

fn check(c: &Case) -> Outcome {
    let t = Tree::new("c32");
    let top = std::fs::canonicalize(t.root()).unwrap();
    for (d, z) in ZONES.iter().zip(&c.zones) {
        for n in ["a.R", "b.R", "doc.Rmd", "notes.txt", "gen/g.R"] {
            let x = if n == "doc.Rmd" { format!("```{{r}}\n{BAD}```\n") } else { BAD.to_string() };
            t.put(&join(d, n), x);
        }
        if let Some(x) = &z.config {
            t.put(&join(d, "jarl.toml"), x);
        }
        if let Some(x) = &z.ignored {
            t.put(&join(d, ".gitignore"), x);
        }
        if let Some(k) = z.linked_file {
            let to = t.root().join(ZONES[k]).join("b.R");
            std::os::unix::fs::symlink(to, t.root().join(d).join("link.R")).unwrap();
        }
    }
    // Inner repositories first, so that the outer ones record them.
    for (d, z) in ZONES.iter().zip(&c.zones).rev() {
        if z.repo {
            t.git(d, &["init", "-q"])?;
            t.git(d, &["-c", "advice.addEmbeddedRepo=false", "add", "-A"])?;
            t.git(d, &["commit", "-q", "--no-verify", "-m", "all"])?;
        }
    }
    let linked = c.linked.as_ref().filter(|_| c.zones[1].repo);
    if let Some(dirt) = linked {
        t.git("p", &["worktree", "add", "-q", "-f", "--detach", &t.root().join(LINKED).to_string_lossy()])?;
        soil(&t, LINKED, dirt)?;
    }
    for (d, z) in ZONES.iter().zip(&c.zones) {
        soil(&t, d, &z.dirt.clone().filter(|x| z.repo || matches!(x, Dirt::Modified | Dirt::Untracked)))?;
    }
    // The command line.
    let from = ZONES[c.from % ZONES.len()];
    let mut given: Vec<String> = vec![];
    for i in &c.paths {
        let dirs: Vec<&str> = ZONES.iter().copied().chain(linked.map(|_| LINKED)).collect();
        let d = dirs[i % dirs.len()];
        match (i / dirs.len()) % 4 {
            0 => given.push(top.join(d).to_string_lossy().into_owned()),
            1 => given.push(top.join(d).join("a.R").to_string_lossy().into_owned()),
            2 => given.push(top.join(d).join("gen/g.R").to_string_lossy().into_owned()),
            _ => given.push(top.join(d).join(if top.join(d).join("link.R").exists() { "link.R" } else { "b.R" }).to_string_lossy().into_owned()),
        }
    }
    if c.all || given.is_empty() {
        given.push(".".into());
    }
    let mut args = vec!["check".to_string()];
    args.extend(given);
    args.push("--select=any_is_na".into());
    // Which files this is about.
    let o = t.jarl(from, &[&args[..], &["--output-format=json".to_string()]].concat())?;
    let j: vpkit::serde_json::Value = match vpkit::serde_json::from_str(&o.stdout) {
        Ok(j) => j,
        Err(_) => return Ok(Info::trivial()),
    };
    let mut files = BTreeSet::new();
    for d in j["diagnostics"].as_array().into_iter().flatten() {
        let p = t.root().join(from).join(d["filename"].as_str().unwrap_or_default());
        files.insert(std::fs::canonicalize(&p).map_err(|e| vpkit::Fail::new("no-such-file", format!("{}: {e}", p.display())))?);
    }
    if files.is_empty() {
        return Ok(Info::trivial());
    }
    let git = |d: &Path, args: &[&str]| {
        let o = std::process::Command::new("git").args(["-c", "safe.directory=*"]).arg("-C").arg(d).args(args).env("GIT_OPTIONAL_LOCKS", "0").output().expect("git");
        (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned())
    };
    let (mut outside, mut ignored, mut repos) = (false, false, BTreeSet::new());
    for f in &files {
        match repo_of(f, &top) {
            None => outside = true,
            Some(r) => {
                if git(&r, &["ls-files", "--error-unmatch", &f.to_string_lossy()]).0 {
                } else if git(&r, &["check-ignore", "-q", &f.to_string_lossy()]).0 {
                    ignored = true;
                }
                repos.insert(r);
            }
        }
    }
    let dirty: Vec<&PathBuf> = repos.iter().filter(|r| !git(r, &["status", "--porcelain"]).1.is_empty()).collect();
    let no_vcs = outside || ignored;
    let refused_vcs = no_vcs && !c.allow_no_vcs;
    let refused_dirty = !dirty.is_empty() && !c.allow_dirty;
    // The fix.
    if c.allow_dirty {
        args.push("--allow-dirty".into());
    }
    if c.allow_no_vcs {
        args.push("--allow-no-vcs".into());
    }
    args.extend(c.args.clone());
    let before = t.files();
    let o = t.jarl(from, &args)?;
    let after = t.files();
    let changed: BTreeMap<_, _> = before.iter().filter(|(n, x)| after.get(*n) != Some(x)).map(|(n, _)| (n.clone(), ())).collect();
    let what = format!("`jarl {}` in {from:?} (outside version control: {outside}, ignored: {ignored}, dirty: {dirty:?})", args.join(" ").replace(&*top.to_string_lossy(), "TOP"));
    if refused_vcs || refused_dirty {
        let sig = match (outside && !c.allow_no_vcs, refused_dirty) {
            (true, _) => "fixed-outside-version-control",
            (false, true) => "fixed-uncommitted-changes",
            (false, false) => "fixed-ignored-file",
        };
        ensure!(changed.is_empty() && after.len() == before.len(), sig, "{what}\nchanged: {:?}\n{}", changed.keys(), o.show());
        ensure!(!matches!(o.code, Some(0 | 1)), "refusal-is-no-error", "{what}\n{}", o.show());
        let said = format!("{}{}", o.stdout, o.stderr);
        ensure!(
            refused_vcs && said.contains("--allow-no-vcs") || refused_dirty && said.contains("--allow-dirty"),
            "refusal-without-its-reason",
            "{what}\n{}",
            o.show()
        );
    } else {
        for f in &files {
            let is_r = f.extension().is_some_and(|e| e == "R");
            let text = std::fs::read_to_string(f).unwrap_or_default();
            ensure_eq!(text.contains("any(is.na"), !is_r, if is_r { "refused-though-allowed" } else { "document-changed" }, "{what}: {}\n{}", f.display(), o.show());
        }
    }
    Ok(Info::when(refused_vcs || refused_dirty || c.allow_dirty || c.allow_no_vcs)
        .label_if(refused_vcs, "refused: no version control")
        .label_if(refused_dirty, "refused: uncommitted changes")
        .label_if(refused_vcs && refused_dirty, "refused: both")
        .label_if(!refused_vcs && !refused_dirty, "fixed")
        .label_if(repos.len() > 1, "several repositories")
        .label_if(ignored, "ignored file")
        .label_if(repos.contains(&top.join(LINKED)), "linked work tree"))
}

fn cases() -> impl Strategy<Value = Case> {
    let dirt = || select(vec![Dirt::Modified, Dirt::Staged, Dirt::Untracked, Dirt::UntrackedOther, Dirt::Deleted, Dirt::OtherModified, Dirt::StagedThenBack]);
    let zone = (
        prop::bool::weighted(0.45),
        option::weighted(0.15, dirt()),
        option::weighted(0.25, Just("[lint]\n".to_string())),
        option::weighted(0.15, select(vec!["gen/\n", "g.R\n", "a.R\n", "*.txt\n", "/q/\n/t/\n"]).prop_map(String::from)),
        option::weighted(0.1, 0..ZONES.len()),
    )
        .prop_map(|(repo, dirt, config, ignored, linked_file)| Zone { repo, dirt, config, ignored, linked_file });
    let args = prop_oneof![3 => Just(vec!["--fix"]), 1 => Just(vec!["--fix", "--unsafe-fixes"]), 1 => Just(vec!["--unsafe-fixes"]), 1 => Just(vec!["--fix-only"]), 1 => Just(vec!["--fix", "--statistics"]), 1 => Just(vec!["--fix", "--output-format=json"])]
        .prop_map(|v| v.into_iter().map(String::from).collect());
    (
        vec(zone, ZONES.len()),
        option::weighted(0.4, option::weighted(0.5, dirt())),
        vec(0..24usize, 0..4),
        any::<bool>(),
        prop_oneof![3 => Just(0), 1 => 0..ZONES.len()],
        prop::bool::weighted(0.3),
        prop::bool::weighted(0.3),
        args,
    )
        .prop_map(|(zones, linked, paths, all, from, allow_dirty, allow_no_vcs, args)| Case { zones, linked, paths, all, from, allow_dirty, allow_no_vcs, args })
}

pub fn c32() -> ExitCode {
    let mut ck = Check::new("C32");
    ck.assume("libgit2 is a stand-in that asks the git command; a scratch directory is outside any repository");
    ck.prop("permission", "refused, or fixed because of a permission", 500, 10000, cases, check);
    ck.finish()
}
