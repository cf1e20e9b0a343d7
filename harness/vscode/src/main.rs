//! C43: the VS Code extension (TypeScript), bundled as its own configuration says and run by
//! node, as an unprivileged user, against stand-ins of the editor and of the language client.

use serde_json::{Value, json};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, ExitCode, Stdio};
use std::sync::OnceLock;
use vpkit::proptest::collection::vec;
use vpkit::proptest::option;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;
use vpkit::serde::{Deserialize, Serialize};
use vpkit::{Check, Fail, Info, Outcome, Scratch, ensure, ensure_eq};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum File {
    Absent,
    Binary,
    NotExecutable,
    Directory,
}

/// What is set at a level: (strategy, path, log level, dependency log levels); `null` is a value.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Settings {
    strategy: Option<usize>,
    path: Option<usize>,
    log: Option<usize>,
    deps: Option<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct World {
    trusted: bool,
    bundled: bool,
    /// the directories of PATH, in its order
    path: Vec<(usize, File)>,
    /// the files a path may be set to
    files: [bool; 4],
    user: Settings,
    workspace: Settings,
    /// (directory, exists, its settings)
    folders: Vec<(usize, bool, Settings)>,
    /// no folders, in the other way
    none: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Op {
    Start,
    Stop,
    Restart,
    Command,
    Deactivate,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    phases: Vec<(World, Vec<(Op, u8)>)>,
    /// how each start or stop of a server ends, and after how long
    outcomes: Vec<(bool, u8)>,
    docs: Vec<Doc>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Doc {
    language: String,
    scheme: String,
    path: String,
}

const STRATEGIES: &[&str] = &["bundled", "environment", "path"];
const LEVELS: &[&str] = &["error", "warning", "info", "debug", "trace"];
const DEPS: &[&str] = &["tower=debug", "a=info,b=warn", "warn"];
const DIRS: &[&str] = &["w", "w/a", "wide", "w/a/b c", "é", "w/ab", "other/place", "w2"];

fn settings() -> impl Strategy<Value = Settings> {
    (option::weighted(0.5, 0..4usize), option::weighted(0.5, 0..6usize), option::weighted(0.3, 0..6usize), option::weighted(0.2, 0..4usize))
        .prop_map(|(strategy, path, log, deps)| Settings { strategy, path, log, deps })
}

fn world() -> impl Strategy<Value = World> {
    let file = select(vec![File::Absent, File::Binary, File::Binary, File::NotExecutable, File::Directory]);
    (
        (prop::bool::weighted(0.8), any::<bool>(), vec((0..5usize, file), 0..4), any::<[bool; 4]>()),
        (settings(), settings(), vec((0..DIRS.len(), prop::bool::weighted(0.7), settings()), 0..5), any::<bool>()),
    )
        .prop_map(|((trusted, bundled, mut path, files), (user, workspace, mut folders, none))| {
            let mut seen = vec![];
            path.retain(|(d, _)| !seen.contains(d) && { seen.push(*d); true });
            let mut seen = vec![];
            folders.retain(|(d, ..)| !seen.contains(d) && { seen.push(*d); true });
            World { trusted, bundled, path, files, user, workspace, folders, none }
        })
}

fn case() -> impl Strategy<Value = Case> {
    let last = select(vec![Op::Start, Op::Start, Op::Stop, Op::Restart, Op::Command]);
    let op = select(vec![Op::Start, Op::Start, Op::Stop, Op::Stop, Op::Restart, Op::Command, Op::Command, Op::Deactivate]);
    let gap = prop_oneof![5 => Just(0u8), 3 => 1..4u8, 1 => 4..40u8];
    let ops = (vec((op, gap.clone()), 0..8), last, gap).prop_map(|(mut l, o, g)| {
        l.push((o, g));
        l
    });
    let doc = (
        select(vec!["r", "rmd", "quarto", "plaintext", "python", "markdown", "R", "rd"]),
        select(vec!["file", "file", "file", "untitled", "git"]),
        "/([a-z][a-z .]{0,4}[a-z]/){0,3}[A-Za-z._]{0,6}(\\.(R|r|Rmd|rmd|qmd|Qmd|md|py|txt|Rd|Rmdx|R\\.bak|rmd\\.bak))?",
    )
        .prop_map(|(l, s, p)| Doc { language: l.into(), scheme: s.into(), path: p });
    (
        vec((world(), ops), 1..4),
        vec((prop::bool::weighted(0.75), prop_oneof![2 => Just(0u8), 3 => 0..6u8, 1 => 6..30u8]), 1..8),
        vec(doc, 0..4),
    )
        .prop_map(|(phases, outcomes, docs)| Case { phases, outcomes, docs })
}

/// A node process and the directory it works in.
struct Worker {
    child: Child,
    input: ChildStdin,
    output: BufReader<ChildStdout>,
    root: Scratch,
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

static BUNDLE: OnceLock<Vec<u8>> = OnceLock::new();
thread_local!(static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) });

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())).join("harness/vscode/js")
}

fn repo() -> PathBuf {
    PathBuf::from(std::env::var("VP_REPO").unwrap_or_else(|_| "/repo".into())).join("editors/code")
}

/// Bundles the extension of the current tree.
fn bundle() -> Result<Vec<u8>, String> {
    let s = Scratch::new("vscode-build");
    let out = s.path().join("extension.js");
    let o = Command::new("node").arg(root().join("build.cjs")).arg(repo().join("src/extension.ts")).arg(&out).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).into_owned());
    }
    std::fs::read(out).map_err(|e| e.to_string())
}

impl Worker {
    fn new() -> Self {
        let root_dir = Scratch::new("vscode");
        let at = |p: &str| root_dir.path().join(p);
        for d in ["ext/dist", "home"] {
            std::fs::create_dir_all(at(d)).unwrap();
        }
        std::fs::write(at("ext/dist/extension.js"), BUNDLE.get().unwrap()).unwrap();
        std::fs::copy(repo().join("package.json"), at("ext/package.json")).unwrap();
        std::fs::copy(root().join("driver.cjs"), at("driver.cjs")).unwrap();
        for d in ["", "ext", "home"] {
            std::fs::set_permissions(at(d), std::fs::Permissions::from_mode(0o777)).unwrap();
        }
        let mut child = Command::new("node")
            .arg(at("driver.cjs"))
            .arg(at("ext/dist/extension.js"))
            .current_dir(at("home"))
            .env_remove("CI")
            .env("HOME", at("home"))
            .uid(65534)
            .gid(65534)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("node");
        let (input, output) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        Worker { child, input, output, root: root_dir }
    }

    fn ask(&mut self, v: &Value) -> Option<Value> {
        writeln!(self.input, "{v}").ok()?;
        let mut l = String::new();
        self.output.read_line(&mut l).ok()?;
        vpkit::serde_json::from_str(&l).ok()
    }
}

/// The values a level sets; past the end of the list is an explicit `null`.
fn values(s: &Settings, files: &[String]) -> Value {
    let mut o = vpkit::serde_json::Map::new();
    let get = |l: &[&str], i: usize| l.get(i).map(|x| json!(x)).unwrap_or(Value::Null);
    if let Some(i) = s.strategy {
        o.insert("jarl.executableStrategy".into(), get(STRATEGIES, i));
    }
    if let Some(i) = s.path {
        o.insert("jarl.executablePath".into(), match i { 4 => json!(""), 5 => Value::Null, i => json!(files[i]) });
    }
    if let Some(i) = s.log {
        o.insert("jarl.logLevel".into(), get(LEVELS, i));
    }
    if let Some(i) = s.deps {
        o.insert("jarl.dependencyLogLevels".into(), get(DEPS, i));
    }
    Value::Object(o)
}

struct Places {
    bundled: String,
    path: Vec<String>,
    files: Vec<String>,
    folders: Vec<String>,
}

/// What a launch would run, if anything.
fn binary(w: &World, p: &Places) -> Option<String> {
    let bundled = w.bundled.then(|| p.bundled.clone());
    let env = w.path.iter().find(|(_, f)| *f == File::Binary).map(|(d, _)| format!("{}/jarl", p.path[*d]));
    if !w.trusted {
        return bundled;
    }
    // The folder whose settings count: the shortest that exists.
    let folder = match &w.folders[..] {
        [] => None,
        [f] => Some(&f.2),
        l => {
            let mut best: Option<&(usize, bool, Settings)> = None;
            for f in l.iter().filter(|f| f.1) {
                if best.is_none_or(|b| p.folders[f.0].encode_utf16().count() < p.folders[b.0].encode_utf16().count()) {
                    best = Some(f);
                }
            }
            Some(&best.unwrap_or(&l[0]).2)
        }
    };
    let layers = [folder, Some(&w.workspace), Some(&w.user)];
    let strategy = layers.iter().flatten().filter_map(|s| s.strategy.filter(|i| *i < 3)).next().unwrap_or(0);
    let path = layers.iter().flatten().filter_map(|s| s.path.filter(|i| *i < 5)).next();
    match strategy {
        0 => bundled.or(env),
        1 => env.or(bundled),
        _ => path.filter(|i| *i < 4 && w.files[*i]).map(|i| p.files[i].clone()),
    }
}

fn sessions(c: &Case) -> Outcome {
    WORKER.with_borrow_mut(|slot| {
        let w = slot.get_or_insert_with(Worker::new);
        let r = session(c, w);
        if matches!(&r, Err(e) if ["died", "hang", "error"].contains(&&*e.sig)) {
            *slot = None;
        }
        r
    })
}

fn session(c: &Case, worker: &mut Worker) -> Outcome {
    let at = |p: &str| worker.root.path().join(p).to_str().unwrap().to_string();
    let places = Places {
        bundled: at("ext/bundled/bin/jarl"),
        path: (0..5).map(|i| at(&format!("path/{i}"))).collect(),
        files: (0..4).map(|i| at(&format!("files/some {i}/jarl-{i}"))).collect(),
        folders: DIRS.iter().map(|d| at(&format!("ws/{d}"))).collect(),
    };
    let phases: Vec<Value> = c
        .phases
        .iter()
        .map(|(w, ops)| {
            let mut dirs = vec![];
            let mut files = vec![];
            if w.bundled {
                dirs.push(at("ext/bundled/bin"));
                files.push((places.bundled.clone(), 0o755));
            }
            for (d, f) in &w.path {
                let file = format!("{}/jarl", places.path[*d]);
                dirs.push(if *f == File::Directory { file.clone() } else { places.path[*d].clone() });
                match f {
                    File::Binary => files.push((file, 0o755)),
                    File::NotExecutable => files.push((file, 0o644)),
                    _ => {}
                }
            }
            for (i, there) in w.files.iter().enumerate() {
                if *there {
                    dirs.push(at(&format!("files/some {i}")));
                    files.push((places.files[i].clone(), 0o755));
                }
            }
            // A folder that is not there cannot have others in it.
            dirs.extend(w.folders.iter().filter(|f| f.1).map(|f| places.folders[f.0].clone()));
            json!({
                "world": {
                    "trusted": w.trusted,
                    "path": w.path.iter().map(|(d, _)| places.path[*d].clone()).collect::<Vec<_>>().join(":"),
                    "cwd": at("home"),
                    "remove": [at("ext/bundled"), at("path"), at("files"), at("ws")],
                    "dirs": dirs,
                    "files": files,
                    "user": values(&w.user, &places.files),
                    "workspace": values(&w.workspace, &places.files),
                    "folders": w.folders.iter().map(|(d, _, s)| json!({"path": places.folders[*d], "settings": values(s, &places.files)})).collect::<Vec<_>>(),
                    "none": w.none,
                },
                "ops": ops.iter().map(|(o, g)| json!([format!("{o:?}"), g])).collect::<Vec<_>>(),
            })
        })
        .collect();
    let q = json!({"phases": phases, "outcomes": c.outcomes, "docs": c.docs, "package": at("ext/package.json")});
    let Some(got) = worker.ask(&q) else { return Err(Fail::new("died", "the extension ended the process that runs it")) };
    ensure!(got["error"].is_null(), "error", "{}", got["error"]);
    ensure!(got["missing"].is_null(), "missing", "nothing answers {}", got["missing"]);
    ensure!(got["hang"].is_null(), "hang", "requests of phase {} are never answered: {got}", got["hang"]);

    // The model: one request at a time, in the order they came.
    let mut calls = 0;
    let mut clients = 0;
    let mut current: Option<(u64, String)> = None;
    let mut info = Info::default();
    let (mut launches, mut failures, mut stops) = (0, 0, 0);
    for (i, (w, ops)) in c.phases.iter().enumerate() {
        // A folder under another that exists does exist.
        let mut w = w.clone();
        let there: Vec<String> = w.folders.iter().filter(|f| f.1).map(|f| places.folders[f.0].clone()).collect();
        for f in &mut w.folders {
            let p = format!("{}/", places.folders[f.0]);
            f.1 |= there.iter().any(|t| t.starts_with(&p));
        }
        let mut trace: Vec<Value> = vec![];
        let mut results: Vec<bool> = vec![];
        let next = |calls: &mut usize| {
            let o = c.outcomes[*calls % c.outcomes.len()].0;
            *calls += 1;
            o
        };
        let docs: Vec<Option<bool>> = c.docs.iter().map(selected).collect();
        let start = |current: &mut Option<(u64, String)>, calls: &mut usize, clients: &mut u64, trace: &mut Vec<Value>| -> bool {
            if current.is_some() {
                return true;
            }
            let Some(b) = binary(&w, &places) else { return false };
            let user = |k: &str| values(&w.user, &places.files).get(k).filter(|v| !v.is_null()).cloned();
            let n = *clients;
            *clients += 1;
            trace.push(json!({"launch": n, "command": b, "args": ["server"], "log": user("jarl.logLevel").unwrap_or(json!("debug")), "deps": user("jarl.dependencyLogLevels")}));
            if next(calls) {
                trace.push(json!({"started": n}));
                *current = Some((n, b));
                true
            } else {
                trace.push(json!({"failed": n}));
                false
            }
        };
        let stop = |current: &mut Option<(u64, String)>, calls: &mut usize, trace: &mut Vec<Value>| -> bool {
            let Some((n, _)) = current.take() else { return true };
            trace.push(json!({"stop": n}));
            let ok = next(calls);
            trace.push(if ok { json!({"stopped": n}) } else { json!({"lost": n}) });
            ok
        };
        if i == 0 {
            start(&mut current, &mut calls, &mut clients, &mut trace);
        }
        for (o, _) in ops {
            results.push(match o {
                Op::Start => start(&mut current, &mut calls, &mut clients, &mut trace),
                Op::Stop | Op::Deactivate => stop(&mut current, &mut calls, &mut trace),
                Op::Restart | Op::Command => stop(&mut current, &mut calls, &mut trace) && start(&mut current, &mut calls, &mut clients, &mut trace),
            });
        }
        launches += trace.iter().filter(|t| !t["launch"].is_null()).count();
        stops += trace.iter().filter(|t| !t["stop"].is_null()).count();
        failures += results.iter().filter(|r| !**r).count();

        let g = &got["phases"][i];
        let mut real = vec![];
        let mut live = 0i64;
        for t in g["trace"].as_array().unwrap() {
            let mut t = t.clone();
            if !t["launch"].is_null() {
                for (k, (d, want)) in c.docs.iter().zip(&docs).enumerate() {
                    if let Some(want) = want {
                        ensure_eq!(t["docs"][k].as_bool().unwrap(), *want, "documents", "{d:?}");
                    }
                }
                t = json!({"launch": t["launch"], "command": t["command"], "args": t["args"], "log": t["init"]["logLevel"], "deps": t["init"].get("dependencyLogLevels").filter(|v| !v.is_null())});
                live += 1;
            }
            if ["failed", "stopped", "lost"].iter().any(|k| !t[*k].is_null()) {
                live -= 1;
            }
            real.push(t);
        }
        let before = if i == 0 { 0 } else { !got["phases"][i - 1]["client"].is_null() as i64 };
        ensure!(live + before <= 1, "two-servers", "phase {i}: {real:#?}");
        let show = |l: &[Value]| l.iter().map(|v| v.to_string()).collect::<Vec<_>>().join("\n  ");
        ensure!(real == trace, "history", "phase {i}: the editor saw\n  {}\nand not\n  {}\nfor {:?} in {w:?}", show(&real), show(&trace), ops);
        for (k, r) in results.iter().enumerate() {
            if ops[k].0 != Op::Deactivate {
                ensure_eq!(g["results"][k].as_bool(), Some(*r), "answer", "phase {i}: request {k} of {ops:?}");
            }
        }
        ensure_eq!(g["client"].as_u64(), current.as_ref().map(|c| c.0), "client", "phase {i}: the current server");
        ensure_eq!(g["binary"].as_str(), current.as_ref().map(|c| &*c.1), "client-binary", "phase {i}");
        ensure!(current.is_none() || g["running"] == json!(true), "client-dead", "phase {i}: the current server does not run");
        info = info.label_if(!w.trusted, "untrusted").label_if(w.folders.len() > 1, "several_folders");
    }
    info.nontrivial = launches > 1 && stops > 0;
    Ok(info.label_if(failures > 0, "failures").label_if(launches > 2, "three_launches"))
}

/// Whether the server is to look at a document, when it is clear.
fn selected(d: &Doc) -> Option<bool> {
    let name = d.path.rsplit('/').next().unwrap();
    let ext = name.rfind('.').filter(|i| *i > 0).map(|i| &name[i + 1..]);
    let known = ["r", "rmd", "quarto"].contains(&&*d.language);
    let doc = ext.is_some_and(|e| ["Rmd", "rmd", "qmd", "Qmd"].contains(&e));
    let code = ext.is_some_and(|e| ["R", "r"].contains(&e));
    if d.scheme == "file" && (known || doc) {
        // (a hidden file, or one with nothing before the extension, may be either)
        return (known || !name.starts_with('.')).then_some(true);
    }
    (!known && !doc && !code && ext.is_none_or(|e| !e.eq_ignore_ascii_case("qmd") && !e.eq_ignore_ascii_case("rmd"))
        && !name.starts_with('.'))
        .then_some(false)
}

fn main() -> ExitCode {
    if std::env::args().nth(1).as_deref() != Some("C43") {
        return ExitCode::from(2);
    }
    match bundle() {
        Ok(b) => drop(BUNDLE.set(b)),
        Err(e) => {
            eprintln!("ERROR: editors/code does not build from /repo: {e}");
            return ExitCode::from(2);
        }
    }
    let mut ck = Check::new("C43");
    ck.assume("the editor, its language client and its queue of promises (npm packages not available here) are stand-ins; node and the package `which` are real");
    ck.prop(
        "sessions",
        "histories of requests (activation, start, stop, restart, the command, deactivation), overlapping or not, over workspaces of 0 to 4 folders, settings at every level, binaries there or not, trust or not, and servers that fail to start or to stop after any time; non-trivial: several launches and a stop",
        6_000,
        400_000,
        case,
        sessions,
    );
    ck.finish()
}
