//! C14: the helpers of the developer tasks, run as an unprivileged user in a scratch directory
//! (they change the process's environment and remove files).

use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Component, Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};
use vpkit::proptest::prelude::*;
use vpkit::serde::{Deserialize, Serialize};
use vpkit::{Check, Fail, Info, Outcome, Scratch, ensure, ensure_eq};
use xtask::glue::{fs2, pushd, pushenv, rm_rf};
#[allow(unused_imports)]
use xtask::run;

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Word {
    text: String,
    quoted: bool,
    /// whitespace before it
    sep: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Stdin {
    None,
    Text(String),
    /// this many bytes
    Big(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Node {
    Dir(String, Vec<Node>),
    Env(String, String, Vec<Node>),
    /// the scope is left by unwinding, from its innermost node
    Unwind(Vec<Node>),
    Panic,
    /// (exit code, whether it echoes its input, words, input, whether it is shown: None by default)
    Run(i32, bool, Vec<Word>, Stdin, Option<bool>),
    NoSuchProgram(bool),
    NotUtf8(bool),
    /// in this time zone
    Date(String),
    /// with this directory as the one of the running crate
    Root(String),
    /// (function, text, how the formatter behaves)
    Format(usize, String, String),
    Formatter(String),
    List(String),
    RemoveDir(String),
    Rm(String),
    Write(String, String),
    Read(String),
    Copy(String, String),
    RemoveFile(String),
    MakeDir(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    env: BTreeMap<String, String>,
    nodes: Vec<Node>,
}

const VARS: [&str; 6] = ["VP_A", "VP_B", "VP_C", "VP_D", "RUSTUP_TOOLCHAIN", "TZ"];
const DIRS: [&str; 4] = ["d1", "d1/d2", "d1/d2/d3", "e1"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(crate = "vpkit::serde")]
struct State {
    cwd: PathBuf,
    env: BTreeMap<String, String>,
    /// every path under data/, with the contents of files, the target of links
    data: BTreeMap<String, String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(crate = "vpkit::serde")]
struct Event {
    what: String,
    result: Option<Result<String, String>>,
    state: State,
}

/// What a process sees.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(crate = "vpkit::serde")]
struct Probe {
    args: Vec<String>,
    cwd: PathBuf,
    env: BTreeMap<String, String>,
    input: Option<(usize, u64)>,
}

fn vars() -> BTreeMap<String, String> {
    VARS.iter().filter_map(|v| Some((v.to_string(), std::env::var(v).ok()?))).collect()
}

fn sum(b: &[u8]) -> u64 {
    b.iter().fold(7, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64))
}

fn big(n: usize) -> Vec<u8> {
    (0..n).map(|i| b'a' + (i % 23) as u8).collect()
}

const DATE_ZONES: [&str; 4] = ["Etc/GMT+12", "VPA-14", "VPB12", "UTC"];

/// What the formatter makes of a text.
fn formatted(t: &str) -> String {
    format!("\n{}\n\n", t.to_uppercase())
}

/// The formatter that the helpers find.
fn formatter() -> ExitCode {
    let a: Vec<String> = std::env::args().skip(2).collect();
    let how = std::env::var("VP_HOW").unwrap_or_default();
    let chain = std::env::var("RUSTUP_TOOLCHAIN").unwrap_or("nightly".into());
    if a == ["--version"] {
        println!("rustfmt 1.8.0-{} (abc)", if how == "stubborn" { "nightly" } else { &chain });
        return ExitCode::from((how == "broken") as u8);
    }
    if a != ["--config", "newline_style=Unix"] || (chain != "stable") || how == "fails" {
        println!("called with {a:?} {chain}");
        return ExitCode::from(1);
    }
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    print!("{}", formatted(&t));
    ExitCode::from(0)
}

fn scan(root: &Path) -> BTreeMap<String, String> {
    fn go(d: &Path, rel: &str, out: &mut BTreeMap<String, String>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let n = format!("{rel}{}", e.file_name().to_string_lossy());
            let t = e.file_type().unwrap();
            if t.is_symlink() {
                out.insert(n, format!("-> {}", std::fs::read_link(e.path()).unwrap().display()));
            } else if t.is_dir() {
                go(&e.path(), &format!("{n}/"), out);
                out.insert(n, "dir".into());
            } else {
                out.insert(n, format!("file {}", std::fs::read_to_string(e.path()).unwrap_or_default()));
            }
        }
    }
    let mut out = BTreeMap::new();
    go(&root.join("data"), "", &mut out);
    out
}

// ---------------------------------------------------------------- the code under test's side

fn probe() -> ExitCode {
    let a: Vec<String> = std::env::args().skip(2).collect();
    if a[0] == "notutf8" {
        std::io::stdout().write_all(b"\xff\xfe").unwrap();
        return ExitCode::from(0);
    }
    let (code, echo, pad) = (a[0].parse::<i32>().unwrap(), &a[1] == "echo", &a[2] == "pad");
    let mut out = std::io::stdout().lock();
    let mut input = None;
    if echo {
        // reads and writes in turn
        let (mut n, mut s, mut buf) = (0usize, vec![], [0u8; 4096]);
        loop {
            let k = std::io::stdin().read(&mut buf).unwrap();
            if k == 0 {
                break;
            }
            n += k;
            s.extend_from_slice(&buf[..k]);
            if n > 10_000 {
                out.write_all(&buf[..k]).unwrap();
            }
        }
        input = Some((n, sum(&s)));
        if n > 10_000 {
            out.write_all(b"\n").unwrap();
        }
    }
    let p = Probe { args: a[3..].to_vec(), cwd: std::env::current_dir().unwrap(), env: vars(), input };
    let j = serde_json::to_string(&p).unwrap();
    out.write_all(if pad { format!(" \n\t{j}\n\n ") } else { j }.as_bytes()).unwrap();
    out.flush().unwrap();
    ExitCode::from(code as u8)
}

/// What is shown after this line is due to the next command.
const BEGIN: &str = "\u{1}begin";

struct Runner {
    root: PathBuf,
    exe: String,
    events: Vec<Event>,
}

fn command(exe: &str, code: i32, echo: bool, words: &[Word]) -> String {
    let mut s = format!("'{exe}' probe {code} {} {}", if echo { "echo" } else { "ignore" }, if words.len() % 2 == 1 { "pad" } else { "nopad" });
    for w in words {
        s += &w.sep;
        s += &if w.quoted { format!("'{}'", w.text) } else { w.text.clone() };
    }
    s
}

impl Runner {
    fn note(&mut self, what: &str, result: Option<Result<String, String>>) {
        if result.is_some() {
            println!("\u{1}end {what}");
        }
        let state = State { cwd: std::env::current_dir().unwrap(), env: vars(), data: scan(&self.root) };
        self.events.push(Event { what: what.into(), result, state });
    }
    fn data(&self, p: &str) -> PathBuf {
        self.root.join("data").join(p)
    }
    fn go(&mut self, nodes: &[Node]) {
        let e = |e: xtask::Error| format!("{e:#}");
        for n in nodes {
            match n {
                Node::Dir(d, inner) => {
                    {
                        let _g = pushd(d.replace("<root>", &self.root.to_string_lossy()));
                        self.note("in dir", None);
                        self.go(inner);
                    }
                    self.note("out of dir", None);
                }
                Node::Env(k, v, inner) => {
                    {
                        let _g = pushenv(k, v);
                        self.note("in env", None);
                        self.go(inner);
                    }
                    self.note("out of env", None);
                }
                Node::Unwind(inner) => {
                    let _ = catch_unwind(AssertUnwindSafe(|| self.go(inner)));
                    self.note("unwound", None);
                }
                Node::Panic => std::panic::panic_any(()),
                Node::Run(code, echo, words, stdin, shown) => {
                    let cmd = command(&self.exe, *code, *echo, words);
                    println!("{}", BEGIN);
                    let r = match stdin {
                        Stdin::None => match shown {
                            Some(e) => xtask::run!("{}", cmd; echo = *e),
                            None => xtask::run!("{}", cmd),
                        },
                        Stdin::Text(t) => xtask::run!("{}", cmd; <t.as_bytes()),
                        Stdin::Big(n) => {
                            let b = big(*n);
                            xtask::run!("{}", cmd; <b.as_slice())
                        }
                    };
                    self.note("run", Some(r.map_err(e)));
                }
                Node::NoSuchProgram(shown) => {
                    println!("{}", BEGIN);
                    let r = xtask::run!("/nonexistent/program 'a b' {}", "c"; echo = *shown);
                    self.note("run", Some(r.map_err(e)));
                }
                Node::NotUtf8(shown) => {
                    println!("{}", BEGIN);
                    let r = xtask::run!("'{}' probe notutf8", self.exe; echo = *shown);
                    self.note("run", Some(r.map_err(e)));
                }
                Node::Date(zone) => {
                    let r = {
                        let _g = pushenv("TZ", zone);
                        xtask::glue::date_iso()
                    };
                    self.note("date", Some(r.map_err(e)));
                }
                Node::Root(d) => {
                    let r = {
                        let _g = pushenv("CARGO_MANIFEST_DIR", d);
                        xtask::project_root()
                    };
                    self.note("root", Some(Ok(r.to_string_lossy().into_owned())));
                }
                Node::Format(k, t, how) => {
                    let _g = pushenv("VP_HOW", how);
                    let r = match k {
                        0 => xtask::reformat(t),
                        1 => xtask::reformat_with_command(t, "cargo x"),
                        2 => Ok(xtask::prepend_generated_preamble(t)),
                        _ => xtask::reformat_without_preamble(t),
                    };
                    self.note("format", Some(r.map_err(e)));
                }
                Node::Formatter(how) => {
                    let _g = pushenv("VP_HOW", how);
                    let r = xtask::ensure_rustfmt();
                    self.note("formatter", Some(r.map(|_| String::new()).map_err(e)));
                }
                Node::List(p) => {
                    let r = fs2::read_dir(self.data(p)).map(|d| {
                        let mut v: Vec<String> = d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
                        v.sort();
                        v.join("|")
                    });
                    self.note("list", Some(r.map_err(e)));
                }
                Node::RemoveDir(p) => {
                    let r = fs2::remove_dir_all(self.data(p));
                    self.note("remove_dir", Some(r.map(|_| String::new()).map_err(e)));
                }
                Node::Rm(p) => {
                    let r = rm_rf(self.data(p));
                    self.note("rm", Some(r.map(|_| String::new()).map_err(e)));
                }
                Node::Write(p, t) => {
                    let r = fs2::write(self.data(p), t);
                    self.note("write", Some(r.map(|_| String::new()).map_err(e)));
                }
                Node::Read(p) => {
                    let r = fs2::read_to_string(self.data(p));
                    self.note("read", Some(r.map_err(e)));
                }
                Node::Copy(p, q) => {
                    let r = fs2::copy(self.data(p), self.data(q));
                    self.note("copy", Some(r.map(|n| n.to_string()).map_err(e)));
                }
                Node::RemoveFile(p) => {
                    let r = fs2::remove_file(self.data(p));
                    self.note("remove_file", Some(r.map(|_| String::new()).map_err(e)));
                }
                Node::MakeDir(p) => {
                    let r = fs2::create_dir_all(self.data(p));
                    self.note("mkdir", Some(r.map(|_| String::new()).map_err(e)));
                }
            }
        }
    }
}

fn runner() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<()>().is_none() {
            eprintln!("{i}");
        }
    }));
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let case: Case = serde_json::from_str(&s).unwrap();
    let root = std::env::current_dir().unwrap();
    assert!(root.ends_with("work") && root.to_string_lossy().contains("vp-xtask"));
    let st = std::fs::read_to_string("/proc/self/status").unwrap();
    assert!(st.lines().any(|l| l.starts_with("Uid:") && l.contains("65534")), "privileged");
    for d in DIRS {
        std::fs::create_dir_all(d).unwrap();
    }
    populate();
    let exe = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let mut r = Runner { root, exe, events: vec![] };
    r.note("start", None);
    r.go(&case.nodes);
    std::fs::write("../result", serde_json::to_string(&r.events).unwrap()).unwrap();
}

fn populate() {
    std::fs::create_dir_all("data/tree/sub/deep").unwrap();
    std::fs::create_dir_all("data/empty").unwrap();
    std::fs::create_dir_all("data/keep/in").unwrap();
    for (f, t) in [("data/file", "f"), ("data/tree/a", "a"), ("data/tree/sub/b", "b"), ("data/tree/sub/deep/c", "c"), ("data/keep/in/x", "x"), ("data/keep/y", "y")] {
        std::fs::write(f, t).unwrap();
    }
    let link = |t: &str, l: &str| std::os::unix::fs::symlink(t, l).unwrap();
    link("keep", "data/link_dir");
    link("keep/y", "data/link_file");
    link("nowhere", "data/link_dangling");
    link("../keep", "data/tree/link_out");
}

// ---------------------------------------------------------------- the judge's side

static EXE: OnceLock<(Scratch, PathBuf)> = OnceLock::new();

fn run(case: &Case) -> Result<(PathBuf, Vec<Event>, String), Fail> {
    let (tools, exe) = EXE.get().unwrap();
    let dir = Scratch::new("xtask");
    let base = dir.path().canonicalize().unwrap();
    let work = base.join("work");
    std::fs::create_dir(&work).unwrap();
    for p in [&base, &work] {
        std::os::unix::fs::chown(p, Some(65534), Some(65534)).expect("chown");
    }
    let mut ch = Command::new(exe)
        .arg("runner")
        .current_dir(&work)
        .env_clear()
        .envs(&case.env)
        .env("PATH", format!("{}/bin:/usr/bin:/bin", tools.path().canonicalize().unwrap().display()))
        .uid(65534)
        .gid(65534)
        .process_group(0)
        .stdin(Stdio::piped())
        .stdout(std::fs::File::create(base.join("shown")).unwrap())
        .stderr(Stdio::piped())
        .spawn()
        .expect("runner");
    let pid = ch.id();
    ch.stdin.take().unwrap().write_all(serde_json::to_string(case).unwrap().as_bytes()).unwrap();
    let mut se = ch.stderr.take().unwrap();
    let e = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break s;
        }
        if t.elapsed() > Duration::from_secs(20) {
            let _ = Command::new("kill").args(["-9", "--", &format!("-{pid}")]).status();
            let _ = ch.wait();
            return Err(Fail::new("hang", "the helpers do not finish"));
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let e = e.join().unwrap();
    ensure!(st.success(), "crash", "crashed: {e}");
    let r = std::fs::read_to_string(base.join("result")).expect("result");
    let shown = String::from_utf8_lossy(&std::fs::read(base.join("shown")).expect("shown")).into_owned();
    Ok((work, serde_json::from_str(&r).expect("runner output"), shown))
}

/// The model: directory, variables and files, and the events it expects.
struct Model<'a> {
    root: PathBuf,
    exe: String,
    state: State,
    seen: std::slice::Iter<'a, Event>,
    /// per command, what was shown
    shown: std::vec::IntoIter<String>,
    runs: usize,
    depth: usize,
    deepest: usize,
}

fn normal(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            Component::ParentDir => drop(out.pop()),
            Component::CurDir => {}
            c => out.push(c),
        }
    }
    out
}

impl Model<'_> {
    fn next(&mut self, what: &str, node: &dyn std::fmt::Debug) -> Result<Option<Result<String, String>>, Fail> {
        let Some(e) = self.seen.next() else { return Err(Fail::new("events", format!("no event for {node:?}"))) };
        ensure_eq!(e.what, what, "events", "event for {node:?}");
        ensure_eq!(e.state.cwd, self.state.cwd, "directory", "current directory after {what:?} of {node:?}");
        ensure_eq!(e.state.env, self.state.env, "variables", "environment after {what:?} of {node:?}");
        ensure_eq!(e.state.data, self.state.data, "files", "files after {what:?} of {node:?}");
        Ok(e.result.clone())
    }
    /// Ok(true): left by a panic.
    fn go(&mut self, nodes: &[Node]) -> Result<bool, Fail> {
        for n in nodes {
            match n {
                Node::Dir(d, inner) => {
                    let before = self.state.cwd.clone();
                    self.state.cwd = normal(&before.join(d.replace("<root>", &self.root.to_string_lossy())));
                    self.enter();
                    self.next("in dir", n)?;
                    let p = self.go(inner)?;
                    self.state.cwd = before;
                    self.depth -= 1;
                    if p {
                        return Ok(true);
                    }
                    self.next("out of dir", n)?;
                }
                Node::Env(k, v, inner) => {
                    let before = self.state.env.insert(k.clone(), v.clone());
                    self.enter();
                    self.next("in env", n)?;
                    let p = self.go(inner)?;
                    match before {
                        Some(b) => self.state.env.insert(k.clone(), b),
                        None => self.state.env.remove(k),
                    };
                    self.depth -= 1;
                    if p {
                        return Ok(true);
                    }
                    self.next("out of env", n)?;
                }
                Node::Unwind(inner) => {
                    self.go(inner)?;
                    self.next("unwound", n)?;
                }
                Node::Panic => return Ok(true),
                Node::Run(code, echo, words, stdin, shown) => {
                    self.runs += 1;
                    let cmd = command(&self.exe, *code, *echo, words);
                    let got = self.next("run", n)?.unwrap();
                    let show = self.shown.next().unwrap_or_default();
                    if matches!(stdin, Stdin::None) && shown.unwrap_or(true) {
                        let Some(out) = show.strip_prefix(&format!("> {cmd}\n")) else {
                            return Err(Fail::new("shown", format!("{cmd:?} is not shown before its output, but {show:?}")));
                        };
                        if let Ok(got) = &got {
                            let whole = if words.len() % 2 == 1 { format!(" \n\t{got}\n\n ") } else { got.clone() };
                            ensure_eq!(out, whole, "shown", "what is shown of the output of {cmd:?}");
                        } else {
                            ensure!(out.contains("{\"args\":"), "shown", "the output of {cmd:?}, which fails, is not shown but {out:?}");
                        }
                    } else {
                        ensure!(show.is_empty(), "shown", "{cmd:?} shows {show:?}");
                    }
                    if let Ok(got) = &got {
                        ensure_eq!(got.as_str(), got.trim(), "output", "output of {cmd:?}, trimmed");
                    }
                    if *code != 0 {
                        let Err(e) = got else { return Err(Fail::new("failure", format!("{cmd} exits with {code} and is reported as a success"))) };
                        ensure!(e.contains(&cmd), "failure-names", "the error {e:?} does not name the command {cmd:?}");
                        continue;
                    }
                    let out = match got {
                        Ok(o) => o,
                        Err(e) => return Err(Fail::new("success", format!("{cmd} succeeds and is reported as failed: {e}"))),
                    };
                    let input: Vec<u8> = match stdin {
                        Stdin::None => vec![],
                        Stdin::Text(t) => t.clone().into_bytes(),
                        Stdin::Big(n) => big(*n),
                    };
                    let json = if *echo && input.len() > 10_000 { out.rsplit('\n').next().unwrap().trim() } else { out.as_str() };
                    let p: Probe = match serde_json::from_str(json) {
                        Ok(p) => p,
                        Err(e) => return Err(Fail::new("output", format!("{e}: output of {cmd}: {out:?}"))),
                    };
                    let want: Vec<String> = words.iter().map(|w| w.text.clone()).collect();
                    ensure_eq!(p.args, want, "arguments", "arguments of {cmd:?}");
                    ensure_eq!(p.cwd, self.state.cwd, "directory", "directory of {cmd:?}");
                    ensure_eq!(p.env, self.state.env, "variables", "environment of {cmd:?}");
                    if *echo {
                        ensure_eq!(p.input, Some((input.len(), sum(&input))), "input", "input of {cmd:?}");
                    }
                }
                Node::Date(_) => {
                    let from = day();
                    let got = self.next("date", n)?.unwrap();
                    ensure!(got == Ok(from) || got == Ok(day()), "date", "{n:?} gives {got:?}");
                }
                Node::Root(d) => {
                    let want = Path::new(d).parent().and_then(Path::parent).unwrap().to_string_lossy().into_owned();
                    let got = self.next("root", n)?.unwrap();
                    ensure_eq!(got, Ok(want), "root", "{n:?}");
                }
                Node::Format(k, t, how) => {
                    let got = self.next("format", n)?.unwrap();
                    let head = match k {
                        0 | 2 => "//! Generated file, do not edit by hand, see `xtask/codegen`\n\n",
                        1 => "//! This is a generated file. Don't modify it by hand! Run 'cargo x' to re-generate the file.\n\n",
                        _ => "",
                    };
                    let ok = *k == 2 || how.is_empty();
                    if ok {
                        let body = if *k == 2 { t.clone() } else { format!("{}\n", formatted(t).trim()) };
                        ensure_eq!(got, Ok(format!("{head}{body}")), "format", "{n:?}");
                    } else {
                        ensure!(got.is_err(), "format", "{n:?} gives {got:?}");
                    }
                }
                Node::Formatter(how) => {
                    let got = self.next("formatter", n)?.unwrap();
                    let stable = self.state.env.get("RUSTUP_TOOLCHAIN").is_some_and(|v| v.contains("stable"));
                    ensure_eq!(got.is_ok(), how != "stubborn" && how != "broken" && stable, "formatter", "{n:?} gives {got:?}");
                }
                Node::List(p) => {
                    let pre = format!("{p}/");
                    let want = (self.state.data.get(p).map(String::as_str) == Some("dir"))
                        .then(|| self.state.data.keys().filter_map(|k| k.strip_prefix(&pre)).filter(|k| !k.contains('/')).collect::<Vec<_>>().join("|"));
                    let want = want.map(|w| {
                        let mut v: Vec<&str> = w.split('|').collect();
                        v.sort();
                        v.join("|")
                    });
                    let got = self.next("list", n)?.unwrap();
                    self.status(n, p, got, want)?;
                }
                Node::RemoveDir(p) => {
                    let ok = self.state.data.get(p).is_some_and(|v| v == "dir");
                    if ok {
                        let pre = format!("{p}/");
                        self.state.data.retain(|k, _| k != p && !k.starts_with(&pre));
                    }
                    let got = self.next("remove_dir", n)?.unwrap();
                    self.status(n, p, got, ok.then(String::new))?;
                }
                Node::NoSuchProgram(shown) | Node::NotUtf8(shown) => {
                    let got = self.next("run", n)?.unwrap();
                    let show = self.shown.next().unwrap_or_default();
                    let Err(e) = got else { return Err(Fail::new("failure", format!("{n:?} is reported as a success"))) };
                    let name = if matches!(n, Node::NotUtf8(_)) { "probe notutf8" } else { "/nonexistent/program 'a b' c" };
                    ensure!(show.starts_with("> ") == *shown && show.contains(name) == *shown, "shown", "{n:?} shows {show:?}");
                    ensure!(e.contains(name), "failure-names", "the error {e:?} does not name the command");
                }
                Node::Rm(p) => {
                    let pre = format!("{p}/");
                    self.state.data.retain(|k, _| k != p && !k.starts_with(&pre));
                    let got = self.next("rm", n)?.unwrap();
                    ensure!(got.is_ok(), "rm", "{n:?}: {got:?}");
                }
                Node::Write(p, t) => {
                    let ok = self.parent_ok(p) && self.state.data.get(p).is_none_or(|v| v.starts_with("file"));
                    if ok {
                        self.state.data.insert(p.clone(), format!("file {t}"));
                    }
                    let got = self.next("write", n)?.unwrap();
                    self.status(n, p, got, ok.then(String::new))?;
                }
                Node::Read(p) => {
                    let want = self.state.data.get(p).and_then(|v| v.strip_prefix("file ")).map(String::from);
                    let got = self.next("read", n)?.unwrap();
                    self.status(n, p, got, want)?;
                }
                Node::Copy(p, q) => {
                    let t = self.state.data.get(p).and_then(|v| v.strip_prefix("file ")).map(String::from);
                    let ok = t.is_some() && self.parent_ok(q) && self.state.data.get(q).is_none_or(|v| v.starts_with("file"));
                    if let (true, Some(t)) = (ok, &t) {
                        self.state.data.insert(q.clone(), format!("file {t}"));
                    }
                    let got = self.next("copy", n)?.unwrap();
                    self.status(n, p, got.clone(), ok.then(|| t.unwrap().len().to_string()))?;
                    if let Err(e) = got {
                        ensure!(e.contains(q.as_str()), "failure-names", "{n:?}: the error {e:?} does not name {q}");
                    }
                }
                Node::RemoveFile(p) => {
                    let ok = self.state.data.get(p).is_some_and(|v| v != "dir");
                    if ok {
                        self.state.data.remove(p);
                    }
                    let got = self.next("remove_file", n)?.unwrap();
                    self.status(n, p, got, ok.then(String::new))?;
                }
                Node::MakeDir(p) => {
                    let parts: Vec<&str> = p.split('/').collect();
                    let all: Vec<String> = (1..=parts.len()).map(|i| parts[..i].join("/")).collect();
                    let ok = all.iter().all(|a| self.state.data.get(a).is_none_or(|v| v == "dir"));
                    if ok {
                        all.into_iter().for_each(|a| drop(self.state.data.insert(a, "dir".into())));
                    }
                    let got = self.next("mkdir", n)?.unwrap();
                    self.status(n, p, got, ok.then(String::new))?;
                }
            }
        }
        Ok(false)
    }
    fn enter(&mut self) {
        self.depth += 1;
        self.deepest = self.deepest.max(self.depth);
    }
    fn parent_ok(&self, p: &str) -> bool {
        p.rsplit_once('/').is_none_or(|(d, _)| self.state.data.get(d).is_some_and(|v| v == "dir"))
    }
    fn status(&self, n: &Node, path: &str, got: Result<String, String>, want: Option<String>) -> Result<(), Fail> {
        match (got, want) {
            (Ok(g), Some(w)) => ensure_eq!(g, w, "result", "result of {n:?}"),
            (Err(e), None) => ensure!(e.contains(path), "failure-names", "{n:?}: the error {e:?} does not name {path}"),
            (g, w) => return Err(Fail::new("result", format!("{n:?} gives {g:?}, expected {w:?}"))),
        }
        Ok(())
    }
}

/// Today, in UTC.
fn day() -> String {
    let days = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64 / 86400;
    // Civil date from days (proleptic Gregorian), counting years from March.
    let z = days + 719_468;
    let (era, doe) = (z.div_euclid(146_097), z.rem_euclid(146_097));
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    format!("{:04}-{:02}-{:02}", yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1)
}

fn judge(case: &Case) -> Outcome {
    let (root, events, shown) = run(case)?;
    let shown: Vec<String> = shown.split(&format!("{BEGIN}\n")).skip(1).map(|s| s.split("\u{1}end").next().unwrap().to_string()).collect();
    let mut data = BTreeMap::new();
    if let Some(e) = events.first() {
        data = e.state.data.clone();
    }
    ensure_eq!(data.len(), 16, "setup", "files made: {data:?}");
    let exe = EXE.get().unwrap().1.to_string_lossy().into_owned();
    let mut m = Model { state: State { cwd: root.clone(), env: case.env.clone(), data }, root, exe, seen: events.iter(), shown: shown.into_iter(), runs: 0, depth: 0, deepest: 0 };
    m.next("start", &"start")?;
    m.go(&case.nodes)?;
    ensure!(m.seen.next().is_none(), "events", "more events than expected");
    Ok(Info::when(m.deepest > 1 || m.runs > 0).label_if(m.deepest > 2, "three scopes deep").label_if(m.runs > 1, "several commands"))
}

fn word() -> impl Strategy<Value = Word> + Clone {
    let sep = || prop::sample::select(vec![" ", "  ", "\t", " \n ", "\r\n"]).prop_map(String::from);
    prop_oneof![
        3 => (prop_oneof!["[a-zA-Z0-9=+./,:@%-]{1,8}", "[!-&(-~é🌍]{1,6}"], sep()).prop_map(|(text, sep)| Word { text, quoted: false, sep }),
        2 => (prop_oneof!["[ -&(-~é\t\n]{0,10}", Just(String::new()), Just("two words".into()), Just(" ".into())], sep()).prop_map(|(text, sep)| Word { text, quoted: true, sep }),
    ]
}

fn nodes() -> impl Strategy<Value = Vec<Node>> {
    let path = || {
        prop::sample::select(vec![
            "file", "tree", "tree/sub", "tree/a", "tree/sub/b", "tree/sub/deep", "empty", "keep", "keep/in", "keep/in/x", "missing", "tree/missing", "link_dir", "link_file", "link_dangling", "tree/link_out", "new", "new/er", "tree/new", "file2",
        ])
        .prop_map(String::from)
    };
    // paths that name no link and go through none
    let plain = || path().prop_filter("link", |p: &String| !p.contains("link"));
    let stdin = prop_oneof![3 => Just(Stdin::None), 3 => "[ -~é\n]{0,30}".prop_map(Stdin::Text), 1 => (0usize..300_000).prop_map(Stdin::Big)];
    let how = || prop::sample::select(vec!["", "", "", "stubborn", "broken", "fails"]).prop_map(String::from);
    let leaf = prop_oneof![
        6 => (prop_oneof![4 => Just(0), 1 => 1i32..256], any::<bool>(), prop::collection::vec(word(), 0..5), (stdin, prop_oneof![2 => Just(Some(false)), 1 => Just(Some(true)), 1 => Just(None)])).prop_map(|(c, e, w, (s, o))| Node::Run(c, e, w, s, o)),
        1 => any::<bool>().prop_map(Node::NoSuchProgram),
        1 => any::<bool>().prop_map(Node::NotUtf8),
        1 => prop::sample::select(DATE_ZONES.to_vec()).prop_map(|z| Node::Date(z.into())),
        1 => prop::sample::select(vec!["/a/b/c", "/a/b c/é/d", "/x/y", "/repo/xtask/codegen", "/a/b/c/"]).prop_map(|d| Node::Root(d.into())),
        2 => (0..4usize, "[a-z \n{}]{0,20}", how()).prop_map(|(k, t, h)| Node::Format(k, t, h)),
        1 => how().prop_map(Node::Formatter),
        1 => plain().prop_map(Node::List),
        1 => path().prop_filter("link", |p: &String| !p.contains("link")).prop_map(Node::RemoveDir),
        4 => path().prop_map(Node::Rm),
        1 => (plain(), "[a-z]{0,4}").prop_map(|(p, t)| Node::Write(p, t)),
        1 => plain().prop_map(Node::Read),
        1 => (plain(), plain()).prop_filter("self", |(p, q)| p != q).prop_map(|(p, q)| Node::Copy(p, q)),
        1 => path().prop_map(Node::RemoveFile),
        1 => plain().prop_map(Node::MakeDir),
        1 => Just(Node::Panic),
    ];
    let dir = || prop::sample::select(vec!["<root>/d1", "<root>/d1/d2", "<root>", "<root>/e1", ".", "<root>/d1/../e1", "<root>/d1/d2/d3"]).prop_map(String::from);
    let env = || (prop::sample::select(VARS.to_vec()).prop_map(String::from), prop::sample::select(vec!["", "1", "a b", "é=x", "2", "stable", "nightly"]).prop_map(String::from));
    let node = leaf.prop_recursive(4, 24, 4, move |inner| {
        let kids = || prop::collection::vec(inner.clone(), 0..4);
        prop_oneof![
            3 => (dir(), kids()).prop_map(|(d, k)| Node::Dir(d, k)),
            1 => kids().prop_map(|k| Node::Dir("<root>/d1".into(), vec![Node::Dir("d2".into(), vec![Node::Dir("d3".into(), k.clone()), Node::Dir("..".into(), k)])])),
            3 => (env(), kids()).prop_map(|((k, v), n)| Node::Env(k, v, n)),
            2 => kids().prop_map(Node::Unwind),
        ]
    });
    prop::collection::vec(node, 1..5).prop_map(|n| vec![Node::Unwind(n)])
}

fn main() -> ExitCode {
    match std::env::args().nth(1).as_deref() {
        Some("runner") => {
            runner();
            return ExitCode::from(0);
        }
        Some("probe") => return probe(),
        Some("formatter") => return formatter(),
        Some("C14") => {}
        _ => return ExitCode::from(2),
    }
    let mut ck = Check::new("C14");
    let dir = Scratch::new("xtaskexe");
    std::fs::set_permissions(dir.path(), std::fs::Permissions::from_mode(0o755)).unwrap();
    let exe = dir.path().canonicalize().unwrap().join("vp-xtask");
    let fmt = dir.path().join("bin/rustfmt");
    std::fs::create_dir(fmt.parent().unwrap()).unwrap();
    std::fs::write(&fmt, format!("#!/bin/sh\nexec '{}' formatter \"$@\"\n", exe.display())).unwrap();
    for p in [fmt.parent().unwrap(), &fmt] {
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    std::fs::copy(std::env::current_exe().unwrap(), &exe).unwrap();
    std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755)).unwrap();
    let _ = EXE.set((dir, exe));
    ck.prop(
        "histories",
        "nested scopes of pushed directories and variables, left normally or by unwinding, with commands, removals and file operations in them, run in a process of their own; non-trivial: a command runs or scopes are nested",
        4_000,
        60_000,
        || {
            let env = prop::collection::btree_map(prop::sample::select(VARS.to_vec()).prop_map(String::from), prop::sample::select(vec!["", "x", "1"]).prop_map(String::from), 0..3);
            (env, nodes()).prop_map(|(env, nodes)| Case { env, nodes })
        },
        judge,
    );
    let code = ck.finish();
    if let Some((d, _)) = EXE.get() {
        let _ = std::fs::remove_dir_all(d.path());
    }
    code
}
