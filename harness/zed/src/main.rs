//! C13: the Zed extension, compiled against a stand-in for the editor, run as an unprivileged
//! user in a scratch directory (it removes directories).

use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};
use vpkit::proptest::prelude::*;
use vpkit::serde::{Deserialize, Serialize};
use vpkit::{Check, Fail, Info, Outcome, Scratch, ensure, ensure_eq};
use zed_extension_api::mock;
use zed_extension_api::{Architecture, DownloadedFileType, GithubRelease, GithubReleaseAsset, Os};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(crate = "vpkit::serde")]
enum Settings {
    Unavailable,
    Malformed,
    OtherServer,
    Jarl { path: Option<String>, args: Option<Vec<String>>, binary: bool, init: Option<String>, settings: Option<String> },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(crate = "vpkit::serde")]
enum Net {
    Works,
    NoRelease,
    /// the release has no asset for the platform
    NoAsset,
    DownloadFails,
    /// fails after it has written some of it
    DownloadBreaks,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(crate = "vpkit::serde")]
enum Op {
    Settings(Settings),
    OnPath(Option<String>),
    Release(String),
    Net(Net),
    Dir(String),
    File(String),
    /// removes what a version left: (version, only the binary)
    Remove(String, bool),
    /// the binary of the version becomes a directory
    BinaryToDir(String),
    /// another window of the editor has downloaded the version
    Appear(String),
    Restart,
    Start,
    Options,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    os: u8,
    arch: u8,
    ops: Vec<Op>,
}

const OSES: [(Os, &str, bool); 3] = [(Os::Mac, "apple-darwin", false), (Os::Linux, "unknown-linux-gnu", false), (Os::Windows, "pc-windows-msvc", true)];
const ARCHES: [(Architecture, &str); 3] = [(Architecture::Aarch64, "aarch64"), (Architecture::X8664, "x86_64"), (Architecture::X86, "x86")];

/// What the release process publishes: the targets and the archive types.
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Published {
    targets: Vec<String>,
    windows: String,
    unix: String,
}

fn published() -> Published {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let t = std::fs::read_to_string(Path::new(&root).join("build/repo/dist-workspace.toml")).expect("dist-workspace.toml");
    let value = |k: &str| {
        let l = t.lines().find(|l| l.starts_with(k)).expect(k);
        l.split('"').nth(1).expect(k).to_string()
    };
    let list = t.split("\ntargets = [").nth(1).expect("targets").split(']').next().unwrap();
    let targets = list.lines().filter_map(|l| l.trim().strip_prefix('"')?.split('"').next().map(String::from)).collect();
    Published { targets, windows: value("windows-archive"), unix: value("unix-archive") }
}

fn archive(p: &Published, target: &str) -> String {
    format!("jarl-{target}{}", if target.contains("windows") { &p.windows } else { &p.unix })
}

fn triple(os: u8, arch: u8) -> String {
    format!("{}-{}", ARCHES[arch as usize].1, OSES[os as usize].1)
}

/// Where the archive of the target puts the binary.
fn inside(target: &str) -> String {
    if target.contains("windows") { "jarl.exe".into() } else { format!("jarl-{target}/jarl") }
}

// ---------------------------------------------------------------- the extension's side

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(crate = "vpkit::serde")]
struct Seen {
    /// command and arguments, or that it failed
    command: Option<(String, Vec<String>)>,
    values: Option<(Option<serde_json::Value>, Option<serde_json::Value>)>,
    dirs: BTreeSet<String>,
    files: BTreeSet<String>,
    downloads: usize,
    binary_exists: bool,
}

fn download(url: &str, to: &str, kind: DownloadedFileType) -> Result<(), String> {
    let net = std::fs::read_to_string("../net").unwrap();
    if net == "fails" {
        return Err("connection refused".into());
    }
    let name = url.rsplit('/').next().unwrap();
    let (target, want) = if let Some(t) = name.strip_suffix(".tar.gz") { (t, DownloadedFileType::GzipTar) } else { (name.strip_suffix(".zip").ok_or("unknown archive")?, DownloadedFileType::Zip) };
    if kind != want {
        return Err("not such an archive".into());
    }
    std::fs::create_dir_all(to).map_err(|e| e.to_string())?;
    std::fs::write(Path::new(to).join("partial"), "").map_err(|e| e.to_string())?;
    if net == "breaks" {
        return Err("connection reset".into());
    }
    let target = target.strip_prefix("jarl-").ok_or("unknown archive")?;
    let f = Path::new(to).join(inside(target));
    std::fs::create_dir_all(f.parent().unwrap()).map_err(|e| e.to_string())?;
    if f.is_dir() {
        std::fs::remove_dir_all(&f).map_err(|e| e.to_string())?;
    }
    std::fs::write(&f, name).map_err(|e| e.to_string())
}

fn walk(d: &Path, rel: &str, dirs: &mut BTreeSet<String>, files: &mut BTreeSet<String>) {
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let n = format!("{rel}{}", e.file_name().to_string_lossy());
        if e.path().is_dir() {
            walk(&e.path(), &format!("{n}/"), dirs, files);
            dirs.insert(n);
        } else {
            files.insert(n);
        }
    }
}

/// Runs a case in the current directory (`work`, its parent is the runner's).
fn runner() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let (case, publ): (Case, Published) = serde_json::from_str(&s).unwrap();
    // Never anywhere but in a scratch directory, as nobody.
    let cwd = std::env::current_dir().unwrap();
    assert!(cwd.ends_with("work") && cwd.to_string_lossy().contains("vp-zed"));
    let st = std::fs::read_to_string("/proc/self/status").unwrap();
    assert!(st.lines().any(|l| l.starts_with("Uid:") && l.contains("65534")), "privileged");

    let mut ext = zed_jarl::vp_extension();
    let id = mock::id("jarl");
    let tree = mock::worktree();
    let mut net = Net::Works;
    let mut version = "0.1.0".to_string();
    let target = triple(case.os, case.arch);
    mock::with(|w| {
        w.platform = (OSES[case.os as usize].0, ARCHES[case.arch as usize].0);
        w.download = Some(download);
        w.path = vec![("air".into(), "/usr/bin/air".into()), ("R".into(), "/usr/bin/R".into())];
    });
    let set_net = |net: Net, version: &str| {
        std::fs::write("../net", match net { Net::DownloadFails => "fails", Net::DownloadBreaks => "breaks", _ => "works" }).unwrap();
        let assets = |v: &str| {
            let mut names: Vec<String> = publ.targets.iter().map(|t| archive(&publ, t)).collect();
            if !publ.targets.contains(&target) {
                names.push(archive(&publ, &target));
            }
            let sums: Vec<String> = names.iter().map(|n| format!("{n}.sha256")).collect();
            names.extend(sums);
            names.push("source.tar.gz".into());
            names.push("jarl-installer.sh".into());
            names.retain(|n| net != Net::NoAsset || *n != archive(&publ, &target));
            names.sort();
            names.into_iter().map(|n| GithubReleaseAsset { download_url: format!("https://example.org/{v}/{n}"), name: n }).collect::<Vec<_>>()
        };
        mock::with(|w| {
            w.release = if net == Net::NoRelease { Err("offline".into()) } else { Ok(GithubRelease { version: version.into(), assets: assets(version) }) };
            let pre = format!("{version}-pre");
            w.prerelease = if net == Net::NoRelease { Err("offline".into()) } else { Ok(GithubRelease { assets: assets(&pre), version: pre }) };
        });
    };
    set_net(net, &version);
    let mut out: Vec<Seen> = vec![];
    for op in &case.ops {
        mock::with(|w| w.calls.clear());
        let mut command = None;
        let mut values = None;
        match op {
            Op::Settings(s) => mock::with(|w| {
                w.settings = match s {
                    Settings::Unavailable => Err("no settings".into()),
                    Settings::Malformed => Ok(r#"{"jarl": {"binary": 3}}"#.into()),
                    Settings::OtherServer => Ok(r#"{"air": {"binary": {"path": "/other", "arguments": ["x"]}}, "Jarl": {"binary": {"path": "/no"}}}"#.into()),
                    Settings::Jarl { path, args, binary, init, settings } => {
                        let mut j = serde_json::json!({});
                        if *binary {
                            j["binary"] = serde_json::json!({"path": path, "arguments": args});
                        }
                        if let Some(i) = init {
                            j["initialization_options"] = serde_json::json!({"v": i});
                        }
                        if let Some(i) = settings {
                            j["settings"] = serde_json::json!({"w": i});
                        }
                        Ok(serde_json::json!({"jarl": j, "air": {"binary": {"path": "/other"}}}).to_string())
                    }
                }
            }),
            Op::OnPath(p) => mock::with(|w| {
                w.path.retain(|x| x.0 != "jarl");
                if let Some(p) = p {
                    w.path.push(("jarl".into(), p.clone()));
                }
            }),
            Op::Release(v) => {
                version = v.clone();
                set_net(net, &version);
            }
            Op::Net(n) => {
                net = *n;
                set_net(net, &version);
            }
            Op::Dir(d) => drop(std::fs::create_dir_all(Path::new(d).join("sub")).and_then(|_| std::fs::write(Path::new(d).join("sub/f"), ""))),
            Op::File(f) => drop(std::fs::write(f, "")),
            Op::Remove(v, only) => {
                let d = PathBuf::from(format!("jarl-{v}"));
                if *only { drop(std::fs::remove_file(d.join(inside(&target)))) } else { drop(std::fs::remove_dir_all(&d)) }
            }
            Op::BinaryToDir(v) => {
                let f = PathBuf::from(format!("jarl-{v}")).join(inside(&target));
                if f.is_file() {
                    std::fs::remove_file(&f).unwrap();
                    std::fs::create_dir(&f).unwrap();
                }
            }
            Op::Appear(v) => {
                let f = PathBuf::from(format!("jarl-{v}")).join(inside(&target));
                if !f.exists() {
                    drop(std::fs::create_dir_all(f.parent().unwrap()).and_then(|_| std::fs::write(&f, "")));
                }
            }
            Op::Restart => ext = zed_jarl::vp_extension(),
            Op::Start => command = ext.language_server_command(&id, &tree).ok().map(|c| (c.command, c.args)),
            Op::Options => {
                values = Some((
                    ext.language_server_initialization_options(&id, &tree).unwrap_or_else(|e| Some(serde_json::json!({"error": e}))),
                    ext.language_server_workspace_configuration(&id, &tree).unwrap_or_else(|e| Some(serde_json::json!({"error": e}))),
                ))
            }
        }
        let (mut dirs, mut files) = (BTreeSet::new(), BTreeSet::new());
        walk(Path::new("."), "", &mut dirs, &mut files);
        let binary_exists = command.as_ref().is_some_and(|c| Path::new(&c.0).is_file());
        let downloads = mock::with(|w| w.calls.iter().filter(|c| matches!(c, mock::Call::Download(..))).count());
        out.push(Seen { command, values, dirs, files, downloads, binary_exists });
    }
    println!("{}", serde_json::to_string(&out).unwrap());
}

// ---------------------------------------------------------------- the judge's side

static EXE: OnceLock<(Scratch, PathBuf)> = OnceLock::new();

fn run(case: &Case, publ: &Published) -> Result<Vec<Seen>, Fail> {
    let (_, exe) = EXE.get().unwrap();
    let dir = Scratch::new("zed");
    let work = dir.path().join("work");
    std::fs::create_dir(&work).unwrap();
    for p in [dir.path(), &work] {
        std::os::unix::fs::chown(p, Some(65534), Some(65534)).expect("chown");
    }
    let mut ch = Command::new(exe)
        .arg("runner")
        .current_dir(&work)
        .env_clear()
        .uid(65534)
        .gid(65534)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("runner");
    ch.stdin.take().unwrap().write_all(serde_json::to_string(&(case, publ)).unwrap().as_bytes()).unwrap();
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let o = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let e = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break s;
        }
        if t.elapsed() > Duration::from_secs(40) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(Fail::new("hang", "the extension does not answer"));
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let (o, e) = (o.join().unwrap(), e.join().unwrap());
    ensure!(!e.contains("privileged"), "setup", "cannot drop privileges");
    ensure!(st.success(), "crash", "the extension crashed: {e}");
    Ok(serde_json::from_str(&o).expect("runner output"))
}

fn judge(case: &Case, publ: &Published) -> Outcome {
    let seen = run(case, publ)?;
    let target = triple(case.os, case.arch);
    let (mut settings, mut on_path, mut version, mut net) = (Settings::Jarl { path: None, args: None, binary: false, init: None, settings: None }, None::<String>, "0.1.0".to_string(), Net::Works);
    let mut cached: Option<String> = None;
    let (mut dirs, mut files): (BTreeSet<String>, BTreeSet<String>) = Default::default();
    let mut labels: BTreeSet<&str> = BTreeSet::new();
    let mut starts = 0;
    for (i, (op, s)) in case.ops.iter().zip(&seen).enumerate() {
        let at = format!("step {i} ({op:?})");
        match op {
            Op::Settings(s) => settings = s.clone(),
            Op::OnPath(p) => on_path = p.clone(),
            Op::Release(v) => version = v.clone(),
            Op::Net(n) => net = *n,
            Op::Restart => cached = None,
            Op::Options => {
                let (a, b) = match &settings {
                    Settings::Jarl { init, settings, .. } => (init.as_ref().map(|v| serde_json::json!({"v": v})), settings.as_ref().map(|v| serde_json::json!({"w": v}))),
                    _ => (None, None),
                };
                let norm = |v: &Option<serde_json::Value>| v.clone().filter(|v| !v.is_null());
                let got = s.values.as_ref().map(|v| (norm(&v.0), norm(&v.1)));
                ensure_eq!(got, Some((a, b)), "options", "{at}: initialization options and settings");
            }
            Op::Start => {
                starts += 1;
                let bin = |b: &Settings| match b {
                    Settings::Jarl { path, args, binary: true, .. } => (path.clone(), args.clone()),
                    _ => (None, None),
                };
                let (user_path, user_args) = bin(&settings);
                let args = user_args.unwrap_or_else(|| vec!["server".into()]);
                let dir = format!("jarl-{version}");
                let binary = format!("{dir}/{}", inside(&target));
                let mut downloads = 0;
                let mut cleaned = false;
                let mut exact = true;
                let command = if let Some(p) = user_path {
                    labels.insert("configured path");
                    Some(p)
                } else if let Some(p) = &on_path {
                    labels.insert("on the PATH");
                    Some(p.clone())
                } else if let Some(p) = cached.clone().filter(|p| files.contains(p)) {
                    labels.insert("downloaded before");
                    Some(p)
                } else if net == Net::NoRelease {
                    labels.insert("no release");
                    None
                } else if net == Net::NoAsset {
                    labels.insert("no asset");
                    None
                } else if files.contains(&binary) {
                    labels.insert("found on disk");
                    cached = Some(binary.clone());
                    Some(binary)
                } else {
                    downloads = 1;
                    match net {
                        Net::Works => {
                            labels.insert("downloaded");
                            cleaned = true;
                            cached = Some(binary.clone());
                            Some(binary)
                        }
                        Net::DownloadBreaks => {
                            labels.insert("download broke");
                            exact = false;
                            None
                        }
                        _ => {
                            labels.insert("download failed");
                            None
                        }
                    }
                };
                let got = s.command.as_ref().map(|c| &c.0);
                ensure_eq!(got, command.as_ref(), "binary", "{at}: binary for {target}");
                ensure_eq!(s.downloads, downloads, "downloads", "{at}: number of downloads");
                if let Some(c) = &s.command {
                    ensure_eq!(c.1, args, "arguments", "{at}: arguments");
                }
                let top = |d: &BTreeSet<String>| d.iter().filter(|d| !d.contains('/')).cloned().collect::<BTreeSet<_>>();
                if cleaned {
                    ensure!(s.binary_exists, "binary", "{at}: the binary does not exist after the download");
                    ensure_eq!(top(&s.dirs), BTreeSet::from([dir.clone()]), "clean-up", "{at}: directories kept after a download");
                    let lost: Vec<_> = files.iter().filter(|f| f.starts_with(&format!("{dir}/")) && !s.files.contains(*f)).collect();
                    ensure!(lost.is_empty(), "clean-up", "{at}: the new version lost {lost:?}");
                    if dirs.iter().any(|d| !d.contains('/') && *d != dir) {
                        labels.insert("cleaned up");
                    }
                } else {
                    let lost = |before: &BTreeSet<String>, after: &BTreeSet<String>| before.difference(after).cloned().collect::<Vec<_>>();
                    ensure!(lost(&dirs, &s.dirs).is_empty() && lost(&files, &s.files).is_empty(), "untouched", "{at}: removed {:?} {:?}", lost(&dirs, &s.dirs), lost(&files, &s.files));
                    if exact {
                        ensure_eq!((&s.dirs, &s.files), (&dirs, &files), "untouched", "{at}: the directory changed");
                    }
                }
            }
            _ => {}
        }
        (dirs, files) = (s.dirs.clone(), s.files.clone());
    }
    let mut info = Info::when(starts > 1 && labels.len() > 1);
    for l in labels {
        info = info.label(l);
    }
    Ok(info)
}

fn ops() -> impl Strategy<Value = Vec<Op>> {
    let version = || prop::sample::select(vec!["0.1.0", "0.2.0", "v0.3.0", "0.5.0-alpha.3", "1"]).prop_map(String::from);
    let word = || prop::sample::select(vec!["server", "--log-level", "trace", "", "a b", "é"]).prop_map(String::from);
    let settings = || {
        prop_oneof![
            1 => Just(Settings::Unavailable),
            1 => Just(Settings::Malformed),
            1 => Just(Settings::OtherServer),
            4 => (prop::option::weighted(0.3, prop::sample::select(vec!["/opt/jarl", "jarl", "C:\\jarl.exe", ""]).prop_map(String::from)), prop::option::of(prop::collection::vec(word(), 0..3)), prop::bool::weighted(0.8), prop::option::of(word()), prop::option::of(word()))
                .prop_map(|(path, args, binary, init, settings)| Settings::Jarl { path, args, binary, init, settings }),
        ]
    };
    let name = || prop_oneof![2 => version().prop_map(|v| format!("jarl-{v}")), 1 => prop::sample::select(vec!["jarl", "old", "jarl-", ".cache", "jarl-0.1.0.bak"]).prop_map(String::from)];
    let net = || prop_oneof![4 => Just(Net::Works), 1 => Just(Net::NoRelease), 1 => Just(Net::NoAsset), 1 => Just(Net::DownloadFails), 1 => Just(Net::DownloadBreaks)];
    let op = prop_oneof![
        2 => settings().prop_map(Op::Settings),
        1 => prop::option::weighted(0.3, prop::sample::select(vec!["/usr/bin/jarl", "/home/u/jarl"]).prop_map(String::from)).prop_map(Op::OnPath),
        2 => version().prop_map(Op::Release),
        2 => net().prop_map(Op::Net),
        2 => name().prop_map(Op::Dir),
        1 => prop::sample::select(vec!["notes.txt", ".DS_Store", "jarl-9.tar.gz"]).prop_map(|f| Op::File(f.into())),
        1 => (version(), any::<bool>()).prop_map(|(v, b)| Op::Remove(v, b)),
        1 => version().prop_map(Op::BinaryToDir),
        1 => version().prop_map(Op::Appear),
        2 => Just(Op::Restart),
        7 => Just(Op::Start),
        1 => Just(Op::Options),
    ];
    prop_oneof![6 => prop::collection::vec(op.clone(), 1..14), 1 => prop::collection::vec(op, 14..40)]
}

fn main() -> ExitCode {
    match std::env::args().nth(1).as_deref() {
        Some("runner") => {
            runner();
            return ExitCode::from(0);
        }
        Some("C13") => {}
        _ => return ExitCode::from(2),
    }
    let mut ck = Check::new("C13");
    ck.assume("the editor is a stand-in with the interface of zed_extension_api 0.2.0; its downloads unpack an archive as the release process lays it out");
    let dir = Scratch::new("zedexe");
    std::fs::set_permissions(dir.path(), std::fs::Permissions::from_mode(0o755)).unwrap();
    let exe = dir.path().join("vp-zed");
    std::fs::copy(std::env::current_exe().unwrap(), &exe).unwrap();
    std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755)).unwrap();
    let _ = EXE.set((dir, exe));
    let publ = published();
    let mut every = vec![];
    for os in 0..3 {
        for arch in 0..3 {
            if publ.targets.contains(&triple(os, arch)) {
                every.push(Case { os, arch, ops: vec![Op::Dir("jarl-0.0.9".into()), Op::Start, Op::Start, Op::Restart, Op::Start] });
            }
        }
    }
    assert!(every.len() >= 5, "platforms of dist-workspace.toml");
    ck.exhaustive("every_platform", "every platform a release is published for: first start, second start, restart", every, |c| judge(c, &publ));
    ck.prop(
        "histories",
        "any platform, and a history of settings, PATH, releases, network failures, directory contents, restarts and starts of the server; non-trivial: several starts that find the binary in different ways",
        6_000,
        60_000,
        || (0u8..3, 0u8..3, ops()).prop_map(|(os, arch, ops)| Case { os, arch, ops }),
        |c| judge(c, &publ),
    );
    let code = ck.finish();
    if let Some((d, _)) = EXE.get() {
        let _ = std::fs::remove_dir_all(d.path());
    }
    code
}
