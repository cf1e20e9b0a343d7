//! Running jarl on a directory tree of its own, as an unprivileged user.

use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::fs::{PermissionsExt, chown};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vpkit::{Fail, Scratch};

pub const NOBODY: u32 = 65534;

#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

impl Out {
    pub fn show(&self) -> String {
        let cut = |s: &str| s.chars().take(1500).collect::<String>();
        format!("exit {:?} signal {:?}\n--- stdout\n{}\n--- stderr\n{}", self.code, self.signal, cut(&self.stdout), cut(&self.stderr))
    }
}

pub struct Tree {
    scratch: Scratch,
}

fn bin() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("vp-jarl")
}

impl Tree {
    pub fn new(tag: &str) -> Self {
        let scratch = Scratch::new(tag);
        let t = Tree { scratch };
        for d in ["", "w", "home"] {
            let p = t.scratch.path().join(d);
            std::fs::create_dir_all(&p).unwrap();
            let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755));
            chown(&p, Some(NOBODY), Some(NOBODY)).expect("chown");
        }
        t
    }
    /// Where the project lives.
    pub fn root(&self) -> PathBuf {
        self.scratch.path().join("w")
    }
    pub fn home(&self) -> PathBuf {
        self.scratch.path().join("home")
    }
    fn dirs(&self, p: &Path) {
        if p.exists() {
            return;
        }
        if let Some(up) = p.parent() {
            self.dirs(up);
        }
        std::fs::create_dir(p).unwrap();
        chown(p, Some(NOBODY), Some(NOBODY)).unwrap();
    }
    pub fn mkdir(&self, rel: &str) {
        self.dirs(&self.root().join(rel.trim_start_matches('/')));
    }
    pub fn put(&self, rel: &str, text: impl AsRef<[u8]>) {
        self.put_at(&self.root().join(rel.trim_start_matches('/')), text);
    }
    pub fn put_at(&self, p: &Path, text: impl AsRef<[u8]>) {
        assert!(p.starts_with(self.scratch.path()));
        self.dirs(p.parent().unwrap());
        std::fs::write(p, text).unwrap();
        chown(p, Some(NOBODY), Some(NOBODY)).unwrap();
    }
    pub fn get(&self, rel: &str) -> String {
        String::from_utf8_lossy(&std::fs::read(self.root().join(rel)).unwrap_or_default()).into_owned()
    }
    /// Every file below the root with what it holds, without what git keeps.
    pub fn files(&self) -> BTreeMap<String, Vec<u8>> {
        fn go(d: &Path, rel: &str, out: &mut BTreeMap<String, Vec<u8>>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let n = e.file_name().to_string_lossy().into_owned();
                if n == ".git" {
                    continue;
                }
                let r = format!("{rel}{n}");
                if e.file_type().unwrap().is_dir() {
                    go(&e.path(), &format!("{r}/"), out);
                } else {
                    out.insert(r, std::fs::read(e.path()).unwrap_or_default());
                }
            }
        }
        let mut out = BTreeMap::new();
        go(&self.root(), "", &mut out);
        out
    }
    pub fn jarl<S: AsRef<str>>(&self, cwd: &str, args: &[S]) -> Result<Out, Fail> {
        self.jarl_env(cwd, args, &[])
    }
    pub fn jarl_env<S: AsRef<str>>(&self, cwd: &str, args: &[S], env: &[(&str, &str)]) -> Result<Out, Fail> {
        self.run(&bin(), cwd, args, env)
    }
    /// The language server, talking over its standard input and output.
    pub fn server(&self, cwd: &str) -> Server {
        let mut c = self.command(&bin(), cwd, &["server"], &[]);
        let mut child = c.stdin(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut r = std::io::BufReader::new(out);
            while let Some(m) = message(&mut r) {
                if tx.send(m).is_err() {
                    break;
                }
            }
        });
        Server { stdin: child.stdin.take(), child, rx }
    }
    /// Runs git, which must succeed.
    pub fn git<S: AsRef<str>>(&self, cwd: &str, args: &[S]) -> Result<(), Fail> {
        let o = self.run(Path::new("git"), cwd, args, &[])?;
        assert!(o.code == Some(0), "git: {}", o.show());
        Ok(())
    }
    fn command<S: AsRef<str>>(&self, program: &Path, cwd: &str, args: &[S], env: &[(&str, &str)]) -> Command {
        let mut c = Command::new(program);
        c.args(args.iter().map(|a| a.as_ref()))
            .current_dir(self.root().join(cwd))
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", self.home())
            .env("NO_COLOR", "1")
            .env("GIT_CONFIG_NOSYSTEM", "1")
            .env("GIT_AUTHOR_NAME", "a").env("GIT_AUTHOR_EMAIL", "a@b.c").env("GIT_COMMITTER_NAME", "a").env("GIT_COMMITTER_EMAIL", "a@b.c")
            .env("LC_ALL", "C.UTF-8")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        for (k, v) in env {
            c.env(k, v);
        }
        if std::fs::metadata("/proc/self").map(|m| std::os::unix::fs::MetadataExt::uid(&m)).unwrap_or(0) == 0 {
            c.uid(NOBODY).gid(NOBODY);
        }
        c
    }
    fn run<S: AsRef<str>>(&self, program: &Path, cwd: &str, args: &[S], env: &[(&str, &str)]) -> Result<Out, Fail> {
        let mut c = self.command(program, cwd, args, env);
        let mut child = c.spawn().unwrap_or_else(|e| panic!("cannot run {}: {e}", program.display()));
        let mut o = child.stdout.take().unwrap();
        let mut e = child.stderr.take().unwrap();
        let te = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = e.read_to_end(&mut v);
            v
        });
        let to = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = o.read_to_end(&mut v);
            v
        });
        let start = Instant::now();
        let mut nap = Duration::from_micros(300);
        let status = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break s;
            }
            if start.elapsed() > Duration::from_secs(40) {
                let _ = child.kill();
                let _ = child.wait();
                return Err(Fail::new("does-not-end", "jarl is still running after 40 s"));
            }
            std::thread::sleep(nap);
            nap = (nap * 2).min(Duration::from_millis(5));
        };
        let _ = std::io::stdout().flush();
        Ok(Out {
            code: status.code(),
            signal: status.signal(),
            stdout: String::from_utf8_lossy(&to.join().unwrap()).into_owned(),
            stderr: String::from_utf8_lossy(&te.join().unwrap()).into_owned(),
        })
    }
}

pub type Json = vpkit::serde_json::Value;

fn message(r: &mut impl std::io::BufRead) -> Option<Json> {
    let mut len = None;
    loop {
        let mut l = String::new();
        if r.read_line(&mut l).ok()? == 0 {
            return None;
        }
        let l = l.trim();
        if l.is_empty() {
            break;
        }
        if let Some(n) = l.strip_prefix("Content-Length:") {
            len = n.trim().parse::<usize>().ok();
        }
    }
    let mut b = vec![0; len?];
    r.read_exact(&mut b).ok()?;
    vpkit::serde_json::from_slice(&b).ok()
}

pub struct Server {
    child: std::process::Child,
    stdin: Option<std::process::ChildStdin>,
    rx: std::sync::mpsc::Receiver<Json>,
}

impl Server {
    /// False: the server does not read any more.
    pub fn send(&mut self, m: &Json) -> bool {
        let b = m.to_string();
        self.stdin.as_mut().is_some_and(|i| write!(i, "Content-Length: {}\r\n\r\n{b}", b.len()).and_then(|()| i.flush()).is_ok())
    }
    pub fn close(&mut self) {
        self.stdin = None;
    }
    pub fn recv(&self, wait: Duration) -> Option<Json> {
        self.rx.recv_timeout(wait).ok()
    }
    /// Waits for the end of the process.
    pub fn end(&mut self, wait: Duration) -> Option<std::process::ExitStatus> {
        let start = Instant::now();
        loop {
            if let Some(s) = self.child.try_wait().unwrap() {
                return Some(s);
            }
            if start.elapsed() > wait {
                return None;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.stdin = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
