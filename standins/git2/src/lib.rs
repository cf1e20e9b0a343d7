//! Stand-in for git2: repository discovery done here, everything else by the git command.
use std::fmt;
use std::path::{Path, PathBuf};
use std::process::Command;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorCode {
    GenericError,
    NotFound,
    Exists,
    Ambiguous,
    BareRepo,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorClass {
    None,
    Os,
    Repository,
}
#[derive(Debug, Clone)]
pub struct Error {
    code: ErrorCode,
    class: ErrorClass,
    message: String,
}
impl Error {
    fn new(code: ErrorCode, class: ErrorClass, message: impl Into<String>) -> Self {
        Self { code, class, message: message.into() }
    }
    pub fn code(&self) -> ErrorCode {
        self.code
    }
    pub fn class(&self) -> ErrorClass {
        self.class
    }
    pub fn message(&self) -> &str {
        &self.message
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}; class={:?}; code={:?}", self.message, self.class, self.code)
    }
}
impl std::error::Error for Error {}

/// The git directory `dir` is or holds, with its work tree.
fn git_dir_at(dir: &Path) -> Option<(PathBuf, Option<PathBuf>)> {
    let is_git = |d: &Path| {
        d.join("HEAD").is_file()
            && (d.join("objects").is_dir() && d.join("refs").is_dir() || d.join("commondir").is_file())
    };
    let dot = dir.join(".git");
    if dot.is_dir() && is_git(&dot) {
        return Some((dot, Some(dir.to_path_buf())));
    }
    if dot.is_file() {
        let text = std::fs::read_to_string(&dot).ok()?;
        let to = dir.join(text.strip_prefix("gitdir:")?.trim());
        let to = std::fs::canonicalize(to).ok()?;
        return is_git(&to).then(|| (to, Some(dir.to_path_buf())));
    }
    if is_git(dir) {
        let work = (dir.file_name() == Some(".git".as_ref())).then(|| dir.parent().map(Path::to_path_buf)).flatten();
        return Some((dir.to_path_buf(), work));
    }
    None
}

fn with_slash(p: &Path) -> PathBuf {
    let mut s = p.as_os_str().to_os_string();
    if !s.to_string_lossy().ends_with('/') {
        s.push("/");
    }
    s.into()
}

#[derive(Debug)]
pub struct Repository {
    git_dir: PathBuf,
    work_dir: Option<PathBuf>,
}
impl Repository {
    pub fn discover<P: AsRef<Path>>(path: P) -> Result<Repository, Error> {
        let p = path.as_ref();
        let not_found = || {
            Error::new(
                ErrorCode::NotFound,
                ErrorClass::Repository,
                format!("could not find repository at '{}'", p.display()),
            )
        };
        let abs = std::fs::canonicalize(if p.as_os_str().is_empty() { Path::new(".") } else { p })
            .map_err(|e| Error::new(ErrorCode::NotFound, ErrorClass::Os, format!("failed to resolve path '{}': {e}", p.display())))?;
        for d in abs.ancestors() {
            if let Some((g, w)) = git_dir_at(d) {
                return Ok(Self::at(&g, w));
            }
        }
        Err(not_found())
    }
    fn at(g: &Path, w: Option<PathBuf>) -> Self {
        Self { git_dir: with_slash(g), work_dir: w.map(|w| with_slash(&w)) }
    }
    pub fn open<P: AsRef<Path>>(path: P) -> Result<Repository, Error> {
        let p = path.as_ref();
        let abs = std::fs::canonicalize(p).unwrap_or_else(|_| p.to_path_buf());
        match git_dir_at(&abs) {
            Some((g, w)) => Ok(Self::at(&g, w)),
            None => Err(Error::new(
                ErrorCode::NotFound,
                ErrorClass::Repository,
                format!("could not find repository at '{}'", p.display()),
            )),
        }
    }
    pub fn discover_path<P: AsRef<Path>, I: IntoIterator>(path: P, _ceiling: I) -> Result<PathBuf, Error> {
        Ok(Self::discover(path)?.git_dir)
    }
    pub fn init<P: AsRef<Path>>(path: P) -> Result<Repository, Error> {
        std::fs::create_dir_all(path.as_ref())
            .map_err(|e| Error::new(ErrorCode::GenericError, ErrorClass::Os, e.to_string()))?;
        git(path.as_ref(), &["init", "-q"])?;
        Self::open(path)
    }
    /// The git directory, with a trailing slash.
    pub fn path(&self) -> &Path {
        &self.git_dir
    }
    pub fn workdir(&self) -> Option<&Path> {
        self.work_dir.as_deref()
    }
    pub fn commondir(&self) -> PathBuf {
        match std::fs::read_to_string(self.git_dir.join("commondir")) {
            Ok(c) => with_slash(&std::fs::canonicalize(self.git_dir.join(c.trim())).unwrap_or_default()),
            Err(_) => self.git_dir.clone(),
        }
    }
    pub fn is_bare(&self) -> bool {
        self.work_dir.is_none()
    }
    pub fn is_worktree(&self) -> bool {
        self.git_dir.join("commondir").is_file()
    }
    fn work(&self) -> Result<&Path, Error> {
        self.work_dir.as_deref().ok_or_else(|| {
            Error::new(ErrorCode::BareRepo, ErrorClass::Repository, "cannot status. This operation is not allowed against bare repositories.")
        })
    }
    pub fn statuses(&self, options: Option<&mut StatusOptions>) -> Result<Statuses<'_>, Error> {
        let default = StatusOptions { untracked: true, recurse: false, ignored: true, pathspec: vec![], submodules: true };
        let o = options.map_or(default, |o| o.clone());
        let mut args: Vec<String> = ["status", "--porcelain=v1", "-z", "--no-renames"].map(String::from).to_vec();
        args.push(format!(
            "--untracked-files={}",
            if !o.untracked { "no" } else if o.recurse { "all" } else { "normal" }
        ));
        args.push(format!("--ignored={}", if o.ignored { "traditional" } else { "no" }));
        if !o.submodules {
            args.push("--ignore-submodules=all".into());
        }
        args.push("--".into());
        args.extend(o.pathspec);
        let args: Vec<&str> = args.iter().map(String::as_str).collect();
        let out = git(self.work()?, &args)?;
        let mut entries = vec![];
        for rec in out.split(|b| *b == 0).filter(|r| r.len() > 3) {
            let (x, y, path) = (rec[0], rec[1], rec[3..].to_vec());
            let mut st = 0;
            st |= match x {
                b'A' => 1,
                b'M' => 2,
                b'D' => 4,
                b'R' => 8,
                b'T' => 16,
                _ => 0,
            };
            st |= match y {
                b'M' => 256,
                b'D' => 512,
                b'T' => 1024,
                b'R' => 2048,
                _ => 0,
            };
            match (x, y) {
                (b'?', _) => st = 128,
                (b'!', _) => st = 16384,
                (b'U', _) | (_, b'U') | (b'A', b'A') | (b'D', b'D') => st = 32768,
                _ => {}
            }
            entries.push((path, Status(st)));
        }
        Ok(Statuses { entries, _r: std::marker::PhantomData })
    }
    pub fn status_file(&self, path: &Path) -> Result<Status, Error> {
        let mut o = StatusOptions::new();
        o.include_untracked(true).recurse_untracked_dirs(true).include_ignored(true).pathspec(path.display());
        Ok(self.statuses(Some(&mut o))?.entries.first().map_or(Status::CURRENT, |e| e.1))
    }
    pub fn is_path_ignored<P: AsRef<Path>>(&self, path: P) -> Result<bool, Error> {
        Ok(git(self.work()?, &["check-ignore", "-q", "--", &path.as_ref().to_string_lossy()]).is_ok())
    }
    pub fn index(&self) -> Result<Index, Error> {
        Ok(Index { work: self.work()?.to_path_buf() })
    }
    pub fn find_tree(&self, oid: Oid) -> Result<Tree, Error> {
        Ok(Tree(oid))
    }
    pub fn commit(
        &self,
        update: Option<&str>,
        author: &Signature,
        _committer: &Signature,
        message: &str,
        tree: &Tree,
        parents: &[&Commit],
    ) -> Result<Oid, Error> {
        let id = ["-c", &format!("user.name={}", author.name), "-c", &format!("user.email={}", author.email)].map(String::from);
        let mut args: Vec<String> = id.to_vec();
        args.extend(["commit-tree", "-m", message, &tree.0.0].map(String::from));
        for p in parents {
            args.extend(["-p".to_string(), p.0.0.clone()]);
        }
        let args: Vec<&str> = args.iter().map(String::as_str).collect();
        let oid = String::from_utf8_lossy(&git(self.work()?, &args)?).trim().to_string();
        if let Some(r) = update {
            git(self.work()?, &["update-ref", r, &oid])?;
        }
        Ok(Oid(oid))
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Oid(String);
pub struct Tree(Oid);
pub struct Commit(Oid);
pub struct Signature {
    name: String,
    email: String,
}
impl Signature {
    pub fn now(name: &str, email: &str) -> Result<Self, Error> {
        Ok(Self { name: name.into(), email: email.into() })
    }
}
pub struct Index {
    work: PathBuf,
}
impl Index {
    pub fn add_path(&mut self, p: &Path) -> Result<(), Error> {
        git(&self.work, &["add", "-f", "--", &p.to_string_lossy()]).map(drop)
    }
    pub fn write(&mut self) -> Result<(), Error> {
        Ok(())
    }
    pub fn write_tree(&mut self) -> Result<Oid, Error> {
        Ok(Oid(String::from_utf8_lossy(&git(&self.work, &["write-tree"])?).trim().to_string()))
    }
}

/// Runs git over the repository at `dir`, whoever owns it, with no hooks or prompts.
fn git(dir: &Path, args: &[&str]) -> Result<Vec<u8>, Error> {
    let out = Command::new("git")
        .args(["-c", "safe.directory=*", "-c", "core.fsmonitor=false", "-c", "init.defaultBranch=main"])
        .arg("-C")
        .arg(dir)
        .args(args)
        .env_remove("GIT_DIR")
        .env_remove("GIT_WORK_TREE")
        .env("GIT_OPTIONAL_LOCKS", "0")
        .env("GIT_CONFIG_COUNT", "1")
        .env("GIT_CONFIG_KEY_0", "safe.directory")
        .env("GIT_CONFIG_VALUE_0", "*")
        .output()
        .map_err(|e| Error::new(ErrorCode::GenericError, ErrorClass::Os, e.to_string()))?;
    if out.status.success() {
        Ok(out.stdout)
    } else {
        Err(Error::new(ErrorCode::GenericError, ErrorClass::Repository, String::from_utf8_lossy(&out.stderr).into_owned()))
    }
}

#[derive(Debug, Clone, Default)]
pub struct StatusOptions {
    untracked: bool,
    recurse: bool,
    ignored: bool,
    submodules: bool,
    pathspec: Vec<String>,
}
impl StatusOptions {
    pub fn new() -> Self {
        Self { submodules: true, ..Self::default() }
    }
    pub fn include_untracked(&mut self, b: bool) -> &mut Self {
        self.untracked = b;
        self
    }
    pub fn include_ignored(&mut self, b: bool) -> &mut Self {
        self.ignored = b;
        self
    }
    pub fn include_unmodified(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn recurse_untracked_dirs(&mut self, b: bool) -> &mut Self {
        self.recurse = b;
        self
    }
    pub fn recurse_ignored_dirs(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn exclude_submodules(&mut self, b: bool) -> &mut Self {
        self.submodules = !b;
        self
    }
    pub fn renames_head_to_index(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn pathspec<T: ToString>(&mut self, p: T) -> &mut Self {
        self.pathspec.push(p.to_string());
        self
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Status(u32);
macro_rules! flags { ($($n:ident $f:ident $v:literal),*) => { impl Status {
    pub const CURRENT: Status = Status(0);
    $(pub const $n: Status = Status($v); pub fn $f(&self) -> bool { self.0 & $v != 0 })*
    pub fn bits(&self) -> u32 { self.0 }
    pub fn is_empty(&self) -> bool { self.0 == 0 }
    pub fn contains(&self, o: Status) -> bool { self.0 & o.0 == o.0 }
    pub fn intersects(&self, o: Status) -> bool { self.0 & o.0 != 0 }
} } }
flags!(INDEX_NEW is_index_new 1, INDEX_MODIFIED is_index_modified 2, INDEX_DELETED is_index_deleted 4,
    INDEX_RENAMED is_index_renamed 8, INDEX_TYPECHANGE is_index_typechange 16, WT_NEW is_wt_new 128,
    WT_MODIFIED is_wt_modified 256, WT_DELETED is_wt_deleted 512, WT_TYPECHANGE is_wt_typechange 1024,
    WT_RENAMED is_wt_renamed 2048, IGNORED is_ignored 16384, CONFLICTED is_conflicted 32768);
impl std::ops::BitOr for Status {
    type Output = Status;
    fn bitor(self, o: Status) -> Status {
        Status(self.0 | o.0)
    }
}
pub struct Statuses<'r> {
    entries: Vec<(Vec<u8>, Status)>,
    _r: std::marker::PhantomData<&'r ()>,
}
pub struct StatusEntry<'s> {
    path: &'s [u8],
    status: Status,
}
impl<'s> StatusEntry<'s> {
    pub fn path(&self) -> Option<&str> {
        std::str::from_utf8(self.path).ok()
    }
    pub fn path_bytes(&self) -> &[u8] {
        self.path
    }
    pub fn status(&self) -> Status {
        self.status
    }
}
impl<'r> Statuses<'r> {
    pub fn len(&self) -> usize {
        self.entries.len()
    }
    pub fn is_empty(&self) -> bool {
        self.entries.is_empty()
    }
    pub fn get(&self, i: usize) -> Option<StatusEntry<'_>> {
        self.entries.get(i).map(|(p, s)| StatusEntry { path: p, status: *s })
    }
    pub fn iter(&self) -> impl ExactSizeIterator<Item = StatusEntry<'_>> + '_ {
        self.entries.iter().map(|(p, s)| StatusEntry { path: p, status: *s })
    }
}
