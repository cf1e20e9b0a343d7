//! Stand-in for ignore: the directory walker with gitignore, hidden-file and override rules.
//! The parallel walker gives entries to its visitors in an order that changes from one run to
//! the next, as the real one does.
mod glob;
use glob::{Gitignore, Glob};
use std::collections::HashMap;
use std::ffi::OsStr;
use std::fmt;
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Debug, Clone)]
pub enum Error {
    Io(Arc<std::io::Error>),
    WithPath { path: PathBuf, err: Box<Error> },
    Glob { glob: Option<String>, err: String },
    InvalidDefinition,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Error::Io(e) => e.fmt(f),
            Error::WithPath { path, err } => write!(f, "{}: {err}", path.display()),
            Error::Glob { err, .. } => f.write_str(err),
            Error::InvalidDefinition => f.write_str("invalid definition"),
        }
    }
}
impl std::error::Error for Error {}
impl Error {
    fn io(path: &Path, e: std::io::Error) -> Self {
        Error::WithPath { path: path.to_path_buf(), err: Box::new(Error::Io(Arc::new(e))) }
    }
    pub fn io_error(&self) -> Option<&std::io::Error> {
        match self {
            Error::Io(e) => Some(e),
            Error::WithPath { err, .. } => err.io_error(),
            _ => None,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Match<T> {
    None,
    Ignore(T),
    Whitelist(T),
}
impl<T> Match<T> {
    pub fn is_none(&self) -> bool {
        matches!(self, Match::None)
    }
    pub fn is_ignore(&self) -> bool {
        matches!(self, Match::Ignore(_))
    }
    pub fn is_whitelist(&self) -> bool {
        matches!(self, Match::Whitelist(_))
    }
}

pub mod overrides {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct OverrideGlob<'a>(#[allow(dead_code)] Option<&'a str>);
    #[derive(Debug, Clone, Default)]
    pub struct Override(pub(crate) Gitignore);
    impl Override {
        pub fn empty() -> Self {
            Self::default()
        }
        pub fn path(&self) -> &Path {
            &self.0.root
        }
        pub fn is_empty(&self) -> bool {
            self.0.globs.is_empty()
        }
        pub fn num_ignores(&self) -> u64 {
            self.0.globs.iter().filter(|g| g.whitelist).count() as u64
        }
        pub fn num_whitelists(&self) -> u64 {
            self.0.globs.iter().filter(|g| !g.whitelist).count() as u64
        }
        pub fn matched<'a, P: AsRef<Path>>(&'a self, path: P, is_dir: bool) -> Match<OverrideGlob<'a>> {
            match self.0.matched(path.as_ref(), is_dir) {
                Some(g) if g.whitelist => Match::Ignore(OverrideGlob(Some(&g.original))),
                Some(g) => Match::Whitelist(OverrideGlob(Some(&g.original))),
                None if self.num_whitelists() > 0 && !is_dir => Match::Ignore(OverrideGlob(None)),
                None => Match::None,
            }
        }
    }
    #[derive(Debug, Clone)]
    pub struct OverrideBuilder(Gitignore);
    impl OverrideBuilder {
        pub fn new<P: AsRef<Path>>(path: P) -> Self {
            Self(Gitignore { root: path.as_ref().to_path_buf(), globs: vec![] })
        }
        pub fn build(&self) -> Result<Override, Error> {
            Ok(Override(self.0.clone()))
        }
        pub fn add(&mut self, glob: &str) -> Result<&mut Self, Error> {
            match Glob::parse(glob) {
                Ok(g) => self.0.globs.extend(g),
                Err(e) => return Err(Error::Glob { glob: Some(glob.to_string()), err: e }),
            }
            Ok(self)
        }
        pub fn case_insensitive(&mut self, _: bool) -> Result<&mut Self, Error> {
            Ok(self)
        }
    }
}
use overrides::Override;

#[derive(Debug, Clone)]
pub struct DirEntry {
    path: PathBuf,
    depth: usize,
    file_type: Option<std::fs::FileType>,
}
impl DirEntry {
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn into_path(self) -> PathBuf {
        self.path
    }
    pub fn path_is_symlink(&self) -> bool {
        self.file_type.is_some_and(|t| t.is_symlink())
    }
    pub fn metadata(&self) -> Result<std::fs::Metadata, Error> {
        std::fs::symlink_metadata(&self.path).map_err(|e| Error::io(&self.path, e))
    }
    pub fn file_type(&self) -> Option<std::fs::FileType> {
        self.file_type
    }
    pub fn file_name(&self) -> &OsStr {
        self.path.file_name().unwrap_or(self.path.as_os_str())
    }
    pub fn depth(&self) -> usize {
        self.depth
    }
    pub fn error(&self) -> Option<&Error> {
        None
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WalkState {
    Continue,
    Skip,
    Quit,
}
pub trait ParallelVisitor: Send {
    fn visit(&mut self, entry: Result<DirEntry, Error>) -> WalkState;
}
pub trait ParallelVisitorBuilder<'s> {
    fn build(&mut self) -> Box<dyn ParallelVisitor + 's>;
}

type Filtered = Arc<dyn Fn(&DirEntry) -> bool + Send + Sync>;
type Order = Arc<dyn Fn(&Path, &Path) -> std::cmp::Ordering + Send + Sync>;
#[derive(Clone)]
struct Options {
    hidden: bool,
    parents: bool,
    ignore: bool,
    git_ignore: bool,
    git_global: bool,
    git_exclude: bool,
    require_git: bool,
    follow: bool,
    max_depth: Option<usize>,
    sort: Option<Order>,
    filter: Option<Filtered>,
    overrides: Override,
    custom: Vec<String>,
}
#[derive(Clone)]
pub struct WalkBuilder {
    paths: Vec<PathBuf>,
    o: Options,
    threads: usize,
}
macro_rules! setters { ($($n:ident),*) => { $(pub fn $n(&mut self, yes: bool) -> &mut Self { self.o.$n = yes; self })* } }
impl WalkBuilder {
    pub fn new<P: AsRef<Path>>(path: P) -> Self {
        Self {
            paths: vec![path.as_ref().to_path_buf()],
            o: Options {
                hidden: true,
                parents: true,
                ignore: true,
                git_ignore: true,
                git_global: true,
                git_exclude: true,
                require_git: true,
                follow: false,
                max_depth: None,
                sort: None,
                filter: None,
                overrides: Override::empty(),
                custom: vec![],
            },
            threads: 0,
        }
    }
    setters!(hidden, parents, ignore, git_ignore, git_global, git_exclude, require_git);
    pub fn follow_links(&mut self, yes: bool) -> &mut Self {
        self.o.follow = yes;
        self
    }
    pub fn add<P: AsRef<Path>>(&mut self, path: P) -> &mut Self {
        self.paths.push(path.as_ref().to_path_buf());
        self
    }
    pub fn threads(&mut self, n: usize) -> &mut Self {
        self.threads = n;
        self
    }
    pub fn max_depth(&mut self, d: Option<usize>) -> &mut Self {
        self.o.max_depth = d;
        self
    }
    pub fn overrides(&mut self, o: Override) -> &mut Self {
        self.o.overrides = o;
        self
    }
    pub fn add_custom_ignore_filename<S: AsRef<OsStr>>(&mut self, s: S) -> &mut Self {
        self.o.custom.push(s.as_ref().to_string_lossy().into_owned());
        self
    }
    pub fn standard_filters(&mut self, yes: bool) -> &mut Self {
        self.hidden(yes).parents(yes).ignore(yes).git_ignore(yes).git_global(yes).git_exclude(yes)
    }
    pub fn sort_by_file_path<F>(&mut self, cmp: F) -> &mut Self
    where
        F: Fn(&Path, &Path) -> std::cmp::Ordering + Send + Sync + 'static,
    {
        self.o.sort = Some(Arc::new(cmp));
        self
    }
    pub fn sort_by_file_name<F>(&mut self, cmp: F) -> &mut Self
    where
        F: Fn(&OsStr, &OsStr) -> std::cmp::Ordering + Send + Sync + 'static,
    {
        self.o.sort = Some(Arc::new(move |a: &Path, b: &Path| cmp(a.file_name().unwrap_or_default(), b.file_name().unwrap_or_default())));
        self
    }
    /// Entries below the given paths for which it is false are left out, with what is in them.
    pub fn filter_entry<P>(&mut self, filter: P) -> &mut Self
    where
        P: Fn(&DirEntry) -> bool + Send + Sync + 'static,
    {
        self.o.filter = Some(Arc::new(filter));
        self
    }
    pub fn build(&self) -> Walk {
        let mut out = vec![];
        walk(&self.paths, &self.o, self.o.sort.as_ref(), &mut |e| {
            out.push(e);
            WalkState::Continue
        });
        Walk(out.into_iter())
    }
    pub fn build_parallel(&self) -> WalkParallel {
        WalkParallel(self.clone())
    }
}
pub struct Walk(std::vec::IntoIter<Result<DirEntry, Error>>);
impl Walk {
    pub fn new<P: AsRef<Path>>(path: P) -> Walk {
        WalkBuilder::new(path).build()
    }
}
impl Iterator for Walk {
    type Item = Result<DirEntry, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next()
    }
}
pub struct WalkParallel(WalkBuilder);
impl WalkParallel {
    pub fn visit(self, builder: &mut dyn ParallelVisitorBuilder<'_>) {
        let n = if self.0.threads == 0 { 4 } else { self.0.threads.min(4) };
        let mut visitors: Vec<_> = (0..n).map(|_| builder.build()).collect();
        let mut rng = Rng::new();
        walk(&self.0.paths, &self.0.o, None, &mut |e| {
            let k = rng.below(visitors.len());
            visitors[k].visit(e)
        });
        while !visitors.is_empty() {
            drop(visitors.swap_remove(rng.below(visitors.len())));
        }
    }
    pub fn run<'s, F>(self, mut mk: F)
    where
        F: FnMut() -> Box<dyn FnMut(Result<DirEntry, Error>) -> WalkState + Send + 's>,
    {
        let mut f = mk();
        walk(&self.0.paths, &self.0.o, None, &mut |e| f(e));
    }
}

/// Seeded by VP_WALK_SEED, else by the clock.
struct Rng(u64);
impl Rng {
    fn new() -> Self {
        let s = std::env::var("VP_WALK_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(1, |d| u64::from(d.subsec_nanos()))
        });
        Self(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1)
    }
    fn below(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) as usize % n.max(1)
    }
}

/// The ignore files of one directory.
struct Rules {
    custom: Vec<Gitignore>,
    ignore: Gitignore,
    git: Gitignore,
    exclude: Gitignore,
    has_git: bool,
}
struct Filter<'a> {
    o: &'a Options,
    root: PathBuf,
    cache: HashMap<PathBuf, Arc<Rules>>,
    global: Gitignore,
}
impl Filter<'_> {
    fn rules(&mut self, dir: &Path) -> Arc<Rules> {
        if let Some(r) = self.cache.get(dir) {
            return r.clone();
        }
        let file = |on: bool, name: &str| {
            if on { Gitignore::from_file(dir, &dir.join(name)) } else { Gitignore::default() }
        };
        let r = Arc::new(Rules {
            custom: self.o.custom.iter().map(|n| file(true, n)).collect(),
            ignore: file(self.o.ignore, ".ignore"),
            git: file(self.o.git_ignore, ".gitignore"),
            exclude: file(self.o.git_exclude, ".git/info/exclude"),
            has_git: (self.o.git_ignore || self.o.git_exclude) && dir.join(".git").exists(),
        });
        self.cache.insert(dir.to_path_buf(), r.clone());
        r
    }
    fn skip(&mut self, path: &Path, is_dir: bool) -> bool {
        if !self.o.overrides.is_empty() {
            match self.o.overrides.matched(path, is_dir) {
                Match::Ignore(_) => return true,
                Match::Whitelist(_) => return false,
                Match::None => {}
            }
        }
        let dirs: Vec<PathBuf> = path
            .ancestors()
            .skip(1)
            .filter(|d| !d.as_os_str().is_empty())
            .take_while(|d| self.o.parents || d.starts_with(&self.root))
            .map(Path::to_path_buf)
            .collect();
        let rules: Vec<Arc<Rules>> = dirs.iter().map(|d| self.rules(d)).collect();
        let any_git = !self.o.require_git || rules.iter().any(|r| r.has_git);
        let mut saw_git = false;
        let (mut custom, mut ign, mut git, mut exc) = (None, None, None, None);
        for r in &rules {
            let m = |g: &Gitignore| g.matched(path, is_dir).map(|g| g.whitelist);
            if custom.is_none() {
                custom = r.custom.iter().rev().find_map(m);
            }
            ign = ign.or_else(|| m(&r.ignore));
            if any_git && !saw_git {
                git = git.or_else(|| m(&r.git));
                exc = exc.or_else(|| m(&r.exclude));
            }
            saw_git |= r.has_git;
        }
        let global = if any_git { self.global.matched(path, is_dir).map(|g| g.whitelist) } else { None };
        match custom.or(ign).or(git).or(exc).or(global) {
            Some(whitelist) => !whitelist,
            None => {
                self.o.hidden
                    && path.file_name().is_some_and(|n| n.as_encoded_bytes().starts_with(b"."))
            }
        }
    }
}

fn global_gitignore() -> Gitignore {
    let home = std::env::var_os("HOME").map(PathBuf::from).unwrap_or_default();
    let xdg = std::env::var_os("XDG_CONFIG_HOME")
        .filter(|x| !x.is_empty())
        .map_or_else(|| home.join(".config"), PathBuf::from);
    let from_config = [home.join(".gitconfig"), xdg.join("git/config")].iter().find_map(|f| {
        let text = std::fs::read_to_string(f).ok()?;
        text.lines().find_map(|l| {
            let (k, v) = l.split_once('=')?;
            k.trim().eq_ignore_ascii_case("excludesfile").then(|| {
                let v = v.trim().trim_matches('"');
                v.strip_prefix("~/").map_or_else(|| PathBuf::from(v), |r| home.join(r))
            })
        })
    });
    let file = from_config.unwrap_or_else(|| xdg.join("git/ignore"));
    Gitignore::from_file(&std::env::current_dir().unwrap_or_default(), &file)
}

type Visit<'a> = &'a mut dyn FnMut(Result<DirEntry, Error>) -> WalkState;
fn walk(paths: &[PathBuf], o: &Options, sort: Option<&Order>, visit: Visit) {
    let mut rng = Rng::new();
    let global = if o.git_global { global_gitignore() } else { Gitignore::default() };
    for root in paths {
        let mut f = Filter { o, root: root.clone(), cache: HashMap::new(), global: global.clone() };
        // The root is followed if it is a link.
        match std::fs::symlink_metadata(root).and_then(|_| std::fs::metadata(root)) {
            Err(e) => {
                if visit(Err(Error::io(root, e))) == WalkState::Quit {
                    return;
                }
            }
            Ok(m) => {
                let e = DirEntry { path: root.clone(), depth: 0, file_type: Some(m.file_type()) };
                if below(e, &mut f, sort, &mut rng, visit) == WalkState::Quit {
                    return;
                }
            }
        }
    }
}
fn below(e: DirEntry, f: &mut Filter, sort: Option<&Order>, rng: &mut Rng, visit: Visit) -> WalkState {
    let (path, depth) = (e.path.clone(), e.depth);
    let is_dir = e.file_type.is_some_and(|t| t.is_dir());
    match visit(Ok(e)) {
        WalkState::Quit => return WalkState::Quit,
        WalkState::Skip => return WalkState::Continue,
        WalkState::Continue => {}
    }
    if !is_dir || f.o.max_depth.is_some_and(|m| depth >= m) {
        return WalkState::Continue;
    }
    let mut names: Vec<PathBuf> = match std::fs::read_dir(&path) {
        Ok(r) => r.filter_map(Result::ok).map(|d| d.path()).collect(),
        Err(e) => return visit(Err(Error::io(&path, e))),
    };
    names.sort();
    if let Some(cmp) = sort {
        names.sort_by(|a, b| cmp(a, b));
    } else {
        for i in (1..names.len()).rev() {
            names.swap(i, rng.below(i + 1));
        }
    }
    for p in names {
        let t = if f.o.follow { std::fs::metadata(&p) } else { std::fs::symlink_metadata(&p) };
        let t = t.ok().map(|m| m.file_type());
        if f.skip(&p, t.is_some_and(|t| t.is_dir())) {
            continue;
        }
        let e = DirEntry { path: p, depth: depth + 1, file_type: t };
        if f.o.filter.as_ref().is_some_and(|keep| !keep(&e)) {
            continue;
        }
        if below(e, f, sort, rng, visit) == WalkState::Quit {
            return WalkState::Quit;
        }
    }
    WalkState::Continue
}
