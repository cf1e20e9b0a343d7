L='crates/jarl-lsp/src/'; C='crates/jarl-core/src/'; J='crates/jarl/src/'
seed('lines-by-char','C01',L+'document.rs',[('        for (i, byte) in content.bytes().enumerate() {\n            if byte == b\'\\n\' {','        for (i, ch) in content.chars().enumerate() {\n            if ch == \'\\n\' {')],
 'a line with a non-ASCII character before the edited line','line starts are counted in characters, so edits below a non-ASCII line land in the wrong place',
 'lsp','''
use document::*;
use lsp_types::*;
fn main() {
    let mut d = TextDocument::new("a <- 'h\\u{e9}'\\nb\\nc\\n".into(), 1);
    let ch = TextDocumentContentChangeEvent { range: Some(Range::new(Position::new(2, 0), Position::new(2, 1))), range_length: None, text: "X".into() };
    d.apply_changes(vec![ch], 2, PositionEncoding::UTF16).unwrap();
    assert_eq!(d.content(), "a <- 'h\\u{e9}'\\nb\\nX\\n");
}''')
seed('utf16-wide','C02',L+'document.rs',[('prefix.chars().map(|c| c.len_utf16()).sum::<usize>()','prefix\n                    .chars()\n                    .map(|c| if c.len_utf8() > 2 { 2 } else { 1 })\n                    .sum::<usize>()')],
 'a three-byte character (CJK, euro sign) before the position, UTF-16','offsets after a three-byte character are converted to a position one unit too far',
 'lsp','''
use document::*;
fn main() {
    let d = TextDocument::new("x <- \\"\\u{20ac}\\" + y".into(), 1);
    let off = d.content().find('y').unwrap();
    let p = d.offset_to_position(off, PositionEncoding::UTF16).unwrap();
    assert_eq!((p.line, p.character), (0, 11));
    assert_eq!(d.position_to_offset(p, PositionEncoding::UTF16).unwrap(), off);
}''')
seed('inverted-range','C03',L+'document.rs',[('            if start_offset > end_offset {','            if range.start.line > range.end.line {')],
 'a change whose range is inverted within one line','an inverted range on one line is not refused and panics',
 'lsp','''
use document::*;
use lsp_types::*;
fn main() {
    let mut d = TextDocument::new("hello\\n".into(), 1);
    let ch = TextDocumentContentChangeEvent { range: Some(Range::new(Position::new(0, 4), Position::new(0, 1))), range_length: None, text: "X".into() };
    assert!(d.apply_changes(vec![ch], 2, PositionEncoding::UTF16).is_err());
    assert_eq!(d.content(), "hello\\n");
}''')
seed('notice-race','C04',L+'client.rs',[('''        let already = self
            .unused_fn_threshold_notified
            .swap(true, std::sync::atomic::Ordering::SeqCst);
        if already {
            return Ok(false);
        }
''','''        if self
            .unused_fn_threshold_notified
            .load(std::sync::atomic::Ordering::SeqCst)
        {
            return Ok(false);
        }
'''),('''        self.show_message(&message, types::MessageType::INFO)?;
        Ok(true)''','''        self.show_message(&message, types::MessageType::INFO)?;
        self.unused_fn_threshold_notified
            .store(true, std::sync::atomic::Ordering::SeqCst);
        Ok(true)''')],
 'two threads report hidden diagnostics at the same time','the notice can be shown several times in a session',
 'lsp','''
use client::*;
use std::sync::Barrier;
fn main() {
    for _ in 0..3000 {
        let (tx, rx) = crossbeam::channel::unbounded();
        let c = Client::new(tx);
        let b = Barrier::new(4);
        std::thread::scope(|s| {
            for i in 0..4 {
                let (c, b) = (c.clone(), &b);
                s.spawn(move || {
                    b.wait();
                    c.notify_unused_fn_threshold_once(i + 1).unwrap();
                });
            }
        });
        drop(c);
        assert_eq!(rx.iter().count(), 1);
    }
}''')
seed('id-per-clone','C04',L+'client.rs',[('#[derive(Clone)]\npub struct Client {','pub struct Client {'),('impl Client {\n','''impl Clone for Client {
    fn clone(&self) -> Self {
        let next = self
            .request_id_counter
            .load(std::sync::atomic::Ordering::SeqCst);
        Self {
            sender: self.sender.clone(),
            request_id_counter: Arc::new(std::sync::atomic::AtomicI32::new(next)),
            pending_requests: self.pending_requests.clone(),
            unused_fn_threshold_notified: self.unused_fn_threshold_notified.clone(),
        }
    }
}

impl Client {
''')],
 'requests sent through two clones of the client','request ids are reused across clones',
 'lsp','''
use client::*;
use lsp_server::Message;
fn main() {
    let (tx, rx) = crossbeam::channel::unbounded();
    let a = Client::new(tx);
    let b = a.clone();
    for c in [&a, &b, &a] {
        c.send_request::<lsp_types::request::WorkspaceFoldersRequest>((), |_| ()).unwrap();
    }
    let ids: std::collections::HashSet<_> = rx.try_iter().map(|m| match m { Message::Request(r) => r.id, _ => panic!() }).collect();
    assert_eq!(ids.len(), 3);
}''')
seed('description-tabs','C05',C+'description.rs',[("if line.starts_with(char::is_whitespace) {","if line.starts_with(' ') {")],
 'a Depends field continued on a line indented with a tab','continuation lines indented with tabs are dropped',
 'core','''
fn main() {
    let v = description::Description::get_depend_r_version("Package: a\\nDepends:\\n\\tR (>= 4.1.0),\\n\\tmethods\\nImports: b\\n").unwrap();
    assert_eq!(v, ["4.1.0"]);
}''')
seed('reason-colon','C06',C+'directive.rs',[("let Some(colon_pos) = text.find(':') else {","let Some(colon_pos) = text.rfind(':') else {")],
 'a suppression whose reason contains a colon','a reason with a colon makes the rule name invalid',
 'core','''
use directive::*;
fn main() {
    let got = parse_comment_directive("# jarl-ignore any_is_na: see https://example.org");
    assert!(matches!(got, Some(DirectiveParseResult::Valid(LintDirective::Ignore(_)))), "{got:?}");
}''')
seed('item-bullet','C07',C+'directive.rs',[("    if !rest.starts_with(char::is_whitespace) && !rest.is_empty() {","    if !rest.starts_with(' ') && !rest.is_empty() {")],
 'an item whose list marker is followed by a tab','items with a tab after the list marker are not recognised',
 'core','''
use directive::*;
fn main() {
    let got = parse_quarto_chunk_array_item("#|\\t-\\tany_is_na: reason");
    assert!(matches!(got, Some(DirectiveParseResult::Valid(LintDirective::IgnoreChunk(_)))), "{got:?}");
}''')
seed('chunk-crlf','C08',C+'rmd/extraction.rs',[("        byte_offset += line.len();","        byte_offset += line.trim_end().len() + 1;")],
 'a document with CRLF line ends, or trailing blanks before the chunk','offsets of chunks drift by the blanks or CRs before them',
 'core','''
fn main() {
    let t = "# Title  \\r\\n\\r\\ntext\\r\\n```{r}\\r\\nx <- 1\\r\\n```\\r\\n";
    let c = extraction::extract_r_chunks(t);
    assert_eq!(c.len(), 1);
    assert_eq!(&t[c[0].start_byte..c[0].start_byte + c[0].code.len()], c[0].code);
}''')
seed('chunk-longer-fence','C08',C+'rmd/extraction.rs',[("if line.trim() == fence.as_str() {","if line.trim().starts_with(fence.as_str()) && line.trim().ends_with('`') {")],
 'a chunk containing a line of more backticks than its fence','a longer fence closes the chunk',
 'core','''
fn main() {
    let c = extraction::extract_r_chunks("```{r}\\nx <- 1\\n````\\ny <- 2\\n```\\n");
    assert_eq!(c.len(), 1);
    assert_eq!(c[0].code, "x <- 1\\n````\\ny <- 2\\n");
}''')
seed('relative-prefix','C09',C+'fs.rs',[('''    if let Ok(path) = path.strip_prefix(cwd) {
        return format!("{}", path.display());
    }
''','''    if let Some(rest) = path.to_str().zip(cwd.to_str()).and_then(|(p, c)| p.strip_prefix(c)) {
        return rest.trim_start_matches('/').to_string();
    }
''')],
 'a file in a sibling directory whose name starts with that of the working directory','a path outside the working directory is shown as if it were inside',
 'core','''
fn main() {
    let cwd = std::env::current_dir().unwrap();
    let sibling = format!("{}-old/a.R", cwd.display());
    assert_eq!(fs::relativize_path(&sibling), sibling);
    assert_eq!(fs::relativize_path(cwd.join("a.R")), "a.R");
}''')
seed('category-first','C10',C+'rule_set.rs',[("            .filter(move |r| r.has_category(category))","            .filter(move |r| r.categories().first() == Some(&category))")],
 'a rule with several categories, selected by its second one','selecting by category misses rules for which it is not the first category',
 'core','''
use rule_set::*;
fn main() {
    for c in [Category::Corr, Category::Susp, Category::Perf, Category::Read, Category::Testthat] {
        let want: Vec<_> = Rule::all().iter().filter(|r| r.categories().contains(&c)).map(|r| r.name()).collect();
        let got: Vec<_> = Rule::by_category(c).map(|r| r.name()).collect();
        assert_eq!(got, want, "{c:?}");
    }
}''')
seed('debug-is-trace','C11',J+'logging.rs',[("            Self::Debug => tracing::Level::DEBUG,","            Self::Debug => tracing::Level::TRACE,")],
 'the debug log level and a trace event','trace events are written at the debug level',
 'cli','''
fn main() {
    if std::env::args().len() > 1 {
        logging::init_logging("debug".parse().unwrap());
        tracing::debug!(target: "jarl", "DEBUG-EVENT");
        tracing::trace!(target: "jarl", "TRACE-EVENT");
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").output().unwrap();
    let e = String::from_utf8_lossy(&o.stderr);
    assert!(e.contains("DEBUG-EVENT") && !e.contains("TRACE-EVENT"), "{e}");
}''')
seed('location-order','C12',C+'location.rs',[("    pub(super) row: usize,\n    pub(super) column: usize,","    pub(super) column: usize,\n    pub(super) row: usize,")],
 'two locations where the later row has the smaller column','locations order by column before row',
 'core','''
use loc::location::Location;
fn main() {
    assert!(Location::new(1, 9) < Location::new(2, 1));
    assert_eq!(Location::new(1, 9).row(), 1);
}''')
API='''//! A small stand-in for the editor's side.
use std::cell::RefCell;
pub use serde_json;
pub type Result<T, E = String> = core::result::Result<T, E>;
#[derive(Clone, Copy, PartialEq, Debug)] pub enum Os { Mac, Linux, Windows }
#[derive(Clone, Copy, PartialEq, Debug)] pub enum Architecture { Aarch64, X86, X8664 }
#[derive(Clone, Copy, PartialEq, Debug)] pub enum DownloadedFileType { Gzip, GzipTar, Zip, Uncompressed }
pub enum LanguageServerInstallationStatus { None, Downloading, CheckingForUpdate, Failed(String) }
#[derive(Clone)] pub struct GithubReleaseAsset { pub name: String, pub download_url: String }
#[derive(Clone)] pub struct GithubRelease { pub version: String, pub assets: Vec<GithubReleaseAsset> }
pub struct GithubReleaseOptions { pub require_assets: bool, pub pre_release: bool }
#[derive(Debug)] pub struct Command { pub command: String, pub args: Vec<String>, pub env: Vec<(String, String)> }
pub struct LanguageServerId(pub String);
impl AsRef<str> for LanguageServerId { fn as_ref(&self) -> &str { &self.0 } }
pub struct Worktree;
impl Worktree { pub fn which(&self, _: &str) -> Option<String> { None } }
thread_local! {
    pub static VERSION: RefCell<String> = RefCell::new("1".into());
    pub static FAILS: RefCell<bool> = RefCell::new(false);
}
pub fn current_platform() -> (Os, Architecture) { (Os::Linux, Architecture::X8664) }
pub fn set_language_server_installation_status(_: &LanguageServerId, _: &LanguageServerInstallationStatus) {}
pub fn latest_github_release(_: &str, _: GithubReleaseOptions) -> Result<GithubRelease> {
    let n = "jarl-x86_64-unknown-linux-gnu.tar.gz".to_string();
    Ok(GithubRelease { version: VERSION.with(|v| v.borrow().clone()), assets: vec![GithubReleaseAsset { download_url: n.clone(), name: n }] })
}
pub fn download_file(_: &str, to: &str, _: DownloadedFileType) -> Result<()> {
    if FAILS.with(|f| *f.borrow()) { return Err("offline".into()); }
    let d = format!("{to}/jarl-x86_64-unknown-linux-gnu");
    std::fs::create_dir_all(&d).and_then(|_| std::fs::write(format!("{d}/jarl"), "")).map_err(|e| e.to_string())
}
pub mod settings {
    pub struct CommandSettings { pub path: Option<String>, pub arguments: Option<Vec<String>> }
    pub struct LspSettings { pub binary: Option<CommandSettings>, pub initialization_options: Option<serde_json::Value>, pub settings: Option<serde_json::Value> }
    impl LspSettings { pub fn for_worktree(_: &str, _: &super::Worktree) -> super::Result<Self> { Err("none".into()) } }
}
pub trait Extension: Send + Sync {
    fn new() -> Self where Self: Sized;
    fn language_server_command(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Command> { Err(String::new()) }
    fn language_server_initialization_options(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Option<serde_json::Value>> { Ok(None) }
    fn language_server_workspace_configuration(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Option<serde_json::Value>> { Ok(None) }
}
#[macro_export]
macro_rules! register_extension { ($t:ty) => { pub fn extension() -> Box<dyn $crate::Extension> { Box::new(<$t as $crate::Extension>::new()) } }; }
'''
ZED='editors/zed/src/lib.rs'
seed('zed-clean-first','C13',ZED,[('''            zed::download_file(
                &asset.download_url,
                &release_details.downloaded_directory,
                release_details.downloaded_file_type,
            )
            .map_err(|error| format!("Failed to download file: {error}"))?;

''',''),('''                    fs::remove_dir_all(entry.path()).ok();
                }
            }
''','''                    fs::remove_dir_all(entry.path()).ok();
                }
            }

            zed::download_file(
                &asset.download_url,
                &release_details.downloaded_directory,
                release_details.downloaded_file_type,
            )
            .map_err(|error| format!("Failed to download file: {error}"))?;
''')],
 'an older version on disk and a download that fails','the old version is removed before the new one is there',
 'zed','''
use zed_extension_api::*;
fn main() {
    let mut e = zed_jarl::extension();
    let id = LanguageServerId("jarl".into());
    e.language_server_command(&id, &Worktree).unwrap();
    VERSION.with(|v| *v.borrow_mut() = "2".into());
    FAILS.with(|f| *f.borrow_mut() = true);
    let mut e = zed_jarl::extension();
    assert!(e.language_server_command(&id, &Worktree).is_err());
    assert!(std::path::Path::new("jarl-1").exists(), "the old version is gone");
}''',{'api.rs':API})
seed('zed-stale-cache','C13',ZED,[('''            if fs::metadata(path).is_ok_and(|stat| stat.is_file()) {
                return Ok''','''            if fs::metadata(path).is_ok() || worktree.which("jarl").is_some() || fs::metadata(path).is_err_and(|error| error.kind() != std::io::ErrorKind::NotFound) {
                return Ok''')],
 'the downloaded binary was replaced by a directory while the server was stopped','a path that is not a file any more is still used',
 'zed','''
use zed_extension_api::*;
fn main() {
    let mut e = zed_jarl::extension();
    let id = LanguageServerId("jarl".into());
    let c = e.language_server_command(&id, &Worktree).unwrap().command;
    std::fs::remove_file(&c).unwrap();
    std::fs::create_dir(&c).unwrap();
    FAILS.with(|f| *f.borrow_mut() = true);
    assert!(e.language_server_command(&id, &Worktree).is_err());
}''',{'api.rs':API})
seed('pushenv-nested','C14','xtask/src/glue.rs',[("        self.pushenv_stack.push((var.clone(), env::var_os(&var)));","        let pushed = self.pushenv_stack.iter().any(|(name, _)| *name == var);\n        let old = if pushed { None } else { env::var_os(&var) };\n        self.pushenv_stack.push((var.clone(), old));")],
 'the same variable pushed twice, nested','leaving the inner scope unsets the variable of the outer one',
 'xtask','''
use xtask::pushenv;
fn main() {
    let _a = pushenv("VP_DEMO", "1");
    {
        let _b = pushenv("VP_DEMO", "2");
    }
    assert_eq!(std::env::var("VP_DEMO").as_deref(), Ok("1"));
}''')
seed('quotes-empty','C14','xtask/src/glue.rs',[("        if in_quotes {\n            res.push(string_piece.to_string())\n        } else if !string_piece.is_empty() {","        if string_piece.is_empty() {\n            continue;\n        }\n        if in_quotes {\n            res.push(string_piece.to_string())\n        } else {")],
 "a command with an empty quoted argument ''",'empty quoted arguments are dropped',
 'xtask','''
fn main() {
    let out = xtask::run!("sh -c 'echo $#' x '' b"; echo = false).unwrap();
    assert_eq!(out, "2");
}''')
