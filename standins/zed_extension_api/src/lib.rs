//! Stand-in for the crate of the same name: same public interface (version 0.2.0, without the
//! parts an extension with only a language server has no use for), with the editor's side
//! answered from a `mock::World` that the harness sets. Runs natively, in one thread.

use core::fmt;
pub use serde_json;
pub type Result<T, E = String> = core::result::Result<T, E>;
pub type EnvVars = Vec<(String, String)>;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Os {
    Mac,
    Linux,
    Windows,
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Architecture {
    Aarch64,
    X86,
    X8664,
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum DownloadedFileType {
    Gzip,
    GzipTar,
    Zip,
    Uncompressed,
}
#[derive(Clone, Debug)]
pub enum LanguageServerInstallationStatus {
    None,
    Downloading,
    CheckingForUpdate,
    Failed(String),
}
#[derive(Clone, Debug)]
pub struct GithubRelease {
    pub version: String,
    pub assets: Vec<GithubReleaseAsset>,
}
#[derive(Clone, Debug)]
pub struct GithubReleaseAsset {
    pub name: String,
    pub download_url: String,
}
#[derive(Clone, Copy, Debug)]
pub struct GithubReleaseOptions {
    pub require_assets: bool,
    pub pre_release: bool,
}
#[derive(Clone, Debug)]
pub struct Command {
    pub command: String,
    pub args: Vec<String>,
    pub env: EnvVars,
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct LanguageServerId(String);
impl AsRef<str> for LanguageServerId {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for LanguageServerId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

#[derive(Debug)]
pub struct Worktree(());
impl Worktree {
    pub fn id(&self) -> u64 {
        7
    }
    pub fn root_path(&self) -> String {
        "/project".into()
    }
    pub fn read_text_file(&self, path: &str) -> Result<String> {
        Err(format!("no file {path}"))
    }
    pub fn which(&self, binary_name: &str) -> Option<String> {
        mock::with(|w| {
            w.calls.push(mock::Call::Which(binary_name.into()));
            w.path.iter().find(|p| p.0 == binary_name).map(|p| p.1.clone())
        })
    }
    pub fn shell_env(&self) -> EnvVars {
        vec![]
    }
}

pub fn latest_github_release(repo: &str, options: GithubReleaseOptions) -> Result<GithubRelease> {
    mock::with(|w| {
        w.calls.push(mock::Call::Release(repo.into(), options.require_assets, options.pre_release));
        if repo != "etiennebacher/jarl" {
            return Err(format!("no repository {repo}"));
        }
        match (options.require_assets, options.pre_release) {
            (true, false) => w.release.clone(),
            (_, true) => w.prerelease.clone(),
            (false, false) => w.release.clone().map(|r| GithubRelease { version: r.version + "-empty", assets: vec![] }),
        }
    })
}
pub fn github_release_by_tag_name(_repo: &str, tag: &str) -> Result<GithubRelease> {
    mock::with(|w| w.release.clone().and_then(|r| if r.version == tag { Ok(r) } else { Err("no such tag".into()) }))
}
pub fn current_platform() -> (Os, Architecture) {
    mock::with(|w| w.platform)
}
pub fn download_file(url: &str, file_path: &str, file_type: DownloadedFileType) -> Result<()> {
    mock::with(|w| {
        w.calls.push(mock::Call::Download(url.into(), file_path.into(), file_type));
        (w.download.as_ref().expect("download"))(url, file_path, file_type)
    })
}
pub fn make_file_executable(_path: &str) -> Result<()> {
    Ok(())
}
pub fn set_language_server_installation_status(_id: &LanguageServerId, status: &LanguageServerInstallationStatus) {
    mock::with(|w| w.calls.push(mock::Call::Status(format!("{status:?}"))));
}

pub mod settings {
    use super::*;
    use serde::{Deserialize, Serialize};
    use std::collections::HashMap;

    #[derive(Default, Debug, Serialize, Deserialize)]
    pub struct LspSettings {
        pub binary: Option<CommandSettings>,
        pub initialization_options: Option<serde_json::Value>,
        pub settings: Option<serde_json::Value>,
    }
    #[derive(Debug, Serialize, Deserialize, PartialEq, Eq)]
    pub struct CommandSettings {
        pub path: Option<String>,
        pub arguments: Option<Vec<String>>,
        pub env: Option<HashMap<String, String>>,
    }
    impl LspSettings {
        pub fn for_worktree(language_server_name: &str, _worktree: &Worktree) -> Result<Self> {
            let json = mock::with(|w| w.settings.clone())?;
            let of: HashMap<String, serde_json::Value> = serde_json::from_str(&json).map_err(|e| e.to_string())?;
            let mine = of.get(language_server_name).cloned().unwrap_or(serde_json::json!({}));
            serde_json::from_value(mine).map_err(|e| e.to_string())
        }
    }
}

pub trait Extension: Send + Sync {
    fn new() -> Self
    where
        Self: Sized;
    fn language_server_command(&mut self, _id: &LanguageServerId, _worktree: &Worktree) -> Result<Command> {
        Err("`language_server_command` not implemented".to_string())
    }
    fn language_server_initialization_options(&mut self, _id: &LanguageServerId, _worktree: &Worktree) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
    fn language_server_workspace_configuration(&mut self, _id: &LanguageServerId, _worktree: &Worktree) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
}

#[macro_export]
macro_rules! register_extension {
    ($t:ty) => {
        /// Stands for the entry point of the extension.
        pub fn vp_extension() -> Box<dyn $crate::Extension> {
            Box::new(<$t as $crate::Extension>::new())
        }
    };
}

/// The editor, as the harness sets it.
pub mod mock {
    use super::*;
    use std::cell::RefCell;

    #[derive(Clone, Debug, PartialEq)]
    pub enum Call {
        Which(String),
        Release(String, bool, bool),
        Download(String, String, DownloadedFileType),
        Status(String),
    }
    pub struct World {
        pub settings: Result<String>,
        pub path: Vec<(String, String)>,
        /// the latest release proper, and the latest of any kind
        pub release: Result<GithubRelease>,
        pub prerelease: Result<GithubRelease>,
        pub platform: (Os, Architecture),
        pub download: Option<fn(&str, &str, DownloadedFileType) -> Result<()>>,
        pub calls: Vec<Call>,
    }
    thread_local! {
        static WORLD: RefCell<World> = RefCell::new(World {
            settings: Ok("{}".into()), path: vec![], release: Err("offline".into()), prerelease: Err("offline".into()),
            platform: (Os::Linux, Architecture::X8664), download: None, calls: vec![],
        });
    }
    pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
        WORLD.with(|w| f(&mut w.borrow_mut()))
    }
    pub fn id(s: &str) -> LanguageServerId {
        LanguageServerId(s.into())
    }
    pub fn worktree() -> Worktree {
        Worktree(())
    }
}
