//! Stand-in for etcetera: the XDG base directories.
use std::path::PathBuf;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct HomeDirError;
impl std::fmt::Display for HomeDirError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("could not locate home directory")
    }
}
impl std::error::Error for HomeDirError {}
pub fn home_dir() -> Result<PathBuf, HomeDirError> {
    std::env::var_os("HOME").filter(|h| !h.is_empty()).map(PathBuf::from).ok_or(HomeDirError)
}
pub trait BaseStrategy: Sized {
    fn new() -> Result<Self, HomeDirError>;
    fn home_dir(&self) -> &std::path::Path;
    fn config_dir(&self) -> PathBuf;
    fn data_dir(&self) -> PathBuf;
    fn cache_dir(&self) -> PathBuf;
}
pub mod base_strategy {
    pub use super::{BaseStrategy, HomeDirError};
    use super::*;
    #[derive(Debug, Clone)]
    pub struct Xdg {
        home: PathBuf,
    }
    impl Xdg {
        fn dir(&self, var: &str, default: &str) -> PathBuf {
            match std::env::var_os(var).map(PathBuf::from) {
                Some(p) if p.is_absolute() => p,
                _ => self.home.join(default),
            }
        }
    }
    impl BaseStrategy for Xdg {
        fn new() -> Result<Self, HomeDirError> {
            Ok(Self { home: super::home_dir()? })
        }
        fn home_dir(&self) -> &std::path::Path {
            &self.home
        }
        fn config_dir(&self) -> PathBuf {
            self.dir("XDG_CONFIG_HOME", ".config/")
        }
        fn data_dir(&self) -> PathBuf {
            self.dir("XDG_DATA_HOME", ".local/share/")
        }
        fn cache_dir(&self) -> PathBuf {
            self.dir("XDG_CACHE_HOME", ".cache/")
        }
    }
    pub fn choose_base_strategy() -> Result<Xdg, HomeDirError> {
        Xdg::new()
    }
    pub fn choose_native_strategy() -> Result<Xdg, HomeDirError> {
        Xdg::new()
    }
}
pub use base_strategy::{choose_base_strategy, Xdg};
