//! Stand-in for air's `fs` crate.
use path_absolutize::Absolutize;
use std::path::{Path, PathBuf};

pub fn has_r_extension(path: &Path) -> bool {
    path.extension().and_then(|e| e.to_str()).is_some_and(is_r_extension)
}
pub fn is_r_extension(extension: &str) -> bool {
    matches!(extension, "r" | "R")
}
pub fn normalize_path<P: AsRef<Path>>(path: P) -> PathBuf {
    let path = path.as_ref();
    path.absolutize().map_or_else(|_| path.to_path_buf(), |p| p.to_path_buf())
}
pub fn relativize_path<P: AsRef<Path>>(path: P) -> String {
    let path = path.as_ref();
    let cwd = path_absolutize::path_dedot::CWD.as_path();
    format!("{}", path.strip_prefix(cwd).unwrap_or(path).display())
}
