//! Globs as globset reads them (with literal separators and backslash escapes), and the
//! lines of a gitignore file.
use regex::bytes::Regex;
use std::path::{Path, PathBuf};

/// The regular expression of a glob, or what is wrong with it.
pub fn to_regex(glob: &str) -> Result<Regex, String> {
    let c: Vec<char> = glob.chars().collect();
    let mut out = String::from("(?s-u)^");
    let mut i = 0;
    let mut depth = 0;
    let lit = |out: &mut String, ch: char| {
        let mut b = [0; 4];
        for x in ch.encode_utf8(&mut b).bytes() {
            out.push_str(&format!("\\x{x:02x}"));
        }
    };
    while i < c.len() {
        match c[i] {
            '?' => out.push_str("[^/]"),
            '*' => {
                let mut n = 1;
                while i + n < c.len() && c[i + n] == '*' {
                    n += 1;
                }
                let before = i == 0 || c[i - 1] == '/';
                let after = i + n == c.len() || c[i + n] == '/';
                if n == 2 && before && after {
                    if i == 0 && i + n == c.len() {
                        out.push_str(".*");
                    } else if i + n == c.len() {
                        // "a/**": what is below, the separator already written
                        out.push_str(".*");
                    } else if i == 0 {
                        out.push_str("(?:/?|.*/)");
                        i += 1;
                    } else {
                        // "a/**/b": the separator before is written
                        out.push_str("(?:|.*/)");
                        i += 1;
                    }
                    i += n;
                    continue;
                }
                out.push_str("[^/]*");
                i += n;
                continue;
            }
            '[' => {
                let mut j = i + 1;
                let neg = matches!(c.get(j), Some('!' | '^'));
                j += usize::from(neg);
                let start = j;
                while j < c.len() && (c[j] != ']' || j == start) {
                    j += 1;
                }
                if j >= c.len() {
                    return Err(format!("error parsing glob '{glob}': unclosed character class; missing ']'"));
                }
                let mut set = String::new();
                let mut k = start;
                while k < j {
                    if k + 2 < j && c[k + 1] == '-' {
                        if c[k] > c[k + 2] {
                            return Err(format!("error parsing glob '{glob}': invalid range; '{}' > '{}'", c[k], c[k + 2]));
                        }
                        lit(&mut set, c[k]);
                        set.push('-');
                        lit(&mut set, c[k + 2]);
                        k += 3;
                    } else {
                        lit(&mut set, c[k]);
                        k += 1;
                    }
                }
                out.push_str(&format!("[{}{set}]", if neg { "^" } else { "" }));
                i = j;
            }
            '{' => {
                out.push_str("(?:");
                depth += 1;
            }
            '}' => {
                if depth == 0 {
                    return Err(format!("error parsing glob '{glob}': unopened alternate group; missing '{{'"));
                }
                depth -= 1;
                out.push(')');
            }
            ',' if depth > 0 => out.push('|'),
            '\\' => {
                i += 1;
                match c.get(i) {
                    Some(ch) => lit(&mut out, *ch),
                    None => return Err(format!("error parsing glob '{glob}': dangling '\\'")),
                }
            }
            ch => lit(&mut out, ch),
        }
        i += 1;
    }
    if depth > 0 {
        return Err(format!("error parsing glob '{glob}': unclosed alternate group; missing '}}'"));
    }
    out.push('$');
    Regex::new(&out).map_err(|e| e.to_string())
}

#[derive(Debug, Clone)]
pub struct Glob {
    re: Regex,
    pub original: String,
    pub whitelist: bool,
    only_dir: bool,
}
impl Glob {
    /// None for blank lines and comments.
    pub fn parse(line: &str) -> Result<Option<Glob>, String> {
        let original = line.to_string();
        if line.starts_with('#') {
            return Ok(None);
        }
        let mut line = if line.ends_with("\\ ") { line } else { line.trim_end() };
        if line.is_empty() {
            return Ok(None);
        }
        let (mut whitelist, mut absolute, mut only_dir) = (false, false, false);
        if line.starts_with("\\!") || line.starts_with("\\#") {
            line = &line[1..];
            absolute = line.starts_with('/');
        } else {
            if let Some(l) = line.strip_prefix('!') {
                whitelist = true;
                line = l;
            }
            if let Some(l) = line.strip_prefix('/') {
                line = l;
                absolute = true;
            }
        }
        if let Some(l) = line.strip_suffix('/') {
            only_dir = true;
            line = l;
            if line.ends_with('\\') {
                line = &line[..line.len() - 1];
            }
        }
        let mut actual = line.to_string();
        if !absolute && !line.contains('/') && !(actual.starts_with("**/") || actual == "**") {
            actual = format!("**/{actual}");
        }
        if actual.ends_with("/**") {
            actual = format!("{actual}/*");
        }
        let re = to_regex(&actual)?;
        Ok(Some(Glob { re, original, whitelist, only_dir }))
    }
}

#[derive(Debug, Clone, Default)]
pub struct Gitignore {
    pub root: PathBuf,
    pub globs: Vec<Glob>,
}
impl Gitignore {
    pub fn from_file(root: &Path, file: &Path) -> Gitignore {
        let text = std::fs::read(file).unwrap_or_default();
        let text = String::from_utf8_lossy(&text);
        let text = text.strip_prefix('\u{feff}').unwrap_or(&text);
        let globs = text.lines().filter_map(|l| Glob::parse(l).ok().flatten()).collect();
        Gitignore { root: root.to_path_buf(), globs }
    }
    /// The last glob that matches: Some(true) for a whitelisting one.
    pub fn matched(&self, path: &Path, is_dir: bool) -> Option<&Glob> {
        let path = path.strip_prefix("./").unwrap_or(path);
        let root = self.root.strip_prefix("./").unwrap_or(&self.root);
        let rel = if root == Path::new(".") || root.as_os_str().is_empty() {
            path
        } else {
            path.strip_prefix(root).unwrap_or(path)
        };
        let bytes = rel.as_os_str().as_encoded_bytes();
        let bytes = bytes.strip_prefix(b"/").unwrap_or(bytes);
        self.globs.iter().rev().find(|g| (!g.only_dir || is_dir) && g.re.is_match(bytes))
    }
}
