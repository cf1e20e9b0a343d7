use jarl_core::fs::{has_r_extension, has_rmd_extension, is_r_extension, is_rmd_extension, normalize_path, relativize_path};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::ExitCode;
use vpkit::proptest::prelude::*;
use vpkit::{Check, Info, Outcome, ensure, ensure_eq};

/// The extension of a path, from its bytes: what follows the last dot of the last
/// component, unless that dot begins the component.
fn extension(path: &[u8]) -> Option<Vec<u8>> {
    let mut comps: Vec<&[u8]> = path.split(|b| *b == b'/').filter(|c| !c.is_empty()).collect();
    while comps.last().is_some_and(|c| *c == b".") && comps.len() > 1 {
        comps.pop();
    }
    let last = *comps.last()?;
    if last == b".." || last == b"." {
        return None;
    }
    let dot = last.iter().rposition(|b| *b == b'.')?;
    (dot > 0).then(|| last[dot + 1..].to_vec())
}

fn ext_case(bytes: &Vec<u8>) -> Outcome {
    let p = PathBuf::from(OsString::from_vec(bytes.clone()));
    let e = extension(bytes);
    let r = matches!(e.as_deref(), Some(b"r" | b"R"));
    let rmd = matches!(e.as_deref(), Some(b"rmd" | b"Rmd" | b"qmd" | b"Qmd"));
    ensure_eq!(has_r_extension(&p), r, "r-extension", "is {p:?} an R script");
    ensure_eq!(has_rmd_extension(&p), rmd, "rmd-extension", "is {p:?} R Markdown or Quarto");
    if let Some(e) = e.as_deref().and_then(|e| std::str::from_utf8(e).ok()) {
        ensure_eq!(is_r_extension(e), r, "r-extension", "is {e:?} an R extension");
        ensure_eq!(is_rmd_extension(e), rmd, "rmd-extension", "is {e:?} an R Markdown extension");
    }
    Ok(Info::when(e.is_some()).label_if(r, "R").label_if(rmd, "Rmd or qmd"))
}

/// The path that a path means, resolving `.` and `..` on the text alone.
fn lexical(path: &Path, cwd: &Path) -> PathBuf {
    let mut out: Vec<Vec<u8>> = vec![];
    let joined = if path.is_absolute() { path.to_path_buf() } else { cwd.join(path) };
    for c in joined.as_os_str().as_bytes().split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                out.pop();
            }
            c => out.push(c.to_vec()),
        }
    }
    let mut b = vec![];
    for c in &out {
        b.push(b'/');
        b.extend(c);
    }
    if b.is_empty() {
        b.push(b'/');
    }
    PathBuf::from(OsString::from_vec(b))
}

fn component() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        4 => "[a-z]{1,3}(\\.[rR])?",
        2 => Just("..".to_string()),
        2 => Just(".".to_string()),
        1 => prop::sample::select(vec!["...", ".hidden", "é", "a b", "~", "x.R", "R", "..a", "a..", " ", "\t", " a", "a ", "-", "*"]).prop_map(String::from),
    ]
}

/// Paths below, above, beside and unrelated to the working directory.
fn path() -> impl Strategy<Value = String> {
    (0u8..6, prop::collection::vec(component(), 0..6), any::<bool>(), 0usize..4).prop_map(|(base, comps, slash, up)| {
        let cwd = std::env::current_dir().unwrap();
        let cwd = cwd.to_str().unwrap().to_string();
        let rest = comps.join("/");
        let mut s = match base {
            0 => rest,
            1 => format!("./{rest}"),
            2 => format!("{cwd}/{rest}"),
            3 => format!("/{rest}"),
            4 => format!("{}{rest}", "../".repeat(up)),
            _ => format!("{cwd}{rest}"),
        };
        if slash && !s.is_empty() {
            s.push('/');
        }
        s
    })
}

pub fn c09() -> ExitCode {
    // A working directory of our own, so that prefixes of it are under our control.
    let scratch = vpkit::Scratch::new("cwd");
    let cwd = scratch.path().join("proj.R").join("sub");
    std::fs::create_dir_all(&cwd).unwrap();
    let cwd = cwd.canonicalize().unwrap();
    std::env::set_current_dir(&cwd).unwrap();
    let mut ck = Check::new("C09");
    ck.assume("Unix paths; no symbolic links are involved, resolution is on the text of the path");
    ck.exhaustive(
        "extensions",
        "every extension of up to 3 letters out of r, m, d, q in both cases, and the usual others",
        {
            let letters = ["r", "R", "m", "M", "d", "D", "q", "Q"];
            let mut v: Vec<String> = vec!["".into()];
            for a in letters {
                v.push(a.into());
                for b in letters {
                    v.push(format!("{a}{b}"));
                    for c in letters {
                        v.push(format!("{a}{b}{c}"));
                    }
                }
            }
            v.extend(["Rnw", "R~", "Rds", "RData", "Rproj", "py", "txt", "Rhistory", "R ", " R", "r.", "Rmarkdown"].map(String::from));
            v.iter().flat_map(|e| [format!("a/b.{e}"), format!(".{e}"), format!("x.R.{e}"), format!("d.R/{e}"), format!("/é.{e}/")]).map(|s| s.into_bytes()).collect()
        },
        ext_case,
    );
    ck.prop(
        "extension_of_any_path",
        "paths made of dots, slashes, letters of the known extensions and other bytes, also invalid UTF-8; non-trivial: the path has an extension",
        100_000,
        3_000_000,
        || {
            let b = prop_oneof![3 => Just(b"."), 2 => Just(b"/"), 2 => Just(b"r"), 2 => Just(b"R"), 1 => Just(b"m"), 1 => Just(b"d"), 1 => Just(b"q"), 1 => Just(b"Q"), 1 => Just(b"a"), 1 => Just(b"\xff"), 1 => Just(b" ")];
            let known = prop_oneof![Just("r"), Just("R"), Just("rmd"), Just("Rmd"), Just("qmd"), Just("Qmd"), Just("RMD"), Just("rMd"), Just("Rm"), Just("d"), Just("QMD")];
            (prop::collection::vec(b, 0..10), prop::option::of(known), prop::bool::weighted(0.1)).prop_map(|(v, k, s)| {
                let mut p: Vec<u8> = v.into_iter().map(|x| x[0]).collect();
                if let Some(k) = k {
                    p.push(b'.');
                    p.extend(k.bytes());
                }
                if s {
                    p.push(b'/');
                }
                p
            })
        },
        ext_case,
    );
    let c2 = cwd.clone();
    ck.prop(
        "absolute_paths",
        "relative and absolute paths with . and .. in any place, below, above and beside the working directory; non-trivial: the path has a . or .. component",
        60_000,
        2_000_000,
        path,
        move |p: &String| {
            let got = normalize_path(p);
            let want = lexical(Path::new(p), &c2);
            // compared as text: "/a/./b" and "/a/b" are equal as Paths
            ensure_eq!(got.as_os_str(), want.as_os_str(), "normalize", "absolute form of {p:?} in {c2:?}");
            let again = normalize_path(&got);
            ensure_eq!(again.as_os_str(), got.as_os_str(), "idempotence", "absolute form of an absolute form, {p:?}");
            let dots = p.split('/').any(|c| c == "." || c == "..");
            Ok(Info::when(dots).label_if(got.starts_with(&c2), "below the working directory"))
        },
    );
    let c3 = cwd.clone();
    ck.prop(
        "displayed_paths",
        "pairs of such paths made absolute, displayed relative to the working directory; non-trivial: one of them lies below it",
        60_000,
        2_000_000,
        || (path(), path()),
        move |(p, q)| {
            let (a, b) = (lexical(Path::new(p), &c3), lexical(Path::new(q), &c3));
            for x in [&a, &b] {
                let got = relativize_path(x);
                let want = match x.to_str().unwrap().strip_prefix(c3.to_str().unwrap()) {
                    Some("") => String::new(),
                    Some(r) if r.starts_with('/') => r[1..].to_string(),
                    _ => x.to_str().unwrap().to_string(),
                };
                ensure_eq!(got, want, "relativize", "displayed form of {x:?} in {c3:?}");
                let back = normalize_path(&got);
                ensure_eq!(back.as_os_str(), x.as_os_str(), "relativize-back", "file meant by the displayed form {got:?}");
            }
            let same = relativize_path(&a) == relativize_path(&b);
            ensure!(same == (a == b), "relativize-collision", "{a:?} and {b:?} are displayed as {:?} and {:?}", relativize_path(&a), relativize_path(&b));
            Ok(Info::when(a.starts_with(&c3) || b.starts_with(&c3)).label_if(a == b, "same file"))
        },
    );
    std::env::set_current_dir("/").unwrap();
    ck.finish()
}
