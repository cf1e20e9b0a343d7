//! C29: exit code and output formats.

use crate::run::{Out, Tree};
use crate::world;
use jarl_core::diagnostic::Diagnostic;
use std::collections::{BTreeMap, BTreeSet};
use std::process::ExitCode;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq};

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    files: BTreeMap<String, String>,
    select: String,
    /// the files themselves are given instead of the directory
    named: bool,
}

fn message(d: &Diagnostic) -> String {
    match &d.message.suggestion {
        Some(s) => format!("{} {s}", d.message.body),
        None => d.message.body.clone(),
    }
}

/// What every output has to tell.
pub struct Expected {
    pub diags: Vec<(String, Diagnostic)>,
    pub errors: BTreeSet<String>,
}

impl Expected {
    fn exit(&self) -> i32 {
        if !self.errors.is_empty() { 255 } else { i32::from(!self.diags.is_empty()) }
    }
}

pub fn expected(files: &BTreeMap<String, String>, select: &str) -> Result<Expected, Fail> {
    let c = world::config(&jarl_core::config::ArgsConfig { select: select.into(), ..world::args() });
    let mut e = Expected { diags: vec![], errors: BTreeSet::new() };
    // By the components of their paths, like everything that sorts paths.
    let mut names: Vec<&String> = files.keys().collect();
    names.sort_by_key(|n| std::path::PathBuf::from(n));
    for n in names {
        match world::lint(n, &files[n], &c)? {
            Some(ds) => e.diags.extend(ds.into_iter().map(|d| (n.clone(), d))),
            None => {
                e.errors.insert(n.clone());
            }
        }
    }
    Ok(e)
}

fn at(d: &Diagnostic) -> (usize, usize) {
    let l = d.location.unwrap();
    (l.row(), l.column() + 1)
}

fn errors_on_stderr(o: &Out, e: &Expected, how: &str) -> Outcome {
    let lines: Vec<&str> = o.stderr.lines().filter(|l| l.starts_with("Error: ")).collect();
    ensure!(lines.len() == e.errors.len(), format!("errors-{how}"), "{} files have no diagnostics to report, {} errors are printed\n{}", e.errors.len(), lines.len(), o.show());
    for f in &e.errors {
        ensure!(lines.iter().any(|l| l.contains(&format!("'{f}'")) || l.contains(f.as_str())), format!("errors-{how}"), "no error names {f}\n{}", o.show());
    }
    Ok(Info::trivial())
}

/// A workflow command as GitHub reads it: its properties, its message.
fn github(line: &str) -> Option<(BTreeMap<String, String>, String)> {
    let data = |s: &str| s.replace("%0D", "\r").replace("%0A", "\n").replace("%25", "%");
    let (props, message) = line.strip_prefix("::warning ")?.split_once("::")?;
    let mut m = BTreeMap::new();
    for p in props.split(',') {
        let (k, v) = p.split_once('=')?;
        m.insert(k.to_string(), data(&v.replace("%3A", ":").replace("%2C", ",")));
    }
    Some((m, data(message)))
}

fn check(c: &Case) -> Outcome {
    let t = Tree::new("c29");
    for (n, x) in &c.files {
        t.put(n, x);
    }
    let e = expected(&c.files, &c.select)?;
    let mut base = vec!["check".to_string()];
    if c.named && !c.files.is_empty() {
        base.extend(c.files.keys().map(|n| format!("./{n}")));
    } else {
        base.push(".".into());
    }
    if !c.select.is_empty() {
        base.push(format!("--select={}", c.select));
    }
    let run = |more: &[&str]| t.jarl("", &[&base[..], &more.iter().map(|s| s.to_string()).collect::<Vec<_>>()].concat());
    let safe = e.diags.iter().filter(|(_, d)| d.has_safe_fix()).count();
    let risky = e.diags.iter().filter(|(_, d)| d.has_unsafe_fix()).count();
    let human = |o: &Out, how: &str| -> Result<(), Fail> {
        let n = e.diags.len();
        ensure!(o.stdout.contains("All checks passed!") == (n == 0 && e.errors.is_empty() && !c.files.is_empty()), format!("summary-{how}"), "'All checks passed' is said wrongly\n{}", o.show());
        let found = if n == 1 { "\nFound 1 error.\n".into() } else { format!("\nFound {n} errors.\n") };
        ensure!((n > 0) == o.stdout.contains("── Summary ──") || n == 0, format!("summary-{how}"), "no summary\n{}", o.show());
        ensure!(n == 0 || o.stdout.contains(&found), format!("summary-{how}"), "the summary does not say {found:?}\n{}", o.show());
        if n > 0 {
            let tail = o.stdout.rsplit("── Summary ──").next().unwrap();
            ensure_eq!(tail.contains(&format!("\n{safe} fixable with the `--fix` option")), safe > 0, format!("summary-{how}"), "{safe} can be fixed safely\n{}", o.show());
            let hidden = match (safe, risky) {
                (_, 0) => None,
                (0, 1) => Some("\n1 fix is available with".to_string()),
                (0, k) => Some(format!("\n{k} fixes are available with")),
                (_, 1) => Some("(1 hidden fix can".to_string()),
                (_, k) => Some(format!("({k} hidden fixes can")),
            };
            ensure!(hidden.as_ref().is_none_or(|h| tail.contains(h.as_str())), format!("summary-{how}"), "{risky} can be fixed unsafely\n{}", o.show());
            ensure!(hidden.is_some() || !tail.contains("--unsafe-fixes"), format!("summary-{how}"), "no unsafe fix exists\n{}", o.show());
        }
        Ok(())
    };
    let exit = |o: &Out, how: &str| -> Result<(), Fail> {
        ensure!(o.code == Some(e.exit()), format!("exit-{how}"), "{} violations, {} files in error: exit {} expected\n{}", e.diags.len(), e.errors.len(), e.exit(), o.show());
        Ok(())
    };

    let o = run(&["--output-format", "json"])?;
    exit(&o, "json")?;
    let v: serde_json::Value = match serde_json::from_str(&o.stdout) {
        Ok(v) => v,
        Err(m) => return Err(Fail::new("json-invalid", format!("{m}\n{}", o.show()))),
    };
    let got: Vec<serde_json::Value> = v["diagnostics"].as_array().cloned().unwrap_or_default();
    let want: Vec<serde_json::Value> = e
        .diags
        .iter()
        .map(|(n, d)| {
            let mut j = serde_json::to_value(d).unwrap();
            j["filename"] = serde_json::json!(n);
            j
        })
        .collect();
    ensure!(got == want, "json-diagnostics", "reported\n{}\nfound in the files\n{}", serde_json::to_string(&got).unwrap(), serde_json::to_string(&want).unwrap());
    let got: BTreeSet<String> = v["errors"].as_array().into_iter().flatten().filter_map(|x| x["file"].as_str().map(String::from)).collect();
    ensure_eq!(&got, &e.errors, "json-errors", "files in error");
    ensure!(v["errors"].as_array().map_or(0, |a| a.len()) == e.errors.len(), "json-errors", "{}", o.show());
    if c.files.is_empty() {
        for f in ["concise", "full", "github"] {
            exit(&run(&["--output-format", f])?, f)?;
        }
        exit(&run(&["--statistics"])?, "statistics")?;
        return Ok(Info::trivial().label("no files"));
    }

    let o = run(&["--output-format", "concise"])?;
    exit(&o, "concise")?;
    human(&o, "concise")?;
    errors_on_stderr(&o, &e, "concise")?;
    // JSON tells no less about an error than the text does.
    let reasons: Vec<&str> = v["errors"].as_array().into_iter().flatten().filter_map(|x| x["error"].as_str()).collect();
    for l in o.stderr.lines().filter_map(|l| l.strip_prefix("Error: ")) {
        ensure!(reasons.iter().any(|r| r.contains(l)), "json-errors", "the reason {l:?} is not in {reasons:?}");
    }
    let want: String = e.diags.iter().map(|(n, d)| format!("{n} [{}:{}] {} {}\n", at(d).0, at(d).1, d.message.name, message(d))).collect();
    let body = |o: &Out| o.stdout.split("── Summary ──").next().unwrap().to_string();
    if e.diags.is_empty() {
        ensure!(body(&o).trim().is_empty(), "concise", "{}", o.show());
    } else {
        ensure!(body(&o).trim_end_matches('\n') == want.trim_end_matches('\n'), "concise", "expected\n{want}\n{}", o.show());
    }

    let o = run(&["--output-format", "github"])?;
    exit(&o, "github")?;
    let mut known = None;
    if !e.errors.is_empty() && o.stderr.trim().is_empty() {
        known = Some(Fail::new("github-silent-about-errors", format!("{:?} could not be checked\n{}", e.errors, o.show())));
    } else {
        errors_on_stderr(&o, &e, "github")?;
    }
    let want: Vec<_> = e
        .diags
        .iter()
        .map(|(n, d)| {
            let (row, col) = at(d);
            let props = [("title", format!("Jarl ({})", d.message.name)), ("file", n.clone()), ("line", row.to_string()), ("col", col.to_string())];
            Some((props.into_iter().map(|(k, v)| (k.to_string(), v)).collect(), format!("{n}:{row}:{col} [{}] {}", d.message.name, message(d))))
        })
        .collect();
    let got: Vec<_> = o.stdout.lines().map(github).collect();
    ensure_eq!(got, want, "github", "annotations GitHub makes\n{}", o.show());

    let o = run(&["--output-format", "full"])?;
    exit(&o, "full")?;
    human(&o, "full")?;
    errors_on_stderr(&o, &e, "full")?;
    let lines: Vec<&str> = o.stdout.lines().collect();
    let got: Vec<(String, String)> = lines
        .windows(2)
        .filter_map(|w| Some((w[0].strip_prefix("warning: ")?.to_string(), w[1].trim_start().strip_prefix("--> ")?.to_string())))
        .collect();
    let want: Vec<(String, String)> = e.diags.iter().map(|(n, d)| (d.message.name.clone(), format!("{n}:{}:{}", at(d).0, at(d).1))).collect();
    if got != want {
        // Where only the columns of the finding differ, it is that.
        let shifted: Vec<(String, String)> = e
            .diags
            .iter()
            .map(|(n, d)| {
                let one = usize::from(at(d).0 == 2 && c.files[n].starts_with('\n') && !world::is_doc(n));
                (d.message.name.clone(), format!("{n}:{}:{}", at(d).0, at(d).1 - one))
            })
            .collect();
        ensure_eq!(got, shifted, "full", "violations shown\n{}", o.show());
        known = Some(Fail::new("full-column-after-leading-newline", format!("the columns in\n{}\nare not those of the other outputs", o.show())));
    }

    let o = run(&["--statistics"])?;
    exit(&o, "statistics")?;
    errors_on_stderr(&o, &e, "statistics")?;
    let mut want: BTreeMap<String, (usize, bool)> = BTreeMap::new();
    for (_, d) in &e.diags {
        let x = want.entry(d.message.name.clone()).or_default();
        x.0 += 1;
        x.1 |= d.has_safe_fix();
    }
    let mut got: Vec<(String, (usize, bool))> = vec![];
    for l in o.stdout.lines() {
        if let Some((n, r)) = l.trim_start().split_once(" [")
            && let Ok(n) = n.parse::<usize>()
            && let Some((star, rule)) = r.split_once("] ")
        {
            got.push((rule.to_string(), (n, star == "*")));
        }
    }
    ensure!(got.windows(2).all(|w| w[0].1.0 >= w[1].1.0), "statistics-order", "{}", o.show());
    let n = got.len();
    let got: BTreeMap<_, _> = got.into_iter().collect();
    ensure!(n == got.len(), "statistics", "a rule has two lines\n{}", o.show());
    ensure_eq!(got, want, "statistics", "counts\n{}", o.show());
    ensure!(o.stdout.contains("All checks passed!") == (e.diags.is_empty() && e.errors.is_empty()), "statistics", "{}", o.show());

    if let Some(k) = known {
        return Err(k);
    }
    let rows = e.diags.iter().map(|(n, _)| n).collect::<BTreeSet<_>>().len();
    Ok(Info::when(e.diags.len() > 1 || !e.errors.is_empty())
        .label_if(rows > 1, "several files with violations")
        .label_if(e.errors.len() > 1, "several files in error")
        .label_if(!e.errors.is_empty() && !e.diags.is_empty(), "violations and errors")
        .label_if(e.diags.is_empty() && e.errors.is_empty(), "clean")
        .label_if(risky > 0, "unsafe fixes")
        .label_if(c.files.keys().any(|n| n.contains([',', '%', ':'])), "odd name"))
}

pub fn c29() -> ExitCode {
    let mut ck = Check::new("C29");
    ck.assume("every output is compared with what linting each file in the same process says (whose own correctness the other checks decide), file by file, with positions, messages and fixes");
    ck.prop(
        "formats",
        "more than one violation, or a file that cannot be linted",
        1500,
        30000,
        || (world::files(true, 4, 5), prop_oneof![3 => Just(String::new()), 2 => Just("ALL".to_string()), 1 => select(vec!["any_is_na", "PERF", "class_equals,any_is_na", "duplicated_arguments"]).prop_map(String::from)], any::<bool>()).prop_map(|(files, select, named)| Case { files, select, named }),
        check,
    );
    ck.finish()
}
