//! C33: suppressions that are added automatically hide everything and change no code.

use crate::run::Tree;
use crate::world;
use air_r_parser::{RParserOptions, parse};
use biome_rowan::{Direction, TriviaPieceKind};
use std::collections::BTreeMap;
use std::process::ExitCode;
use vpkit::proptest::collection::vec;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq};

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    /// name, pieces of code (several: chunks of a document)
    files: Vec<(String, Vec<String>)>,
    crlf: bool,
    args: Vec<String>,
    /// None: the default one
    reason: Option<String>,
}

/// What the code is, comments and layout aside.
#[derive(PartialEq)]
pub struct Shape {
    pub tree: Vec<String>,
    pub comments: Vec<String>,
}

pub fn shape(t: &str) -> Option<Shape> {
    let p = parse(t, RParserOptions::default());
    if p.has_error() {
        return None;
    }
    let mut s = Shape { tree: vec![], comments: vec![] };
    for e in p.syntax().preorder() {
        match e {
            biome_rowan::WalkEvent::Enter(n) => s.tree.push(format!("{:?}(", n.kind())),
            biome_rowan::WalkEvent::Leave(n) => s.tree.push(format!("){:?}", n.kind())),
        }
    }
    for k in p.syntax().descendants_tokens(Direction::Next) {
        s.tree.push(format!("{:?} {}", k.kind(), k.text_trimmed()));
        for ps in [k.leading_trivia(), k.trailing_trivia()] {
            for x in ps.pieces() {
                if matches!(x.kind(), TriviaPieceKind::SingleLineComment) {
                    s.comments.push(x.text().trim_end().to_string());
                }
            }
        }
    }
    Some(s)
}

fn text(name: &str, pieces: &[String], crlf: bool) -> String {
    let t = if world::is_doc(name) { world::doc(pieces) } else { pieces.concat() };
    if crlf { t.replace('\n', "\r\n") } else { t }
}

/// The pieces of code of a file and the rest of it.
pub fn split(name: &str, t: &str) -> (Vec<String>, String) {
    if !world::is_doc(name) {
        return (vec![t.to_string()], String::new());
    }
    let (mut code, mut rest, mut inside) = (vec![], String::new(), false);
    for l in t.split_inclusive('\n') {
        let fence = l.trim_start_matches([' ', '\t']).starts_with("```");
        if fence {
            inside = l.contains("```{");
            if inside {
                code.push(String::new());
            }
        }
        if inside && !fence { code.last_mut().unwrap().push_str(l) } else { rest += l }
    }
    (code, rest)
}

struct V {
    file: String,
    rule: String,
    body: String,
    at: (usize, usize),
}

/// The violation is about several statements of the file at once.
fn of_statements(v: &V, text: &str) -> bool {
    let mut from = 0;
    for piece in split(&v.file, text).0 {
        from += text[from..].find(&piece).unwrap_or(0);
        if from <= v.at.0 && v.at.1 <= from + piece.len() {
            let range = biome_rowan::TextRange::new(((v.at.0 - from) as u32).into(), ((v.at.1 - from) as u32).into());
            let root = parse(&piece, RParserOptions::default()).syntax();
            return match root.covering_element(range) {
                biome_rowan::NodeOrToken::Node(n) => matches!(format!("{:?}", n.kind()).as_str(), "R_EXPRESSION_LIST" | "R_ROOT") && n.ancestors().all(|a| format!("{:?}", a.kind()) != "R_BRACED_EXPRESSIONS"),
                _ => false,
            };
        }
        from += piece.len();
    }
    false
}

/// The violations reported.
fn report(t: &Tree, args: &[String]) -> Result<Vec<V>, Fail> {
    Ok(report_all(t, args)?.0)
}

/// And the files that cannot be checked.
fn report_all(t: &Tree, args: &[String]) -> Result<(Vec<V>, Vec<String>), Fail> {
    let a: Vec<String> = ["check", ".", "--output-format=json"].iter().map(|s| s.to_string()).chain(args.iter().cloned()).collect();
    let o = t.jarl("", &a)?;
    let v: vpkit::serde_json::Value = vpkit::serde_json::from_str(&o.stdout).map_err(|e| Fail::new("json", format!("{e}: {}", o.show())))?;
    let mut out = vec![];
    for d in v["diagnostics"].as_array().into_iter().flatten() {
        let f = d["filename"].as_str().unwrap_or("?").replace('\\', "/");
        let f = f.rsplit_once("/w/").map_or(f.clone(), |x| x.1.to_string());
        let n = |i: usize| d["range"][i].as_u64().unwrap_or(0) as usize;
        let s = |k: &str| d["message"][k].as_str().unwrap_or("?").to_string();
        out.push(V { file: f.trim_start_matches("./").to_string(), rule: s("name"), body: s("body"), at: (n(0), n(1)) });
    }
    let broken = v["errors"].as_array().into_iter().flatten().filter_map(|e| e["file"].as_str().map(|f| f.trim_start_matches("./").to_string()));
    Ok((out, broken.collect()))
}

fn look(c: &Case) -> Outcome {
    let t = Tree::new("c33");
    let files: BTreeMap<&str, String> = c.files.iter().map(|(n, p)| (n.as_str(), text(n, p, c.crlf))).collect();
    for (n, x) in &files {
        t.put(n, x);
    }
    let (before, broken) = report_all(&t, &c.args)?;
    let flag = c.reason.as_ref().map_or("--add-jarl-ignore".into(), |r| format!("--add-jarl-ignore={r}"));
    let reason = c.reason.as_deref().unwrap_or("<reason>");
    let add: Vec<String> = ["check".into(), ".".into(), flag].into_iter().chain(c.args.iter().cloned()).collect();
    let o = t.jarl("", &add)?;
    let after = t.files();
    ensure_eq!(after.len(), files.len(), "files", "number of files");
    let after: BTreeMap<String, String> = after.into_iter().map(|(n, b)| (n, String::from_utf8_lossy(&b).into_owned())).collect();
    if o.stderr.contains("jarl failed") || o.code.is_none() {
        ensure!(files.iter().all(|(n, x)| after[*n] == *x), "changed-although-failed", "{}", o.show());
        ensure!(reason.contains(['\n', '\r']) || reason.trim().is_empty(), "refused", "{}", o.show());
        return Ok(Info::trivial().label("refused"));
    }
    ensure_eq!(o.code, Some(if broken.is_empty() { 0 } else { 255 }), "exit", "exit code where {broken:?} cannot be checked\n{}", o.show());
    for f in &broken {
        ensure!(o.stderr.contains(f.as_str()), "silent-about-errors", "{f} cannot be checked\n{}", o.show());
    }
    let mut added = 0;
    for (n, x) in &files {
        let y = &after[*n];
        let here: Vec<_> = before.iter().filter(|b| b.file == *n).collect();
        if here.is_empty() {
            ensure!(x == y, "changed-without-violation", "{n}:\n{x}\nis now\n{y}");
            continue;
        }
        let ((cx, rx), (cy, ry)) = (split(n, x), split(n, y));
        ensure!(rx == ry && cx.len() == cy.len(), "text", "the text around the code of\n{x}\nchanged:\n{y}");
        for (a, b) in cx.iter().zip(&cy) {
            let Some(sa) = shape(a) else { continue };
            let Some(sb) = shape(b) else {
                return Err(Fail::new("syntax", format!("no longer parses:\n{y}")));
            };
            ensure!(sa.tree == sb.tree, "code-changed", "the code of\n{x}\nchanged:\n{y}");
            // The old comments are all there, in their order.
            let mut old = sa.comments.iter().peekable();
            for k in &sb.comments {
                if old.peek() == Some(&k) {
                    old.next();
                    continue;
                }
                let rule = k.strip_prefix("# jarl-ignore ").and_then(|k| k.strip_suffix(&format!(": {}", reason.trim_end()))).map(str::trim);
                ensure!(rule.is_some_and(|r| here.iter().any(|h| h.rule == r)), "comment", "added {k:?}, in\n{y}");
                added += 1;
            }
            ensure!(old.peek().is_none(), "comment-lost", "{:?}, in\n{y}", old.peek());
        }
        // Nothing else than lines: without blanks and what was added it is the same text.
    }
    let rest = report(&t, &c.args)?;
    // What is wrong with comments that were there cannot be suppressed, but does not become more.
    let about = |v: &[V]| {
        let mut m: BTreeMap<(String, String), usize> = BTreeMap::new();
        for r in v.iter().filter(|r| r.rule.ends_with("_suppression")) {
            *m.entry((r.file.clone(), r.rule.clone())).or_default() += 1;
        }
        m
    };
    let old = about(&before);
    let more = about(&rest).into_iter().find(|(k, n)| old.get(k).is_none_or(|o| o < n)).map(|(k, _)| k);
    let mut known = None;
    for r in &rest {
        if r.rule.ends_with("_suppression") && !more.as_ref().is_some_and(|m| m.0 == r.file && m.1 == r.rule) {
            continue;
        }
        let now = &after[&r.file];
        let sig = if of_statements(r, now) { "range-of-statements".into() } else if before.iter().any(|b| b.rule == r.rule) { format!("still-{}", r.rule) } else { format!("new-{}", r.rule) };
        let f = Fail::new(sig.clone(), format!("{} ({}) in\n{now}\nafter it was\n{}", r.rule, r.body, files[r.file.as_str()]));
        if sig == "new-outdated_suppression" {
            // Some rules compare texts: new lines may make them differ.
            t.put(&r.file, now.replace("jarl-ignore", "jarl-ignorr"));
            let bare = report(&t, &c.args)?;
            let count = |v: &[V]| v.iter().filter(|x| x.file == r.file && !x.rule.ends_with("_suppression")).count();
            if count(&bare) < count(&before) {
                return Ok(Info::trivial().label("the layout changes what is reported"));
            }
        }
        if sig != "range-of-statements" {
            return Err(f);
        }
        known = Some(f);
    }
    t.jarl("", &add)?;
    let again = t.files();
    for (n, x) in &after {
        ensure!(again[n] == x.as_bytes(), "again", "{n} changes when run again:\n{x}\nis\n{}", String::from_utf8_lossy(&again[n]));
    }
    if let Some(f) = known {
        return Err(f);
    }
    ensure!(added > 0 || before.iter().all(|b| b.rule.ends_with("_suppression")), "nothing-added", "{}", o.show());
    Ok(Info::when(added > 0).label_if(added > 1, "several comments").label_if(!broken.is_empty(), "broken").label_if(c.files.iter().any(|f| world::is_doc(&f.0)), "document"))
}

pub fn piece() -> BoxedStrategy<String> {
    let inline = select(vec![
        "x <- \"a\nb\"; T\n", "f(1); any(is.na(x))\n", "if (a) {\n  1\n} else if (any(is.na(b))) {\n  2\n}\n", "f <- function(x = any(is.na(y)), z = T) {\n  any(is.na(x))\n}\n",
        "x |>\n  f(any(is.na(y))) |>\n  g(y == NA)\n", "foo(a,\n  b == NA, T,\n  # note\n  any(is.na(x)))\n", "function(x) any(is.na(x))\n", "x[any(is.na(y))] <- T\n", "for (i in any(is.na(x))) T\n", "while (x == NA) any(is.na(x))\n",
        "\tx <- any(is.na(y)) # c\n", "\n\n  any(is.na(x))\n", "T", "x == NA", "-any(is.na(x))\n", "!any(is.na(x))\n", "if (T) 1 else T\n", "y <- if (any(is.na(x))) T\n", "{ T }\n", "{\n  'é'; T\n}\n",
    ]).prop_map(String::from);
    prop_oneof![
        3 => vpgen::program(Opts { comments: true, directives: false, max: 4, depth: 2 }),
        3 => vec(prop_oneof![inline, vpgen::expr(2).prop_map(|e| e + "\n")], 1..4).prop_map(|v| v.concat()),
    ]
    .boxed()
}
use vpgen::Opts;

fn cases() -> impl Strategy<Value = Case> {
    let reason = prop_oneof![
        6 => Just(None),
        3 => select(vec!["because", "é 日本", "see: this", " a ", "a\tb", "# x", "'q'", "<r>", "{r}", "\\n", "a, b", "- a"]).prop_map(|s| Some(s.to_string())),
        1 => select(vec!["", " ", "a\nb", "a\rb"]).prop_map(|s| Some(s.to_string())),
    ];
    let args = prop_oneof![
        3 => Just(vec![]),
        2 => Just(vec!["--select=ALL"]),
        1 => Just(vec!["--select=any_is_na,equals_na,true_false_symbol,implicit_assignment,vector_logic"]),
        1 => Just(vec!["--extend-select=TESTTHAT", "--min-r-version=4.5.0"]),
        1 => Just(vec!["--assignment=="]),
    ];
    (vec((select(vec!["a.R", "sub/b.R", "d.Rmd", "é.qmd"]), vec(prop_oneof![14 => piece(), 1 => world::broken()], 1..3)), 1..3), prop::bool::weighted(0.1), args, reason).prop_map(|(files, crlf, args, reason)| Case {
        files: files.into_iter().map(|(n, p)| (n.to_string(), p)).collect::<BTreeMap<_, _>>().into_iter().collect(),
        crlf,
        args: args.into_iter().map(String::from).collect(),
        reason,
    })
}

pub fn c33() -> ExitCode {
    let mut ck = Check::new("C33");
    ck.assume("the parser, tree and comment attachment are the stand-ins of /verif/standins, which pass all of jarl's own tests");
    ck.prop("silence", "projects of R files and documents without suppression comments, run with --add-jarl-ignore and options that select rules: the code is the same, only comments were added, each for a rule reported in that file and with the reason; a new run reports nothing and adds nothing; files without violations are untouched; non-trivial: a comment was added", 4_000, 60_000, cases, look);
    ck.finish()
}
