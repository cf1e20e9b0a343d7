//! C27: linting a document is linting its chunks.

use crate::lint::{D, config, lint, lint_as};
use jarl_core::rule_set::Rule;
use std::process::ExitCode;
use vpgen::{Opts, crlf, mangled, program};
use vpkit::proptest::collection::vec;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select as pick;
use vpkit::{Check, Info, Outcome, ensure, ensure_eq};

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Part {
    /// Fence length, header, code, spaces after the closing fence.
    Chunk(usize, String, String, bool),
    Other(String),
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Doc {
    parts: Vec<Part>,
    crlf: bool,
    quarto: bool,
    select: usize,
}

const SELECT: [&str; 4] = ["ALL", "", "PERF,blanket_suppression,outdated_suppression,misplaced_file_suppression", "any_is_na,equals_na,any_duplicated,assignment,outdated_suppression,misplaced_file_suppression"];
const HIDE: [&str; 4] = ["any_is_na", "equals_na", "any_duplicated", "assignment"];

/// The document with the places of the code of its R chunks.
fn render(d: &Doc) -> (String, Vec<(usize, String)>) {
    let eol = |t: &str| if d.crlf { crlf(t) } else { t.to_string() };
    let (mut t, mut chunks) = (String::new(), vec![]);
    for p in &d.parts {
        match p {
            Part::Chunk(n, h, code, trail) => {
                let f = "`".repeat(3 + n);
                t += &eol(&format!("{f}{{{h}}}\n"));
                let mut code = eol(code);
                if !code.is_empty() && !code.ends_with('\n') {
                    code += &eol("\n");
                }
                chunks.push((t.len(), code.clone()));
                t += &code;
                t += &eol(&format!("{f}{}\n", if *trail { "  " } else { "" }));
            }
            Part::Other(x) => t += &eol(x),
        }
    }
    (t, chunks)
}

/// The rules of the file suppressions before all code.
fn file_rules(code: &str) -> Vec<String> {
    let top = code.lines().map(str::trim).take_while(|l| l.is_empty() || l.starts_with('#'));
    top.filter_map(|l| l.strip_prefix("# jarl-ignore-file ")?.split_once(": ").filter(|x| !x.1.trim().is_empty()).map(|x| x.0)).filter(|r| Rule::from_name(r).is_some()).map(str::to_string).collect()
}

fn bare(d: &D) -> (usize, usize, String, String, Option<String>) {
    (d.start, d.end, d.rule.clone(), d.body.clone(), d.help.clone())
}

fn look(d: &Doc) -> Outcome {
    let (text, chunks) = render(d);
    let c = config(SELECT[d.select]);
    let name = if d.quarto { "a.qmd" } else { "dir/A b.Rmd" };
    let Some(got) = lint_as(&text, name, &c)? else {
        return Err(vpkit::Fail::new("not-parsed", format!("a document failed to parse: {text:?}")));
    };
    ensure!(got.iter().all(|x| x.fix.is_none()), "fix", "a fix in a document: {got:?}");
    let hidden = chunks.first().map_or(vec![], |(_, code)| if lint(code, &c).is_ok_and(|x| x.is_some()) { file_rules(code) } else { vec![] });
    let mut want = vec![];
    let mut also: Vec<String> = vec![];
    let mut skipped = 0;
    for (i, (at, code)) in chunks.iter().enumerate() {
        // A file suppression is at the top of the first chunk only.
        let lead = if i == 0 || !code.contains("jarl-ignore-file") { "" } else { "v\n" };
        if !lead.is_empty() && code.contains("jarl-ignore-chunk") && code.lines().all(|l| l.trim().is_empty() || l.trim().starts_with('#')) {
            return Ok(Info::trivial().label("only comments, of both kinds"));
        }
        let Some(ds) = lint(&format!("{lead}{code}"), &c)? else {
            skipped += 1;
            continue;
        };
        for x in ds {
            if i > 0 && hidden.contains(&x.rule) {
                also.push(x.rule.clone());
            } else {
                let mut x = bare(&x);
                x.0 = x.0 + at - lead.len();
                x.1 = x.1 + at - lead.len();
                want.push(x);
            }
        }
    }
    // Those of the first chunk are useful for the others too.
    want.retain(|x| !(x.2 == "outdated_suppression" && text[x.0..x.1].strip_prefix("# jarl-ignore-file ").is_some_and(|r| also.iter().any(|a| r.starts_with(&format!("{a}:")))) && hidden.iter().any(|h| text[x.0..x.1].contains(h.as_str()))));
    let mut got: Vec<_> = got.iter().map(bare).collect();
    got.sort();
    want.sort();
    ensure_eq!(got, want, "chunks", "the diagnostics of the document\n{text}");
    Ok(Info::when(got.len() > 1 && chunks.len() > skipped + 1).label(match (chunks.len() - skipped, skipped, !also.is_empty()) {
        (0, ..) => "no chunk",
        (.., true) => "hidden across chunks",
        (_, 1.., _) => "some chunks do not parse",
        _ => "all chunks parse",
    }))
}

fn doc() -> BoxedStrategy<Doc> {
    let o = Opts { comments: true, directives: true, max: 3, depth: 2 };
    let clean = Opts { comments: false, directives: false, max: 3, depth: 2 };
    let file = vec((prop::bool::weighted(0.7), pick(HIDE.to_vec()), pick(vec!["why", "é", ""])), 0..3)
        .prop_map(|v| v.iter().map(|(f, r, why)| if *f { format!("# jarl-ignore-file {r}: {why}\n") } else { "#| echo: false\n".to_string() }).collect::<String>());
    let snippet = pick(vec!["any(is.na(x))\n", "x == NA\n", "any(duplicated(x))\n", "y = 1\n", "x + 1\n", "f(\n", "y <- )\n", "", "\n\n", "# only a comment\n", "x <- 'é'; any(is.na('😀'))\n"]);
    let code = prop_oneof![
        4 => (file.clone(), program(o)).prop_map(|(a, b)| a + &b),
        3 => (file.clone(), vec(snippet, 1..4)).prop_map(|(a, b)| a + &b.concat()),
        2 => program(clean),
        1 => mangled().prop_map(|t| t.replace("```", "")),
    ];
    let header = pick(vec!["r", "R", "r, echo=FALSE", "r é", "r}", "r, fig.cap='a {b}'", "r setup, include = FALSE"]).prop_map(|h| h.trim_end_matches('}').to_string());
    let chunk = (prop_oneof![5 => Just(0usize), 1 => 1..3usize], header, code, prop::bool::weighted(0.2)).prop_map(|(n, h, c, t)| Part::Chunk(n, h, c, t));
    let other = pick(vec![
        "some *prose* é\n\n", "`any(is.na(x))` and `r any(is.na(x))`\n", "```{python}\nany(is.na(x))\n```\n", "```r\nany(is.na(x))\n```\n", "````{python}\n```{r}\nany(is.na(x))\n```\n````\n", "---\ntitle: \"`r 1`\"\n---\n", "# jarl-ignore-file any_is_na: why\n", "\n", "x == NA\n", "~~~\nany(is.na(x))\n~~~\n",
    ])
    .prop_map(|t| Part::Other(t.to_string()));
    (vec(prop_oneof![3 => chunk, 1 => other], 0..5), prop::bool::weighted(0.2), any::<bool>(), 0..SELECT.len()).prop_map(|(parts, crlf, quarto, select)| Doc { parts, crlf, quarto, select }).boxed()
}

/// Chunk suppressions: entries of the list at the top of each chunk.
#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Lists {
    chunks: Vec<(Vec<(usize, u8)>, Vec<usize>, bool)>,
}

const CODE: [&str; 6] = ["any(is.na(x))", "x == NA", "any(duplicated(x))", "f <- function() {\n  any(is.na(x))\n  x == NA\n}", "x + 1", "f(any(is.na(x)), any(duplicated(y)))"];

fn lists(l: &Lists) -> Outcome {
    let c = config("any_is_na,equals_na,any_duplicated,blanket_suppression,invalid_chunk_suppression,misnamed_suppression,misplaced_file_suppression,misplaced_suppression,outdated_suppression,unexplained_suppression");
    let (mut text, mut want, mut free) = (String::from("é\n"), vec![], vec![]);
    for (items, code, options) in &l.chunks {
        text += "```{r}\n";
        if *options {
            text += "#| echo: false\n";
        }
        let mut hides: Vec<(&str, (usize, usize), bool)> = vec![];
        if !items.is_empty() {
            text += "#| jarl-ignore-chunk:\n";
            for (r, how) in items {
                let at = text.len();
                let r = HIDE[*r % 3];
                text += &match how {
                    0 | 1 => format!("#|   - {r}: why é"),
                    2 => format!("#| - {r}: why: so"),
                    3 => format!("#|   - {r}:"),
                    _ => "#|   - any_na: why".to_string(),
                };
                let at = (at, text.len());
                text += "\n";
                match how {
                    0..=2 => hides.push((r, at, false)),
                    3 => want.push((at.0, at.1, "unexplained_suppression".to_string())),
                    _ => want.push((at.0, at.1, "misnamed_suppression".to_string())),
                }
            }
        }
        for k in code {
            let t = CODE[*k];
            for d in lint(t, &c)?.unwrap_or_default() {
                let n = hides.iter().filter(|h| h.0 == d.rule).count();
                if n == 0 {
                    want.push((d.start + text.len(), d.end + text.len(), d.rule.clone()));
                }
                for h in hides.iter_mut().filter(|h| h.0 == d.rule) {
                    h.2 = true;
                    if n > 1 {
                        free.push(h.1);
                    }
                }
            }
            text += t;
            text += "\n";
        }
        want.extend(hides.iter().filter(|h| !h.2).map(|h| (h.1.0, h.1.1, "outdated_suppression".to_string())));
        text += "```\n\n";
    }
    let mut got: Vec<_> = lint_as(&text, "a.qmd", &c)?.unwrap_or_default().into_iter().map(|d| (d.start, d.end, d.rule)).filter(|d| !free.contains(&(d.0, d.1))).collect();
    got.sort();
    want.sort();
    ensure_eq!(got, want, "chunk-suppression", "the diagnostics of\n{text}");
    Ok(Info::when(l.chunks.iter().any(|c| c.0.iter().any(|i| i.1 < 3) && !c.1.is_empty())))
}

pub fn c27() -> ExitCode {
    let mut ck = Check::new("C27");
    ck.assume("the parser, tree and comment attachment are the stand-ins of /verif/standins, which pass all of jarl's own tests");
    ck.prop("documents", "documents of prose, R chunks of programs with directives, chunks that do not parse and chunks of other engines: the diagnostics are those of each R chunk linted as a script, at their place, without fixes, less the file suppressions of the first chunk; non-trivial: several diagnostics and more than one chunk that parses", 60_000, 1_500_000, doc, look);
    let list = (vec((0..3usize, 0..5u8), 0..4), vec(0..CODE.len(), 0..4), any::<bool>());
    ck.prop("chunk-suppressions", "documents of chunks with lists of chunk suppressions, valid and not: each hides its rule in its chunk, useless and faulty ones are reported; non-trivial: a chunk with code and a valid one", 20_000, 400_000, move || vec(list.clone(), 1..4).prop_map(|chunks| Lists { chunks }), lists);
    ck.finish()
}
