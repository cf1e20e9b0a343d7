use jarl_core::rmd::extraction::extract_r_chunks;
use std::process::ExitCode;
use vpkit::proptest::prelude::*;
use vpkit::serde::{Deserialize, Serialize};
use vpkit::{Check, Info, Outcome, ensure, ensure_eq};

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Block {
    Prose(Vec<String>),
    /// an executable R chunk: indentation, backticks, header, body, closing indentation
    R { indent: String, ticks: usize, header: String, body: Vec<String>, close: String },
    /// a chunk of another engine, which may show an R chunk
    Other { ticks: usize, header: String, body: Vec<String>, shows: bool },
    /// a display-only block
    Display { header: String, body: Vec<String> },
    /// ~~~ fences
    Tilde(Vec<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Doc {
    blocks: Vec<Block>,
    /// an R chunk that is never closed, at the end
    unclosed: Option<(usize, Vec<String>)>,
    crlf: bool,
    final_newline: bool,
}

fn r_header() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        4 => prop::sample::select(vec![
            "{r}", "{R}", "{r label}", "{r, echo=FALSE}", "{r my-chunk, echo=FALSE}", "{R, eval = TRUE}", "{r setup, include=FALSE}", "{r fig.cap=\"a b\"}", "{r é}", "{r,cache=T}", "{r }", "{r}  ", "{r\tlabel}", "{r\t, echo=FALSE}", "{R\t}", "{r   label  ,  echo = FALSE }", "{r}\t",
        ]).prop_map(String::from),
        1 => "[a-z][a-z-]{0,6}".prop_map(|l| format!("{{r {l}}}")),
    ]
}

fn other_header() -> impl Strategy<Value = String> + Clone {
    prop::sample::select(vec![
        "{python}", "{rust}", "{Rcpp}", "{rmd}", "{ruby}", "{Rscript}", "{sql connection=r}", "{bash}", "{js}", "{r2}", "{rjs, echo=FALSE}", "{julia}", "{stan output.var=\"r\"}", "{cat}", "{verbatim}", "{css, echo=FALSE}",
        "{mermaid}", "{ojs}", "{RUST}", "{r_x}",
    ])
    .prop_map(String::from)
}

fn display_header() -> impl Strategy<Value = String> + Clone {
    prop::sample::select(vec!["", "r", "R", "python", "{.r}", "{=html}", "{{r}}", "{{r, echo=FALSE}}", "{#id .r}", "text", "yaml", "r, echo=FALSE", "(r)", "[r]"]).prop_map(String::from)
}

/// Lines that are neither a fence nor an opening of a chunk.
fn code_line() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        4 => prop::sample::select(vec![
            "x <- 1", "any(is.na(x))", "", "  y = 2", "# comment", "\"é🌍\"", "f(`a`)", "``", "`", "~~~", "x ```", "#| label: foo", "{r}", "```r inline", "a``` {r}", "\t", "end }", "'```{r}'", "` `` ```", "``` r", "``` #", "```\u{a0}x", "```x", "````x", "-```", "```` `", "``` ```",
        ]).prop_map(String::from),
        1 => "[ -~é]{0,12}".prop_filter("fence", |s| !s.trim_start().starts_with("```")),
        1 => (3usize..8, "[ -~é]{1,6}").prop_map(|(n, s)| "`".repeat(n) + &s).prop_filter("fence", |s| !s.trim().chars().all(|c| c == '`') && !s.contains('{')),
    ]
}

fn prose_line() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        4 => prop::sample::select(vec!["# Title", "", "some `r 1 + 1` inline", "* item", "text ```{r} inline", "---", "title: x", "> quote", "``{r}", "`{r}`", "{r}", "é ```", "<!-- -->", "| a | b |", ": : :"]).prop_map(String::from),
        1 => "[ -~é]{0,12}".prop_filter("fence", |s| !s.trim_start().starts_with("```")),
    ]
}

fn body() -> impl Strategy<Value = Vec<String>> + Clone {
    prop::collection::vec(code_line(), 0..5)
}

fn ticks() -> impl Strategy<Value = usize> + Clone {
    prop_oneof![6 => 3usize..7, 1 => 7usize..40]
}

fn block() -> impl Strategy<Value = Block> + Clone {
    let ind = || prop_oneof![4 => Just(""), 1 => Just("  "), 1 => Just("\t"), 1 => Just("      "), 1 => Just("         "), 1 => Just("\t\t  \t     \t\t\t   ")].prop_map(String::from);
    prop_oneof![
        3 => prop::collection::vec(prose_line(), 0..4).prop_map(Block::Prose),
        6 => (ind(), ticks(), r_header(), body(), ind()).prop_map(|(indent, ticks, header, body, close)| Block::R { indent, ticks, header, body, close }),
        3 => (ticks(), other_header(), body(), any::<bool>()).prop_map(|(ticks, header, body, shows)| Block::Other { ticks, header, body, shows }),
        2 => (display_header(), body()).prop_map(|(header, body)| Block::Display { header, body }),
        1 => body().prop_map(Block::Tilde),
    ]
}

fn doc() -> impl Strategy<Value = Doc> {
    (prop_oneof![30 => prop::collection::vec(block(), 0..7), 1 => prop::collection::vec(block(), 7..60)], prop::option::weighted(0.15, (3usize..5, body())), prop::bool::weighted(0.3), any::<bool>())
        .prop_map(|(blocks, unclosed, crlf, final_newline)| Doc { blocks, unclosed, crlf, final_newline })
}

/// The text and the expected (offset, end) of every chunk's code.
fn render(d: &Doc) -> (String, Vec<(usize, usize)>, usize) {
    let eol = if d.crlf { "\r\n" } else { "\n" };
    let mut t = String::new();
    let mut want = vec![];
    let mut others = 0;
    let mut line = |t: &mut String, s: &str| {
        t.push_str(s);
        t.push_str(eol);
    };
    for b in &d.blocks {
        match b {
            Block::Prose(l) => l.iter().for_each(|l| line(&mut t, l)),
            Block::R { indent, ticks, header, body, close } => {
                let fence = "`".repeat(*ticks);
                line(&mut t, &format!("{indent}{fence}{header}"));
                let a = t.len();
                for l in body {
                    line(&mut t, l);
                }
                if *ticks > 3 {
                    // a shorter and a longer fence inside
                    line(&mut t, &"`".repeat(ticks - 1));
                    line(&mut t, &"`".repeat(ticks + 1));
                    line(&mut t, &format!("{}{{r}}", "`".repeat(ticks - 1)));
                }
                want.push((a, t.len()));
                line(&mut t, &format!("{close}{fence}"));
            }
            Block::Other { ticks, header, body, shows } => {
                others += 1;
                let fence = "`".repeat(*ticks);
                line(&mut t, &format!("{fence}{header}"));
                body.iter().for_each(|l| line(&mut t, l));
                if *shows && *ticks > 3 {
                    let f = "`".repeat(ticks - 1);
                    line(&mut t, &format!("{f}{{r}}"));
                    line(&mut t, "any(is.na(shown))");
                    line(&mut t, &f);
                }
                line(&mut t, &fence);
            }
            Block::Display { header, body } => {
                others += 1;
                line(&mut t, &format!("```{header}"));
                body.iter().for_each(|l| line(&mut t, l));
                line(&mut t, "```");
            }
            Block::Tilde(body) => {
                others += 1;
                line(&mut t, "~~~{r}");
                body.iter().filter(|l| l.trim() != "~~~").for_each(|l| line(&mut t, l));
                line(&mut t, "~~~");
            }
        }
    }
    if let Some((ticks, body)) = &d.unclosed {
        line(&mut t, &format!("{}{{r}}", "`".repeat(*ticks)));
        body.iter().for_each(|l| line(&mut t, l));
    }
    if !d.final_newline && t.ends_with('\n') {
        t.truncate(t.len() - eol.len());
    }
    (t, want, others)
}

fn compare(t: &str, want: &[(usize, usize)]) -> Result<(), vpkit::Fail> {
    let got = extract_r_chunks(t);
    for c in &got {
        let slice = t.get(c.start_byte..c.start_byte + c.code.len());
        ensure_eq!(slice, Some(c.code.as_str()), "not-a-slice", "the document at the chunk's offset {} of {t:?}", c.start_byte);
    }
    let got: Vec<_> = got.iter().map(|c| (c.start_byte, c.start_byte + c.code.len())).collect();
    let sig = if got.iter().any(|g| !want.contains(g)) && got.len() >= want.len() { "chunk-invented" } else { "chunk-missed" };
    ensure_eq!(got, want.to_vec(), sig, "chunks of {t:?}");
    Ok(())
}

fn structured(d: &Doc) -> Outcome {
    let (t, want, others) = render(d);
    compare(&t, &want)?;
    Ok(Info::when(!want.is_empty() && d.blocks.len() > 1)
        .label_if(want.len() > 1, "several chunks")
        .label_if(others > 0, "other blocks")
        .label_if(d.unclosed.is_some(), "unclosed chunk")
        .label_if(d.crlf, "CRLF"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Line {
    Fence(String, usize, String),
    OpenR(String, usize, String),
    OpenOther(String, usize, String),
    Text(String),
}

/// A plain scanner of the same lines: a chunk is opened by a fence with a braced engine
/// name, and closed by a line that is only as many backticks.
fn scan(lines: &[Line], eol: &str, last_eol: bool) -> (String, Vec<(usize, usize)>) {
    let mut t = String::new();
    let mut want = vec![];
    let mut open: Option<(usize, bool, usize)> = None;
    for (i, l) in lines.iter().enumerate() {
        let start = t.len();
        let e = if i + 1 < lines.len() || last_eol { eol } else { "" };
        let s = match l {
            Line::Fence(a, n, b) => format!("{a}{}{b}{e}", "`".repeat(*n)),
            Line::OpenR(a, n, h) | Line::OpenOther(a, n, h) => format!("{a}{}{h}{e}", "`".repeat(*n)),
            Line::Text(x) => format!("{x}{e}"),
        };
        t.push_str(&s);
        match (&open, l) {
            (Some((n, r, a)), Line::Fence(_, m, _)) if n == m => {
                if *r {
                    want.push((*a, start));
                }
                open = None;
            }
            (None, Line::OpenR(_, n, _)) => open = Some((*n, true, t.len())),
            (None, Line::OpenOther(_, n, _)) => open = Some((*n, false, t.len())),
            _ => {}
        }
    }
    (t, want)
}

fn soup_ticks() -> impl Strategy<Value = usize> + Clone {
    prop_oneof![8 => 3usize..6, 1 => 10usize..13]
}

fn soup() -> impl Strategy<Value = (Vec<Line>, bool, bool)> {
    let ind = || prop_oneof![4 => Just(""), 1 => Just(" "), 1 => Just("\t ")].prop_map(String::from);
    let l = prop_oneof![
        4 => (ind(), soup_ticks(), prop_oneof![3 => Just(""), 1 => Just("  "), 1 => Just("\t")].prop_map(String::from)).prop_map(|(a, n, b)| Line::Fence(a, n, b)),
        4 => (ind(), soup_ticks(), r_header()).prop_map(|(a, n, h)| Line::OpenR(a, n, h)),
        1 => (ind(), soup_ticks(), other_header()).prop_map(|(a, n, h)| Line::OpenOther(a, n, h)),
        4 => code_line().prop_map(Line::Text),
    ];
    (prop::collection::vec(l, 0..16), any::<bool>(), any::<bool>())
}

pub fn c08() -> ExitCode {
    let mut ck = Check::new("C08");
    ck.assume("chunk headers as knitr writes them, directly after the backticks; R chunks shown inside plain (brace-less) Markdown fences are not generated");
    ck.prop(
        "documents",
        "documents of up to 60 blocks (prose, R chunks with 3-40 backticks, other engines also showing an R chunk, display-only and ~~~ blocks, an unclosed chunk), LF or CRLF, compared with the chunks they were built from; non-trivial: an R chunk and another block",
        60_000,
        2_000_000,
        doc,
        structured,
    );
    ck.prop(
        "fence_sequences",
        "up to 16 lines, each a bare fence, a chunk opening or code, in any order, compared with a line scanner; non-trivial: at least one closed R chunk",
        120_000,
        4_000_000,
        soup,
        |(lines, crlf, last)| {
            let (t, want) = scan(lines, if *crlf { "\r\n" } else { "\n" }, *last);
            compare(&t, &want)?;
            Ok(Info::when(!want.is_empty()).label_if(want.len() > 1, "several chunks"))
        },
    );
    ck.prop(
        "arbitrary_text",
        "any text: no crash, and every chunk is a slice of the text, in order, without overlap; non-trivial: at least one chunk",
        60_000,
        2_000_000,
        || {
            let a = prop_oneof![prop::sample::select(vec!["```", "````", "{r}", "```{r}\n", "\n```\n", "\n", "\r\n", "\r", "{", "}", " ", "é", "\u{2028}", "x"]).prop_map(String::from), any::<String>()];
            prop::collection::vec(a, 0..20).prop_map(|v| v.concat())
        },
        |t: &String| {
            let got = extract_r_chunks(t);
            let mut at = 0;
            for c in &got {
                ensure!(c.start_byte >= at, "overlap", "chunk at {} begins before {at} in {t:?}", c.start_byte);
                let slice = t.get(c.start_byte..c.start_byte + c.code.len());
                ensure_eq!(slice, Some(c.code.as_str()), "not-a-slice", "the document at the chunk's offset {} of {t:?}", c.start_byte);
                ensure!(t[..c.start_byte].ends_with('\n'), "not-a-line", "chunk at {} of {t:?} does not start a line", c.start_byte);
                at = c.start_byte + c.code.len() + 1;
            }
            Ok(Info::when(!got.is_empty()))
        },
    );
    ck.finish()
}
