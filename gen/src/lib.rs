//! Generators of R code, and the corpus: the code snippets of jarl's own tests (text, rule
//! they are about), recorded once from the unchanged tree.

use serde::Deserialize;
use std::sync::OnceLock;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;

#[derive(Deserialize, Debug)]
pub struct Snip {
    pub rule: String,
    pub text: String,
    pub kinds: Vec<String>,
    /// the minimum R version it was tested with
    pub v: Option<String>,
    /// tested with settings of its own
    pub settings: bool,
}

pub fn corpus() -> &'static [Snip] {
    static C: OnceLock<Vec<Snip>> = OnceLock::new();
    C.get_or_init(|| include_str!("corpus.jsonl").lines().map(|l| serde_json::from_str(l).unwrap()).collect())
}

/// Expressions with holes: what the rules look for, near misses of it, and the rest of R.
pub const TEMPLATES: &[&str] = &[
    "any(is.na({}))", "any(is.na({}), na.rm = TRUE)", "any(duplicated({}))", "NA %in% {}", "{} |> is.na() |> any()",
    "{} == NA", "{} != NA", "NA == {}", "{} %in% NA", "{} == NaN", "NaN != {}", "{} == NULL", "NULL == {}", "{} == NA_integer_",
    "{} == TRUE", "{} != FALSE", "TRUE == {}", "FALSE == {}", "{} == T", "!({} > {})", "!({} == {})", "!{} == {}", "!({} %in% {})",
    "class({}) == 'a'", "'a' %in% class({})", "class({}) != \"b\"", "identical(class({}), 'a')", "if (class({}) == 'foo') {}",
    "length(levels({}))", "length({} == {})", "length({} != 0)", "1:length({})", "1:nrow({})", "1:ncol({})", "seq(1, length({}))",
    "seq_len(length({}))", "seq(nrow({}))", "for (i in 1:length({})) {}", "for (i in 1:10) {}", "for (i in {}) { for (i in {}) {} }",
    "for (x in x) {}", "for (x in {}) x", "which(grepl({}, {}))", "which(grepl('a', {}))", "grep({}, {}, value = TRUE)",
    "grep('a', {}, value = TRUE)", "grepl('abc', {})", "gsub('\\\\.', '', {})", "gsub('a.b', '', {})", "regexpr('abc', {})",
    "grepl('^abc', {})", "grepl('abc$', {})", "substr({}, 1, 3) == 'abc'", "sapply({}, length)", "lapply({}, length)", "purrr::map_int({}, length)",
    "sample(1:10)", "sample(1:{}, 3)", "sample(seq_len({}))", "{}[order({})]", "x[order(x)]", "x[order(x, decreasing = TRUE)]",
    "do.call(cbind.data.frame, {})", "do.call('cbind.data.frame', {})", "apply({}, 1, sum)", "apply({}, 2, mean, na.rm = TRUE)",
    "apply(x, MARGIN = 1, FUN = mean)", "ifelse({}, TRUE, FALSE)", "ifelse({}, FALSE, TRUE)", "fifelse({}, T, F)", "if_else({}, {}, {})",
    "ifelse({}, NA, FALSE)", "if (is.null({})) {} else {}", "if (is.null(x)) y else x", "if (!is.null(x)) x else y", "if (TRUE) {}",
    "if (FALSE) {} else {}", "if (TRUE || {}) {}", "while (TRUE) {}", "while (1) {}", "repeat {}", "repeat { break }",
    "while (TRUE) { if ({}) break }", "is.numeric({}) || is.integer({})", "is.integer(x) || is.numeric(x)", "if ({} & {}) {}", "if ({} | {}) {}",
    "if ({} && {}) {}", "while ({} & {}) {}", "if (x) { if (y) {} }", "if ({}) { if ({}) { {} } }", "if ({}) {}", "if ({}) {} else {}",
    "if ({}) { {} } else if ({}) { {} } else { {} }", "function(x) {}", "function(x, y = {}) { {} }", "\\(x) {}", "function(x, ...) { return({}); {} }",
    "f <- function(x) { if ({}) return({}) else return({}); {} }", "function() { stop('a'); {} }", "function(x) { while (TRUE) {}; {} }",
    "f({})", "f({}, {})", "f(a = {}, b = {})", "f(a = {}, a = {})", "f({}, , {})", "f(, {})", "f('a' = {}, `b c` = {})", "pkg::f({})", "pkg:::g({})", "obj$m({})", "list(a = {}, a = {})",
    "{} <- {}", "x <- {}", "x = {}", "{} -> x", "x <<- {}", "x[{}] <- {}", "x$a <- {}", "names(x) <- {}", "f(x <- {})", "if (x <- {}) {}",
    "while (x <- {}) {}", "f(y = x <- {})", "{} + {}", "{} - {}", "{} * {}", "{} / {}", "{} ^ {}", "{} : {}", "{} %% {}", "{} %in% {}",
    "{} %>% f()", "{} |> f({})", "{} && {}", "{} || {}", "{} & {}", "{} | {}", "{} > {}", "{} >= {}", "{} == {}", "{} != {}", "!{}", "-{}", "+{}",
    "~{}", "{} ~ {}", "({})", "{ {} }", "{ {}\n{} }", "{ {}; {} }", "{}[{}]", "{}[[{}]]", "{}[{}, {}]", "{}[, {}]", "{}$a", "{}@b", "{}$`a b`", "?{}",
    "expect_equal(length({}), 2)", "expect_identical(length(x), length({}))", "expect_equal(names({}), 'a')", "expect_equal(names(x), {})",
    "expect_true(is.null({}))", "expect_null({})", "expect_equal({}, NULL)", "expect_identical(NULL, {})", "expect_equal({}, TRUE)",
    "expect_identical({}, FALSE)", "expect_true(!{})", "expect_false(!{})", "expect_true(grepl('a', {}))", "expect_false(grepl({}, {}))",
    "expect_true(inherits({}, 'a'))", "expect_equal(class({}), 'a')", "expect_identical(typeof({}), 'double')", "expect_equal(typeof(x), {})",
    "testthat::expect_equal(length({}), 1L)", "expect_true(is.data.frame({}))", "expect_s3_class({}, 'a')",
    "download.file({}, 'b')", "download.file('http://a', {}, mode = 'w')", "download.file(x, y)", "system.file({}, package = 'p')", "system.file(file.path('a', {}), package = 'p')",
    "file.path(system.file(package = 'p'), {})", "sprintf('%s', {})", "sprintf('a')", "sprintf('%s %d', {})", "sprintf(fmt = '%s', {}, {})", "sprintf({})", "sprintf('%%')",
    "browser()", "browser({})", "all.equal({}, {})", "if (all.equal({}, {})) {}", "isTRUE(all.equal({}, {}))", "!all.equal({}, {})", "all(!{})", "any(!{})",
    "all(!{}, na.rm = TRUE)", "!all({})", "setwd({})", "library({})", "Sys.time()", ".1 + {}", "x[[1]]", "return({})", "stop({})", "next", "break", "invisible({})",
    "switch({}, a = {}, b = {})", "tryCatch({}, error = function(e) {})", "with({}, {})", "quote({})", "if (is.na({})) {}", "is.na({})", "which({})", "{} <- function(x) {}",
    "matrix({}, nrow = {})", "paste0({}, {})", "seq({}, {})", "seq_along({})", "nchar({})", "T", "F", "T & {}", "Negate({})", "vapply({}, length, integer(1))",
    "stopifnot({})", "inherits({}, what = 'a')", "order({})", "sort({})", "is.null({})", "x <- if ({}) {} else {}", "x <- {}", "assign('x', {})", "local({ {} })", "lengths({})", "`if`({}, {})",
];

/// Leaves: some hold characters of two, three and four bytes.
pub const LEAVES: &[&str] = &[
    "x", "y", "foo", ".x", "x.y", "x_1", "é", "été", "变量", "`a b`", "`é`", "`x`", "1", "2L", "0", "10", "1e5", ".5", "0x1F", "1i", "1:10", "TRUE", "FALSE", "T", "F",
    "NULL", "NA", "NaN", "Inf", "NA_character_", "'a'", "\"a\"", "'é'", "\"日本\"", "'😀'", "''", "\"it's\"", "'say \"x\"'", "'a\\n'", "\"\\\\d+\"", "r\"(a\"b)\"", "'a\nb'", "c(1, 2)", "c('a', 'é')",
    "mean(x)", "-1", "f()", "x$a", "x[1]", "...", "..1", "letters", "character(0)", "a::b", "a:::b",
];

pub fn leaf() -> BoxedStrategy<String> {
    select(LEAVES).prop_map(str::to_string).boxed()
}

/// Fills the holes of a template.
pub fn fill(t: &str, xs: &[String]) -> String {
    let mut out = String::new();
    let mut it = xs.iter().cycle();
    let mut rest = t;
    while let Some(i) = rest.find("{}") {
        out.push_str(&rest[..i]);
        out.push_str(it.next().map_or("x", |s| s.as_str()));
        rest = &rest[i + 2..];
    }
    out + rest
}

/// An expression, possibly of several lines, not always valid where it is put.
pub fn expr(depth: u32) -> BoxedStrategy<String> {
    let corp = (0..corpus().len()).prop_map(|i| corpus()[i].text.clone());
    leaf()
        .prop_recursive(depth, 24, 3, |inner| {
            (select(TEMPLATES), prop::collection::vec(inner, 1..4)).prop_map(|(t, xs)| fill(t, &xs))
        })
        .prop_flat_map(move |e| prop_oneof![6 => Just(e), 1 => corp.clone()])
        .boxed()
}

pub fn comment() -> BoxedStrategy<String> {
    select(vec!["# note", "#", "# é 日本 😀", "#' roxygen", "#| echo: false", "# any(is.na(x))", "# TODO: fix {"]).prop_map(str::to_string).boxed()
}

/// Rules of jarl that suppression comments name in generated programs.
pub const SOME_RULES: &[&str] = &["any_is_na", "equals_na", "true_false_symbol", "redundant_equals", "implicit_assignment", "seq", "class_equals", "unreachable_code", "vector_logic", "assignment"];

pub fn directive() -> BoxedStrategy<String> {
    let kind = select(vec!["jarl-ignore", "jarl-ignore", "jarl-ignore-start", "jarl-ignore-end", "jarl-ignore-file", "jarl-ignore-chunk"]);
    let rule = prop_oneof![8 => select(SOME_RULES).prop_map(str::to_string), 1 => Just("unknown_rule".to_string()), 1 => Just(String::new())];
    let why = select(vec![": because", ": because", ": because", "", ":", ": é 日本"]);
    prop_oneof![
        6 => (kind, rule, why).prop_map(|(k, r, w)| format!("# {k} {r}{w}")),
        1 => select(SOME_RULES).prop_map(|r| format!("#| jarl-ignore-chunk:\n#|   - {r}: because")),
    ]
    .boxed()
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub comments: bool,
    pub directives: bool,
    pub max: usize,
    pub depth: u32,
}

/// A statement on its own line(s).
pub fn stmt(o: Opts) -> BoxedStrategy<String> {
    let e = expr(o.depth);
    let body = prop::collection::vec(expr(1), 0..4);
    let c = move |on: bool, s: BoxedStrategy<String>| if on { prop::option::weighted(0.25, s).boxed() } else { Just(None).boxed() };
    let inner = (c(o.directives, directive()), c(o.comments, comment()));
    prop_oneof![
        10 => e.clone(),
        2 => (e.clone(), body.clone(), inner.clone()).prop_map(|(a, b, (d, c))| {
            let mut s = format!("f <- function(x, y = {a}) {{\n");
            for (i, x) in b.iter().enumerate() {
                if i == 0 {
                    if let Some(d) = &d { s += &format!("  {d}\n"); }
                    if let Some(c) = &c { s += &format!("  {c}\n"); }
                }
                s += &format!("  {x}\n");
            }
            s + "}"
        }),
        1 => (e.clone(), body.clone()).prop_map(|(a, b)| format!("if ({a}) {{\n  {}\n}} else {{\n  {}\n}}", b.join("\n  "), b.iter().rev().cloned().collect::<Vec<_>>().join("\n  "))),
        1 => (e.clone(), body, inner).prop_map(|(a, b, (d, c))| format!("g(\n{}{}  {a}{}\n)", d.map_or(String::new(), |d| format!("  {d}\n")), c.map_or(String::new(), |c| format!("  {c}\n")), b.iter().map(|x| format!(",\n  {x}")).collect::<String>())),
        1 => (e.clone(), e).prop_map(|(a, b)| format!("{a}; {b}")),
    ]
    .boxed()
}

/// A program: statements with blank lines, comments and suppression comments around them.
pub fn program(o: Opts) -> BoxedStrategy<String> {
    let gap = select(vec!["", "", "", "\n", "\n\n", "  ", "\t"]);
    let pre = if o.directives && o.comments {
        prop_oneof![6 => Just(None), 2 => directive().prop_map(Some), 1 => comment().prop_map(Some)].boxed()
    } else if o.comments {
        prop_oneof![6 => Just(None), 1 => comment().prop_map(Some)].boxed()
    } else {
        Just(None).boxed()
    };
    let post = if o.comments { prop_oneof![8 => Just(None), 1 => comment().prop_map(Some)].boxed() } else { Just(None).boxed() };
    let item = (gap, pre.clone(), stmt(o), post);
    (prop::collection::vec(item, 0..=o.max), pre, select(vec!["\n", "\n", "\n", "", "\n\n\n", "  \n"]), prop::bool::weighted(0.15))
        .prop_map(|(items, last, end, crlf)| {
            let mut lines: Vec<String> = vec![];
            for (gap, pre, s, post) in items {
                let indent = gap.trim_matches('\n');
                if gap.contains('\n') {
                    lines.extend(gap.matches('\n').map(|_| String::new()));
                }
                if let Some(p) = pre {
                    lines.push(format!("{indent}{p}"));
                }
                lines.push(format!("{indent}{s}{}", post.map_or(String::new(), |p| format!(" {p}"))));
            }
            lines.extend(last);
            let mut t = lines.join("\n") + end;
            if crlf {
                t = t.replace('\n', "\r\n");
            }
            t
        })
        .boxed()
}

/// The tokens of a text, roughly: words, strings, runs of operator characters, single others.
pub fn tokens(t: &str) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        let from = i;
        let c = cs[i];
        i += 1;
        let word = |c: char| c.is_alphanumeric() || c == '_' || c == '.';
        if word(c) {
            while i < cs.len() && word(cs[i]) {
                i += 1;
            }
        } else if c == '\'' || c == '"' || c == '`' {
            while i < cs.len() && cs[i] != c {
                i += 1 + usize::from(cs[i] == '\\');
            }
            i = (i + 1).min(cs.len());
        } else if c == '#' {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
        } else if c == ' ' || c == '\n' {
            while i < cs.len() && cs[i] == c {
                i += 1;
            }
        } else if "<>=!&|-:".contains(c) {
            while i < cs.len() && "<>=&|-:".contains(cs[i]) {
                i += 1;
            }
        }
        out.push(cs[from..i].iter().collect());
    }
    out
}

/// Snippets of the corpus with some tokens removed, replaced, repeated or swapped: code near
/// what the rules look for.
pub fn near_miss() -> BoxedStrategy<String> {
    let repl = prop_oneof![3 => leaf(), 1 => select(vec![",", "", "=", "NULL", "f", "()", "...", "{}", "(", ")", "x = ", ", na.rm = TRUE"]).prop_map(str::to_string), 1 => Just(String::new())];
    let edit = (any::<prop::sample::Index>(), 0usize..3, 0u8..4, repl);
    (0..corpus().len(), prop::collection::vec(edit, 1..4))
        .prop_map(|(i, es)| {
            let mut ts = tokens(&corpus()[i].text);
            for (at, n, op, r) in es {
                if ts.is_empty() {
                    break;
                }
                let a = at.index(ts.len());
                let b = (a + n).min(ts.len());
                match op {
                    0 => drop(ts.drain(a..b)),
                    1 => ts[a] = r,
                    2 => {
                        let x = ts[a..b].to_vec();
                        ts.splice(a..a, x);
                    }
                    _ => ts.insert(a, r),
                }
            }
            ts.concat()
        })
        .boxed()
}

/// Text that need not be R: programs with characters removed, added or repeated, and noise.
pub fn mangled() -> BoxedStrategy<String> {
    let o = Opts { comments: true, directives: true, max: 4, depth: 3 };
    let bit = select(vec![
        "{", "}", "(", ")", "[", "]]", "[[", "'", "\"", "`", "#", "\\", "\n", "\r", "\r\n", "\t", " ", ";", ",", "=", "<-", "->", "%", "%%", "|>", "~", "?", ":::", "@", "$", "r\"(", ")\"", "é", "😀", "\u{feff}",
        "\u{a0}", "\u{2028}", "\0", "function", "if", "else", "for", "in", "# jarl-ignore", "0x", "1e", "_", "..", "...", "\u{301}",
    ]);
    let edit = (any::<prop::sample::Index>(), 0usize..4, bit.clone());
    prop_oneof![
        5 => (program(o), prop::collection::vec(edit, 0..4)).prop_map(|(p, es)| {
            let mut cs: Vec<char> = p.chars().collect();
            for (i, n, b) in es {
                let at = i.index(cs.len() + 1);
                let to = (at + n).min(cs.len());
                cs.splice(at..to, b.chars().take(if n == 3 { 0 } else { 9 }).collect::<Vec<_>>());
            }
            cs.into_iter().collect()
        }),
        1 => prop::collection::vec(prop_oneof![2 => bit.prop_map(str::to_string), 1 => leaf()], 0..12).prop_map(|v| v.concat()),
        1 => any::<String>(),
    ]
    .boxed()
}

/// Changes line endings.
pub fn crlf(s: &str) -> String {
    s.replace("\r\n", "\n").replace('\n', "\r\n")
}
