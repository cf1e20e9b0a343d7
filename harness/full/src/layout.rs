//! C26: spaces, blank lines and comments between statements do not change what is reported, nor
//! does other code in the same file.

use crate::lint::{D, config, lint, sorted};
use air_r_parser::{RParserOptions, parse};
use biome_rowan::Direction;
use std::collections::HashMap;
use std::process::ExitCode;
use vpgen::{Opts, corpus, near_miss, program};
use vpkit::proptest::collection::vec;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select as pick;
use vpkit::{Check, Info, Outcome, ensure_eq};

/// Tokens with what is before each (whitespace, comments), and what is after the last.
struct Toks {
    toks: Vec<(String, String, usize)>,
    end: String,
}

fn toks(t: &str) -> Option<Toks> {
    let p = parse(t, RParserOptions::default());
    if p.has_error() {
        return None;
    }
    let mut v = vec![];
    let mut at = 0;
    for k in p.syntax().descendants_tokens(Direction::Next) {
        let r = k.text_trimmed_range();
        let (s, e) = (usize::from(r.start()), usize::from(r.end()));
        if s == e {
            continue;
        }
        v.push((t[at..s].to_string(), t[s..e].to_string(), s));
        at = e;
    }
    Some(Toks { toks: v, end: t[at..].to_string() })
}

/// Nesting of statements: whether the newlines of the gap before each token end statements.
fn statement_gaps(ts: &[(String, String, usize)]) -> Vec<bool> {
    let mut stack = vec!['{'];
    let mut out = vec![];
    for (i, (gap, tok, _)) in ts.iter().enumerate() {
        // A newline before `else`, or after an operator or a `)`, is inside a statement; one
        // after `{`, or after what can end an expression, is not when a block is innermost.
        let block = *stack.last().unwrap() == '{';
        let prev = if i == 0 { "" } else { ts[i - 1].1.as_str() };
        let ends = prev.is_empty() || prev == "{" || prev == "}" || prev.ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '.') && !["if", "for", "while", "repeat", "function", "in", "else"].contains(&prev) && !prev.starts_with('%');
        out.push(block && ends && tok != "else" && (gap.contains('\n') || i == 0));
        match tok.as_str() {
            "(" => stack.push('('),
            "[" => stack.push('['),
            "[[" => stack.push('['),
            "{" => stack.push('{'),
            ")" | "]" | "]]" | "}" => { stack.pop(); if stack.is_empty() { stack.push('{'); } }
            _ => {}
        }
    }
    out
}

/// Where a byte offset is, in terms of tokens: the number of the token it starts at or in, and
/// how far from its start, or the end of one.
fn place(starts: &[(usize, usize)], at: usize, is_end: bool) -> (usize, usize) {
    let i = if is_end { starts.partition_point(|s| s.0 < at) } else { starts.partition_point(|s| s.0 <= at) };
    if i == 0 { (0, 0) } else { (i, (at - starts[i - 1].0).min(starts[i - 1].1)) }
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

type Placed = (String, (usize, usize), (usize, usize), String, Option<String>, Option<((usize, usize), (usize, usize), String)>);

fn placed(t: &Toks, ds: Vec<D>) -> Vec<Placed> {
    let starts: Vec<(usize, usize)> = t.toks.iter().map(|k| (k.2, k.1.len())).collect();
    let mut v: Vec<Placed> = ds
        .into_iter()
        .map(|d| (d.rule, place(&starts, d.start, false), place(&starts, d.end, true), squeeze(&d.body), d.help.map(|h| squeeze(&h)), d.fix.map(|f| (place(&starts, f.0, false), place(&starts, f.1, true), squeeze(&f.2)))))
        .collect();
    v.sort();
    v
}

/// Writes the tokens with other spaces. What a pair of tokens gets depends on the two only, so
/// that expressions that were the same text remain so.
fn relayout(t: &Toks, spaces: &[u8], extra: &[u8]) -> String {
    let stmts = statement_gaps(&t.toks);
    let mut pairs: HashMap<(String, String), usize> = HashMap::new();
    let mut out = String::new();
    for (i, (gap, tok, _)) in t.toks.iter().enumerate() {
        let mut g = gap.clone();
        let n = pairs.len();
        let prev = if i == 0 { String::new() } else { t.toks[i - 1].1.clone() };
        let k = *pairs.entry((prev, tok.clone())).or_insert(n);
        if stmts[i] && (gap.trim_matches([' ', '\t', '\n', '\r']).is_empty() || i == 0) {
            g = match extra[k % extra.len()] {
                0 => format!("{g}\n"),
                1 => format!("{g}# note\n"),
                2 => format!("{g}\n\n  # any(is.na(x)) é\n\n"),
                3 if i > 0 && gap.starts_with('\n') => format!(" # because {g}"),
                4 => format!("{g}   "),
                5 => format!("{g}\t"),
                _ => g,
            };
        } else if i > 0 && !gap.contains('#') && !tok.starts_with("::") && !t.toks[i - 1].1.starts_with("::") {
            let s = match spaces[k % spaces.len()] {
                0 => " ",
                1 => "  ",
                2 => "\t",
                _ => "",
            };
            g = format!("{g}{s}");
        }
        out += &g;
        out += tok;
    }
    out + &t.end
}

fn look(t: &str, spaces: &[u8], extra: &[u8]) -> Outcome {
    let c = config("ALL");
    let Some(a) = toks(t) else {
        return Ok(Info::trivial().label("syntax error"));
    };
    let u = relayout(&a, spaces, extra);
    let Some(b) = toks(&u).filter(|b| b.toks.iter().map(|k| &k.1).eq(a.toks.iter().map(|k| &k.1))) else {
        return Ok(Info::trivial().label("other tokens after the change"));
    };
    let (Some(da), Some(db)) = (lint(t, &c)?, lint(&u, &c)?) else {
        return Ok(Info::trivial().label("syntax error"));
    };
    let any = !da.is_empty();
    let (mut pa, mut pb) = (placed(&a, da), placed(&b, db));
    if u.matches('#').count() != t.matches('#').count() {
        // Code with comments in it is reported but not fixed.
        pa.iter_mut().chain(&mut pb).for_each(|p| p.5 = None);
    }
    ensure_eq!(pb, pa, "layout", "the diagnostics (in token positions) of {u:?}, which is {t:?} with other spaces, blank lines and comments");
    Ok(Info::when(any && u != t).label_if(u.contains('#') && any, "comments added"))
}

fn concat(x: &str, y: &str) -> Outcome {
    let c = config("ALL");
    let (Some(a), Some(b)) = (lint(x, &c)?, lint(y, &c)?) else {
        return Ok(Info::trivial().label("syntax error"));
    };
    let t = format!("{x}\n{y}");
    let Some(all) = lint(&t, &c)? else {
        return Ok(Info::trivial().label("not a program together"));
    };
    let n = x.len() + 1;
    let mut want: Vec<D> = a.clone();
    want.extend(b.iter().cloned().map(|mut d| {
        d.start += n;
        d.end += n;
        d.fix = d.fix.map(|f| (f.0 + n, f.1 + n, f.2));
        d
    }));
    // Code after a stop() is not reached: this rule looks at the whole file.
    let keep = |v: Vec<D>| sorted(v.into_iter().filter(|d| d.rule != "unreachable_code").map(|mut d| { d.loc = None; d }).collect());
    ensure_eq!(keep(all), keep(want), "concat", "the diagnostics of {t:?}, and those of its parts {x:?} and {y:?}");
    Ok(Info::when(!a.is_empty() && !b.is_empty()))
}

/// Without suppression comments.
fn plain(s: BoxedStrategy<String>) -> BoxedStrategy<String> {
    s.prop_map(|t| t.replace("jarl-ignore", "note")).boxed()
}

pub fn c26() -> ExitCode {
    let mut ck = Check::new("C26");
    ck.assume("the parser, tree and comment attachment are the stand-ins of /verif/standins, which pass all of jarl's own tests");
    let o = Opts { comments: true, directives: false, max: 4, depth: 3 };
    let lay = || (vec(0u8..8, 7..40), vec(0u8..10, 5..12));
    let rule = "spaces added between tokens (the same for the same two tokens), blank lines and comments between statements; non-trivial: has diagnostics and was changed";
    ck.prop("programs", &format!("a program with {rule}"), 15_000, 400_000, move || (plain(program(o)), lay()), |(t, (s, e))| look(t, s, e));
    ck.prop("snippets", &format!("a snippet of jarl's tests with {rule}"), 15_000, 400_000, move || (plain((0..corpus().len()).prop_map(|i| corpus()[i].text.clone()).boxed()), lay()), |(t, (s, e))| look(t, s, e));
    ck.prop("near-misses", &format!("a near miss of a snippet of jarl's tests with {rule}"), 15_000, 400_000, move || (plain(near_miss()), lay()), |(t, (s, e))| look(t, s, e));
    let part = move || plain(prop_oneof![2 => program(o), 1 => near_miss(), 1 => pick((0..corpus().len()).collect::<Vec<_>>()).prop_map(|i| corpus()[i].text.clone())].boxed());
    ck.prop("two-files", "two programs in one file: the diagnostics of both; non-trivial: both have some", 15_000, 400_000, move || (part(), part()), |(x, y)| concat(x, y));
    ck.finish()
}
