//! C42: the rules that look into literals (format strings, patterns, numbers) read them, and the
//! arguments around them, as R does.

use crate::lint::{D, config, lint};
use crate::tree::{Tree, expr};
use air_r_syntax::RSyntaxKind;
use jarl_core::config::Config;
use std::process::ExitCode;
use std::sync::OnceLock;
use vpkit::proptest::collection::vec;
use vpkit::proptest::option;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq};

const AROUND: &[&str] = &["{}", "x <- {}", "f(a, {}, b = 1)", "function(x) {\n  {}\n}", "if (a) {} else b", "y[{}]", "{} + 1", "c({}, {})", "x |> f({})", "  {} # a comment", "for (i in {}) {\n  i\n}", "é <- {}"];
const OPERANDS: &[&str] = &["x", "1", "'a'", "x + 1", "f(x, 2)", "function(a) a", "x$y", "c(1, 2)[1]", "-1", "\"%s\"", "{\n  1\n}", "NULL", "é", "f(...)", "if (a) b else c", "`...`", "..1"];
const NAMES: &[&str] = &["x", "value", "fmt2", "é", "`a b`", "'q'", "f"];

/// A part of a format.
#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Part {
    Text(String),
    Percent,
    /// position, flags, width, precision, type
    Spec(u32, String, Size, Option<Size>, usize),
    /// what cannot be a specification: what comes between `%` and a character that is no type
    Bad(String, Size, usize),
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Size {
    No,
    Digits(u32),
    Star(u32),
}

const TYPES: &[char] = &['s', 'd', 's', 'd', 'f', 'i', 'o', 'x', 'X', 'e', 'E', 'g', 'G', 'a', 'A'];
const BAD: &[char] = &['y', 'b', 'q', 'k', 'w', '!', '@', '(', ')', ',', 'é', '日', 'Z', 'S', 'D', 'F', '_', '~', '&', '>'];

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Format {
    parts: Vec<Part>,
    /// a `%` at the end
    open: bool,
    positions: bool,
    quote: usize,
    callee: usize,
    /// (name, value); the value past the operands is `...`
    args: Vec<(Option<usize>, usize)>,
    /// the format is named and comes before the argument of this index
    named: Option<usize>,
    /// moves the number of arguments to the one wanted, or next to it
    fit: Option<i8>,
    comment: bool,
    around: usize,
}

const QUOTES: &[(&str, &str)] = &[("'", "'"), ("\"", "\""), ("\"", "\""), ("r\"(", ")\""), ("R'--[", "]--'")];

fn put(s: &mut String, parts: &[Part], positions: bool, out: &mut String) -> (usize, bool) {
    let (mut sum, mut max, mut bad, mut any) = (0, 0, false, false);
    for p in parts {
        match p {
            Part::Text(t) => {
                s.push_str(t);
                out.push_str(t);
            }
            Part::Percent => {
                s.push_str("%%");
                out.push('%');
            }
            Part::Spec(pos, flags, width, precision, t) => {
                any = true;
                s.push('%');
                let mut one = |p: u32, s: &mut String| {
                    sum += 1;
                    max = max.max(p as usize);
                    if positions {
                        s.push_str(&format!("{p}$"));
                    }
                };
                one(*pos, s);
                s.push_str(flags);
                let mut size = |z: &Size, s: &mut String| match z {
                    Size::No => {}
                    Size::Digits(n) => s.push_str(&n.to_string()),
                    Size::Star(p) => {
                        s.push('*');
                        one(*p, s);
                    }
                };
                size(width, s);
                if let Some(p) = precision {
                    s.push('.');
                    size(p, s);
                }
                s.push(TYPES[*t]);
            }
            Part::Bad(flags, width, c) => {
                bad = true;
                s.push('%');
                s.push_str(flags);
                if let Size::Digits(n) = width {
                    s.push_str(&n.to_string());
                }
                s.push(BAD[*c]);
            }
        }
    }
    (if !any { 0 } else if positions { max } else { sum }, bad)
}

fn only(rule: &'static str) -> &'static Config {
    static ALL: OnceLock<Vec<(&'static str, Config)>> = OnceLock::new();
    &ALL.get_or_init(|| ["sprintf", "fixed_regex", "numeric_leading_zero"].iter().map(|r| (*r, config(r))).collect()).iter().find(|c| c.0 == rule).unwrap().1
}

/// Where the code stands in `around`, and the text.
fn place(around: &str, code: &str) -> (String, Vec<usize>) {
    let mut text = String::new();
    let mut at = vec![];
    for (i, p) in around.split("{}").enumerate() {
        if i > 0 {
            at.push(text.len());
            text.push_str(code);
        }
        text.push_str(p);
    }
    text.push('\n');
    (text, at)
}

fn linted(text: &str, rule: &'static str) -> Result<Vec<D>, Fail> {
    let Some(ds) = lint(text, only(rule))? else { return Err(Fail::new("harness", format!("a syntax error in\n{text}"))) };
    Ok(ds)
}

fn format(c: &Format) -> Outcome {
    let (mut s, mut out) = (String::new(), String::new());
    let (count, mut bad) = put(&mut s, &c.parts, c.positions, &mut out);
    if c.open {
        s.push('%');
        bad = true;
    }
    let specs = c.parts.iter().any(|p| matches!(p, Part::Spec(..)));
    let (open, close) = QUOTES[c.quote];
    let mut args: Vec<(Option<usize>, usize)> = c.args.clone();
    if let Some(d) = c.fit {
        let n = (count as i64 + d as i64).clamp(0, 14) as usize;
        while args.len() < n {
            args.push((args.len() % 4 == 3).then_some(args.len() % NAMES.len()).map_or((None, args.len() % OPERANDS.len()), |i| (Some(i), 0)));
        }
        args.truncate(n);
    }
    let dots = args.iter().any(|a| a.1 >= OPERANDS.len());
    let literal = format!("{open}{s}{close}");
    let mut list: Vec<String> = args
        .iter()
        .map(|(n, v)| match OPERANDS.get(*v) {
            None => "...".to_string(),
            Some(v) => n.map_or(v.to_string(), |n| format!("{} = {v}", NAMES[n])),
        })
        .collect();
    match c.named {
        Some(i) => list.insert(i % (list.len() + 1), format!("fmt = {literal}")),
        // The first that has no name is the format.
        None => {
            let first = args.iter().take_while(|a| a.0.is_some() && a.1 < OPERANDS.len()).count();
            list.insert(if c.callee % 2 == 0 { 0 } else { first }, literal.clone());
        }
    }
    let alone = list.len() == 1;
    let code = format!("{}({}{})", ["sprintf", "sprintf", "base::sprintf"][c.callee % 3], if c.comment { "# why\n  " } else { "" }, list.join(", "));
    let around = if c.comment { "{}" } else { AROUND[c.around] };
    let (text, at) = place(around, &code);
    let want: Option<(&str, Option<String>, Option<String>)> = if bad {
        Some(("invalid `%`", None, None))
    } else if !specs {
        Some(("useless", None, (alone && !c.comment).then(|| format!("{open}{out}{close}"))))
    } else if dots || count == args.len() {
        None
    } else {
        Some(("Mismatch", Some(format!("Found {count} special character(s) and {} argument(s).", args.len())), None))
    };
    let ds = linted(&text, "sprintf")?;
    let got: Vec<(usize, &str)> = ds.iter().map(|d| (d.start, &text[d.start..d.end])).collect();
    match &want {
        None => ensure!(ds.is_empty(), "sprintf-reported", "{} is reported in\n{text}\nof {count} specifications: {}", got[0].1, ds[0].body),
        Some((body, help, fix)) => {
            let wanted: Vec<(usize, &str)> = at.iter().map(|a| (*a, &*code)).collect();
            ensure_eq!(got, wanted, "sprintf-places", "places reported ({body}) in\n{text}");
            for d in &ds {
                ensure!(d.body.contains(body), "sprintf-kind", "{body}: {} in\n{text}", d.body);
                if let Some(h) = help {
                    ensure_eq!(d.help.as_ref(), Some(h), "sprintf-count", "in\n{text}");
                }
                let f = d.fix.clone().filter(|f| !f.2.is_empty() || f.0 != f.1);
                ensure_eq!(f.as_ref().map(|f| &f.2), fix.as_ref(), "sprintf-fix", "in\n{text}");
                if let Some(f) = f {
                    ensure_eq!((f.0, f.1), (d.start, d.end), "sprintf-fix", "in\n{text}");
                }
            }
        }
    }
    Ok(Info::when(specs && c.parts.len() > 1)
        .label_if(bad, "invalid")
        .label_if(c.positions && specs, "positions")
        .label_if(dots, "dots")
        .label(want.map_or("right", |w| w.0)))
}

fn part() -> impl Strategy<Value = Part> {
    let size = || prop_oneof![4 => Just(Size::No), 2 => (1..30u32).prop_map(Size::Digits), 2 => (1..13u32).prop_map(Size::Star)];
    let flags = || "[-+ #0]{0,3}";
    prop_oneof![
        6 => "[a-zA-Z0-9 ,.:;$*#+_é日=<-]{1,8}".prop_map(Part::Text),
        2 => Just(Part::Percent),
        8 => (1..13u32, flags(), size(), option::weighted(0.3, size()), 0..TYPES.len()).prop_map(|(p, f, w, q, t)| Part::Spec(p, f, w, q, t)),
        1 => (flags(), prop_oneof![2 => Just(Size::No), 1 => (1..30u32).prop_map(Size::Digits)], 0..BAD.len()).prop_map(|(f, w, c)| Part::Bad(f, w, c)),
    ]
}

fn formats() -> impl Strategy<Value = Format> {
    let arg = (option::weighted(0.25, 0..NAMES.len()), prop_oneof![30 => 0..OPERANDS.len(), 1 => Just(OPERANDS.len())]);
    (
        (vec(part(), 0..6), prop::bool::weighted(0.05), prop::bool::weighted(0.35), 0..QUOTES.len(), 0..6usize),
        (vec(arg, 0..6), option::weighted(0.3, 0..6usize), option::weighted(0.7, -1..2i8), prop::bool::weighted(0.05), 0..AROUND.len()),
    )
        .prop_map(|((parts, open, positions, quote, callee), (args, named, fit, comment, around))| Format { parts, open, positions, quote, callee, args, named, fit, comment, around })
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Pattern {
    fun: usize,
    prefix: bool,
    /// what the pattern is made of; past the end: not a string
    pattern: Vec<usize>,
    string: bool,
    double: bool,
    /// for each argument of the function: none, by name
    given: Vec<Option<bool>>,
    /// the values of the logical ones
    values: Vec<usize>,
    /// where the named ones go among those by position
    order: Vec<usize>,
    around: usize,
}

const FUNS: &[(&str, &[&str])] = &[
    ("grep", &["pattern", "x", "ignore.case", "perl", "value", "fixed", "useBytes", "invert"]),
    ("grepl", &["pattern", "x", "ignore.case", "perl", "fixed", "useBytes"]),
    ("sub", &["pattern", "replacement", "x", "ignore.case", "perl", "fixed", "useBytes"]),
    ("gsub", &["pattern", "replacement", "x", "ignore.case", "perl", "fixed", "useBytes"]),
    ("regexpr", &["pattern", "text", "ignore.case", "perl", "fixed", "useBytes"]),
    ("gregexpr", &["pattern", "text", "ignore.case", "perl", "fixed", "useBytes"]),
    ("regexec", &["pattern", "text", "ignore.case", "perl", "fixed", "useBytes"]),
];
const PLAIN: &[&str] = &["a", "b", "Z", "0", "9", " ", "-", "_", ",", ";", ":", "@", "#", "%", "&", "=", "<", ">", "~", "!", "/", "é", "日", "𝄞"];
const SPECIAL: &[&str] = &[".", "*", "+", "?", "[", "[a]", "{", "{2}", "(", "(a)", "|", "^", "$", "\\\\.", "\\\\d", "\\n"];
const LOGICAL: &[&str] = &["FALSE", "TRUE", "F", "T", "x", "!TRUE", "is.null(y)", "FALSE", "NULL"];

/// The arguments of the one call to `name` in `t`, in their order: (name, value).
fn arguments(t: &Tree, name: &str) -> Option<Vec<(Option<String>, String)>> {
    fn leaf(t: &Tree) -> String {
        t.show()
    }
    let Tree::Node(k, v) = t else { return None };
    if *k == RSyntaxKind::R_CALL && v[0].show().ends_with(name) {
        let Tree::Node(_, call) = &v[1] else { return None };
        let list: &[Tree] = match call.get(1)? {
            Tree::Node(k, l) if k.is_list_kind() => l,
            other => std::slice::from_ref(other),
        };
        let mut out = vec![];
        for a in list {
            match a {
                Tree::Leaf(s) if s == "," => {}
                Tree::Node(RSyntaxKind::R_ARGUMENT, l) => {
                    let Tree::Node(_, n) = &l[0] else { return None };
                    out.push((Some(leaf(&n[0])), l.get(1).map(leaf).unwrap_or_default()));
                }
                other => out.push((None, leaf(other))),
            }
        }
        return Some(out);
    }
    v.iter().find_map(|c| arguments(c, name))
}

trait ListKind {
    fn is_list_kind(&self) -> bool;
}

impl ListKind for RSyntaxKind {
    fn is_list_kind(&self) -> bool {
        biome_rowan::SyntaxKind::is_list(self)
    }
}

/// As R matches them: by name, then by position.
fn matched(args: &[(Option<String>, String)], formals: &[&str]) -> Vec<Option<String>> {
    let mut out = vec![None; formals.len()];
    for (n, v) in args {
        if let Some(i) = n.as_ref().and_then(|n| formals.iter().position(|f| f == n)) {
            out[i] = Some(v.clone());
        }
    }
    for (n, v) in args {
        if n.is_none() {
            if let Some(i) = out.iter().position(|o| o.is_none()) {
                out[i] = Some(v.clone());
            }
        }
    }
    out
}

fn pattern(c: &Pattern) -> Outcome {
    let (name, formals) = FUNS[c.fun];
    let content: String = c.pattern.iter().map(|i| PLAIN.get(*i).copied().unwrap_or_else(|| SPECIAL[i - PLAIN.len()])).collect();
    let plain = c.pattern.iter().all(|i| *i < PLAIN.len());
    let q = if c.double { "\"" } else { "'" };
    let literal = if c.string { format!("{q}{content}{q}") } else { format!("p{}", ["", "[1]", "()"][c.fun % 3]) };
    let mut logical = c.values.iter().cycle().map(|v| LOGICAL[*v]);
    let mut by_position = vec![];
    let mut by_name = vec![];
    let mut value: Vec<Option<String>> = vec![None; formals.len()];
    let mut stopped = false;
    for (i, f) in formals.iter().enumerate() {
        let v = match *f {
            "pattern" => literal.clone(),
            "x" | "text" => "text".to_string(),
            "replacement" => "''".to_string(),
            _ => logical.next().unwrap().to_string(),
        };
        // By position only as long as all before it are given.
        match c.given.get(i).copied().flatten().or((i == 0).then_some(false)) {
            None => {
                stopped = true;
                continue;
            }
            Some(named) if named || stopped => by_name.push(format!("{f} = {v}")),
            Some(_) => by_position.push(v.clone()),
        }
        value[i] = Some(v);
    }
    let mut list = by_position;
    for (n, at) in by_name.into_iter().zip(c.order.iter().cycle()) {
        list.insert(at % (list.len() + 1), n);
    }
    let code = format!("{}{name}({})", if c.prefix { "base::" } else { "" }, list.join(", "));
    let (text, at) = place(AROUND[c.around], &code);
    let of = |n: &str| formals.iter().position(|f| *f == n).and_then(|i| value[i].as_deref());
    let want = c.string && plain && of("fixed").is_none_or(|v| v == "FALSE") && of("ignore.case").is_none_or(|v| v == "FALSE");
    let ds = linted(&text, "fixed_regex")?;
    let got: Vec<(usize, &str)> = ds.iter().map(|d| (d.start, &text[d.start..d.end])).collect();
    let wanted: Vec<(usize, &str)> = if want { at.iter().map(|a| (*a, &*code)).collect() } else { vec![] };
    ensure_eq!(got, wanted, if want { "regex-missed" } else { "regex-reported" }, "calls reported in\n{text}");
    for d in &ds {
        let Some(f) = &d.fix else { return Err(Fail::new("regex-fix", format!("no fix in\n{text}"))) };
        ensure_eq!((f.0, f.1), (d.start, d.end), "regex-fix", "in\n{text}");
        let args = expr(&f.2).and_then(|t| arguments(&t, name));
        let Some(args) = args else { return Err(Fail::new("regex-fix", format!("{} becomes {}", code, f.2))) };
        let now = matched(&args, formals);
        let mut then: Vec<Option<String>> = value.iter().map(|v| v.as_ref().map(|v| expr(v).unwrap().show())).collect();
        then[formals.iter().position(|f| *f == "fixed").unwrap()] = Some("TRUE".into());
        ensure_eq!(now, then, "regex-fix", "arguments {formals:?} of {} after fixing {code}", f.2);
    }
    Ok(Info::when(c.string && plain && list.len() > 2).label(if want { "reported" } else { "clean" }).label_if(!plain && c.string, "special"))
}

fn patterns() -> impl Strategy<Value = Pattern> {
    let one = prop_oneof![12 => 0..PLAIN.len(), 1 => PLAIN.len()..PLAIN.len() + SPECIAL.len()];
    let given = option::weighted(0.6, prop::bool::weighted(0.35));
    (
        (0..FUNS.len(), prop::bool::weighted(0.2), vec(one, 1..7), prop::bool::weighted(0.9), any::<bool>()),
        (vec(given, 0..9), vec(prop_oneof![2 => Just(0usize), 3 => 0..LOGICAL.len()], 1..6), vec(0..6usize, 1..5), 0..AROUND.len()),
    )
        .prop_map(|((fun, prefix, pattern, string, double), (given, values, order, around))| Pattern { fun, prefix, pattern, string, double, given, values, order, around })
}

/// Numbers: (what is before the point, after it, exponent, suffix), each as R writes them.
fn number(c: &(Vec<(String, Option<String>, Option<String>, bool)>, usize)) -> Outcome {
    let mut text = String::new();
    let mut want = vec![];
    for (i, (int, frac, exp, complex)) in c.0.iter().enumerate() {
        let mut n = int.clone();
        if let Some(f) = frac {
            n.push('.');
            n.push_str(f);
        }
        if int.is_empty() && frac.as_deref().is_none_or(str::is_empty) {
            n = ".0".into();
        }
        n.push_str(exp.as_deref().unwrap_or(""));
        // The parser takes a complex number that starts with a point for something else.
        if *complex && !n.starts_with('.') {
            n.push('i');
        }
        text.push_str(["x <- ", "-", "f(a, .b = ", "1:", "x[", "a.5 + ", "'.5'; ", "!", "x^", ".x %in% "][(c.1 + i) % 10]);
        if n.starts_with('.') {
            want.push((text.len(), n.clone(), format!("0{n}")));
        }
        text.push_str(&n);
        text.push_str(["\n", "\n", ")\n", "\n", "]\n", "\n", "\n", "\n", "\n", " # .5\n"][(c.1 + i) % 10]);
    }
    let ds = linted(&text, "numeric_leading_zero")?;
    let got: Vec<(usize, String, String)> = ds.iter().map(|d| (d.start, text[d.start..d.end].to_string(), d.fix.as_ref().map(|f| f.2.clone()).unwrap_or_default())).collect();
    for (_, a, b) in &got {
        let v = |s: &str| s.trim_end_matches('i').parse::<f64>().ok();
        ensure!(v(a).is_some() && v(a) == v(b), "number-value", "{a} becomes {b}");
    }
    ensure_eq!(got, want, "numbers", "reported in\n{text}");
    Ok(Info::when(!want.is_empty() && want.len() < c.0.len()))
}

pub fn c42() -> ExitCode {
    let mut ck = Check::new("C42");
    ck.assume("the parser and the syntax tree are the stand-ins of /verif/standins, which pass all of jarl's own tests; formats that mix positions and order, partial argument names, pipes into these functions and escapes in strings with no special character are not judged");
    ck.prop("formats", "calls of sprintf() with formats of text, `%%`, specifications (flags, widths, precisions, `*`, positions) and invalid ones, in any quotes, with arguments named or not, `...`, and the format first, named, or after named ones: kind, place, numbers and fix of what is reported against a model of the format; non-trivial: a specification among other parts", 60_000, 2_500_000, formats, format);
    ck.prop("patterns", "calls of the regular expression functions with any of their arguments, by name or position in any order, and patterns with and without special characters: reported if and only if the pattern is plain, and `fixed` and `ignore.case`, matched as R does, are FALSE; matched arguments after the fix; non-trivial: a plain pattern and three arguments or more", 60_000, 2_500_000, patterns, pattern);
    let digits = || "[0-9]{1,5}";
    ck.prop(
        "numbers",
        "numbers in every decimal form, between texts and names that look alike; non-trivial: some start with a point and some do not",
        20_000,
        600_000,
        move || (vec((prop_oneof![digits().prop_map(String::from), Just(String::new())], option::of("[0-9]{0,5}"), option::weighted(0.3, "[eE][-+]?[0-9]{1,2}"), prop::bool::weighted(0.15)), 1..6), 0..10usize),
        number,
    );
    ck.finish()
}
