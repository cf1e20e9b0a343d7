//! C24: a suppression comment hides its own rule in its own scope, and only that.

use crate::lint::{config, lint};
use std::collections::{BTreeMap, BTreeSet};
use std::process::ExitCode;
use vpkit::proptest::collection::vec;
use vpkit::proptest::option;
use vpkit::proptest::prelude::*;
use vpkit::{Check, Info, Outcome, ensure, ensure_eq};

#[derive(Clone, Copy, Debug, PartialEq, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Kind {
    Ignore,
    Start,
    End,
    File,
    Blanket,
    Unexplained,
    Misnamed,
    Comment,
}
use Kind::*;

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Dir {
    kind: Kind,
    rule: usize,
    /// A blank line after it.
    blank: bool,
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum S {
    Line(usize),
    /// Arguments on lines of their own.
    Call(usize, Option<Dir>, Vec<(usize, Item)>),
    Fun(Vec<(Vec<Dir>, usize)>, Block),
    If(Block, Option<Block>),
    For(Block),
    Bare(Block),
    Chain(Vec<Item>),
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Item {
    before: Vec<Dir>,
    s: Box<S>,
    /// At the end of its last line.
    eol: Option<Dir>,
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Block {
    /// At the end of the line of the opening brace.
    open: Option<Dir>,
    items: Vec<Item>,
    tail: Vec<Dir>,
}

const RULES: [&str; 5] = ["any_is_na", "equals_na", "any_duplicated", "length_levels", "undesirable_function"];
const LINES: [&str; 12] = [
    "any(is.na(x))", "y <- any(is.na(x))", "x == NA", "z <- f(x == NA, any(is.na(y)))", "any(duplicated(x))", "if (any(duplicated(x))) x == NA", "x + 1", "foo()", "y <- length(levels(any(is.na(x))))", "'é'; x != NA", "p |> f(any(is.na(q)))", "any(duplicated(x == NA))",
];
const EXPRS: [&str; 7] = ["any(is.na(x))", "x == NA", "any(duplicated(x))", "x + 1", "length(levels(x))", "g(any(is.na(x)), x == NA)", "NULL"];
const SUPPRESSION: &str = "blanket_suppression,invalid_chunk_suppression,misnamed_suppression,misplaced_file_suppression,misplaced_suppression,outdated_suppression,unexplained_suppression,unmatched_range_suppression";

fn dir() -> impl Strategy<Value = Dir> {
    let kind = prop_oneof![
        10 => Just(Ignore), 4 => Just(Start), 4 => Just(End), 2 => Just(File), 1 => Just(Blanket), 1 => Just(Unexplained), 1 => Just(Misnamed), 2 => Just(Comment),
    ];
    (kind, prop_oneof![4 => Just(0usize), 3 => Just(1), 2 => 0..RULES.len()], prop::bool::weighted(0.15)).prop_map(|(kind, rule, blank)| Dir { kind, rule, blank })
}

fn dirs() -> BoxedStrategy<Vec<Dir>> {
    prop_oneof![3 => Just(vec![]), 3 => vec(dir(), 1), 2 => vec(dir(), 2..4)].boxed()
}

fn eol() -> BoxedStrategy<Option<Dir>> {
    prop_oneof![6 => Just(None), 1 => dir().prop_map(Some)].boxed()
}

fn item(s: impl Strategy<Value = S> + 'static) -> BoxedStrategy<Item> {
    (dirs(), s, eol()).prop_map(|(before, s, eol)| Item { before, s: Box::new(s), eol }).boxed()
}

fn block(s: BoxedStrategy<S>, n: std::ops::Range<usize>) -> BoxedStrategy<Block> {
    (eol(), vec(item(s), n), dirs()).prop_map(|(open, items, tail)| Block { open, items, tail }).boxed()
}

fn stmt() -> BoxedStrategy<S> {
    (0..LINES.len()).prop_map(S::Line).prop_recursive(3, 16, 3, |inner| {
        let b = || block(inner.clone(), 0..4);
        let arg = (0..EXPRS.len()).prop_map(S::Line);
        prop_oneof![
            2 => (0..3usize, eol(), vec((0..3usize, item(arg.clone())), 1..4)).prop_map(|(f, open, a)| S::Call(f, open, a)),
            2 => (vec((dirs(), 0..EXPRS.len()), 0..3), b()).prop_map(|(p, b)| S::Fun(p, b)),
            2 => (b(), option::of(b())).prop_map(|(a, b)| S::If(a, b)),
            1 => b().prop_map(S::For),
            1 => b().prop_map(S::Bare),
            1 => vec(item(arg), 2..4).prop_map(S::Chain),
        ]
    }).boxed()
}

/// A directive as written, with what it is about.
struct Placed {
    kind: Kind,
    rule: &'static str,
    at: (usize, usize),
    eol: bool,
    /// The code it is above, if any.
    scope: Option<(usize, usize)>,
    /// The braces it is in.
    block: usize,
    /// Before all code.
    top: bool,
}

#[derive(Default)]
struct Out {
    text: String,
    placed: Vec<Placed>,
    /// Numbers of the open braces, the number of the last.
    blocks: Vec<usize>,
    n: usize,
    code: bool,
    /// Directives are written without a space after the mark.
    tight: bool,
}

impl Out {
    fn dir(&mut self, d: &Dir, eol: bool) {
        let r = RULES[d.rule];
        let m = if self.tight { "#" } else { "# " };
        let t = match d.kind {
            Ignore => format!("{m}jarl-ignore {r}: why"),
            Start => format!("{m}jarl-ignore-start {r}: why"),
            End => format!("{m}jarl-ignore-end {r}"),
            File => format!("{m}jarl-ignore-file {r}: é"),
            Blanket => format!("{m}jarl-ignore"),
            Unexplained => format!("{m}jarl-ignore {r}"),
            Misnamed => format!("{m}jarl-ignore any_na: why"),
            Comment => format!("# about {r}"),
        };
        let at = self.text.len();
        self.text += &t;
        self.placed.push(Placed { kind: d.kind, rule: r, at: (at, self.text.len()), eol, scope: None, block: self.blocks.last().copied().unwrap_or(0), top: !self.code });
    }

    fn pad(&mut self) {
        let n = self.blocks.len() * 2;
        self.text.extend(std::iter::repeat_n(' ', n));
    }

    fn own(&mut self, ds: &[Dir]) -> usize {
        let from = self.placed.len();
        for d in ds {
            self.pad();
            self.dir(d, false);
            self.text += if d.blank { "\n\n" } else { "\n" };
        }
        from
    }

    /// The directives from `from` on that are above what is at `scope`.
    fn about(&mut self, from: usize, to: usize, scope: (usize, usize)) {
        for p in &mut self.placed[from..to] {
            p.scope = Some(scope);
        }
    }

    fn eol(&mut self, d: &Option<Dir>) {
        if let Some(d) = d {
            self.text.push(' ');
            self.dir(d, true);
        }
        self.text.push('\n');
    }

    fn item(&mut self, i: &Item, lines: &[&str], after: &str) {
        let from = self.own(&i.before);
        let to = self.placed.len();
        self.pad();
        let at = self.text.len();
        self.stmt(&i.s, lines);
        // One line with two statements: the first.
        let end = match *i.s {
            S::Line(n) if lines.len() > EXPRS.len() && LINES[n].starts_with("'é';") => at + "'é'".len(),
            _ => self.text.len(),
        };
        self.about(from, to, (at, end));
        self.text += after;
        self.eol(&i.eol);
    }

    fn block(&mut self, b: &Block) {
        self.code = true;
        self.text.push('{');
        self.n += 1;
        self.blocks.push(self.n);
        self.eol(&b.open);
        for i in &b.items {
            self.item(i, &LINES, "");
        }
        self.own(&b.tail);
        self.blocks.pop();
        self.pad();
        self.text.push('}');
    }

    fn stmt(&mut self, s: &S, lines: &[&str]) {
        match s {
            S::Line(n) => self.text += lines[n % lines.len()],
            S::Call(f, open, args) => {
                self.text += ["foo(", "z <- pkg::foo(", "m["][*f];
                self.code = true;
                self.eol(open);
                for (k, (how, a)) in args.iter().enumerate() {
                    let from = self.own(&a.before);
                    let to = self.placed.len();
                    self.pad();
                    let at = self.text.len();
                    self.text += ["", "k = ", "'l m' = "][*how];
                    self.stmt(&a.s, &EXPRS);
                    self.about(from, to, (at, self.text.len()));
                    self.text += if k + 1 < args.len() { "," } else { "" };
                    self.eol(&a.eol);
                }
                self.pad();
                self.text += if *f == 2 { "]" } else { ")" };
            }
            S::Fun(ps, b) => {
                self.text += "f <- function(";
                self.code = true;
                for (k, (ds, e)) in ps.iter().enumerate() {
                    self.text.push('\n');
                    let from = self.own(ds);
                    let to = self.placed.len();
                    self.pad();
                    let at = self.text.len();
                    self.text += &format!("p{k} = {}", EXPRS[*e]);
                    self.about(from, to, (at, self.text.len()));
                    self.text += if k + 1 < ps.len() { "," } else { "\n" };
                }
                self.text += ") ";
                self.block(b);
            }
            S::If(a, b) => {
                self.text += "if (c) ";
                self.block(a);
                if let Some(b) = b {
                    self.text += " else ";
                    self.block(b);
                }
            }
            S::For(b) => {
                self.text += "for (i in k) ";
                self.block(b);
            }
            S::Bare(b) => self.block(b),
            S::Chain(items) => {
                for (k, i) in items.iter().enumerate() {
                    // A directive above the first is above all of it.
                    if k > 0 {
                        if k + 1 < items.len() {
                            self.item(i, &EXPRS, " %and%");
                        } else {
                            self.item(&Item { eol: None, ..i.clone() }, &EXPRS, " %or% w");
                            self.text.pop();
                        }
                    } else {
                        self.text += "v";
                        self.text += " %and%\n";
                    }
                    self.code = true;
                }
            }
        }
        self.code = true;
    }
}

fn look((b, tight): &(Block, bool)) -> Outcome {
    let mut o = Out { tight: *tight, ..Out::default() };
    for i in &b.items {
        o.item(i, &LINES, "");
    }
    o.own(&b.tail);
    let text = &o.text;
    let plain = text.replace("jarl-ignore", "jarl-ignorr");
    let all = format!("{},{SUPPRESSION}", RULES.join(","));
    let c = config(&all);
    let (Some(got), Some(bare)) = (lint(text, &c)?, lint(&plain, &c)?) else {
        return Ok(Info::trivial().label("does not parse"));
    };
    let bare: Vec<(usize, usize, String)> = bare.into_iter().map(|d| (d.start, d.end, d.rule)).collect();
    ensure!(bare.iter().all(|d| !d.2.ends_with("_suppression")), "plain-comment", "a plain comment is reported in {plain:?}: {bare:?}");
    let mut got: Vec<(usize, usize, String)> = got.into_iter().map(|d| (d.start, d.end, d.rule)).collect();
    got.sort();

    // What each directive is about.
    let mut want: Vec<(usize, usize, String)> = vec![];
    let mut scopes: Vec<((usize, usize), &str, (usize, usize))> = vec![];
    let mut starts: BTreeMap<(usize, &str), (usize, usize)> = BTreeMap::new();
    let mut say = |at: (usize, usize), r: &str| want.push((at.0, at.1, r.to_string()));
    for p in &o.placed {
        match p.kind {
            Comment => {}
            _ if p.eol => say(p.at, "misplaced_suppression"),
            Blanket => say(p.at, "blanket_suppression"),
            Unexplained => say(p.at, "unexplained_suppression"),
            Misnamed => say(p.at, "misnamed_suppression"),
            File if p.top => scopes.push((p.at, p.rule, (0, text.len()))),
            File => say(p.at, "misplaced_file_suppression"),
            Ignore => scopes.push((p.at, p.rule, p.scope.unwrap_or((0, 0)))),
            Start => {
                if let Some(old) = starts.insert((p.block, p.rule), p.at) {
                    say(old, "unmatched_range_suppression");
                }
            }
            End => match starts.remove(&(p.block, p.rule)) {
                Some(s) => scopes.push((s, p.rule, (s.0, p.at.1))),
                None => say(p.at, "unmatched_range_suppression"),
            },
        }
    }
    for at in starts.into_values() {
        say(at, "unmatched_range_suppression");
    }
    // Who hides what.
    let mut alone: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut some: BTreeSet<(usize, usize)> = BTreeSet::new();
    for d in &bare {
        let by: Vec<_> = scopes.iter().filter(|s| s.1 == d.2 && s.2.0 <= d.0 && d.1 <= s.2.1).map(|s| s.0).collect();
        match &by[..] {
            [] => want.push(d.clone()),
            [one] => { alone.insert(*one); }
            _ => {}
        }
        some.extend(by);
    }
    for (at, ..) in &scopes {
        if !some.contains(at) {
            want.push((at.0, at.1, "outdated_suppression".into()));
        } else if !alone.contains(at) {
            // Another one hides the same: whether it is needed is a matter of opinion.
            got.retain(|d| (d.0, d.1) != *at);
        }
    }
    want.sort();
    let show = |v: &[(usize, usize, String)]| v.iter().map(|d| format!("{} {:?}", d.2, &text[d.0..d.1])).collect::<Vec<_>>();
    let extra: Vec<_> = got.iter().filter(|d| !want.contains(d)).cloned().collect();
    let missing: Vec<_> = want.iter().filter(|d| !got.contains(d)).cloned().collect();
    ensure!(extra.is_empty() && missing.is_empty(), format!("{}", extra.iter().map(|d| format!("reported-{}", d.2)).chain(missing.iter().map(|d| format!("not-{}", d.2))).next().unwrap()), "in\n{text}\nreported although not to be: {:?}\nnot reported although to be: {:?}", show(&extra), show(&missing));
    ensure_eq!(got.len(), want.len(), "twice", "diagnostics of {text:?}: {got:?}");
    Ok(Info::when(!some.is_empty()).label(if some.is_empty() { "nothing hidden" } else { "something hidden" }).label_if(*tight, "no space after the mark"))
}

pub fn c24() -> ExitCode {
    let mut ck = Check::new("C24");
    ck.assume("the parser, tree and comment attachment are the stand-ins of /verif/standins, which pass all of jarl's own tests");
    ck.assume("whether a suppression is outdated of which every hidden violation is hidden by another one too is not judged");
    ck.prop("scopes", "programs of nested blocks, calls, functions and chains with directives of all kinds above statements, arguments and parameters, at ends of lines and of blocks: reported is what the program with plain comments has, less what the model of the documentation hides, and the faulty and useless directives; non-trivial: something is hidden", 60_000, 2_000_000, || (block(stmt(), 0..5), vpkit::proptest::bool::weighted(0.2)), look);
    ck.finish()
}
