//! C38: code reported as unreachable is never executed, and code after a jump is reported.

use crate::lint::{args, lint_as};
use jarl_core::config::build_config;
use jarl_core::rule_options::ResolvedRuleOptions;
use jarl_core::rule_options::unreachable_code::{ResolvedUnreachableCodeOptions, UnreachableCodeOptions};
use jarl_core::settings::{LinterSettings, Settings};
use std::process::ExitCode;
use vpkit::proptest::collection::vec;
use vpkit::proptest::option;
use vpkit::proptest::prelude::*;
use vpkit::{Check, Info, Outcome, ensure};

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Cond {
    /// text, and what it always is
    Known(usize),
    Or(bool, Box<Cond>, Box<Cond>),
    And(bool, Box<Cond>, Box<Cond>),
    Not(Box<Cond>),
    Paren(Box<Cond>),
}

/// Text, what it is in R, and what it has to be recognized as.
const CONDS: &[(&str, Option<bool>, Option<bool>)] = &[
    ("TRUE", Some(true), Some(true)),
    ("FALSE", Some(false), Some(false)),
    ("a", None, None),
    ("a == b", None, None),
    ("is.null(a)", None, None),
    ("T", None, None),
    ("F", None, None),
    ("f(TRUE)", None, None),
    ("f(FALSE)", None, None),
    ("x$TRUE_", None, None),
    ("a == TRUE", None, None),
    ("a[FALSE]", None, None),
    ("NA", None, None),
    ("1", Some(true), None),
    ("0", Some(false), None),
    ("-a", None, None),
    ("`TRUE`", None, None),
    ("a %in% TRUE", None, None),
    ("a + FALSE", None, None),
];

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Body {
    braced: bool,
    list: Vec<St>,
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum St {
    Leaf(usize),
    Return(usize),
    Stop(usize, usize),
    Break(bool),
    Next(bool),
    If(Cond, Body, Option<Body>),
    For(Body),
    While(Cond, Body),
    Repeat(Body),
    Braces(Vec<St>),
    Opaque(usize, Vec<St>),
    Fun(usize, Body),
}

/// Statements after which it goes on (or, if `false`, doesn't, which nobody has to know).
const LEAVES: &[(&str, bool)] = &[
    ("@", true),
    ("@ <- 2", true),
    ("f(@)", true),
    ("x$stop(@)", true),
    ("x$return(@)", true),
    ("tryCatch(stop(@), error = identity)", true),
    ("function() stop(@)", true),
    ("f(return, @)", true),
    ("stops(@)", true),
    ("returns <- @", true),
    ("!@", true),
    ("'break'(@)", true),
    ("c(\"return\", @)", true),
    ("try(stop(@))", true),
    ("on.exit(stop(@))", true),
    ("quote(return(@))", true),
    ("break_(@)", true),
    ("stop + @", true),
    ("x@stop(@@)", true),
    ("f(@)$stop()", true),
    ("y::x$quit(@)", true),
    ("y <- if (a) return(@) else 2", true),
    ("f(if (a) stop(@))", true),
    ("a && return(@)", true),
    ("a || stop(@)", true),
    ("function(x = stop(@)) x", true),
    ("f(@)[stop]", true),
    ("(stop(@))", false),
    ("y <- return(@)", false),
    ("@ |> stop()", false),
    ("-stop(@)", false),
    ("`stop`(@)", false),
];

const STOPS: &[&str] = &["stop", ".Defunct", "abort", "cli_abort", "q", "quit", "die", "halt", "fail", "Stop"];
const DEFAULTS: usize = 6;

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    list: Vec<St>,
    base: Option<Vec<usize>>,
    extend: Option<Vec<usize>>,
    /// between statements
    sep: Vec<u8>,
    chunk: bool,
}

/// What has to be reported: what is reached, what may go unnoticed, and what never runs.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Seen {
    Never(Option<&'static str>),
    Excused,
    Reached,
}

#[derive(Clone, Copy, Debug)]
struct At {
    /// Some execution gets here.
    run: bool,
    seen: Seen,
}

fn join(a: At, b: At) -> At {
    let seen = match (a.seen, b.seen) {
        (Seen::Never(_), Seen::Never(_)) => Seen::Never(None),
        (x, y) => x.max(y),
    };
    At { run: a.run || b.run, seen }
}

struct Id {
    at: usize,
    run: bool,
    seen: Seen,
    /// its statement has to be reported if it is never executed
    judged: bool,
    after: String,
}

struct Walk<'a> {
    text: String,
    ids: Vec<Id>,
    stops: &'a [usize],
    sep: &'a [u8],
    n: usize,
    depth: usize,
}

#[derive(Clone, Copy)]
struct Ctx {
    top: bool,
    in_loop: bool,
    /// statements are looked at one by one
    known: bool,
}

impl Walk<'_> {
    fn cond(&mut self, c: &Cond, at: At) -> (Option<bool>, Option<bool>) {
        let two = |w: &mut Self, a: &Cond, op: &str, b: &Cond| {
            let par = |w: &mut Self, c: &Cond| {
                let p = matches!(c, Cond::Or(..) | Cond::And(..));
                if p {
                    w.text.push('(');
                }
                let r = w.cond(c, at);
                if p {
                    w.text.push(')');
                }
                r
            };
            let l = par(w, a);
            w.text += op;
            (l, par(w, b))
        };
        let or = |a: Option<bool>, b: Option<bool>| match (a, b) {
            (Some(true), _) | (_, Some(true)) => Some(true),
            (Some(false), Some(false)) => Some(false),
            _ => None,
        };
        let not = |a: Option<bool>| a.map(|a| !a);
        match c {
            Cond::Known(i) => {
                let (t, run, seen) = CONDS[i % CONDS.len()];
                self.text += t;
                (run, seen)
            }
            Cond::Or(two_signs, a, b) => {
                let (l, r) = two(self, a, if *two_signs { " || " } else { " | " }, b);
                (or(l.0, r.0), or(l.1, r.1))
            }
            Cond::And(two_signs, a, b) => {
                let (l, r) = two(self, a, if *two_signs { " && " } else { "&" }, b);
                (not(or(not(l.0), not(r.0))), not(or(not(l.1), not(r.1))))
            }
            Cond::Not(a) => {
                self.text += "!(";
                let r = self.cond(a, at);
                self.text.push(')');
                (not(r.0), None)
            }
            Cond::Paren(a) => {
                self.text.push('(');
                let r = self.cond(a, at);
                self.text.push(')');
                r
            }
        }
    }

    fn id(&mut self, at: At, judged: bool) {
        self.ids.push(Id { at: self.text.len(), run: at.run, seen: at.seen, judged, after: String::new() });
        self.text += &format!("z{}", self.ids.len());
    }

    fn fill(&mut self, t: &str, at: At, judged: bool) {
        // `@@` is the place next to a real `@`
        let p = t.find("@@").unwrap_or_else(|| t.find('@').unwrap());
        self.text += &t[..p];
        self.id(at, judged);
        self.text += t[p..].trim_start_matches('@');
    }

    fn sep(&mut self) {
        let s = if self.sep.is_empty() { 0 } else { self.sep[self.n % self.sep.len()] };
        self.n += 1;
        match s % 6 {
            0 | 1 => self.text.push('\n'),
            2 => self.text += "; ",
            3 => self.text += "\n\n",
            4 => self.text += " # stop() return(1)\n",
            _ => self.text += "\n# break\n  ",
        }
    }

    fn body(&mut self, b: &Body, at: At, x: Ctx) -> (At, At) {
        if let ([St::Braces(l)], false) = (&b.list[..], b.braced) {
            // the same text
            return self.body(&Body { braced: true, list: l.clone() }, at, x);
        }
        if b.braced || b.list.len() != 1 {
            self.text.push('{');
            self.text.push('\n');
            let r = self.list(&b.list, at, x);
            self.text += "\n}";
            r
        } else {
            self.one(&b.list[0], at, x)
        }
    }

    /// Where it goes on after the list, and after a `break` in it.
    fn list(&mut self, l: &[St], mut at: At, x: Ctx) -> (At, At) {
        self.depth += 1;
        let mut out = At { run: false, seen: Seen::Never(None) };
        for (i, s) in l.iter().enumerate() {
            if i > 0 {
                self.sep();
            }
            let (next, brk) = self.one(s, at, x);
            at = next;
            out = join(out, brk);
        }
        self.depth -= 1;
        (at, out)
    }

    fn jump(&mut self, at: At, why: &'static str, excused: bool) -> At {
        let seen = match at.seen {
            Seen::Reached if excused => Seen::Excused,
            Seen::Reached => Seen::Never(Some(why)),
            s => s,
        };
        At { run: false, seen }
    }

    fn one(&mut self, s: &St, at: At, x: Ctx) -> (At, At) {
        let none = At { run: false, seen: Seen::Never(None) };
        match s {
            St::Leaf(k) => {
                let (t, goes_on) = LEAVES[k % LEAVES.len()];
                self.fill(t, at, true);
                (At { run: at.run && goes_on, ..at }, none)
            }
            St::Return(k) => {
                self.fill(["return(@)", "return(f(@))", "return({@})", "return((@))"][k % 4], at, false);
                (self.jump(at, "after a return statement", x.top || !x.known), none)
            }
            St::Stop(f, w) => {
                let name = STOPS[f % STOPS.len()];
                let t = [format!("{name}(@)"), format!("pkg::{name}(@)"), format!("pkg:::{name}('a', @)"), format!("{name}('a', call. = f({{ @ }}))")];
                self.fill(&t[w % 4], at, false);
                let listed = self.stops.contains(&(f % STOPS.len()));
                let mut r = if listed && x.known { self.jump(at, "after a `stop()` statement", false) } else { at };
                r.run = at.run && !listed && f % STOPS.len() >= DEFAULTS;
                (r, none)
            }
            St::Break(call) | St::Next(call) => {
                let (word, why) = if matches!(s, St::Break(_)) { ("break", "after a break statement") } else { ("next", "after a next statement") };
                self.text += word;
                if *call {
                    self.text += "()";
                }
                if !x.in_loop {
                    // An error when it runs
                    return (At { run: false, ..at }, none);
                }
                (if x.known { self.jump(at, why, false) } else { At { run: false, ..at } }, if word == "break" { at } else { none })
            }
            St::If(c, a, b) => {
                self.text += "if (";
                let (run, seen) = self.cond(c, at);
                self.text += ") ";
                let dead = Seen::Never(None);
                let to = |way: bool| At {
                    run: at.run && run != Some(!way),
                    seen: if x.known && seen == Some(!way) && at.seen == Seen::Reached { dead } else { at.seen },
                };
                // An `else` belongs to the closest `if`.
                let mut a = a.clone();
                a.braced |= b.is_some() && !matches!(a.list.first(), Some(St::Leaf(0 | 2) | St::Return(_) | St::Stop(..) | St::Break(_) | St::Next(_)));
                let (r, brk) = self.body(&a, to(true), x);
                match b {
                    Some(b) => {
                        self.text += " else ";
                        let (r2, brk2) = self.body(b, to(false), x);
                        (join(r, r2), join(brk, brk2))
                    }
                    None => {
                        let mut e = join(r, to(false));
                        if x.top && seen == Some(true) && matches!(e.seen, Seen::Never(_)) && at.seen == Seen::Reached {
                            // such code is not looked at outside functions
                            e.seen = Seen::Excused;
                        }
                        (e, brk)
                    }
                }
            }
            St::For(b) => {
                self.text += "for (i in a) ";
                self.body(b, at, Ctx { in_loop: true, ..x });
                (at, none)
            }
            St::While(c, b) => {
                self.text += "while (";
                let (run, _) = self.cond(c, at);
                self.text += ") ";
                let (_, brk) = self.body(b, At { run: at.run && run != Some(false), ..at }, Ctx { in_loop: true, ..x });
                (At { run: at.run && (run != Some(true) || brk.run), ..at }, none)
            }
            St::Repeat(b) => {
                self.text += "repeat ";
                let (_, brk) = self.body(b, at, Ctx { in_loop: true, ..x });
                (At { run: brk.run, ..at }, none)
            }
            St::Braces(l) => {
                self.text += "{\n";
                let (r, brk) = self.list(l, at, Ctx { known: false, ..x });
                self.text += "\n}";
                (At { run: r.run, ..at }, At { run: brk.run, ..at })
            }
            St::Opaque(k, l) => {
                let (a, b) = [("f({\n", "\n})"), ("y <- local({\n", "\n})"), ("suppressWarnings(x, {\n", "\n})"), ("({\n", "\n})")][k % 4];
                self.text += a;
                self.list(l, at, Ctx { known: false, in_loop: false, top: true });
                self.text += b;
                (at, none)
            }
            St::Fun(k, b) => {
                let (a, z) = [("g <- function(a, ...) ", ""), ("lapply(x, function(i) ", ")"), ("\\(a) ", ""), ("h = function() ", ""), ("x$y <- function(a = function() 1) ", ""), ("f(1, \\(b) ", ", 2)"), ("(function() ", ")()")][k % 7];
                self.text += a;
                let inner = At { run: at.run, seen: if matches!(at.seen, Seen::Never(_)) { at.seen } else { Seen::Reached } };
                self.body(b, inner, Ctx { top: false, in_loop: false, known: true });
                self.text += z;
                (at, none)
            }
        }
    }
}

fn look(c: &Case) -> Outcome {
    let names = |l: &Option<Vec<usize>>| l.as_ref().map(|l| l.iter().map(|i| STOPS[i % STOPS.len()].to_string()).collect::<Vec<_>>());
    let o = UnreachableCodeOptions { stopping_functions: names(&c.base), extend_stopping_functions: names(&c.extend) };
    let o = ResolvedUnreachableCodeOptions::resolve(Some(&o));
    if c.base.is_some() && c.extend.is_some() {
        ensure!(o.is_err(), "both-accepted", "both lists of functions were accepted");
        return Ok(Info::trivial().label("both lists"));
    }
    let o = o.map_err(|e| vpkit::Fail::new("options", format!("{e:#}")))?;
    let stops: Vec<usize> = match (&c.base, &c.extend) {
        (Some(b), _) => b.iter().map(|i| i % STOPS.len()).collect(),
        (_, Some(e)) => (0..DEFAULTS).chain(e.iter().map(|i| i % STOPS.len())).collect(),
        _ => (0..DEFAULTS).collect(),
    };
    let mut w = Walk { text: String::new(), ids: vec![], stops: &stops, sep: &c.sep, n: 0, depth: 0 };
    if c.chunk {
        w.text += "Text.\n\n```{r}\n";
    }
    w.list(&c.list, At { run: true, seen: Seen::Reached }, Ctx { top: true, in_loop: false, known: true });
    if c.chunk {
        w.text += "\n```\n";
    }
    let s = Settings { linter: LinterSettings { rule_options: ResolvedRuleOptions { unreachable_code: o, ..Default::default() }, ..Default::default() } };
    let a = jarl_core::config::ArgsConfig { select: "unreachable_code".into(), ..args() };
    let cfg = build_config(&a, Some(&s), vec![]).map_err(|e| vpkit::Fail::new("config", format!("{e:#}")))?;
    let Some(ds) = lint_as(&w.text, if c.chunk { "a.Rmd" } else { "a.R" }, &cfg)? else {
        return Err(vpkit::Fail::new("harness", format!("a syntax error in\n{}", w.text)));
    };
    let mut dead = 0;
    for (i, id) in w.ids.iter().enumerate() {
        let _ = &id.after;
        let by: Vec<_> = ds.iter().filter(|d| d.start <= id.at && id.at < d.end).collect();
        let name = format!("z{}", i + 1);
        ensure!(by.is_empty() || !id.run, "reached-but-reported", "{name} is executed, and reported ({}):\n{}", by[0].body, w.text);
        if let Seen::Never(why) = id.seen
            && id.judged
        {
            dead += 1;
            ensure!(!by.is_empty(), "not-reported", "{name} is never executed, and not reported:\n{}", w.text);
            if let Some(why) = why {
                ensure!(by.iter().any(|d| d.body.contains(why)), "reason", "{name} is {why}, the message is {:?}:\n{}", by[0].body, w.text);
            }
        }
    }
    for (i, d) in ds.iter().enumerate() {
        ensure!(!ds[..i].iter().any(|e| (e.start, e.end) == (d.start, d.end)), "twice", "the same code is reported twice:\n{}", w.text);
    }
    let alive = w.ids.iter().filter(|i| i.run).count();
    Ok(Info::when(dead > 0 && alive > 1).label_if(c.chunk, "chunk").label_if(c.base.is_some() || c.extend.is_some(), "options"))
}

fn cond() -> impl Strategy<Value = Cond> {
    let leaf = prop_oneof![4 => Just(2usize), 3 => 0..2usize, 2 => 0..CONDS.len()].prop_map(Cond::Known);
    leaf.prop_recursive(3, 6, 2, |c| {
        prop_oneof![
            2 => (any::<bool>(), c.clone(), c.clone()).prop_map(|(o, a, b)| Cond::Or(o, Box::new(a), Box::new(b))),
            2 => (any::<bool>(), c.clone(), c.clone()).prop_map(|(o, a, b)| Cond::And(o, Box::new(a), Box::new(b))),
            1 => c.clone().prop_map(|a| Cond::Not(Box::new(a))),
            1 => c.prop_map(|a| Cond::Paren(Box::new(a))),
        ]
    })
}

fn st() -> impl Strategy<Value = St> {
    let leaf = prop_oneof![
        4 => Just(St::Leaf(0)),
        3 => (0..LEAVES.len()).prop_map(St::Leaf),
        2 => (0..4usize).prop_map(St::Return),
        2 => (0..STOPS.len(), 0..4usize).prop_map(|(a, b)| St::Stop(a, b)),
        1 => prop::bool::weighted(0.2).prop_map(St::Break),
        1 => prop::bool::weighted(0.2).prop_map(St::Next),
    ];
    leaf.prop_recursive(5, 40, 4, |s| {
        let body = (any::<bool>(), vec(s.clone(), 0..4)).prop_map(|(braced, list)| Body { braced, list });
        prop_oneof![
            6 => (cond(), body.clone(), option::weighted(0.6, body.clone())).prop_map(|(c, a, b)| St::If(c, a, b)),
            2 => body.clone().prop_map(St::For),
            2 => (cond(), body.clone()).prop_map(|(c, b)| St::While(c, b)),
            2 => body.clone().prop_map(St::Repeat),
            1 => vec(s.clone(), 0..4).prop_map(St::Braces),
            1 => (0..4usize, vec(s.clone(), 0..3)).prop_map(|(k, l)| St::Opaque(k, l)),
            4 => (0..7usize, body).prop_map(|(k, b)| St::Fun(k, b)),
        ]
    })
}

fn case() -> impl Strategy<Value = Case> {
    let names = || option::weighted(0.15, vec(0..STOPS.len(), 0..3));
    (vec(st(), 1..6), names(), names(), vec(0..6u8, 0..8), prop::bool::weighted(0.15)).prop_map(|(list, base, extend, sep, chunk)| Case { list, base, extend, sep, chunk })
}

pub fn c38() -> ExitCode {
    let mut ck = Check::new("C38");
    ck.assume("the parser and the syntax tree are the stand-ins of /verif/standins, which pass all of jarl's own tests; functions listed as stopping do stop, `return`, `stop` etc. are not redefined; that code is reported is only judged in the statements of a function, of branches and of loops (not inside other expressions), and not for what follows `return()` outside functions");
    ck.prop("paths", "files with functions, branches on constant and other conditions, loops, blocks and jumps in any nesting and layout, with and without lists of stopping functions, compared with the statements an execution can get to; non-trivial: some statement is never executed and two are", 300_000, 8_000_000, case, look);
    ck.finish()
}
