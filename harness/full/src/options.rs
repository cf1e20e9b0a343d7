//! C41: the options of rules, in jarl.toml and on the command line, mean what is documented.

use crate::lint::{args, config_with, lint_as};
use air_r_parser::{RParserOptions, parse};
use air_r_syntax::{RBinaryExpression, RSyntaxKind, RSyntaxNode};
use biome_rowan::AstNode;
use jarl_core::check::check;
use jarl_core::config::{ArgsConfig, build_config};
use jarl_core::toml::parse_jarl_toml;
use std::collections::BTreeSet;
use std::process::ExitCode;
use vpkit::proptest::collection::vec;
use vpkit::proptest::option;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;
use vpkit::{Check, Fail, Info, Outcome, Scratch, ensure, ensure_eq};

const NAMES: &[&str] = &["c", "mutate", "summarize", "transmute", "list", "browser", "debug", "f", "quote", "expect_error", "suppressWarnings", "cli_text", "data.frame", "my_fun", "expect_snapshot", "Browser"];
const DUPLICATED: &[&str] = &["c", "mutate", "summarize", "transmute"];
const IMPLICIT: &[&str] = &["expect_error", "expect_warning", "expect_message", "expect_snapshot", "quote", "suppressMessages", "suppressWarnings"];
const UNDESIRABLE: &[&str] = &["browser"];
const OPS: &[&str] = &["<-", "<<-", "->", "->>", "="];
const ARGS: &[(&str, &[usize])] = &[
    // the ways of writing a name: bare, in backticks, in either quotes
    ("a", &[0, 0, 0, 1, 2, 3]),
    ("b", &[0, 0, 0, 1, 2, 3]),
    ("ab", &[0, 1, 2, 3]),
    ("A", &[0, 1, 2, 3]),
    ("x.y", &[0, 1, 2, 3]),
    ("a b", &[1, 2, 3]),
    ("a'", &[1, 3]),
    ("'a'", &[1, 3]),
    ("a`", &[2, 3]),
    ("é", &[0, 1, 2, 3]),
];

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Ex {
    Id,
    Num,
    Call { f: usize, ns: u8, args: Vec<(Option<(usize, usize)>, Ex)> },
    Mention(usize),
    Assign(usize, Box<Ex>),
    Paren(Box<Ex>),
    If(Box<Ex>, Box<Ex>, Option<Box<Ex>>),
    While(Box<Ex>, Box<Ex>),
    For(Box<Ex>, Box<Ex>),
    Fun(Vec<Ex>),
    Brace(Vec<Ex>),
    Index(bool, Box<Ex>),
    Bin(Box<Ex>, Box<Ex>),
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Table {
    base: Option<Vec<usize>>,
    extend: Option<Vec<usize>>,
    odd: Option<usize>,
}

/// What no table may have.
const ODD: &[&str] = &["nope = 1", "extend_skipped_functions = ['c']", "skipped-functions = 'c'", "functions = 1", "operators = '='", "extend-functions = [1]", "threshold-ignore = 'a'"];

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    code: Vec<Ex>,
    duplicated: Option<Table>,
    implicit: Option<Table>,
    undesirable: Option<Table>,
    /// the old form or not, the value
    assignment: Option<(bool, Option<String>)>,
    option: Option<String>,
    fix: bool,
}

#[derive(Clone, Debug)]
struct Rules {
    duplicated: BTreeSet<String>,
    implicit: BTreeSet<String>,
    undesirable: BTreeSet<String>,
    equal: bool,
}

#[derive(Clone, Default)]
struct Cx {
    statement: bool,
    arg: bool,
    cond: bool,
    while_: bool,
    for_: bool,
    /// the name of the closest call
    call: Option<String>,
}

struct Write<'a> {
    text: String,
    rules: &'a Rules,
    expected: BTreeSet<(String, usize, String)>,
    ids: usize,
}

impl Write<'_> {
    fn id(&mut self) {
        self.ids += 1;
        self.text += &format!("v{}", self.ids);
    }

    fn want(&mut self, rule: &str, at: usize, what: impl Into<String>) {
        self.expected.insert((rule.to_string(), at, what.into()));
    }

    fn statements(&mut self, l: &[Ex], cx: &Cx) {
        for (i, e) in l.iter().enumerate() {
            if i > 0 {
                self.text.push('\n');
            }
            self.ex(e, &Cx { statement: true, call: cx.call.clone(), ..Cx::default() });
        }
    }

    /// An operand: nothing it could be taken apart at.
    fn operand(&mut self, e: &Ex, cx: &Cx) {
        if matches!(e, Ex::Id | Ex::Num | Ex::Call { .. } | Ex::Mention(_) | Ex::Paren(_) | Ex::Index(..)) {
            self.ex(e, cx);
        } else {
            self.text.push('(');
            self.ex(e, cx);
            self.text.push(')');
        }
    }

    fn ex(&mut self, e: &Ex, cx: &Cx) {
        let inner = Cx { statement: false, ..cx.clone() };
        match e {
            Ex::Id => self.id(),
            Ex::Num => self.text.push('1'),
            Ex::Mention(f) => self.text += NAMES[f % NAMES.len()],
            Ex::Call { f, ns, args } => {
                let at = self.text.len();
                let name = NAMES[f % NAMES.len()];
                self.text += ["", "", "pkg::", "pkg:::"][*ns as usize % 4];
                self.text += name;
                self.text.push('(');
                let cx = Cx { arg: true, call: Some(name.to_string()), ..inner.clone() };
                let mut seen: Vec<(&str, usize)> = vec![];
                for (i, (n, e)) in args.iter().enumerate() {
                    if i > 0 {
                        self.text += ", ";
                    }
                    if let Some((n, q)) = n {
                        let (n, ways) = ARGS[n % ARGS.len()];
                        self.text += &match ways[q % ways.len()] {
                            0 => n.to_string(),
                            1 if !n.contains('`') => format!("`{n}`"),
                            2 if !n.contains('\'') => format!("'{n}'"),
                            _ => format!("\"{n}\""),
                        };
                        self.text += " = ";
                        match seen.iter_mut().find(|s| s.0 == n) {
                            Some(s) => s.1 += 1,
                            None => seen.push((n, 1)),
                        }
                    }
                    self.ex(e, &cx);
                }
                self.text.push(')');
                let twice: Vec<String> = seen.iter().filter(|s| s.1 > 1).map(|s| format!("\"{}\"", s.0)).collect();
                if !twice.is_empty() && !self.rules.duplicated.contains(name) && !name.starts_with("cli_") {
                    self.want("duplicated_arguments", at, format!("Duplicated argument(s): {}.", twice.join(", ")));
                }
                if self.rules.undesirable.contains(name) {
                    self.want("undesirable_function", at, format!("`{name}()`"));
                }
            }
            Ex::Assign(op, v) => {
                let op = OPS[op % OPS.len()];
                // `=` is something else elsewhere
                let op = if op == "=" && !cx.statement { "<-" } else { op };
                let at = self.text.len();
                let mut sign = at;
                if op.starts_with('-') {
                    self.operand(v, &inner);
                    self.text.push(' ');
                    sign = self.text.len();
                    self.text += op;
                    self.text.push(' ');
                    self.id();
                } else {
                    self.id();
                    self.text += &format!(" {op} ");
                    self.ex(v, &inner);
                }
                if op != "=" {
                    let skipped = cx.arg && cx.call.as_ref().is_some_and(|c| self.rules.implicit.contains(c));
                    if !skipped {
                        if cx.cond {
                            self.want("implicit_assignment", at, "`if()`");
                        } else if cx.while_ {
                            self.want("implicit_assignment", at, "`while()`");
                        } else if cx.for_ {
                            self.want("implicit_assignment", at, "`for()`");
                        } else if cx.arg {
                            self.want("implicit_assignment", at, "function calls");
                        }
                    }
                }
                if op == "->" || op == if self.rules.equal { "<-" } else { "=" } {
                    self.want("assignment", sign, if self.rules.equal { "Use `=`" } else { "Use `<-`" });
                }
            }
            Ex::Paren(e) => {
                self.text.push('(');
                self.ex(e, &inner);
                self.text.push(')');
            }
            Ex::If(c, a, b) => {
                self.text += "if (";
                self.ex(c, &Cx { cond: true, ..inner.clone() });
                self.text += ") ";
                let simple = matches!(**a, Ex::Id | Ex::Call { .. } | Ex::Brace(_) | Ex::Paren(_));
                if b.is_some() && !simple {
                    self.ex(&Ex::Brace(vec![(**a).clone()]), &inner);
                } else {
                    self.ex(a, &inner);
                }
                if let Some(b) = b {
                    self.text += " else ";
                    self.ex(b, &inner);
                }
            }
            Ex::While(c, b) => {
                self.text += "while (";
                self.ex(c, &Cx { while_: true, ..inner.clone() });
                self.text += ") ";
                self.ex(b, &inner);
            }
            Ex::For(c, b) => {
                self.text += "for (i in ";
                self.ex(c, &Cx { for_: true, ..inner.clone() });
                self.text += ") ";
                self.ex(b, &inner);
            }
            Ex::Fun(l) => {
                self.text += "function(x) {\n";
                self.statements(l, cx);
                self.text += "\n}";
            }
            Ex::Brace(l) => {
                self.text += "{\n";
                self.statements(l, cx);
                self.text += "\n}";
            }
            Ex::Index(two, e) => {
                self.id();
                self.text += if *two { "[[" } else { "[" };
                self.ex(e, &Cx { arg: true, ..inner });
                self.text += if *two { "]]" } else { "]" };
            }
            Ex::Bin(a, b) => {
                self.operand(a, &inner);
                self.text += " > ";
                self.operand(b, &inner);
            }
        }
    }
}

fn list(l: &[usize]) -> String {
    let l: Vec<String> = l.iter().map(|i| format!("\"{}\"", NAMES[i % NAMES.len()])).collect();
    format!("[{}]", l.join(", "))
}

/// The set to use, None: an error. Writes the table.
fn table(out: &mut String, rule: &str, key: &str, t: &Option<Table>, defaults: &[&str]) -> Option<BTreeSet<String>> {
    let all = |l: &[usize]| l.iter().map(|i| NAMES[i % NAMES.len()].to_string()).collect::<BTreeSet<_>>();
    let d: BTreeSet<String> = defaults.iter().map(|s| s.to_string()).collect();
    let Some(t) = t else { return Some(d) };
    *out += &format!("\n[lint.{rule}]\n");
    if let Some(b) = &t.base {
        *out += &format!("{key} = {}\n", list(b));
    }
    if let Some(e) = &t.extend {
        *out += &format!("extend-{key} = {}\n", list(e));
    }
    if let Some(o) = t.odd {
        // not one that says what this table can have
        let o = if t.base.is_none() && t.extend.is_none() { ODD[o % ODD.len()] } else { ODD[0] };
        *out += o;
        *out += "\n";
        return None;
    }
    match (&t.base, &t.extend) {
        (Some(_), Some(_)) => None,
        (Some(b), None) => Some(all(b)),
        (None, Some(e)) => Some(d.union(&all(e)).cloned().collect()),
        _ => Some(d),
    }
}

/// Places in which an equals sign is no assignment, and names of arguments.
fn signs(root: &RSyntaxNode) -> (usize, usize, usize) {
    let (mut misplaced, mut named, mut assignments) = (0, 0, 0);
    for n in root.descendants() {
        if n.kind() == RSyntaxKind::R_ARGUMENT_NAME_CLAUSE {
            named += 1;
        }
        let Some(op) = RBinaryExpression::cast(n.clone()).and_then(|b| b.operator().ok()) else { continue };
        if matches!(op.kind(), RSyntaxKind::EQUAL | RSyntaxKind::ASSIGN | RSyntaxKind::ASSIGN_RIGHT) {
            assignments += 1;
        }
        if op.kind() != RSyntaxKind::EQUAL {
            continue;
        }
        // Conditions, arguments and operands cannot be written with `=`.
        let p = n.parent().map(|p| (p.kind(), n.index()));
        misplaced += !matches!(
            p,
            Some((
                RSyntaxKind::R_EXPRESSION_LIST
                    | RSyntaxKind::R_PARENTHESIZED_EXPRESSION
                    | RSyntaxKind::R_ELSE_CLAUSE
                    | RSyntaxKind::R_REPEAT_STATEMENT
                    | RSyntaxKind::R_FUNCTION_DEFINITION,
                _
            )) | Some((RSyntaxKind::R_IF_STATEMENT | RSyntaxKind::R_WHILE_STATEMENT, 4))
                | Some((RSyntaxKind::R_FOR_STATEMENT, 6))
                | Some((RSyntaxKind::R_BINARY_EXPRESSION, 2))
        ) as usize;
    }
    (misplaced, named, assignments)
}

fn look(c: &Case) -> Outcome {
    let mut toml = String::from("[lint]\n");
    let mut equal = Some(false);
    let value = |v: &str| match v {
        "<-" => Some(false),
        "=" => Some(true),
        _ => None,
    };
    if let Some((true, v)) = &c.assignment {
        let v = v.as_deref().unwrap_or("<-");
        toml += &format!("assignment = \"{v}\"\n");
        equal = value(v);
    }
    let d = table(&mut toml, "duplicated_arguments", "skipped-functions", &c.duplicated, DUPLICATED);
    let i = table(&mut toml, "implicit_assignment", "skipped-functions", &c.implicit, IMPLICIT);
    let u = table(&mut toml, "undesirable_function", "functions", &c.undesirable, UNDESIRABLE);
    if let Some((false, v)) = &c.assignment {
        toml += "\n[lint.assignment]\n";
        if let Some(v) = v {
            toml += &format!("operator = \"{v}\"\n");
            equal = value(v);
        }
    }
    let dir = Scratch::new("opt");
    let p = dir.path().join("jarl.toml");
    std::fs::write(&p, &toml).unwrap();
    let a = |fix| ArgsConfig {
        select: if fix { "assignment" } else { "duplicated_arguments,implicit_assignment,undesirable_function,assignment" }.into(),
        assignment: c.option.clone(),
        fix,
        ..args()
    };
    let settings = parse_jarl_toml(&p).map_err(|e| e.to_string()).and_then(|t| t.into_settings(dir.path()).map_err(|e| format!("{e:#}")));
    let cli = c.option.as_deref().map(value);
    let (Some(duplicated), Some(implicit), Some(undesirable), Some(mut eq)) = (d, i, u, equal) else {
        ensure!(settings.is_err(), "accepted", "accepted:\n{toml}");
        return Ok(Info::nontrivial().label("refused"));
    };
    let settings = settings.map_err(|e| Fail::new("refused", format!("{e}:\n{toml}")))?;
    let cfg = config_with(a(false), &settings);
    if let Some(o) = cli {
        let Some(o) = o else {
            ensure!(cfg.is_err(), "accepted-option", "--assignment={:?} was accepted", c.option);
            return Ok(Info::nontrivial().label("refused option"));
        };
        eq = o;
    }
    let cfg = cfg.map_err(|e| Fail::new("refused-option", format!("{e:#}")))?;
    let rules = Rules { duplicated, implicit, undesirable, equal: eq };
    let mut w = Write { text: String::new(), rules: &rules, expected: BTreeSet::new(), ids: 0 };
    w.statements(&c.code, &Cx::default());
    w.text.push('\n');
    let Some(ds) = lint_as(&w.text, "a.R", &cfg)? else {
        return Err(Fail::new("harness", format!("a syntax error in\n{}", w.text)));
    };
    let mut left = w.expected.clone();
    for d in &ds {
        let hit = left.iter().find(|(r, at, what)| *r == d.rule && *at == d.start && d.body.contains(what.as_str())).cloned();
        ensure!(hit.is_some(), format!("reported-{}", d.rule), "with\n{toml}\n{} of {:?} ({}) is reported in\n{}", d.rule, &w.text[d.start..d.end], d.body, w.text);
        left.remove(&hit.unwrap());
    }
    if let Some((r, at, what)) = left.iter().next() {
        return Err(Fail::new(format!("missed-{r}"), format!("with\n{toml}\n{r} ({what}) at {:?} is not reported in\n{}", &w.text[*at..], w.text)));
    }
    if c.fix {
        let f = dir.path().join("a.R");
        std::fs::write(&f, &w.text).unwrap();
        let cfg = build_config(&a(true), Some(&settings), vec![f.clone()]).map_err(|e| Fail::new("config", format!("{e:#}")))?;
        let _ = check(cfg);
        let now = std::fs::read_to_string(&f).unwrap();
        let t = parse(&now, RParserOptions::default());
        ensure!(!t.has_error(), "broken", "fixing\n{}leaves\n{now}", w.text);
        let (x, y) = (signs(&parse(&w.text, RParserOptions::default()).syntax()), signs(&t.syntax()));
        ensure_eq!(x, y, "signs", "misplaced equals signs, named arguments and assignments before and after fixing\n{}which leaves\n{now}", w.text);
    }
    let kinds: BTreeSet<&str> = w.expected.iter().map(|e| e.0.as_str()).collect();
    let mut info = Info::when(kinds.len() > 1).label_if(c.option.is_some(), "option").label_if(c.fix, "fix").label_if(rules.equal, "equal");
    for k in kinds {
        info = info.label(k);
    }
    Ok(info)
}

fn ex() -> impl Strategy<Value = Ex> {
    let leaf = prop_oneof![4 => Just(Ex::Id), 2 => Just(Ex::Num), 1 => (0..NAMES.len()).prop_map(Ex::Mention), 1 => (0..NAMES.len()).prop_map(|f| Ex::Call { f, ns: 0, args: vec![] })];
    leaf.prop_recursive(5, 30, 4, |e| {
        let b = || e.clone().prop_map(Box::new);
        let arg = (option::weighted(0.6, (prop_oneof![3 => 0..3usize, 1 => 0..ARGS.len()], 0..6usize)), e.clone());
        prop_oneof![
            8 => (0..NAMES.len(), 0..4u8, vec(arg, 0..5)).prop_map(|(f, ns, args)| Ex::Call { f, ns, args }),
            8 => (0..OPS.len(), b()).prop_map(|(o, e)| Ex::Assign(o, e)),
            1 => b().prop_map(Ex::Paren),
            3 => (b(), b(), option::of(b())).prop_map(|(c, a, e)| Ex::If(c, a, e)),
            1 => (b(), b()).prop_map(|(c, a)| Ex::While(c, a)),
            1 => (b(), b()).prop_map(|(c, a)| Ex::For(c, a)),
            1 => vec(e.clone(), 0..3).prop_map(Ex::Fun),
            1 => vec(e.clone(), 0..3).prop_map(Ex::Brace),
            1 => (any::<bool>(), b()).prop_map(|(t, e)| Ex::Index(t, e)),
            1 => (b(), b()).prop_map(|(x, y)| Ex::Bin(x, y)),
        ]
    })
}

fn case() -> impl Strategy<Value = Case> {
    let names = || option::weighted(0.35, vec(0..NAMES.len(), 0..4));
    let table = move || option::weighted(0.5, (names(), names(), option::weighted(0.04, 0..ODD.len())).prop_map(|(base, extend, odd)| Table { base, extend, odd }));
    let value = || prop_oneof![10 => select(vec!["<-", "="]), 1 => select(vec!["", "<<-", "->", "==", " <-"])].prop_map(String::from);
    (
        vec(ex(), 1..5),
        table(),
        table(),
        table(),
        option::weighted(0.4, (prop::bool::weighted(0.3), option::weighted(0.9, value()))),
        option::weighted(0.2, value()),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(code, duplicated, implicit, undesirable, assignment, option, fix)| Case { code, duplicated, implicit, undesirable, assignment, option, fix })
}

pub fn c41() -> ExitCode {
    let mut ck = Check::new("C41");
    ck.assume("the parser and the syntax tree are the stand-ins of /verif/standins, which pass all of jarl's own tests; methods (`x$f()`) and names in strings as functions are not judged");
    ck.prop("options", "configurations with every option of rules (replacing, extending, both, unknown or of the wrong type), --assignment, and code with calls, repeated arguments and assignments in any nesting: what is reported, where, and with which message, against a model; with fixing, the assignments, arguments and places of `=` afterwards; non-trivial: reports of several rules, or a refusal", 40_000, 1_500_000, case, look);
    ck.finish()
}
