//! Stand-in for clap: the parser behind its derive macros, with help in clap's layout.
pub use clap_derive::{Args, Parser, Subcommand, ValueEnum};
use std::collections::HashMap;

pub mod builder {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct PossibleValue {
        name: String,
        help: Option<String>,
    }
    impl PossibleValue {
        pub fn new(name: impl Into<String>) -> Self {
            Self { name: name.into(), help: None }
        }
        pub fn with(name: &str, help: Option<&str>) -> Self {
            Self { name: name.into(), help: help.map(String::from) }
        }
        pub fn help(mut self, h: impl Into<String>) -> Self {
            self.help = Some(h.into());
            self
        }
        pub fn get_name(&self) -> &str {
            &self.name
        }
        pub fn get_help(&self) -> Option<&str> {
            self.help.as_deref()
        }
    }
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Styles;
    macro_rules! s { ($($n:ident),*) => { impl Styles {
        pub const fn styled() -> Self { Styles }
        pub const fn plain() -> Self { Styles }
        $(pub const fn $n(self, _: styling::Style) -> Self { self })*
    } } }
    s!(header, usage, literal, placeholder, error, valid, invalid);
    pub mod styling {
        #[derive(Clone, Copy, Debug, Default)]
        pub struct Style;
        impl Style {
            pub const fn new() -> Self {
                Style
            }
            pub const fn effects(self, _: Effects) -> Self {
                self
            }
            pub const fn bold(self) -> Self {
                self
            }
        }
        #[derive(Clone, Copy, Debug)]
        pub struct Effects;
        impl Effects {
            pub const BOLD: Effects = Effects;
            pub const UNDERLINE: Effects = Effects;
            pub const ITALIC: Effects = Effects;
            pub const DIMMED: Effects = Effects;
        }
        #[derive(Clone, Copy, Debug)]
        pub enum AnsiColor {
            Black,
            Red,
            Green,
            Yellow,
            Blue,
            Magenta,
            Cyan,
            White,
            BrightRed,
            BrightGreen,
            BrightYellow,
            BrightBlue,
            BrightCyan,
        }
        impl AnsiColor {
            pub const fn on_default(self) -> Style {
                Style
            }
        }
    }
}
use builder::PossibleValue;

pub trait ValueEnum: Sized + Clone {
    fn value_variants<'a>() -> &'a [Self];
    fn to_possible_value(&self) -> Option<PossibleValue>;
    fn from_str(input: &str, ignore_case: bool) -> Result<Self, String> {
        Self::value_variants()
            .iter()
            .find(|v| {
                v.to_possible_value().is_some_and(|p| {
                    p.get_name() == input || ignore_case && p.get_name().eq_ignore_ascii_case(input)
                })
            })
            .cloned()
            .ok_or_else(|| format!("invalid variant: {input}"))
    }
}
/// Which of ValueEnum and FromStr a type is read by.
pub mod infer {
    use super::*;
    pub struct Infer<T>(std::marker::PhantomData<T>);
    impl<T> Default for Infer<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> Infer<T> {
        pub fn new() -> Self {
            Infer(std::marker::PhantomData)
        }
    }
    impl<T: ValueEnum> Infer<T> {
        pub fn show(t: &T) -> String {
            t.to_possible_value().map_or(String::new(), |p| p.get_name().to_string())
        }
    }
    pub trait ByEnum<T> {
        fn parse(&self, s: &str) -> Result<T, String>;
        fn possible(&self) -> Vec<PossibleValue>;
    }
    impl<T: ValueEnum> ByEnum<T> for &Infer<T> {
        fn parse(&self, s: &str) -> Result<T, String> {
            <T as ValueEnum>::from_str(s, false)
        }
        fn possible(&self) -> Vec<PossibleValue> {
            T::value_variants().iter().filter_map(|v| v.to_possible_value()).collect()
        }
    }
    pub trait ByStr<T> {
        fn parse(&self, s: &str) -> Result<T, String>;
        fn possible(&self) -> Vec<PossibleValue>;
    }
    impl<T: std::str::FromStr<Err: std::fmt::Display>> ByStr<T> for Infer<T> {
        fn parse(&self, s: &str) -> Result<T, String> {
            s.parse().map_err(|e: T::Err| e.to_string())
        }
        fn possible(&self) -> Vec<PossibleValue> {
            vec![]
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ValueRange(pub usize, pub usize);
impl From<usize> for ValueRange {
    fn from(n: usize) -> Self {
        Self(n, n)
    }
}
impl From<std::ops::RangeInclusive<usize>> for ValueRange {
    fn from(r: std::ops::RangeInclusive<usize>) -> Self {
        Self(*r.start(), *r.end())
    }
}
impl From<std::ops::RangeFrom<usize>> for ValueRange {
    fn from(r: std::ops::RangeFrom<usize>) -> Self {
        Self(r.start, usize::MAX)
    }
}
impl From<std::ops::Range<usize>> for ValueRange {
    fn from(r: std::ops::Range<usize>) -> Self {
        Self(r.start, r.end - 1)
    }
}

#[derive(Clone)]
pub struct ArgDef {
    pub id: String,
    pub long: Option<String>,
    pub short: Option<char>,
    pub help: Option<String>,
    pub default: Option<String>,
    pub missing: Option<String>,
    pub value_name: String,
    pub num_args: Option<ValueRange>,
    pub require_equals: bool,
    pub global: bool,
    pub hide: bool,
    pub required: bool,
    pub kind: &'static str,
    pub heading: Option<String>,
    pub possible: Vec<PossibleValue>,
    pub check: fn(&str) -> Result<(), String>,
}
impl ArgDef {
    fn positional(&self) -> bool {
        self.long.is_none() && self.short.is_none()
    }
    fn optional_value(&self) -> bool {
        self.num_args.is_some_and(|n| n.0 == 0)
    }
    /// As it stands in usage and in errors.
    fn shown(&self) -> String {
        if self.positional() {
            let n = format!("<{}>", self.value_name);
            return if self.kind == "vec" { format!("{n}...") } else { n };
        }
        let name = self.long.as_ref().map_or_else(|| format!("-{}", self.short.unwrap()), |l| format!("--{l}"));
        if self.kind == "flag" {
            return name;
        }
        let v = format!("<{}>", self.value_name);
        match (self.require_equals, self.optional_value()) {
            (true, true) => format!("{name}[={v}]"),
            (true, false) => format!("{name}={v}"),
            (false, true) => format!("{name} [{v}]"),
            (false, false) => format!("{name} {v}"),
        }
    }
}
#[derive(Clone, Default)]
pub struct Command {
    pub name: String,
    pub about: Option<String>,
    pub after_help: Option<String>,
    pub version: Option<String>,
    pub required_else_help: bool,
    pub subcommand_required: bool,
    args: Vec<ArgDef>,
    subs: Vec<Command>,
}
#[derive(Debug, Default, Clone)]
pub struct ArgMatches {
    values: HashMap<String, Vec<String>>,
    pub sub: Option<(String, Box<ArgMatches>)>,
}
impl ArgMatches {
    pub fn flag(&self, id: &str) -> bool {
        self.values(id).first().is_some_and(|v| v == "true")
    }
    pub fn values(&self, id: &str) -> &[String] {
        self.values.get(id).map_or(&[], |v| v)
    }
}
#[derive(Debug)]
pub struct Error {
    text: String,
    code: i32,
}
impl Error {
    pub fn exit_code(&self) -> i32 {
        self.code
    }
    pub fn exit(&self) -> ! {
        use std::io::Write;
        if self.code == 0 {
            let _ = std::io::stdout().write_all(self.text.as_bytes());
        } else {
            let _ = std::io::stderr().write_all(self.text.as_bytes());
        }
        std::process::exit(self.code)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.text)
    }
}
impl std::error::Error for Error {}

impl Command {
    pub fn new(name: &str) -> Self {
        Self { name: name.into(), ..Self::default() }
    }
    pub fn arg(&mut self, a: ArgDef) {
        self.args.push(a);
    }
    pub fn subcommand(&mut self, c: Command) {
        self.subs.push(c);
    }
    fn usage(&self, path: &str) -> String {
        let mut u = format!("Usage: {path} [OPTIONS]");
        for a in self.args.iter().filter(|a| a.positional()) {
            u.push_str(&if a.required { format!(" {}", a.shown()) } else { format!(" [{}]{}", a.value_name, if a.kind == "vec" { "..." } else { "" }) });
        }
        if !self.subs.is_empty() {
            u.push_str(if self.subcommand_required { " <COMMAND>" } else { " [COMMAND]" });
        }
        u
    }
    fn err(&self, path: &str, text: String) -> Error {
        Error { text: format!("error: {text}\n\n{}\n\nFor more information, try '--help'.\n", self.usage(path)), code: 2 }
    }
    fn long_differs(&self) -> bool {
        self.args.iter().any(|a| a.possible.iter().any(|p| p.get_help().is_some()))
    }
    fn help(&self, path: &str, long: bool) -> String {
        let mut out = String::new();
        let long = long && self.long_differs();
        if let Some(a) = &self.about {
            out.push_str(&format!("{a}\n\n"));
        }
        out.push_str(&self.usage(path));
        out.push('\n');
        if !self.subs.is_empty() {
            let mut rows: Vec<(String, String)> =
                self.subs.iter().map(|c| (c.name.clone(), c.about.clone().unwrap_or_default())).collect();
            rows.push(("help".into(), "Print this message or the help of the given subcommand(s)".into()));
            out.push_str(&section("Commands", &rows, false));
        }
        let row = |a: &ArgDef| {
            let left = if a.positional() {
                a.shown()
            } else {
                let s = a.shown();
                match a.short {
                    Some(c) if a.long.is_some() => format!("-{c}, {s}"),
                    Some(_) => s,
                    None => format!("    {s}"),
                }
            };
            let mut right = a.help.clone().unwrap_or_default();
            let default = a.default.clone().filter(|_| a.kind != "flag").map(|d| format!("[default: {d}]"));
            if long {
                let mut blocks = vec![];
                if !a.possible.is_empty() {
                    let w = a.possible.iter().map(|p| p.get_name().len()).max().unwrap_or(0) + 1;
                    let v: Vec<String> = a
                        .possible
                        .iter()
                        .map(|p| match p.get_help() {
                            Some(h) => format!("- {:w$} {h}", format!("{}:", p.get_name())),
                            None => format!("- {}", p.get_name()),
                        })
                        .collect();
                    blocks.push(format!("Possible values:\n{}", v.join("\n")));
                }
                blocks.extend(default);
                for b in blocks {
                    right.push_str("\n\n");
                    right.push_str(&b);
                }
            } else {
                for x in default.into_iter().chain((!a.possible.is_empty()).then(|| {
                    let v: Vec<&str> = a.possible.iter().map(|p| p.get_name()).collect();
                    format!("[possible values: {}]", v.join(", "))
                })) {
                    right.push(' ');
                    right.push_str(&x);
                }
            }
            (left, right)
        };
        let pos: Vec<_> = self.args.iter().filter(|a| a.positional() && !a.hide).map(row).collect();
        if !pos.is_empty() {
            out.push_str(&section("Arguments", &pos, long));
        }
        let mut opts: Vec<_> = self
            .args
            .iter()
            .filter(|a| !a.positional() && !a.hide && a.heading.is_none())
            .map(row)
            .collect();
        let h = match (self.long_differs(), long) {
            (false, _) => "Print help",
            (true, true) => "Print help (see a summary with '-h')",
            (true, false) => "Print help (see more with '--help')",
        };
        opts.push(("-h, --help".into(), h.into()));
        if self.version.is_some() {
            opts.push(("-V, --version".into(), "Print version".into()));
        }
        out.push_str(&section("Options", &opts, long));
        let mut heads: Vec<&String> = vec![];
        for a in &self.args {
            if let Some(h) = &a.heading
                && !heads.contains(&h)
            {
                heads.push(h);
            }
        }
        for h in heads {
            let rows: Vec<_> =
                self.args.iter().filter(|a| a.heading.as_ref() == Some(h) && !a.hide).map(row).collect();
            out.push_str(&section(h, &rows, long));
        }
        if let Some(a) = &self.after_help {
            out.push_str(&format!("\n{a}\n"));
        }
        out
    }
    /// The arguments of `self` with the global ones of its parents.
    fn parse(&self, path: &str, args: &[String]) -> Result<ArgMatches, Error> {
        let mut m = ArgMatches::default();
        let pos: Vec<&ArgDef> = self.args.iter().filter(|a| a.positional()).collect();
        let mut at = 0;
        let mut only_pos = false;
        if args.is_empty() && self.required_else_help {
            return Err(Error { text: self.help(path, false), code: 2 });
        }
        let mut i = 0;
        let set = |m: &mut ArgMatches, a: &ArgDef, v: String, how: &str| -> Result<(), Error> {
            if let Err(e) = (a.check)(&v) {
                let text = if a.possible.is_empty() {
                    if v.is_empty() && false { String::new() } else { format!("invalid value '{v}' for '{}': {e}", a.shown()) }
                } else {
                    let p: Vec<&str> = a.possible.iter().map(|p| p.get_name()).collect();
                    format!("invalid value '{v}' for '{}'\n  [possible values: {}]", a.shown(), p.join(", "))
                };
                return Err(Error { text: format!("error: {text}\n\nFor more information, try '--help'.\n"), code: 2 });
            }
            let slot = m.values.entry(a.id.clone()).or_default();
            if !slot.is_empty() && a.kind != "vec" && how == "given" {
                return Err(self.err(path, format!("the argument '{}' cannot be used multiple times", a.shown())));
            }
            slot.push(v);
            Ok(())
        };
        while i < args.len() {
            let arg = &args[i];
            i += 1;
            if only_pos || arg == "-" || !arg.starts_with('-') {
                if !only_pos && at == 0 && !self.subs.is_empty() {
                    if arg == "help" {
                        let (c, p) = match args.get(i).and_then(|n| self.subs.iter().find(|c| &c.name == n)) {
                            Some(c) => (c, format!("{path} {}", c.name)),
                            None if i < args.len() => {
                                return Err(self.err(path, format!("unrecognized subcommand '{}'", args[i])));
                            }
                            None => (self, path.to_string()),
                        };
                        return Err(Error { text: c.help(&p, true), code: 0 });
                    }
                    let Some(c) = self.subs.iter().find(|c| &c.name == arg) else {
                        return Err(self.err(path, format!("unrecognized subcommand '{arg}'")));
                    };
                    let mut c = c.clone();
                    c.args.extend(self.args.iter().filter(|a| a.global).cloned());
                    let mut sub = c.parse(&format!("{path} {}", c.name), &args[i..])?;
                    for a in self.args.iter().filter(|a| a.global) {
                        if let Some(v) = sub.values.remove(&a.id) {
                            m.values.insert(a.id.clone(), v);
                        }
                    }
                    m.sub = Some((c.name.clone(), Box::new(sub)));
                    break;
                }
                let Some(a) = pos.get(at) else {
                    return Err(self.err(path, format!("unexpected argument '{arg}' found")));
                };
                set(&mut m, a, arg.clone(), "given")?;
                if a.kind != "vec" {
                    at += 1;
                }
                continue;
            }
            if arg == "--" {
                only_pos = true;
                continue;
            }
            let mut queue: Vec<(Option<&ArgDef>, String, Option<String>)> = vec![];
            if let Some(l) = arg.strip_prefix("--") {
                let (n, v) = match l.split_once('=') {
                    Some((n, v)) => (n, Some(v.to_string())),
                    None => (l, None),
                };
                if n == "help" {
                    return Err(Error { text: self.help(path, true), code: 0 });
                }
                if n == "version" && self.version.is_some() {
                    return Err(self.show_version());
                }
                queue.push((self.args.iter().find(|a| a.long.as_deref() == Some(n)), format!("--{n}"), v));
            } else {
                let mut rest = arg[1..].to_string();
                while let Some(c) = rest.chars().next() {
                    rest.remove(0);
                    if c == 'h' {
                        return Err(Error { text: self.help(path, false), code: 0 });
                    }
                    if c == 'V' && self.version.is_some() {
                        return Err(self.show_version());
                    }
                    let a = self.args.iter().find(|a| a.short == Some(c));
                    let mut v = None;
                    if a.is_some_and(|a| a.kind != "flag") && !rest.is_empty() {
                        v = Some(rest.strip_prefix('=').unwrap_or(&rest).to_string());
                        rest.clear();
                    }
                    queue.push((a, format!("-{c}"), v));
                }
            }
            for (a, shown, v) in queue {
                let Some(a) = a else {
                    return Err(self.err(path, format!("unexpected argument '{shown}' found")));
                };
                if a.kind == "flag" {
                    if let Some(v) = v {
                        return Err(self.err(path, format!("unexpected value '{v}' for '{shown}' found; no more were expected")));
                    }
                    if m.values.contains_key(&a.id) {
                        return Err(self.err(path, format!("the argument '{shown}' cannot be used multiple times")));
                    }
                    m.values.insert(a.id.clone(), vec!["true".into()]);
                    continue;
                }
                let v = match v {
                    Some(v) => v,
                    None if a.require_equals || a.optional_value() => match &a.missing {
                        Some(d) => d.clone(),
                        None => return Err(self.err(path, format!("equal sign is needed when assigning values to '{}'", a.shown()))),
                    },
                    None => match args.get(i) {
                        Some(n) if !n.starts_with('-') || n == "-" => {
                            i += 1;
                            n.clone()
                        }
                        _ => {
                            return Err(self.err(path, format!("a value is required for '{}' but none was supplied", a.shown())));
                        }
                    },
                };
                set(&mut m, a, v, "given")?;
            }
        }
        let missing: Vec<String> = self
            .args
            .iter()
            .filter(|a| a.required && !m.values.contains_key(&a.id))
            .map(|a| format!("\n  {}", a.shown()))
            .collect();
        if !missing.is_empty() {
            return Err(self.err(path, format!("the following required arguments were not provided:{}", missing.concat())));
        }
        if self.subcommand_required && m.sub.is_none() {
            return Err(Error { text: self.help(path, false), code: 2 });
        }
        for a in &self.args {
            if let Some(d) = &a.default
                && !m.values.contains_key(&a.id)
            {
                m.values.insert(a.id.clone(), vec![d.clone()]);
            }
        }
        Ok(m)
    }
    fn show_version(&self) -> Error {
        Error { text: format!("{} {}\n", self.name, self.version.as_deref().unwrap_or("")), code: 0 }
    }
}
fn section(title: &str, rows: &[(String, String)], long: bool) -> String {
    let mut out = format!("\n{title}:\n");
    let w = rows.iter().map(|r| r.0.chars().count()).max().unwrap_or(0);
    for (i, (l, r)) in rows.iter().enumerate() {
        if long {
            if i > 0 {
                out.push('\n');
            }
            out.push_str(&format!("  {l}\n"));
            for x in r.split('\n') {
                out.push_str(&format!("          {x}\n"));
            }
        } else {
            for (k, x) in r.split('\n').enumerate() {
                let left = if k == 0 { l.as_str() } else { "" };
                let pad = " ".repeat(w - left.chars().count());
                out.push_str(&format!("  {left}{pad}  {x}\n"));
            }
        }
    }
    out
}

pub trait Args: Sized {
    fn add(cmd: &mut Command);
    fn from(m: &ArgMatches) -> Self;
}
pub trait Subcommand: Sized {
    fn add(cmd: &mut Command);
    fn from(name: &str, m: &ArgMatches) -> Self;
}
pub trait CommandFactory: Sized {
    fn describe(cmd: &mut Command);
    fn command() -> Command {
        let mut c = Command::new("");
        Self::describe(&mut c);
        c
    }
}
pub trait Parser: Args + CommandFactory {
    fn parse() -> Self {
        match Self::try_parse_from(std::env::args_os()) {
            Ok(s) => s,
            Err(e) => e.exit(),
        }
    }
    fn try_parse() -> Result<Self, Error> {
        Self::try_parse_from(std::env::args_os())
    }
    fn parse_from<I: IntoIterator<Item: Into<std::ffi::OsString>>>(args: I) -> Self {
        match Self::try_parse_from(args) {
            Ok(s) => s,
            Err(e) => e.exit(),
        }
    }
    fn try_parse_from<I: IntoIterator<Item: Into<std::ffi::OsString>>>(args: I) -> Result<Self, Error> {
        let c = Self::command();
        let args: Vec<String> = args
            .into_iter()
            .map(|a| a.into().into_string().map_err(|_| Error { text: "error: invalid UTF-8 was detected in one or more arguments\n".into(), code: 2 }))
            .collect::<Result<_, _>>()?;
        let name = c.name.clone();
        let m = c.parse(&name, args.get(1..).unwrap_or(&[]))?;
        Ok(<Self as Args>::from(&m))
    }
}
