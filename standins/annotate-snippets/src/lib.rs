//! Stand-in for annotate-snippets: one or more annotations over one source, drawn one after
//! the other, with line numbers, folding, labels and footers in rustc's style.
use std::fmt;
use std::ops::Range;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Level {
    Error,
    Warning,
    Info,
    Note,
    Help,
}
impl Level {
    pub fn title(self, title: &str) -> Message<'_> {
        Message { level: self, id: None, title, snippets: vec![], footers: vec![] }
    }
    pub fn span<'a>(self, span: Range<usize>) -> Annotation<'a> {
        Annotation { level: self, range: span, label: None }
    }
    fn name(self) -> &'static str {
        match self {
            Level::Error => "error",
            Level::Warning => "warning",
            Level::Info => "info",
            Level::Note => "note",
            Level::Help => "help",
        }
    }
    fn mark(self) -> char {
        match self {
            Level::Error => '^',
            _ => '-',
        }
    }
    fn color(self) -> &'static str {
        match self {
            Level::Error => "\x1B[1m\x1B[91m",
            Level::Warning => "\x1B[1m\x1B[33m",
            Level::Info => "\x1B[1m\x1B[94m",
            Level::Note => "\x1B[1m\x1B[92m",
            Level::Help => "\x1B[1m\x1B[96m",
        }
    }
}
#[derive(Debug, Clone)]
pub struct Annotation<'a> {
    level: Level,
    range: Range<usize>,
    label: Option<&'a str>,
}
impl<'a> Annotation<'a> {
    pub fn label(mut self, label: &'a str) -> Self {
        self.label = Some(label);
        self
    }
}
#[derive(Debug, Clone)]
pub struct Snippet<'a> {
    source: &'a str,
    origin: Option<&'a str>,
    line_start: usize,
    fold: bool,
    annotations: Vec<Annotation<'a>>,
}
impl<'a> Snippet<'a> {
    pub fn source(source: &'a str) -> Self {
        Self { source, origin: None, line_start: 1, fold: false, annotations: vec![] }
    }
    pub fn line_start(mut self, n: usize) -> Self {
        self.line_start = n;
        self
    }
    pub fn origin(mut self, origin: &'a str) -> Self {
        self.origin = Some(origin);
        self
    }
    pub fn fold(mut self, fold: bool) -> Self {
        self.fold = fold;
        self
    }
    pub fn annotation(mut self, a: Annotation<'a>) -> Self {
        self.annotations.push(a);
        self
    }
    pub fn annotations(mut self, a: impl IntoIterator<Item = Annotation<'a>>) -> Self {
        self.annotations.extend(a);
        self
    }
}
#[derive(Debug, Clone)]
pub struct Message<'a> {
    level: Level,
    id: Option<&'a str>,
    title: &'a str,
    snippets: Vec<Snippet<'a>>,
    footers: Vec<Message<'a>>,
}
impl<'a> Message<'a> {
    pub fn id(mut self, id: &'a str) -> Self {
        self.id = Some(id);
        self
    }
    pub fn snippet(mut self, s: Snippet<'a>) -> Self {
        self.snippets.push(s);
        self
    }
    pub fn snippets(mut self, s: impl IntoIterator<Item = Snippet<'a>>) -> Self {
        self.snippets.extend(s);
        self
    }
    pub fn footer(mut self, f: Message<'a>) -> Self {
        self.footers.push(f);
        self
    }
    pub fn footers(mut self, f: impl IntoIterator<Item = Message<'a>>) -> Self {
        self.footers.extend(f);
        self
    }
}
#[derive(Debug, Clone, Copy)]
pub struct Renderer {
    color: bool,
}
impl Renderer {
    pub const fn plain() -> Self {
        Self { color: false }
    }
    pub const fn styled() -> Self {
        Self { color: true }
    }
    pub const fn term_width(self, _: usize) -> Self {
        self
    }
    pub fn render<'a>(&'a self, msg: Message<'a>) -> impl fmt::Display + 'a {
        Rendered { color: self.color, msg }
    }
}
struct Rendered<'a> {
    color: bool,
    msg: Message<'a>,
}
/// The text with tabs as four spaces and no control characters that would move the cursor.
fn shown(s: &str) -> String {
    s.trim_end_matches(['\n', '\r']).replace('\t', "    ")
}
fn width(s: &str) -> usize {
    shown(s).chars().count()
}
impl fmt::Display for Rendered<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let (lc, gut, bold, off) = if self.color {
            (self.msg.level.color(), "\x1B[1m\x1B[94m", "\x1B[1m", "\x1B[0m")
        } else {
            ("", "", "", "")
        };
        let mut out: Vec<String> = vec![];
        let id = self.msg.id.map_or(String::new(), |i| format!("[{i}]"));
        out.push(format!("{lc}{}{id}{off}{bold}: {}{off}", self.msg.level.name(), self.msg.title));
        let mut number_width = 1;
        for s in &self.msg.snippets {
            for a in &s.annotations {
                assert!(
                    a.range.start <= a.range.end && a.range.end <= s.source.len() + 1,
                    "SourceAnnotation range `{:?}` is beyond the end of buffer `{}`",
                    (a.range.start, a.range.end),
                    s.source.len()
                );
            }
            let lines: Vec<(usize, &str)> = {
                let mut at = 0;
                let mut v: Vec<(usize, &str)> = s
                    .source
                    .split_inclusive('\n')
                    .map(|l| {
                        at += l.len();
                        (at - l.len(), l)
                    })
                    .collect();
                if v.is_empty() {
                    v.push((0, ""));
                }
                v
            };
            let line_of = |o: usize| lines.iter().rposition(|(b, _)| *b <= o).unwrap_or(0);
            let col_of = |i: usize, o: usize| {
                let (b, l) = lines[i];
                let mut k = o.saturating_sub(b).min(l.len());
                while !l.is_char_boundary(k) {
                    k -= 1;
                }
                &l[..k]
            };
            let last_line = s
                .annotations
                .iter()
                .map(|a| line_of(a.range.end.max(a.range.start + 1) - 1) + s.line_start)
                .max()
                .unwrap_or(if s.fold { s.line_start } else { s.line_start + lines.len() - 1 });
            number_width = number_width.max(last_line.to_string().len());
            let pad = " ".repeat(number_width);
            let first = s.annotations.iter().map(|a| a.range.start).min();
            if let Some(origin) = s.origin {
                let at = first.map_or(String::new(), |o| {
                    let i = line_of(o);
                    format!(":{}:{}", i + s.line_start, col_of(i, o).chars().count() + 1)
                });
                out.push(format!("{pad}{gut}-->{off} {origin}{at}"));
            }
            out.push(format!("{pad} {gut}|{off}"));
            let number = |i: usize| format!("{gut}{:>w$} |{off}", i + s.line_start, w = number_width);
            let line = |i: usize, extra: &str| {
                let text = shown(lines[i].1);
                if text.is_empty() && extra.trim().is_empty() {
                    number(i)
                } else {
                    format!("{} {extra}{text}", number(i)).trim_end().to_string()
                }
            };
            for a in &s.annotations {
                let (m, label) = (a.level.mark(), a.label.unwrap_or(""));
                let lc = if self.color { a.level.color() } else { "" };
                let first = line_of(a.range.start);
                let last = line_of(a.range.end.max(a.range.start + 1) - 1);
                let start = width(col_of(first, a.range.start));
                if first == last {
                    let end = width(col_of(first, a.range.end));
                    let marks = m.to_string().repeat(end.saturating_sub(start).max(1));
                    out.push(line(first, ""));
                    out.push(
                        format!("{pad} {gut}|{off} {}{lc}{marks} {label}{off}", " ".repeat(start))
                            .trim_end()
                            .to_string(),
                    );
                    continue;
                }
                let end = width(col_of(last, a.range.end)).max(1) - 1;
                let blank_before = col_of(first, a.range.start).trim().is_empty();
                if blank_before {
                    out.push(line(first, &format!("{lc}/{off} ")));
                } else {
                    out.push(line(first, "  "));
                    out.push(format!("{pad} {gut}|{off}  {lc}{}{m}{off}", "_".repeat(start + 1)));
                }
                let bar = format!("{lc}|{off} ");
                let inner: Vec<usize> = (first + 1..last).collect();
                if s.fold && inner.len() > 3 {
                    out.push(line(inner[0], &bar));
                    out.push(format!("{gut}...{off}{} {}", " ".repeat(number_width.saturating_sub(1)), bar.trim_end()));
                    out.push(line(inner[inner.len() - 1], &bar));
                } else {
                    out.extend(inner.iter().map(|i| line(*i, &bar)));
                }
                out.push(line(last, &bar));
                out.push(
                    format!("{pad} {gut}|{off} {lc}|{}{m} {label}{off}", "_".repeat(end + 1))
                        .trim_end()
                        .to_string(),
                );
            }
            out.push(format!("{pad} {gut}|{off}"));
        }
        for x in &self.msg.footers {
            let pad = " ".repeat(number_width);
            let lead = format!("{pad} = {}: ", x.level.name());
            for (i, l) in x.title.split('\n').enumerate() {
                if i == 0 {
                    out.push(format!("{pad} {gut}={off} {bold}{}{off}: {l}", x.level.name()));
                } else {
                    out.push(format!("{}{l}", " ".repeat(lead.len())));
                }
            }
        }
        f.write_str(&out.join("\n"))
    }
}
