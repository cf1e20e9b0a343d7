//! C34: what the editor shows, and what its actions do, against the command line.

use crate::run::{Server, Tree};
use crate::silence::{piece, shape, split};
use crate::{serve, world};
use jarl_core::rule_set::Rule;
use std::collections::{BTreeMap, BTreeSet};
use std::process::ExitCode;
use std::time::{Duration, Instant};
use vpkit::proptest::collection::{btree_map, vec};
use vpkit::proptest::option;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::{select, subsequence};
use vpkit::serde_json::{Value as Json, json};
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq};

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Step {
    /// which of the files
    file: usize,
    /// what it is changed to, if it is
    text: Option<Vec<String>>,
    /// which of the actions are tried
    tried: Vec<usize>,
    /// where a cursor is put
    cursor: (usize, usize),
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    files: BTreeMap<String, Vec<String>>,
    crlf: bool,
    /// of the chunks of documents
    indent: String,
    /// configuration and so on
    others: BTreeMap<String, String>,
    user: Option<String>,
    /// where the server is started
    cwd: String,
    encodings: Option<Vec<String>>,
    steps: Vec<Step>,
}

fn text(name: &str, pieces: &[String], c: &Case) -> String {
    let crlf = c.crlf;
    let mut t = if world::is_doc(name) { world::doc(pieces) } else { pieces.concat() };
    if world::is_doc(name) && !c.indent.is_empty() {
        // Chunks in a list.
        let (mut inside, mut x) = (false, String::new());
        for l in t.lines() {
            let fence = l.starts_with("```");
            if fence || inside {
                x += &c.indent;
            }
            inside ^= fence;
            x += l;
            x += "\n";
        }
        t = x.replace("\n\nText.\n", "\n\n* Text.\n");
    }
    if crlf { t.replace("\r\n", "\n").replace('\n', "\r\n") } else { t }
}

fn uri(t: &Tree, name: &str) -> String {
    let p = t.root().join(name);
    let mut s = "file://".to_string();
    for b in p.to_string_lossy().bytes() {
        if b.is_ascii_alphanumeric() || b"/-._~".contains(&b) { s.push(b as char) } else { s += &format!("%{b:02X}") }
    }
    s
}

/// Lines end with \n, characters are counted in units of the encoding.
fn position(text: &str, at: usize, enc: &str) -> (u64, u64) {
    let before = &text[..at];
    let from = before.rfind('\n').map_or(0, |i| i + 1);
    let s = &before[from..];
    let n = match enc {
        "utf-8" => s.len(),
        "utf-32" => s.chars().count(),
        _ => s.encode_utf16().count(),
    };
    (before.matches('\n').count() as u64, n as u64)
}

fn offset(text: &str, p: &Json, enc: &str) -> Option<usize> {
    let (line, character) = (p["line"].as_u64()?, p["character"].as_u64()?);
    let mut from = 0;
    for _ in 0..line {
        from += text[from..].find('\n')? + 1;
    }
    let mut n = 0;
    for c in text[from..].chars() {
        if n == character || c == '\n' {
            break;
        }
        n += match enc {
            "utf-8" => c.len_utf8(),
            "utf-32" => 1,
            _ => c.len_utf16(),
        } as u64;
        from += c.len_utf8();
    }
    (n == character).then_some(from)
}

/// What the command line says about a violation.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct V {
    rule: String,
    message: String,
    at: (usize, usize),
    /// None: nothing to do automatically
    fix: Option<(usize, usize, String)>,
}

/// By file. Started where the server is, because some messages name files.
fn command_line(t: &Tree, c: &Case) -> Result<BTreeMap<String, Vec<V>>, Fail> {
    let mut out = BTreeMap::new();
    one(t, &c.cwd, "", &mut out)?;
    // What the configuration of a folder above does not matter below another one.
    if c.others.contains_key("sub/jarl.toml") {
        out.retain(|n: &String, _| !n.starts_with("sub/"));
        one(t, &c.cwd, "sub", &mut out)?;
    }
    Ok(out)
}

fn one(t: &Tree, cwd: &str, what: &str, out: &mut BTreeMap<String, Vec<V>>) -> Result<(), Fail> {
    let root = t.root();
    let all = root.join(what).to_string_lossy().trim_end_matches('/').to_string();
    let o = t.jarl(cwd, &["check", &all, "--output-format=json"])?;
    if !o.stdout.starts_with('{') {
        return Err(Fail::new("command-line", o.show()));
    }
    let v: Json = vpkit::serde_json::from_str(&o.stdout).map_err(|e| Fail::new("json", format!("{e}: {}", o.show())))?;
    for d in v["diagnostics"].as_array().into_iter().flatten() {
        let f = root.join(cwd).join(d["filename"].as_str().unwrap_or("?"));
        let f = f.strip_prefix(&root).unwrap_or(&f).to_string_lossy().into_owned();
        let s = |k: &str| d["message"][k].as_str().unwrap_or("").to_string();
        let n = |x: &Json| x.as_u64().unwrap_or(0) as usize;
        let (fs, fe, fc) = (n(&d["fix"]["start"]), n(&d["fix"]["end"]), d["fix"]["content"].as_str().unwrap_or("").to_string());
        let some = d["fix"]["to_skip"] == false && (fs != fe || !fc.is_empty());
        let message = if d["message"]["suggestion"].is_string() { format!("{} {}", s("body"), s("suggestion")) } else { s("body") };
        out.entry(f).or_default().push(V { rule: s("name"), message, at: (n(&d["range"][0]), n(&d["range"][1])), fix: some.then_some((fs, fe, fc)) });
    }
    Ok(())
}

struct Session<'a> {
    t: &'a Tree,
    s: Server,
    enc: String,
    version: i64,
    next: i64,
    /// shown about functions that are not used
    notices: Vec<String>,
    /// shown about the configuration
    used: Vec<String>,
}

impl Session<'_> {
    fn tell(&mut self, method: &str, params: Json) -> Result<(), Fail> {
        ensure!(self.s.send(&json!({"jsonrpc": "2.0", "method": method, "params": params})), "gone", "the server does not read {method}");
        Ok(())
    }
    fn recv(&mut self, want: impl Fn(&Json) -> bool, what: &str) -> Result<Json, Fail> {
        let start = Instant::now();
        while start.elapsed() < Duration::from_secs(60) {
            match self.s.recv(Duration::from_secs(60)) {
                Some(m) if want(&m) => return Ok(m),
                Some(m) => {
                    let text = m["params"]["message"].as_str().unwrap_or("");
                    if m["method"] == "window/showMessage" && text.contains("`unused_function`") {
                        self.notices.push(text.to_string());
                    } else if m["method"] == "window/showMessage" && text.contains("onfiguration") {
                        self.used.push(text.to_string());
                    }
                }
                None => break,
            }
        }
        Err(Fail::new("no-answer", format!("no answer to {what}")))
    }
    fn open(&mut self, name: &str, text: &str) -> Result<(), Fail> {
        self.version += 1;
        let p = json!({"textDocument": {"uri": uri(self.t, name), "languageId": "r", "version": self.version, "text": text}});
        self.tell("textDocument/didOpen", p)
    }
    fn change(&mut self, name: &str, text: &str) -> Result<(), Fail> {
        self.version += 1;
        let p = json!({"textDocument": {"uri": uri(self.t, name), "version": self.version}, "contentChanges": [{"text": text}]});
        self.tell("textDocument/didChange", p)
    }
    /// The diagnostics published for what was saved.
    fn save(&mut self, name: &str, text: &str) -> Result<Vec<Json>, Fail> {
        self.t.put(name, text);
        self.change(name, text)?;
        self.tell("textDocument/didSave", json!({"textDocument": {"uri": uri(self.t, name)}}))?;
        let v = self.version;
        let m = self.recv(|m| m["method"] == "textDocument/publishDiagnostics" && m["params"]["version"] == v, "didSave")?;
        Ok(m["params"]["diagnostics"].as_array().cloned().unwrap_or_default())
    }
    fn actions(&mut self, name: &str, range: Json) -> Result<Vec<Json>, Fail> {
        self.next += 1;
        let id = self.next;
        let m = json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/codeAction", "params": {"textDocument": {"uri": uri(self.t, name)}, "range": range, "context": {"diagnostics": []}}});
        ensure!(self.s.send(&m), "gone", "the server does not read codeAction");
        let r = self.recv(|m| m["id"] == id && m.get("method").is_none(), "codeAction")?;
        ensure!(r["result"].is_array() || r["result"].is_null(), "no-actions", "{r}");
        Ok(r["result"].as_array().cloned().unwrap_or_default())
    }
}

fn key(d: &Json) -> (Vec<u64>, String, String) {
    let r = &d["range"];
    let n = |x: &Json| x.as_u64().unwrap_or(u64::MAX);
    let at = vec![n(&r["start"]["line"]), n(&r["start"]["character"]), n(&r["end"]["line"]), n(&r["end"]["character"])];
    (at, d["data"]["rule_name"].as_str().unwrap_or("?").to_string(), d["message"].as_str().unwrap_or("?").to_string())
}

fn want(v: &V, text: &str, enc: &str) -> (Vec<u64>, String, String) {
    let (a, b) = (position(text, v.at.0, enc), position(text, v.at.1, enc));
    (vec![a.0, a.1, b.0, b.1], v.rule.clone(), v.message.clone())
}

fn kind(a: &Json) -> &str {
    let t = a["title"].as_str().unwrap_or("");
    if t.starts_with("Fix") {
        "fix"
    } else if t.starts_with("Suppress") {
        "suppress"
    } else if t.starts_with("Ignore all") {
        "chunk"
    } else {
        "?"
    }
}

/// The edit of an action, which is one of this file: start, end, new text.
fn edit(a: &Json, uri: &str, text: &str, enc: &str) -> Result<(usize, usize, String), Fail> {
    let c = a["edit"]["changes"].as_object();
    let e = c.filter(|c| c.len() == 1).and_then(|c| c.iter().next());
    let Some((u, e)) = e else {
        return Err(Fail::new("edit", format!("{a}")));
    };
    let plain = |s: &str| s.replace("%2C", ",").replace("%3A", ":").replace("%27", "'").replace("%5B", "[").replace("%5D", "]").to_lowercase();
    ensure!(plain(u) == plain(uri) && e.as_array().is_some_and(|e| e.len() == 1), "edit", "{a}\n{uri}");
    let r = &e[0]["range"];
    match (offset(text, &r["start"], enc), offset(text, &r["end"], enc), e[0]["newText"].as_str()) {
        (Some(s), Some(e), Some(n)) if s <= e => Ok((s, e, n.to_string())),
        _ => Err(Fail::new("edit-position", format!("{} in\n{text}", e[0]))),
    }
}

fn applied(text: &str, e: &(usize, usize, String)) -> String {
    format!("{}{}{}", &text[..e.0], e.2, &text[e.1..])
}

/// The actions are those for these violations.
fn compare(vs: &[V], actions: &[Json], name: &str, text: &str, enc: &str, uri: &str, unsaved: bool) -> Result<(), Fail> {
    let w = if unsaved { "-unsaved" } else { "" };
    let mut by: BTreeMap<(Vec<u64>, String, String), BTreeMap<&str, Vec<&Json>>> = BTreeMap::new();
    for a in actions {
        let d = a["diagnostics"].as_array().filter(|d| d.len() == 1);
        let Some(d) = d else {
            return Err(Fail::new("action-without-diagnostic", format!("{a}")));
        };
        by.entry(key(&d[0])).or_default().entry(kind(a)).or_default().push(a);
    }
    let known: BTreeSet<_> = vs.iter().map(|v| want(v, text, enc)).collect();
    if let Some(k) = by.keys().find(|k| !known.contains(*k)) {
        return Err(Fail::new(format!("action-for-nothing{w}"), format!("{k:?} in {name}\n{text}\nwhere the command line says {known:?}")));
    }
    for v in vs {
        let k = want(v, text, enc);
        let same = vs.iter().filter(|x| want(x, text, enc) == k).count();
        let none = BTreeMap::new();
        let here = by.get(&k).unwrap_or(&none);
        let n = |x: &str| here.get(x).map_or(0, Vec::len);
        ensure_eq!(n("?"), 0, "unknown-action", "actions of unknown kind for {k:?}: {here:?}");
        if same == 1 {
            ensure_eq!(n("fix"), v.fix.is_some() as usize, format!("fix-offered{w}"), "fixes offered for {v:?} in\n{text}");
        }
        for a in here.get("fix").into_iter().flatten() {
            let e = edit(a, uri, text, enc)?;
            if same == 1 && let Some((s, x, c)) = &v.fix {
                ensure!((&e.0, &e.1, &e.2) == (s, x, c), format!("fix-edit{w}"), "{e:?} instead of {:?} in\n{text}", v.fix);
            }
            let safe = Rule::from_name(&v.rule).is_some_and(|r| r.has_safe_fix());
            ensure!((a["kind"] == "quickfix") == safe && (a["isPreferred"] == true) == safe, "fix-kind", "{a}");
        }
        // Not for what is said about comments.
        if !v.rule.ends_with("_suppression") {
            let chunk = world::is_doc(name) as usize;
            ensure_eq!(n("chunk"), chunk * same, format!("chunk-offered{w}"), "actions to ignore the rule in the chunk for {v:?} in\n{text}");
            // Not for a range of statements (a known finding of C33).
            if !of_statements(v, text) {
                ensure_eq!(n("suppress"), same, format!("suppress-offered{w}"), "actions to suppress {v:?} in\n{text}");
            }
        }
    }
    Ok(())
}

fn of_statements(v: &V, text: &str) -> bool {
    v.rule == "unreachable_code" && text[v.at.0..v.at.1].contains('\n')
}

fn shapes(name: &str, t: &str) -> Option<Vec<Vec<String>>> {
    split(name, t).0.iter().map(|p| shape(p).map(|s| s.tree)).collect()
}

fn look(c: &Case) -> Outcome {
    let t = Tree::new("c34");
    for (n, x) in &c.others {
        t.put(n, x);
    }
    let texts: BTreeMap<String, String> = c.files.iter().map(|(n, p)| (n.clone(), text(n, p, c))).collect();
    for (n, x) in &texts {
        t.put(n, x);
    }
    if let Some(u) = &c.user {
        t.put_at(&t.home().join(".config/jarl/jarl.toml"), u);
    }
    if !c.cwd.is_empty() {
        t.mkdir(&c.cwd);
    }
    let cli = match command_line(&t, c) {
        Ok(c) => c,
        Err(f) if f.sig == "command-line" => return Ok(Info::trivial().label("refused")),
        Err(f) => return Err(f),
    };
    let (s, caps) = serve::start_in(&t, &c.cwd, &c.encodings)?;
    let enc = caps["positionEncoding"].as_str().unwrap_or("utf-16").to_string();
    let mut e = Session { t: &t, s, enc, version: 0, next: 1000, notices: vec![], used: vec![] };
    let enc = e.enc.clone();
    let none = vec![];
    let mut shown = 0;
    let check = |name: &str, text: &str, got: &[Json], cli: &BTreeMap<String, Vec<V>>| -> Result<usize, Fail> {
        let vs = cli.get(name).unwrap_or(&none);
        let mut w: Vec<_> = vs.iter().map(|v| want(v, text, &enc)).collect();
        let mut g: Vec<_> = got.iter().map(key).collect();
        w.sort();
        g.sort();
        let differ = |k: &Vec<(Vec<u64>, String, String)>, o: &Vec<(Vec<u64>, String, String)>| k.iter().find(|x| k.iter().filter(|y| y == x).count() > o.iter().filter(|y| y == x).count()).cloned();
        if let Some(m) = differ(&w, &g) {
            let sig = if g.is_empty() { "missing-all".into() } else { format!("missing-{}", m.1) };
            return Err(Fail::new(sig, format!("the editor does not show {m:?} of {name} ({enc}), but {g:?}\n{text}")));
        }
        if let Some(m) = differ(&g, &w) {
            let sig = if w.is_empty() { "extra-all".into() } else { format!("extra-{}", m.1) };
            return Err(Fail::new(sig, format!("only the editor shows {m:?} of {name} ({enc}); the command line says {w:?}\n{text}")));
        }
        for d in got {
            ensure!(d["severity"] == 2 && d["source"] == "Jarl", "diagnostic", "{d}");
        }
        Ok(g.len())
    };
    for (n, x) in &texts {
        e.open(n, x)?;
        let got = e.save(n, x)?;
        shown += check(n, x, &got, &cli)?;
    }
    let mut texts = texts;
    let mut cli = cli;
    let (mut fixes, mut suppressed, mut chunks) = (0, 0, 0);
    for s in &c.steps {
        if texts.is_empty() {
            break;
        }
        let name = texts.keys().nth(s.file % texts.len()).unwrap().clone();
        let u = uri(&t, &name);
        let all = json!({"start": {"line": 0, "character": 0}, "end": {"line": 100000, "character": 0}});
        if let Some(p) = &s.text {
            // Changed, looked at, and then saved.
            let x = text(&name, p, c);
            e.change(&name, &x)?;
            let actions = e.actions(&name, all.clone())?;
            let got = e.save(&name, &x)?;
            cli = command_line(&t, c)?;
            shown += check(&name, &x, &got, &cli)?;
            compare(cli.get(&name).unwrap_or(&none), &actions, &name, &x, &enc, &u, true)?;
            texts.insert(name.clone(), x);
        }
        let x = texts[&name].clone();
        let actions = e.actions(&name, all.clone())?;
        let vs = cli.get(&name).unwrap_or(&none).clone();
        compare(&vs, &actions, &name, &x, &enc, &u, false)?;
        fixes += actions.iter().filter(|a| kind(a) == "fix").count();
        // With a cursor: what is there, and nothing that is somewhere else.
        let at: Vec<usize> = x.char_indices().map(|c| c.0).chain([x.len()]).collect();
        let (a, b) = (at[s.cursor.0 % at.len()], at[s.cursor.1 % at.len()]);
        let (a, b) = if s.cursor.1 % 2 == 0 { (a, a) } else { (a.min(b), a.max(b)) };
        if !x[..b].ends_with('\r') && !x[..a].ends_with('\r') {
            let (pa, pb) = (position(&x, a, &enc), position(&x, b, &enc));
            let some = e.actions(&name, json!({"start": {"line": pa.0, "character": pa.1}, "end": {"line": pb.0, "character": pb.1}}))?;
            let inside: Vec<V> = vs.iter().filter(|v| v.at.0 <= b && a <= v.at.1).cloned().collect();
            compare(&inside, &some, &name, &x, &enc, &u, false).map_err(|f| Fail::new(format!("cursor-{}", f.sig), format!("at {a}..{b}: {}", f.msg)))?;
        }
        // What the actions that suppress do.
        let silent: Vec<&Json> = actions.iter().filter(|a| kind(a) != "fix").collect();
        for i in &s.tried {
            if silent.is_empty() {
                break;
            }
            let a = silent[i % silent.len()];
            let ed = edit(a, &u, &x, &enc)?;
            let k = key(&a["diagnostics"][0]);
            let v = vs.iter().find(|v| want(v, &x, &enc) == k).unwrap();
            ensure!(ed.0 == ed.1 && ed.2.matches(&v.rule).count() == 1 && ed.2.contains("jarl-ignore"), "suppress-edit", "{ed:?} for {v:?}");
            let y = applied(&x, &ed);
            ensure!(shapes(&name, &x) == shapes(&name, &y), "suppress-code-changed", "{}: the code of\n{x}\nchanged:\n{y}", kind(a));
            // The same text where the comment means nothing.
            let z = applied(&x, &(ed.0, ed.1, ed.2.replace("jarl-ignore", "jarl-ignorr")));
            let with = e.save(&name, &y)?;
            let without = e.save(&name, &z)?;
            let mut left: Vec<_> = with.iter().map(key).collect();
            let mut gone = vec![];
            for d in without.iter().map(key) {
                match left.iter().position(|l| *l == d) {
                    Some(i) => drop(left.remove(i)),
                    None => gone.push(d),
                }
            }
            let moved = |o: usize| if o >= ed.0 { o + ed.2.len() } else { o };
            let m = want(&V { at: (moved(v.at.0), moved(v.at.1)), ..v.clone() }, &y, &enc);
            let comments = |k: &&(Vec<u64>, String, String)| k.1.ends_with("_suppression");
            let what = format!("{} {v:?} of\n{x}\nwith the comment\n{y}", kind(a));
            // Comments for the same rule in what is now silent may become redundant.
            let (l0, l1) = (position(&y, ed.0, &enc).0, position(&y, ed.0 + ed.2.len(), &enc).0);
            if let Some(l) = left.iter().find(|l| !comments(l) || (l.1 == "outdated_suppression" && l0 <= l.0[0] && l.0[0] <= l1)) {
                return Err(Fail::new(format!("{}-adds-{}", kind(a), l.1), format!("{l:?}: {what}")));
            }
            if let Some(g) = gone.iter().find(|g| g.1 != v.rule && !comments(g)) {
                return Err(Fail::new(format!("{}-hides-{}", kind(a), g.1), format!("{g:?}: {what}")));
            }
            // In some rules the layout matters.
            if without.iter().map(key).any(|k| (&k.0, &k.1) == (&m.0, &m.1)) {
                ensure!(gone.iter().any(|g| (&g.0, &g.1) == (&m.0, &m.1)), format!("{}-without-effect", kind(a)), "{what}");
                if kind(a) == "chunk" {
                    // All of the chunk.
                    let mut from = 0;
                    for p in split(&name, &y).0 {
                        let at = from + y[from..].find(&p).unwrap_or(0);
                        from = at + p.len();
                        if at <= ed.0 && ed.0 < from {
                            let (l0, l1) = (position(&y, at, &enc).0, position(&y, from, &enc).0);
                            ensure!(!with.iter().map(key).any(|k| k.1 == v.rule && l0 <= k.0[0] && k.0[0] < l1), "chunk-not-all", "{what}");
                        }
                    }
                    chunks += 1;
                } else {
                    suppressed += 1;
                }
            }
        }
        if !s.tried.is_empty() {
            e.save(&name, &x)?;
        }
    }
    Ok(Info::when(shown > 0 && (fixes > 0 || suppressed > 0))
        .label_if(fixes > 0, "fix")
        .label_if(suppressed > 0, "suppressed")
        .label_if(chunks > 0, "chunk")
        .label_if(enc == "utf-8", "utf-8")
        .label_if(enc == "utf-16", "utf-16")
        .label_if(c.others.contains_key("DESCRIPTION"), "package")
        .label_if(!c.others.is_empty(), "configuration"))
}

fn toml() -> BoxedStrategy<String> {
    let patterns = || vec(select(vec!["a.R", "*.R", "sub/", "sub", "/a.R", "sub/c.R", "sub/**", "*.Rmd", "R/", "R/b.R", "b.*", "**/c.R", "/sub", "renv/", "t?.R", "sub/*.R", "[ab].R", "w", "tests/"]), 0..3);
    let rules = select(vec![
        vec![], vec![], vec!["select = ['ALL']"], vec!["select = ['any_is_na', 'equals_na', 'true_false_symbol']"], vec!["extend-select = ['ALL']"], vec!["ignore = ['any_is_na']"], vec!["assignment = '='"], vec!["fixable = ['PERF']"],
        vec!["unfixable = ['any_is_na']"], vec!["select = ['unused_function', 'any_is_na']"],
    ]);
    let p = |k: &'static str| option::weighted(0.3, patterns()).prop_map(move |v| v.map_or(String::new(), |v| format!("{k} = {v:?}\n")));
    (rules, p("exclude"), option::weighted(0.15, patterns()), option::weighted(0.3, any::<bool>()), prop::bool::weighted(0.03))
        .prop_map(|(r, x, i, d, bad)| {
            let mut t = "[lint]\n".to_string();
            for r in r {
                t += r;
                t += "\n";
            }
            t += &x;
            if let Some(i) = i {
                t += &format!("include = {i:?}\n");
            }
            if let Some(d) = d {
                t += &format!("default-exclude = {d}\n");
            }
            if bad { t + "nope = 1\n" } else { t }
        })
        .boxed()
}

fn steps() -> BoxedStrategy<Vec<Step>> {
    let pieces = vec(prop_oneof![3 => piece(), 1 => world::code(true), 1 => world::broken()], 1..3);
    vec(
        (any::<u8>(), option::weighted(0.4, pieces), vec(0..100usize, 0..3), (0..1000usize, 0..1000usize)).prop_map(|(file, text, tried, cursor)| Step { file: file as usize, text, tried, cursor }),
        0..3,
    )
    .boxed()
}

fn encodings() -> BoxedStrategy<Option<Vec<String>>> {
    select(vec![None, Some(vec!["utf-8"]), Some(vec!["utf-16"]), Some(vec!["utf-32"]), Some(vec!["utf-32", "utf-8"]), Some(vec!["utf-32", "utf-16"]), Some(vec!["utf-8", "utf-16"]), Some(vec![])]).prop_map(|e| e.map(|e| e.into_iter().map(String::from).collect())).boxed()
}

/// Violations up to the end of the file, after characters of several sizes.
fn wide() -> BoxedStrategy<String> {
    let before = select(vec!["'😀'; ", "'😀é日'; ", "f('𝒳', 1); ", "'é'; ", "x$`😀`; "]);
    let what = select(vec!["T", "x == NA", "any(is.na(x))", "any(is.na('😀'))", "f(T)", "length(levels(x))"]);
    (before, what, select(vec!["", "", "", " ", "\n"])).prop_map(|(b, w, e)| format!("{b}{w}{e}")).boxed()
}

fn project() -> impl Strategy<Value = Case> {
    let names = select(vec!["a.R", "b.r", "sub/c.R", "sub/deep/e.R", "sub dir/d.R", "é日.R", "x,y.R", "p%41.R", "q:r.R", "odd[1].R", "doc.Rmd", "sub/doc.qmd", "renv/f.R", "cpp11.R", "sub/RcppExports.R", "import-standalone-a.R"]);
    let files = btree_map(names.prop_map(String::from), vec(prop_oneof![12 => piece(), 6 => world::code(true), 2 => world::broken(), 1 => wide()], 1..3), 1..4);
    let configs = (option::weighted(0.5, toml()), option::weighted(0.2, toml()), option::weighted(0.15, toml()));
    let version = option::weighted(0.2, select(vec!["Package: a\nDepends: R (>= 4.5.0)\n", "Package: a\nDepends: R (>= 3.4)\n", "Package: a\n"]));
    (files, (prop::bool::weighted(0.1), select(vec!["", "", "  ", "\t", "    "])), configs, version, select(vec!["", "", "sub", "other"]), encodings(), steps()).prop_map(|(files, crlf, (root, sub, user), version, cwd, encodings, steps)| {
        let mut others = BTreeMap::new();
        for (n, x) in [("jarl.toml", root), ("sub/jarl.toml", sub)] {
            if let Some(x) = x {
                others.insert(n.to_string(), x);
            }
        }
        if let Some(x) = version {
            others.insert("DESCRIPTION".to_string(), x.to_string());
        }
        // Without configuration, the folder of the project is where the server is started.
        let cwd = if others.contains_key("jarl.toml") { cwd } else { "" };
        Case { files, crlf: crlf.0, indent: crlf.1.to_string(), others, user, cwd: cwd.to_string(), encodings, steps }
    })
}

/// Packages with functions that are used or not, and defined once or more.
fn package() -> impl Strategy<Value = Case> {
    let item = || select(vec!["f1 <- function() 1\n", "f2 <- function(x) {\n  x == NA\n}\n", "f1 = function() any(is.na(x))\n", "f3 <- function() f1()\n", "f2()\n", "'é'; f4 <- function() 2\n", "f5 <- function() {\n  f5()\n}\n", "x <- T\n", "test_that('a', { f1() })\n", "# jarl-ignore unused_function: kept\nf6 <- function() 1\n", "1 +\n"]).prop_map(String::from);
    let names = select(vec!["R/a.R", "R/b.R", "R/c.r", "tests/testthat/test-a.R", "tests/testthat/helper.R", "inst/tinytest/t.R", "data-raw/d.R", "v.Rmd"]);
    let files = btree_map(names.prop_map(String::from), vec(item(), 1..4), 1..5);
    let threshold = option::weighted(0.3, (0..4u32, prop::bool::weighted(0.3)));
    let exports = subsequence(vec!["f1", "f2", "f3"], 0..=2);
    let steps = vec((any::<u8>(), option::weighted(0.6, vec(item(), 1..4)), vec(0..100usize, 0..2), (0..1000usize, 0..1000usize)).prop_map(|(file, text, tried, cursor)| Step { file: file as usize, text, tried, cursor }), 0..3);
    (files, (threshold, prop::bool::weighted(0.6)), exports, select(vec!["", "R", "other"]), encodings(), steps, select(vec!["", "Depends: R (>= 4.5.0)\n"]), option::weighted(0.2, select(vec!["exclude = ['R/b.R']\n", "exclude = ['tests/']\n", "include = ['R/']\n"]))).prop_map(|(files, (threshold, all), exports, cwd, encodings, steps, version, selection)| {
        let mut others = BTreeMap::new();
        others.insert("DESCRIPTION".to_string(), format!("Package: a\n{version}"));
        others.insert("NAMESPACE".to_string(), exports.iter().map(|e| format!("export({e})\n")).collect());
        let mut t = "[lint]\n".to_string();
        if all && threshold.is_none() {
            t += "select = ['ALL']\n";
        }
        if let Some(s) = selection {
            t += s;
        }
        if let Some((n, chosen)) = threshold {
            t += if chosen { "extend-select = ['unused_function']\n" } else { "select = ['ALL']\n" };
            t += &format!("[lint.unused_function]\nthreshold-ignore = {n}\n");
        }
        others.insert("jarl.toml".to_string(), t);
        Case { files, crlf: false, indent: String::new(), others, user: None, cwd: cwd.to_string(), encodings, steps }
    })
}

/// A package and how many of its unused functions are too many.
#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Many {
    /// of each file: functions by number, called somewhere or not, ignored by a comment or not
    files: Vec<Vec<(u8, bool, bool)>>,
    threshold: Option<u8>,
    /// how the configuration selects rules
    selection: usize,
    /// is one of the files excluded?
    excluded: bool,
}

/// What is selected, and whether the rule is, and by its name.
const SELECTIONS: &[(&str, bool, bool)] = &[
    ("", false, false),
    ("extend-select = ['any_is_na', 'unused_function']\n", true, true),
    ("select = ['ALL']\n", true, false),
    ("select = ['unused_function', 'coalesce']\n", true, true),
    ("select = ['CORR']\nextend-select = ['any_is_na']\n", true, false),
    ("extend-select = ['CORR']\n", true, false),
    ("select = ['ALL']\nignore = ['any_is_na']\n", true, false),
    ("select = ['CORR', 'PERF']\nextend-select = ['unused_function']\n", true, true),
    ("select = ['coalesce']\nextend-select = ['any_is_na', 'unused_function']\nignore = ['any_is_na']\n", true, true),
    ("select = ['any_is_na']\nextend-select = ['CORR']\n", true, false),
];

fn too_many(c: &Many) -> Outcome {
    let t = Tree::new("c34m");
    t.put("DESCRIPTION", "Package: a\n");
    t.put("NAMESPACE", "export(nothing)\n");
    let mut toml = format!("[lint]\n{}", SELECTIONS[c.selection].0);
    if c.excluded {
        toml += "exclude = ['R/f0.R']\n";
    }
    let n = c.threshold.map_or(50, |n| n as usize);
    if c.threshold.is_some() {
        toml += &format!("[lint.unused_function]\nthreshold-ignore = {n}\n");
    }
    t.put("jarl.toml", &toml);
    let (mut shown, mut left_out) = (vec![], 0);
    let mut texts = vec![];
    for (i, f) in c.files.iter().enumerate() {
        let (mut x, mut mine) = (String::new(), vec![]);
        for (j, (_, used, ignored)) in f.iter().enumerate() {
            let name = format!("g{i}_{j}");
            if *used {
                x += &format!("{name} <- function() 1\n{name}()\n");
                continue;
            }
            if *ignored {
                x += "# jarl-ignore unused_function: kept\n";
            }
            if *ignored || c.excluded && i == 0 {
                left_out += 1;
            } else {
                mine.push(name.clone());
            }
            x += &format!("{name} <- function() 1\n");
        }
        let name = format!("R/f{i}.R");
        t.put(&name, &x);
        texts.push((name, x));
        shown.push(mine);
    }
    let count: usize = shown.iter().map(Vec::len).sum();
    let (_, on, chosen) = SELECTIONS[c.selection];
    let hidden = on && !chosen && count > n;
    // The command line.
    let mut cli = BTreeMap::new();
    one(&t, "", "", &mut cli)?;
    let names = |got: Vec<(String, String)>| -> Vec<String> { got.into_iter().filter(|(r, _)| r == "unused_function").map(|(_, m)| m.split('`').nth(1).unwrap_or("?").to_string()).collect() };
    let mut e: Option<Session> = None;
    for ((name, x), mine) in texts.iter().zip(&shown) {
        let mut want: Vec<String> = if hidden || !on { vec![] } else { mine.clone() };
        want.sort();
        let mut got = names(cli.remove(name).unwrap_or_default().into_iter().map(|v| (v.rule, v.message)).collect());
        got.sort();
        ensure_eq!(got, want, "too-many-command-line", "unused functions that jarl check shows in {name}, of {count} and with the threshold {n}; {c:?}");
        if e.is_none() {
            let (s, caps) = serve::start_in(&t, "", &None)?;
            e = Some(Session { t: &t, s, enc: caps["positionEncoding"].as_str().unwrap_or("utf-16").to_string(), version: 0, next: 1000, notices: vec![], used: vec![] });
        }
        let s = e.as_mut().unwrap();
        s.open(name, x)?;
        let mut got = names(s.save(name, x)?.iter().map(key).map(|k| (k.1, k.2)).collect());
        got.sort();
        ensure_eq!(got, want, "too-many-editor", "unused functions that the editor shows in {name}, of {count} (and {left_out} ignored or excluded) and with the threshold {n}; {c:?}");
    }
    if let Some(s) = &e {
        ensure_eq!(s.notices.len(), hidden as usize, "too-many-notice", "notices that {count} functions are not shown, with the threshold {n}: {:?}", s.notices);
        for x in &s.notices {
            ensure!(x.split(' ').next() == Some(&*count.to_string()), "too-many-notice", "{x} where {count} are hidden");
        }
    }
    Ok(Info::when(on && count > 0 && c.threshold.is_some()).label(if hidden { "hidden" } else { "shown" }).label_if(chosen, "chosen").label_if(left_out > 0, "some ignored"))
}

fn many() -> impl Strategy<Value = Many> {
    let f = (any::<u8>(), prop::bool::weighted(0.3), prop::bool::weighted(0.04));
    let few = (vec(vec(f.clone(), 1..4), 1..4), option::weighted(0.9, 0..7u8));
    // About as many as the default.
    let lots = (vec(vec((any::<u8>(), prop::bool::weighted(0.05), Just(false)), 24..29), 2..3), Just(None));
    (prop_oneof![9 => few, 1 => lots], 0..SELECTIONS.len(), prop::bool::weighted(0.1)).prop_map(|((files, threshold), selection, excluded)| Many { files, threshold, selection, excluded })
}

/// Documents opened one after the other in a workspace with configurations, valid or not.
#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Opened {
    /// by folder: hidden file or not, valid or not
    configs: BTreeMap<String, (bool, bool)>,
    user: Option<bool>,
    cwd: String,
    documents: Vec<String>,
}

const FOLDERS: [&str; 4] = ["", "sub", "sub/deep", "other"];

fn opened(c: &Opened) -> Outcome {
    let t = Tree::new("c34o");
    let text = |valid: bool| if valid { "[lint]\nignore = ['browser']\n" } else { "[lint]\nignored = 1\n" };
    let file = |d: &str| {
        let (hidden, _) = c.configs[d];
        format!("{d}{}{}jarl.toml", if d.is_empty() { "" } else { "/" }, if hidden { "." } else { "" })
    };
    for d in FOLDERS {
        t.mkdir(d);
    }
    // Another name of a folder.
    std::os::unix::fs::symlink(t.root().join("sub"), t.root().join("link")).map_err(|e| Fail::new("symlink", e.to_string()))?;
    for (d, (_, valid)) in &c.configs {
        t.put(&file(d), text(*valid));
    }
    let user = t.home().join(".config/jarl/jarl.toml");
    if let Some(valid) = c.user {
        t.put_at(&user, text(valid));
    }
    let (s, caps) = serve::start_in(&t, &c.cwd, &None)?;
    let mut e = Session { t: &t, s, enc: caps["positionEncoding"].as_str().unwrap_or("utf-16").to_string(), version: 0, next: 1000, notices: vec![], used: vec![] };
    let (mut want, mut own) = (vec![], 0);
    for (i, name) in c.documents.iter().enumerate() {
        let real = name.replacen("link", "sub", 1);
        let within = |d: &str| d.is_empty() || real.starts_with(&format!("{d}/"));
        let nearest = c.configs.keys().filter(|d| within(d)).max_by_key(|d| d.len());
        let (path, valid) = match nearest {
            // The folder that the server runs in needs no mention.
            Some(d) if *d == c.cwd => {
                own += 1;
                (None, true)
            }
            Some(d) => {
                // As the editor calls it.
                let p = file(d);
                let p = if name.starts_with("link") && d.starts_with("sub") { p.replacen("sub", "link", 1) } else { p };
                (Some(t.root().join(p)), c.configs[d].1)
            }
            None => (c.user.is_some().then(|| user.clone()), c.user.unwrap_or(true)),
        };
        if want.is_empty() && valid && let Some(p) = path {
            want.push(format!("Jarl uses the configuration from '{}'", p.display()));
        }
        e.open(name, "x\n")?;
        e.actions(name, json!({"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}))?;
        ensure_eq!(e.used, want, "used-configuration", "shown after the first {} of {:?} were opened, with the server in {:?} and the configurations {:?}", i + 1, c.documents, c.cwd, c.configs);
    }
    Ok(Info::when(c.documents.len() > 1 && (!c.configs.is_empty() || c.user.is_some())).label(if want.is_empty() { "nothing said" } else { "said" }).label_if(own > 0, "own configuration").label_if(c.configs.values().any(|x| !x.1), "invalid"))
}

fn openings() -> impl Strategy<Value = Opened> {
    let config = option::weighted(0.4, (prop::bool::weighted(0.2), prop::bool::weighted(0.85)));
    let configs = vec(config, FOLDERS.len()).prop_map(|l| FOLDERS.iter().zip(l).filter_map(|(d, x)| Some((d.to_string(), x?))).collect());
    let documents = vec((select(vec!["", "sub/", "sub/deep/", "other/", "link/", "link/deep/", "none/"]), select(vec!["a.R", "b.R", "c.qmd"])).prop_map(|(d, n)| format!("{d}{n}")), 1..5);
    (configs, option::weighted(0.3, prop::bool::weighted(0.85)), select(FOLDERS.to_vec()), documents).prop_map(|(configs, user, cwd, documents)| Opened { configs, user, cwd: cwd.into(), documents })
}

pub fn c34() -> ExitCode {
    let mut ck = Check::new("C34");
    ck.assume("the parser, tree, comment attachment and pattern matching are the stand-ins of /verif/standins, which pass all of jarl's own tests");
    ck.prop("project", "folders of R files and documents with configurations (rules, patterns, folders, the user's), a server started in or outside of them with any negotiated encoding: what is published on save against `jarl check` of the folder, the actions offered (for all of a document and at a cursor, also for changes not saved yet) against the fixes of the command line, and what the suppressing actions do; non-trivial: something is shown and has a fix or was suppressed", 2_500, 60_000, project, look);
    ck.prop("package", "R packages with functions used or not and defined several times, in several files and in tests, exported or not, with thresholds, excluded files and unsaved changes, compared in the same way", 1_500, 40_000, package, look);
    ck.prop("too-many", "packages with unused functions, a few more or less than the threshold (given or not), with `unused_function` selected by name or not: all or none shown by the command line and by the editor, and the one notice of the editor with their number; non-trivial: there are some, and a threshold", 700, 20_000, many, too_many);
    ck.prop("opened", "documents opened one after the other, also by another name of their folder, with configurations here and there, some invalid, and the server started in one of the folders: one message with the first configuration that is used and isn't in the folder of the server; non-trivial: several documents and a configuration", 600, 20_000, openings, opened);
    ck.finish()
}
