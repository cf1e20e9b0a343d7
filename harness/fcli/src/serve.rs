//! C35: the language server answers every request once and survives every message.

use crate::run::{Json, Server, Tree};
use crate::world;
use std::collections::BTreeMap;
use std::process::ExitCode;
use std::time::Duration;
use vpkit::proptest::collection::vec;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;
use vpkit::serde_json::json;
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq};

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Msg {
    Open(usize, usize),
    /// The whole text.
    Change(usize, usize),
    /// A range of the text that may not exist.
    Edit(usize, u32, u32, u32, u32),
    Save(usize),
    Close(usize),
    Actions(usize, u32),
    /// A request with these parameters: method, parameters
    Ask(usize, usize),
    Tell(usize, usize),
    Reply(i32, bool),
    Shutdown,
}
use Msg::*;

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    encodings: Option<Vec<String>>,
    messages: Vec<Msg>,
    strings: bool,
    config: usize,
}

const DOCS: [&str; 4] = ["a.R", "sub/é b.R", "d.Rmd", "none.R"];
const CONFIGS: [&str; 3] = ["", "[lint]\nselect = ['ALL']\n", "[lint\n"];

fn texts() -> &'static [String] {
    static T: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        vec![
            "any(is.na(x))\n".into(),
            "'é😀'; x == NA\nany(is.na(y))\n".into(),
            "x <- 1\n".into(),
            "f(\n".into(),
            String::new(),
            "any(is.na(x))\nany(duplicated(y))\n".repeat(150),
            "```{r}\nany(is.na(x))\n```\n".into(),
            "f <- function(x) {\n  return(1)\n  any(is.na(x))\n}\n".into(),
        ]
    })
}

const ASKED: [&str; 9] = ["textDocument/codeAction", "textDocument/hover", "textDocument/diagnostic", "initialize", "workspace/executeCommand", "", "foo/é", "textDocument/didSave", "codeAction/resolve"];
const TOLD: [&str; 12] = ["textDocument/didOpen", "textDocument/didChange", "textDocument/didSave", "textDocument/didClose", "initialized", "$/cancelRequest", "$/setTrace", "workspace/didChangeConfiguration", "workspace/didChangeWatchedFiles", "", "shutdown", "foo"];

fn params(i: usize) -> Json {
    let uri = "file:///nowhere/a.R";
    [
        Json::Null,
        json!({}),
        json!([]),
        json!(3),
        json!("x"),
        json!({"textDocument": 1}),
        json!({"textDocument": {"uri": "not a uri"}}),
        json!({"textDocument": {"uri": uri}}),
        json!({"textDocument": {"uri": uri}, "range": {"start": {"line": -1, "character": 0}, "end": {"line": 0, "character": 0}}, "context": {"diagnostics": []}}),
        json!({"textDocument": {"uri": uri, "version": 1}, "contentChanges": [{"text": 1}]}),
        json!({"textDocument": {"uri": uri, "version": 99999999999i64, "languageId": "r", "text": ""}}),
        json!({"textDocument": {"uri": "untitled:Untitled-1", "version": 1, "languageId": "r", "text": "any(is.na(x))"}}),
        json!({"id": 1}),
    ][i].clone()
}
const PARAMS: usize = 13;

struct Doc {
    version: i32,
    text: String,
    /// The text is not what the model says.
    unsure: bool,
}

fn send(s: &mut Server, m: Json) -> Result<(), Fail> {
    ensure!(s.send(&m), "gone", "the server does not read {m}");
    Ok(())
}

pub fn start(t: &Tree, encodings: &Option<Vec<String>>) -> Result<(Server, Json), Fail> {
    start_in(t, "", encodings)
}

pub fn start_in(t: &Tree, cwd: &str, encodings: &Option<Vec<String>>) -> Result<(Server, Json), Fail> {
    let mut s = t.server(cwd);
    let caps = match encodings {
        Some(e) => json!({"general": {"positionEncodings": e}}),
        None => json!({}),
    };
    send(&mut s, json!({"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": {"processId": null, "rootUri": null, "capabilities": caps}}))?;
    let Some(r) = s.recv(Duration::from_secs(30)) else {
        return Err(Fail::new("no-initialize", "no answer to initialize"));
    };
    ensure!(r["id"] == 0 && r["result"].is_object(), "no-initialize", "{r}");
    send(&mut s, json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}))?;
    Ok((s, r["result"]["capabilities"].clone()))
}

fn look(c: &Case) -> Outcome {
    let t = Tree::new("c35");
    for d in &DOCS[..3] {
        t.put(d, "x <- 1\n");
    }
    if !CONFIGS[c.config].is_empty() {
        t.put("jarl.toml", CONFIGS[c.config]);
    }
    let uris: Vec<String> = DOCS.iter().map(|d| format!("file://{}", t.root().join(d).to_string_lossy().replace(' ', "%20").replace('é', "%C3%A9"))).collect();
    let (mut s, _) = start(&t, &c.encodings)?;
    let mut docs: BTreeMap<usize, Doc> = BTreeMap::new();
    // What is to be shown in the end: None: we do not know.
    let mut shown: BTreeMap<usize, Option<Option<(i32, String)>>> = BTreeMap::new();
    // The requests: what the answer is to be.
    let mut asked: Vec<(Json, &str, String)> = vec![];
    let mut down = false;
    let mut version = 0;
    let mut versions: BTreeMap<usize, Vec<i32>> = BTreeMap::new();
    for (i, m) in c.messages.iter().enumerate() {
        let id = if c.strings { json!(format!("é{i}")) } else { json!(i + 1) };
        let tell = |method: &str, params: Json| json!({"jsonrpc": "2.0", "method": method, "params": params});
        let mut ask = |method: &str, params: Json, want: &'static str| {
            asked.push((id.clone(), if down { "error" } else { want }, format!("{method} {params}")));
            let mut m = json!({"jsonrpc": "2.0", "id": id, "method": method});
            if !params.is_null() {
                m["params"] = params;
            }
            m
        };
        version += 1;
        if let Open(d, _) | Change(d, _) | Edit(d, ..) = m {
            versions.entry(*d).or_default().push(version);
        }
        let out = match m {
            Open(d, x) => {
                let text = texts()[*x].clone();
                let m = tell("textDocument/didOpen", json!({"textDocument": {"uri": uris[*d], "languageId": "r", "version": version, "text": text}}));
                docs.insert(*d, Doc { version, text, unsure: false });
                m
            }
            Change(d, x) => {
                let text = texts()[*x].clone();
                let lines = docs.get(d).map_or(0, |d| d.text.matches('\n').count());
                let mut change = json!({"text": text});
                // A change without a range replaces the whole text.
                let whole = i % 3 == 0;
                if !whole {
                    change["range"] = json!({"start": {"line": 0, "character": 0}, "end": {"line": lines, "character": 0}});
                }
                let m = tell("textDocument/didChange", json!({"textDocument": {"uri": uris[*d], "version": version}, "contentChanges": [change]}));
                if let Some(d) = docs.get_mut(d) {
                    (d.version, d.text) = (version, text);
                    d.unsure &= !whole;
                }
                m
            }
            Edit(d, a, b, e, f) => {
                if let Some(d) = docs.get_mut(d) {
                    d.unsure = true;
                }
                tell("textDocument/didChange", json!({"textDocument": {"uri": uris[*d], "version": version}, "contentChanges": [{"text": "x", "range": {"start": {"line": a, "character": b}, "end": {"line": e, "character": f}}}]}))
            }
            Save(d) => {
                if let Some(x) = docs.get(d) {
                    shown.insert(*d, if x.unsure || down { None } else { Some(Some((x.version, x.text.clone()))) });
                }
                tell("textDocument/didSave", json!({"textDocument": {"uri": uris[*d]}}))
            }
            Close(d) => {
                if docs.remove(d).is_some() || shown.contains_key(d) {
                    shown.insert(*d, if down { None } else { Some(None) });
                }
                tell("textDocument/didClose", json!({"textDocument": {"uri": uris[*d]}}))
            }
            Actions(d, line) => {
                let want = if docs.contains_key(d) { "list" } else { "error" };
                ask("textDocument/codeAction", json!({"textDocument": {"uri": uris[*d]}, "range": {"start": {"line": line, "character": 0}, "end": {"line": line, "character": 200}}, "context": {"diagnostics": []}}), want)
            }
            Ask(m, p) => ask(ASKED[*m], params(*p), "error"),
            Tell(m, p) => {
                tell(TOLD[*m], params(*p))
            }
            Reply(id, ok) => if *ok { json!({"jsonrpc": "2.0", "id": id, "result": null}) } else { json!({"jsonrpc": "2.0", "id": id, "error": {"code": 1, "message": "é"}}) },
            Shutdown => {
                let m = ask("shutdown", Json::Null, "null");
                down = true;
                m
            }
        };
        send(&mut s, out)?;
    }
    // It is still there; then the end.
    asked.push((json!("last"), "error", "a last request".into()));
    send(&mut s, json!({"jsonrpc": "2.0", "id": "last", "method": "vp/last"}))?;
    let mut got: Vec<Json> = vec![];
    let mut pending = asked.len();
    while pending > 0 {
        let Some(m) = s.recv(Duration::from_secs(20)) else {
            let missing: Vec<_> = asked.iter().filter(|a| !got.iter().any(|g| g["id"] == a.0 && g.get("method").is_none())).map(|a| &a.2).collect();
            return Err(Fail::new("no-answer", format!("no answer to {missing:?}, to {:?}", c.messages)));
        };
        pending -= usize::from(m.get("method").is_none());
        got.push(m);
    }
    if !down {
        asked.push((json!("down"), "null", "shutdown".into()));
        send(&mut s, json!({"jsonrpc": "2.0", "id": "down", "method": "shutdown"}))?;
    }
    send(&mut s, json!({"jsonrpc": "2.0", "method": "exit"}))?;
    s.close();
    let end = s.end(Duration::from_secs(30));
    ensure!(end.is_some(), "no-end", "the server is still running after exit");
    ensure!(end.and_then(|e| e.code()) == Some(0), "bad-end", "{end:?} after shutdown and exit");
    while let Some(m) = s.recv(Duration::from_secs(5)) {
        got.push(m);
    }
    for (id, want, what) in &asked {
        let a: Vec<_> = got.iter().filter(|g| g.get("method").is_none() && g["id"] == *id).collect();
        ensure_eq!(a.len(), 1, if a.is_empty() { "no-answer" } else { "two-answers" }, "answers to {what}: {a:?}");
        let ok = match *want {
            "error" => a[0]["error"]["code"].is_i64() && a[0].get("result").is_none(),
            "list" => a[0]["result"].is_array(),
            _ => a[0].get("error").is_none() && a[0].get("result").is_some_and(Json::is_null),
        };
        ensure!(ok, "answer", "the answer to {what} is {}, not {want}", a[0]);
    }
    let known = got.iter().filter(|g| g.get("method").is_none()).count();
    ensure_eq!(known, asked.len(), "unasked", "answers");
    // An editor ignores what is about a version that it never had.
    for g in got.iter().filter(|g| g["method"] == "textDocument/publishDiagnostics" && !g["params"]["version"].is_null()) {
        if let Some(d) = uris.iter().position(|u| g["params"]["uri"] == *u) {
            let v = &g["params"]["version"];
            ensure!(versions.get(&d).is_some_and(|l| l.iter().any(|x| *v == json!(x))), "unknown-version", "diagnostics of version {v} of {}, which had {:?}", DOCS[d], versions.get(&d));
        }
    }
    // What is shown in the end is what the last save had, or nothing.
    let mut judged = false;
    for (d, want) in &shown {
        let Some(want) = want else { continue };
        let last = got.iter().rev().find(|g| g["method"] == "textDocument/publishDiagnostics" && g["params"]["uri"] == uris[*d]);
        let n = last.map_or(0, |l| l["params"]["diagnostics"].as_array().map_or(0, Vec::len));
        match want {
            None => ensure_eq!(n, 0, "closed", "diagnostics shown for the closed document {}", DOCS[*d]),
            Some((v, text)) => {
                if c.config == 2 {
                    continue;
                }
                let mut a = world::args();
                a.select = if c.config == 1 { "ALL".into() } else { String::new() };
                let wanted = world::lint(DOCS[*d], text, &world::config(&a))?.map_or(0, |l| l.len());
                ensure_eq!(n, wanted, "stale", "diagnostics shown for {} after the last save, of\n{}", DOCS[*d], text.chars().take(300).collect::<String>());
                if n > 0 {
                    ensure_eq!(last.unwrap()["params"]["version"], json!(v), "version", "version of the diagnostics");
                    judged = true;
                }
            }
        }
    }
    Ok(Info::when(asked.len() > 2)
        .label_if(judged, "diagnostics in the end")
        .label_if(shown.values().any(|v| matches!(v, Some(None))), "closed in the end")
        .label_if(down, "requests after shutdown"))
}

fn cases() -> impl Strategy<Value = Case> {
    let d = || prop_oneof![4 => Just(0usize), 2 => 1..3usize, 1 => Just(3)];
    let n = || prop_oneof![4 => 0..4u32, 1 => select(vec![5u32, 100, u32::MAX, u32::MAX - 1, 1 << 31])];
    let x = || prop_oneof![5 => 0..texts().len(), 1 => Just(5usize)];
    let msg = prop_oneof![
        20 => (d(), x()).prop_map(|(d, x)| Open(d, x)),
        20 => (d(), x()).prop_map(|(d, x)| Change(d, x)),
        4 => (d(), n(), n(), n(), n()).prop_map(|(d, a, b, c, e)| Edit(d, a, b, c, e)),
        25 => d().prop_map(Save),
        16 => d().prop_map(Close),
        20 => (d(), n()).prop_map(|(d, l)| Actions(d, l)),
        8 => (0..ASKED.len(), 0..PARAMS).prop_map(|(m, p)| Ask(m, p)),
        8 => (0..PARAMS).prop_map(|p| Ask(0, p)),
        10 => (0..TOLD.len(), 0..PARAMS).prop_map(|(m, p)| Tell(m, p)),
        3 => (-1..5i32, any::<bool>()).prop_map(|(i, ok)| Reply(i, ok)),
        1 => Just(Shutdown),
    ];
    let burst = (d(), x(), x(), any::<bool>()).prop_map(|(d, x, y, close)| {
        let mut v = vec![Open(d, x), Save(d)];
        if close { v.push(Close(d)) } else { v.extend([Change(d, y), Save(d)]) }
        v
    });
    let group = prop_oneof![6 => msg.prop_map(|m| vec![m]), 1 => burst];
    let enc = prop_oneof![Just(None), vec(select(vec!["utf-8", "utf-16", "utf-32", "ebcdic"]), 0..3).prop_map(|v| Some(v.into_iter().map(String::from).collect()))];
    (enc, vec(group, 0..14), any::<bool>(), prop_oneof![6 => Just(0usize), 2 => Just(1), 1 => Just(2)]).prop_map(|(encodings, m, strings, config)| Case {
        encodings,
        messages: m.concat(),
        strings,
        config,
    })
}

pub fn c35() -> ExitCode {
    let mut ck = Check::new("C35");
    ck.assume("messages are well-formed JSON-RPC, and begin with initialize and initialized");
    ck.prop("history", "histories of well-formed and malformed requests, notifications and responses sent to the running server, with bursts of saves, changes and closes of small and large documents: one answer of the right kind to each request, before and after shutdown; what is shown in the end is what the last save had, and nothing for closed documents; the process ends when told to; non-trivial: at least two requests", 3_000, 60_000, cases, look);
    ck.finish()
}
