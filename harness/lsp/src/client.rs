use crossbeam::channel::{self, Receiver};
use jarl_lsp::client::{Client, ToLspError, error_codes};
use lsp_server::{ErrorCode, Message, RequestId, Response, ResponseError};
use lsp_types::{self as types, notification as n, request as r};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::process::ExitCode;
use std::time::{Duration, Instant};
use vpkit::proptest::prelude::*;
use vpkit::serde::{Deserialize, Serialize};
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq};

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Id {
    Int(i32),
    Str(String),
}

impl Id {
    fn real(&self) -> RequestId {
        match self {
            Id::Int(i) => RequestId::from(*i),
            Id::Str(s) => RequestId::from(s.clone()),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Answer {
    Null,
    Object,
    Error(i32, String),
    /// an error and a result, which the protocol forbids
    Both(i32, String),
    /// neither
    Nothing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Op {
    Notify(u8, String),
    Request(u8, String),
    Publish(u8, Vec<(u32, u32, String)>, Option<i32>),
    Show(String, u8),
    Log(String, u8),
    Notice(usize),
    Respond(Id, Payload),
    RespondError(Id, i32, String, Option<Payload>),
    /// the client answers: the k-th request ever sent (again, if it was already answered)
    AnswerKnown(u16, Answer),
    AnswerUnknown(Id, Answer),
    Cleanup(bool),
    /// some time passes
    Pause,
    /// a clean-up of what was sent before the k-th pause
    CleanupPaused(u8),
    /// that many requests
    Burst(u16),
    CloneClient,
    /// continue on the k-th clone
    Switch(u8),
}

/// serde_json::Value is not what proptest shrinks well; this is.
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "vpkit::serde")]
enum Payload {
    Null,
    Bool(bool),
    Int(i64),
    Text(String),
    List(Vec<Payload>),
    Map(Vec<(String, Payload)>),
}

impl Payload {
    fn json(&self) -> Value {
        match self {
            Payload::Null => Value::Null,
            Payload::Bool(b) => json!(b),
            Payload::Int(i) => json!(i),
            Payload::Text(s) => json!(s),
            Payload::List(v) => Value::Array(v.iter().map(|p| p.json()).collect()),
            Payload::Map(v) => Value::Object(v.iter().map(|(k, p)| (k.clone(), p.json())).collect()),
        }
    }
}

fn word() -> impl Strategy<Value = String> + Clone {
    prop_oneof![6 => "[ -~é\n]{0,12}", 1 => any::<String>(), 1 => Just("🌍\u{0}\"\\".to_string())]
}

fn payload() -> impl Strategy<Value = Payload> {
    let leaf = prop_oneof![
        Just(Payload::Null),
        any::<bool>().prop_map(Payload::Bool),
        any::<i64>().prop_map(Payload::Int),
        word().prop_map(Payload::Text),
    ];
    leaf.prop_recursive(3, 12, 4, |p| {
        prop_oneof![
            prop::collection::vec(p.clone(), 0..4).prop_map(Payload::List),
            prop::collection::vec(("[a-z]{1,4}", p), 0..4).prop_map(Payload::Map),
        ]
    })
}

fn id() -> impl Strategy<Value = Id> + Clone {
    prop_oneof![
        3 => any::<i32>().prop_map(Id::Int),
        3 => (0i32..20).prop_map(Id::Int),
        2 => "[a-z0-9]{0,4}".prop_map(Id::Str),
    ]
}

fn answer() -> impl Strategy<Value = Answer> + Clone {
    prop_oneof![Just(Answer::Null), Just(Answer::Object), (any::<i32>(), word()).prop_map(|(c, m)| Answer::Error(c, m)), (any::<i32>(), word()).prop_map(|(c, m)| Answer::Both(c, m)), Just(Answer::Nothing)]
}

fn op() -> impl Strategy<Value = Op> {
    let code = prop_oneof![any::<i32>(), prop::sample::select(vec![-32700, -32600, -32601, -32602, -32603, -32802, -32801, -32800])];
    prop_oneof![
        2 => (any::<u8>(), word()).prop_map(|(k, s)| Op::Notify(k, s)),
        4 => (any::<u8>(), word()).prop_map(|(k, s)| Op::Request(k, s)),
        2 => (any::<u8>(), prop::collection::vec((0u32..50, 0u32..50, word()), 0..4), any::<Option<i32>>()).prop_map(|(u, d, v)| Op::Publish(u, d, v)),
        1 => (word(), 0u8..4).prop_map(|(s, t)| Op::Show(s, t)),
        1 => (word(), 0u8..4).prop_map(|(s, t)| Op::Log(s, t)),
        2 => prop_oneof![Just(0usize), Just(1), 2usize..200, any::<usize>()].prop_map(Op::Notice),
        2 => (id(), payload()).prop_map(|(i, p)| Op::Respond(i, p)),
        2 => (id(), code, word(), prop::option::of(payload())).prop_map(|(i, c, m, p)| Op::RespondError(i, c, m, p)),
        4 => (any::<u16>(), answer()).prop_map(|(k, a)| Op::AnswerKnown(k, a)),
        1 => (id(), answer()).prop_map(|(i, a)| Op::AnswerUnknown(i, a)),
        1 => any::<bool>().prop_map(Op::Cleanup),
        1 => Just(Op::Pause),
        1 => any::<u8>().prop_map(Op::CleanupPaused),
        1 => prop_oneof![8 => 2u16..12, 1 => 12u16..300].prop_map(Op::Burst),
        1 => Just(Op::CloneClient),
        1 => any::<u8>().prop_map(Op::Switch),
    ]
}

fn mtype(t: u8) -> types::MessageType {
    [types::MessageType::ERROR, types::MessageType::WARNING, types::MessageType::INFO, types::MessageType::LOG][t as usize % 4]
}

fn uri(u: u8) -> types::Url {
    types::Url::parse(&format!("file:///home/u%20{}/é{u}.R", u % 7)).unwrap()
}

fn diag(d: &(u32, u32, String)) -> types::Diagnostic {
    types::Diagnostic {
        range: types::Range::new(types::Position::new(d.0, d.1), types::Position::new(d.0 + 1, d.1)),
        severity: Some(types::DiagnosticSeverity::WARNING),
        source: Some("jarl".into()),
        message: d.2.clone(),
        ..Default::default()
    }
}

/// What the client must receive for an operation: method and parameters, or a response.
#[derive(Clone, Debug, PartialEq)]
enum Sent {
    Notification(String, Value),
    Request(String, Value),
    Response(RequestId, Option<Value>, Option<(i32, String, Option<Value>)>),
    /// the threshold notice, with its count
    Notice(usize),
}

fn first_number(s: &str) -> Option<String> {
    let d: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    (!d.is_empty()).then_some(d)
}

fn matches(m: &Message, want: &Sent) -> Result<(), Fail> {
    match (m, want) {
        (Message::Notification(x), Sent::Notice(count)) => {
            ensure_eq!(x.method.as_str(), "window/showMessage", "notice-method", "method of the notice");
            ensure_eq!(x.params["type"], json!(3), "notice-type", "type of the notice");
            let text = x.params["message"].as_str().unwrap_or("").to_string();
            ensure_eq!(first_number(&text), Some(count.to_string()), "notice-count", "count stated in {text:?}");
            let plural = text.contains("diagnostics");
            ensure_eq!(plural, *count != 1, "notice-plural", "plural in {text:?}");
        }
        (Message::Notification(x), Sent::Notification(meth, p)) => {
            ensure_eq!((&x.method, &x.params), (meth, p), "notification", "notification");
        }
        (Message::Request(x), Sent::Request(meth, p)) => {
            ensure_eq!((&x.method, &x.params), (meth, p), "request", "request");
        }
        (Message::Response(x), Sent::Response(i, res, err)) => {
            ensure_eq!(&x.id, i, "response-id", "id of the response");
            let e = x.error.as_ref().map(|e| (e.code, e.message.clone(), e.data.clone()));
            ensure_eq!(&e, err, "response-error", "error of the response");
            ensure_eq!(&x.result, res, "response-result", "result of the response");
        }
        _ => return Err(Fail::new("message-kind", format!("received {m:?}, expected {want:?}"))),
    }
    Ok(())
}

thread_local! {
    static LEVELS: RefCell<Vec<tracing::Level>> = const { RefCell::new(vec![]) };
}

/// Records the levels of the client's own log events.
struct Recorder;
impl tracing::Subscriber for Recorder {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.target().starts_with("jarl_lsp")
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        LEVELS.with(|l| l.borrow_mut().push(*e.metadata().level()));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

fn take_levels() -> Vec<tracing::Level> {
    LEVELS.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

fn response(i: RequestId, a: &Answer) -> Response {
    match a {
        Answer::Null => Response { id: i, result: Some(Value::Null), error: None },
        Answer::Object => Response { id: i, result: Some(json!({"a": [1]})), error: None },
        Answer::Error(c, m) => Response { id: i, result: None, error: Some(ResponseError { code: *c, message: m.clone(), data: None }) },
        Answer::Both(c, m) => Response { id: i, result: Some(json!(1)), error: Some(ResponseError { code: *c, message: m.clone(), data: None }) },
        Answer::Nothing => Response { id: i, result: None, error: None },
    }
}

/// Performs an operation that sends; the expected message is returned.
fn send(c: &Client, op: &Op, noticed: &mut bool) -> Result<Option<Sent>, Fail> {
    let ok = |r: anyhow::Result<()>| r.map_err(|e| Fail::new("send-failed", format!("sending failed: {e}")));
    Ok(match op {
        Op::Notify(k, s) => Some(match k % 3 {
            0 => {
                ok(c.send_notification::<n::TelemetryEvent>(types::OneOf::Left(json!({"s": s}).as_object().unwrap().clone())))?;
                Sent::Notification("telemetry/event".into(), json!({"s": s}))
            }
            1 => {
                ok(c.send_notification::<n::LogTrace>(types::LogTraceParams { message: s.clone(), verbose: None }))?;
                Sent::Notification("$/logTrace".into(), json!({"message": s}))
            }
            _ => {
                ok(c.send_notification::<n::Cancel>(types::CancelParams { id: types::NumberOrString::String(s.clone()) }))?;
                Sent::Notification("$/cancelRequest".into(), json!({"id": s}))
            }
        }),
        Op::Request(k, s) => {
            Some(match k % 3 {
                0 => {
                    let p = types::ShowMessageRequestParams { typ: types::MessageType::INFO, message: s.clone(), actions: None };
                    let j = serde_json::to_value(&p).unwrap();
                    ok(c.send_request::<r::ShowMessageRequest>(p, |_| {}))?;
                    Sent::Request("window/showMessageRequest".into(), j)
                }
                1 => {
                    ok(c.send_request::<r::WorkspaceConfiguration>(
                        types::ConfigurationParams { items: vec![types::ConfigurationItem { scope_uri: None, section: Some(s.clone()) }] },
                        |_| {},
                    ))?;
                    Sent::Request("workspace/configuration".into(), json!({"items": [{"section": s}]}))
                }
                _ => {
                    ok(c.send_request::<r::WorkspaceDiagnosticRefresh>((), |_| {}))?;
                    Sent::Request("workspace/diagnostic/refresh".into(), Value::Null)
                }
            })
        }
        Op::Publish(u, d, v) => {
            let ds: Vec<_> = d.iter().map(diag).collect();
            ok(c.publish_diagnostics(uri(*u), ds, *v))?;
            let mut j = json!({"uri": uri(*u).as_str(), "diagnostics": d.iter().map(|(l, ch, m)| json!({
                "range": {"start": {"line": l, "character": ch}, "end": {"line": l + 1, "character": ch}},
                "severity": 2, "source": "jarl", "message": m})).collect::<Vec<_>>()});
            if let Some(v) = v {
                j["version"] = json!(v);
            }
            Some(Sent::Notification("textDocument/publishDiagnostics".into(), j))
        }
        Op::Show(s, t) => {
            ok(c.show_message(s, mtype(*t)))?;
            Some(Sent::Notification("window/showMessage".into(), json!({"type": t % 4 + 1, "message": s})))
        }
        Op::Log(s, t) => {
            ok(c.log_message(s, mtype(*t)))?;
            Some(Sent::Notification("window/logMessage".into(), json!({"type": t % 4 + 1, "message": s})))
        }
        Op::Notice(k) => {
            let got = c.notify_unused_fn_threshold_once(*k);
            let got = got.map_err(|e| Fail::new("send-failed", format!("{e}")))?;
            ensure_eq!(got, !*noticed, "notice-result", "what the call reported about sending the notice");
            let first = !*noticed;
            *noticed = true;
            first.then_some(Sent::Notice(*k))
        }
        Op::Respond(i, p) => {
            ok(c.send_response(i.real(), p.json()))?;
            Some(Sent::Response(i.real(), Some(p.json()), None))
        }
        Op::RespondError(i, code, m, d) => {
            let data = d.as_ref().map(|d| d.json());
            ok(c.send_error_response(i.real(), ResponseError { code: *code, message: m.clone(), data: data.clone() }))?;
            Some(Sent::Response(i.real(), None, Some((*code, m.clone(), data))))
        }
        _ => None,
    })
}

fn drain(rx: &Receiver<Message>) -> Vec<Message> {
    rx.try_iter().collect()
}

fn history(ops: &Vec<Op>) -> Outcome {
    let (tx, rx) = channel::unbounded();
    let mut clients = vec![Client::new(tx)];
    let mut cur = 0;
    let mut noticed = false;
    // The ids of all requests sent, and those still waited for, with the times between which they were sent.
    let mut ids: Vec<RequestId> = vec![];
    let mut used: HashSet<RequestId> = HashSet::new();
    let mut pending: HashMap<RequestId, (Instant, Instant)> = HashMap::new();
    let mut pauses: Vec<Instant> = vec![];
    let (mut notices, mut repeats, mut requests, mut cleaned, mut partly) = (0, 0, 0, 0, 0);
    let mut result = Ok(());
    let body = || -> Result<(), Fail> {
        take_levels();
        for op in ops {
            take_levels();
            let burst = match op {
                Op::Burst(n) => vec![Op::Request(2, String::new()); usize::from(*n)],
                o => vec![o.clone()],
            };
            for op in &burst {
                let t0 = Instant::now();
                let want = send(&clients[cur], op, &mut noticed)?;
                let t1 = Instant::now();
                let got = drain(&rx);
                let n = usize::from(want.is_some());
                ensure_eq!(got.len(), n, "message-count", "messages sent by {op:?}: {got:?}");
                if let Some(w) = &want {
                    matches(&got[0], w)?;
                }
                if let Some(Message::Request(q)) = got.first() {
                    ensure!(used.insert(q.id.clone()), "request-id", "id {} was used twice", q.id);
                    ids.push(q.id.clone());
                    pending.insert(q.id.clone(), (t0, t1));
                    requests += 1;
                }
            }
            take_levels();
            match op {
                Op::Notice(_) => notices += 1,
                Op::AnswerKnown(..) | Op::AnswerUnknown(..) => {
                    let (i, a) = match op {
                        Op::AnswerKnown(k, a) => {
                            if requests == 0 {
                                continue;
                            }
                            (ids[usize::from(*k) % ids.len()].clone(), a)
                        }
                        Op::AnswerUnknown(i, a) => (i.real(), a),
                        _ => unreachable!(),
                    };
                    let known = pending.remove(&i).is_some();
                    if !known {
                        repeats += 1;
                    }
                    clients[cur].handle_response(response(i.clone(), a));
                    let lv = take_levels();
                    let warned = lv.contains(&tracing::Level::WARN);
                    let errored = lv.contains(&tracing::Level::ERROR);
                    ensure_eq!(warned, !known, "response-matching", "whether the response to {i} was unexpected, {op:?}");
                    ensure_eq!(errored, known && matches!(a, Answer::Error(..) | Answer::Both(..)), "response-error-log", "whether the failure of {i} was logged");
                    let left = drain(&rx);
                    ensure!(left.is_empty(), "message-count", "a response made the server send {left:?}");
                }
                Op::Cleanup(all) => {
                    let d = if *all { Duration::ZERO } else { Duration::from_secs(3600) };
                    // an instant strictly later than the newest request
                    std::thread::sleep(Duration::from_nanos(50));
                    clients[cur].cleanup_pending_requests(d);
                    let lv = take_levels();
                    let dropped = lv.iter().filter(|l| **l == tracing::Level::WARN).count();
                    if *all {
                        ensure_eq!(dropped, pending.len(), "cleanup", "requests dropped by a clean-up of everything");
                        pending.clear();
                        cleaned += dropped;
                    } else {
                        ensure_eq!(dropped, 0, "cleanup", "requests dropped by a clean-up of hour-old requests");
                    }
                    let left = drain(&rx);
                    ensure!(left.is_empty(), "message-count", "a clean-up made the server send {left:?}");
                }
                Op::Pause => {
                    pauses.push(Instant::now());
                    std::thread::sleep(Duration::from_micros(300));
                }
                Op::CleanupPaused(k) => {
                    if pauses.is_empty() {
                        continue;
                    }
                    let b = pauses[usize::from(*k) % pauses.len()];
                    let t = Instant::now();
                    clients[cur].cleanup_pending_requests(t - b);
                    let slack = t.elapsed();
                    // Sent before the pause: dropped. Sent when the pause and the time it took to
                    // call the clean-up had passed: kept. Others are not judged (and asked no more).
                    let dropped = take_levels().iter().filter(|l| **l == tracing::Level::WARN).count();
                    let must = pending.values().filter(|s| s.1 < b).count();
                    let may = pending.values().filter(|s| s.0 < b + slack).count();
                    ensure!(must <= dropped && dropped <= may, "cleanup", "requests dropped by a clean-up of {must} to {may} of {}: {dropped}", pending.len());
                    if must != may {
                        return Ok(());
                    }
                    if must > 0 && must < pending.len() {
                        partly += 1;
                    }
                    pending.retain(|_, s| s.1 >= b);
                    cleaned += dropped;
                    let left = drain(&rx);
                    ensure!(left.is_empty(), "message-count", "a clean-up made the server send {left:?}");
                }
                Op::CloneClient => {
                    if clients.len() < 5 {
                        let c = clients[cur].clone();
                        clients.push(c);
                    }
                }
                Op::Switch(k) => cur = *k as usize % clients.len(),
                _ => {}
            }
        }
        // A client that has gone is reported by every send.
        drop(rx);
        let c = &clients[cur];
        ensure!(c.show_message("x", types::MessageType::INFO).is_err(), "closed", "show_message succeeded without a client");
        ensure!(c.send_response(RequestId::from(1), 1).is_err(), "closed", "send_response succeeded without a client");
        ensure!(c.send_request::<r::WorkspaceDiagnosticRefresh>((), |_| {}).is_err(), "closed", "send_request succeeded without a client");
        let e = ResponseError { code: 1, message: String::new(), data: None };
        ensure!(c.send_error_response(RequestId::from(1), e).is_err(), "closed", "send_error_response succeeded without a client");
        ensure!(c.publish_diagnostics(uri(0), vec![], None).is_err(), "closed", "publish_diagnostics succeeded without a client");
        Ok(())
    };
    tracing::subscriber::with_default(Recorder, || result = body());
    result?;
    Ok(Info::when(requests > 1 && ops.len() > 4)
        .label_if(notices > 1, "repeated notice")
        .label_if(repeats > 0, "late, repeated or unknown response")
        .label_if(cleaned > 0, "clean-up of pending requests")
        .label_if(partly > 0, "clean-up of some pending requests")
        .label_if(clients.len() > 1, "clones"))
}

/// The same, with every list of operations on its own thread and clone.
fn threads(lists: &Vec<Vec<Op>>) -> Outcome {
    let (tx, rx) = channel::unbounded();
    let client = Client::new(tx);
    let results: Vec<Result<(Vec<Sent>, usize), Fail>> = std::thread::scope(|s| {
        let hs: Vec<_> = lists
            .iter()
            .enumerate()
            .map(|(t, ops)| {
                let c = client.clone();
                s.spawn(move || {
                    let mut out = vec![];
                    let mut sent_notices = 0;
                    for (k, op) in ops.iter().enumerate() {
                        // Tag what can be tagged, so that the receiver can tell threads apart.
                        let op = match op {
                            Op::Notify(a, _) => Op::Notify(*a, format!("t{t}.{k}")),
                            Op::Request(_, _) => Op::Request(1, format!("t{t}.{k}")),
                            // never INFO, the type of the notice
                            Op::Show(..) => Op::Show(format!("t{t}.{k}"), 0),
                            Op::Respond(_, p) => Op::Respond(Id::Str(format!("t{t}.{k}")), p.clone()),
                            o => o.clone(),
                        };
                        match &op {
                            Op::Notice(n) => {
                                if c.notify_unused_fn_threshold_once(*n).map_err(|e| Fail::new("send-failed", e.to_string()))? {
                                    sent_notices += 1;
                                    out.push(Sent::Notice(*n));
                                }
                            }
                            Op::Notify(..) | Op::Request(..) | Op::Show(..) | Op::Respond(..) => {
                                let mut no = false;
                                if let Some(w) = send(&c, &op, &mut no)? {
                                    out.push(w);
                                }
                            }
                            Op::AnswerKnown(i, a) => c.handle_response(response(RequestId::from(*i as i32 % 30), a)),
                            Op::Cleanup(all) => c.cleanup_pending_requests(Duration::from_secs(if *all { 0 } else { 3600 })),
                            _ => {}
                        }
                    }
                    Ok((out, sent_notices))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::new("panic", "a thread panicked")))).collect()
    });
    let mut expected: Vec<std::collections::VecDeque<Sent>> = vec![];
    let mut notices = 0;
    for r in results {
        let (s, n) = r?;
        notices += n;
        expected.push(s.into());
    }
    let asked = lists.iter().flatten().any(|o| matches!(o, Op::Notice(_)));
    ensure_eq!(notices, usize::from(asked), "notice-once", "threads told that they sent the notice");
    let mut ids = HashSet::new();
    let mut owner: HashMap<usize, usize> = HashMap::new();
    let got = drain(&rx);
    let total: usize = expected.iter().map(|e| e.len()).sum();
    ensure_eq!(got.len(), total, "message-count", "messages received");
    for m in got {
        if let Message::Request(q) = &m {
            ensure!(ids.insert(q.id.clone()), "request-id", "id {} was used twice", q.id);
        }
        // Which thread's next message is it?
        let t = expected.iter().position(|e| {
            e.front().is_some_and(|w| match w {
                w => matches(&m, w).is_ok(),
            })
        });
        let Some(t) = t else {
            return Err(Fail::new("order", format!("received {m:?}, which is no thread's next message")));
        };
        expected[t].pop_front();
        *owner.entry(t).or_default() += 1;
    }
    let n = ids.len();
    Ok(Info::when(n > 1 && owner.len() > 1).label_if(asked, "notice"))
}

pub fn c04() -> ExitCode {
    let mut ck = Check::new("C04");
    ck.assume("threads are scheduled by the operating system; interleavings are not enumerated");
    ck.prop(
        "message_histories",
        "up to 40 operations (notifications, requests, responses, notices, answers from the client, clean-ups, clones), checked message by message against a reference; non-trivial: two requests or more among five operations or more",
        20_000,
        1_000_000,
        || prop::collection::vec(op(), 0..40),
        history,
    );
    ck.prop(
        "concurrent_clones",
        "2 to 5 threads, each with up to 25 operations on a clone; non-trivial: two threads and two requests or more",
        3_000,
        100_000,
        || prop::collection::vec(prop::collection::vec(op(), 0..25), 2..6),
        threads,
    );
    ck.exhaustive(
        "many_requests",
        "more requests in one session than 8 or 16 bits count, over several clones: unique ids, each answered once",
        vec![300u32, 70_000],
        |n| {
            let (tx, rx) = channel::unbounded();
            let clients: Vec<Client> = std::iter::repeat_n(Client::new(tx), 3).collect();
            let mut ids = HashSet::new();
            let mut result = Ok(());
            tracing::subscriber::with_default(Recorder, || {
                result = (|| {
                    for i in 0..*n {
                        let c = &clients[i as usize % 3];
                        c.send_request::<r::WorkspaceDiagnosticRefresh>((), |_| {}).map_err(|e| Fail::new("send-failed", e.to_string()))?;
                    }
                    for m in drain(&rx) {
                        let Message::Request(q) = m else { return Err(Fail::new("message-kind", format!("{m:?}"))) };
                        ensure!(ids.insert(q.id.clone()), "request-id", "id {} was used twice", q.id);
                    }
                    ensure_eq!(ids.len(), *n as usize, "message-count", "requests sent");
                    take_levels();
                    for i in &ids {
                        clients[0].handle_response(response(i.clone(), &Answer::Null));
                        ensure!(!take_levels().contains(&tracing::Level::WARN), "response-matching", "the response to {i} was unexpected");
                    }
                    Ok(())
                })();
            });
            result?;
            Ok(Info::nontrivial())
        },
    );
    ck.exhaustive(
        "error_codes",
        "the published JSON-RPC and LSP error codes",
        vec![
            ("parse", error_codes::PARSE_ERROR, -32700),
            ("invalid request", error_codes::INVALID_REQUEST, -32600),
            ("method not found", error_codes::METHOD_NOT_FOUND, -32601),
            ("invalid params", error_codes::INVALID_PARAMS, -32602),
            ("internal", error_codes::INTERNAL_ERROR, -32603),
            ("server cancelled", error_codes::SERVER_CANCELLED, -32802),
            ("content modified", error_codes::CONTENT_MODIFIED, -32801),
            ("request cancelled", error_codes::REQUEST_CANCELLED, -32800),
        ]
        .into_iter()
        .map(|(a, b, c)| (a.to_string(), b, c))
        .collect(),
        |(name, got, want)| {
            ensure_eq!(got, want, "error-code", "code of {name}");
            Ok(Info::nontrivial())
        },
    );
    ck.prop(
        "error_conversion",
        "errors with any message and code; non-trivial: a non-empty message",
        3_000,
        100_000,
        || (word(), any::<i32>()),
        |(m, code)| {
            let e = anyhow::anyhow!(m.clone()).to_lsp_error();
            ensure_eq!((e.code, &e.message), (ErrorCode::InternalError as i32, m), "to-lsp-error", "converted error");
            let e = anyhow::anyhow!(m.clone()).to_lsp_error_with_code(*code);
            ensure_eq!((e.code, &e.message), (*code, m), "to-lsp-error-code", "converted error");
            ensure!(e.data.is_none(), "to-lsp-error-code", "data: {:?}", e.data);
            Ok(Info::when(!m.is_empty()))
        },
    );
    ck.finish()
}
