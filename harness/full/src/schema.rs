//! C44: the published JSON schema of `jarl.toml` against what jarl reads.

use jarl_core::toml::parse_jarl_toml;
use serde_json::{Map, Value as Json};
use std::process::ExitCode;
use vpkit::proptest::collection::vec;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::{Index, select};
use vpkit::{Check, Fail, Info, Outcome, Scratch, ensure, ensure_eq};

/// Is `v` what `s` describes? An error for a schema that is not understood.
fn valid(root: &Json, s: &Json, v: &Json) -> Result<bool, String> {
    let o = match s {
        Json::Bool(b) => return Ok(*b),
        Json::Object(o) => o,
        _ => return Err(format!("schema {s}")),
    };
    let all = |l: &Json, v: &Json| -> Result<Vec<bool>, String> { l.as_array().ok_or("not a list of schemas")?.iter().map(|s| valid(root, s, v)).collect() };
    let mut ok = true;
    for (k, x) in o {
        let n = |x: &Json| x.as_f64().ok_or(format!("{k}: {x}"));
        ok &= match k.as_str() {
            "$schema" | "$id" | "$defs" | "definitions" | "title" | "description" | "default" | "examples" | "format" | "deprecated" | "$comment" | "readOnly" | "writeOnly" => true,
            "$ref" => {
                let p = x.as_str().and_then(|p| p.strip_prefix('#')).ok_or(format!("{x}"))?;
                valid(root, root.pointer(p).ok_or(format!("no {p}"))?, v)?
            }
            "anyOf" => all(x, v)?.contains(&true),
            "oneOf" => all(x, v)?.iter().filter(|b| **b).count() == 1,
            "allOf" => !all(x, v)?.contains(&false),
            "not" => !valid(root, x, v)?,
            "type" => {
                let one = |t: &Json| {
                    Ok(match t.as_str().ok_or(format!("{t}"))? {
                        "object" => v.is_object(),
                        "array" => v.is_array(),
                        "string" => v.is_string(),
                        "boolean" => v.is_boolean(),
                        "null" => v.is_null(),
                        "number" => v.is_number(),
                        "integer" => v.is_i64() || v.is_u64() || v.as_f64().is_some_and(|f| f.fract() == 0.0),
                        t => return Err(format!("type {t}")),
                    })
                };
                match x {
                    Json::Array(l) => l.iter().map(one).collect::<Result<Vec<_>, String>>()?.contains(&true),
                    t => one(t)?,
                }
            }
            "enum" => x.as_array().ok_or("enum")?.contains(v),
            "const" => x == v,
            "minimum" => v.as_f64().is_none_or(|f| n(x).is_ok_and(|m| f >= m)),
            "maximum" => v.as_f64().is_none_or(|f| n(x).is_ok_and(|m| f <= m)),
            "minLength" => v.as_str().is_none_or(|s| n(x).is_ok_and(|m| s.chars().count() as f64 >= m)),
            "maxLength" => v.as_str().is_none_or(|s| n(x).is_ok_and(|m| s.chars().count() as f64 <= m)),
            "minItems" => v.as_array().is_none_or(|s| n(x).is_ok_and(|m| s.len() as f64 >= m)),
            "maxItems" => v.as_array().is_none_or(|s| n(x).is_ok_and(|m| s.len() as f64 <= m)),
            "uniqueItems" => x != &Json::Bool(true) || v.as_array().is_none_or(|l| l.iter().enumerate().all(|(i, a)| !l[..i].contains(a))),
            "items" => v.as_array().map_or(Ok(true), |l| l.iter().try_fold(true, |b, i| Ok::<_, String>(b & valid(root, x, i)?)))?,
            "required" => v.as_object().is_none_or(|m| x.as_array().is_some_and(|l| l.iter().all(|k| k.as_str().is_some_and(|k| m.contains_key(k))))),
            "properties" => match v.as_object() {
                None => true,
                Some(m) => m.iter().try_fold(true, |b, (k, i)| Ok::<_, String>(b & x.get(k).map_or(Ok(true), |s| valid(root, s, i))?))?,
            },
            "additionalProperties" | "unevaluatedProperties" => match v.as_object() {
                None => true,
                Some(m) => {
                    let known = |k: &String| o.get("properties").is_some_and(|p| p.get(k).is_some());
                    m.iter().filter(|(k, _)| !known(k)).try_fold(true, |b, (_, i)| Ok::<_, String>(b & valid(root, x, i)?))?
                }
            },
            k => return Err(format!("keyword {k}")),
        };
    }
    Ok(ok)
}

/// Inline, as nothing else can hold any value anywhere.
fn inline(v: &Json) -> String {
    match v {
        Json::Array(l) => format!("[{}]", l.iter().map(inline).collect::<Vec<_>>().join(", ")),
        Json::Object(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{} = {}", key(k), inline(v))).collect::<Vec<_>>().join(", ")),
        v => v.to_string(),
    }
}
fn key(k: &str) -> String {
    if !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') { k.to_string() } else { format!("\"{k}\"") }
}

/// How tables are written: as headers, inline, or with dotted keys.
fn write(out: &mut String, path: &str, m: &Map<String, Json>, style: u8) {
    let table = |v: &Json| v.is_object() && style == 0;
    for (k, v) in m.iter().filter(|(_, v)| !table(v)) {
        match v {
            Json::Object(n) if style == 2 && !n.is_empty() => {
                for (l, w) in n {
                    *out += &format!("{}.{} = {}\n", key(k), key(l), inline(w));
                }
            }
            _ => *out += &format!("{} = {}\n", key(k), inline(v)),
        }
    }
    for (k, v) in m.iter().filter(|(_, v)| table(v)) {
        let p = if path.is_empty() { key(k) } else { format!("{path}.{}", key(k)) };
        *out += &format!("[{p}]\n");
        write(out, &p, v.as_object().unwrap(), style);
    }
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    config: Json,
    style: u8,
    good: bool,
}

fn agree(c: &Case) -> Outcome {
    let schema = std::fs::read_to_string("/repo/artifacts/jarl.schema.json").map_err(|e| Fail::new("schema-file", e.to_string()))?;
    let schema: Json = serde_json::from_str(&schema).map_err(|e| Fail::new("schema-file", e.to_string()))?;
    let mut text = String::new();
    write(&mut text, "", c.config.as_object().unwrap(), c.style);
    let dir = Scratch::new("c44");
    let p = dir.path().join("jarl.toml");
    std::fs::write(&p, &text).unwrap();
    let read = parse_jarl_toml(&p).map_err(|e| e.to_string()).and_then(|t| t.into_settings(dir.path()).map_err(|e| format!("{e:#}")));
    let says = valid(&schema, &schema, &c.config).map_err(|e| Fail::new("schema-unknown", e))?;
    if c.good {
        ensure!(read.is_ok(), "good-refused", "jarl refuses\n{text}: {}", read.err().unwrap());
    }
    let sig = if says { "schema-accepts" } else { "schema-refuses" };
    ensure_eq!(says, read.is_ok(), sig, "does the schema accept\n{text}as jarl does ({:?})", read.err());
    let n = c.config["lint"].as_object().map_or(0, Map::len);
    Ok(Info::when(n > 1).label(if says { "accepted" } else { "refused" }).label_if(c.good, "documented").label_if(c.config["lint"].as_object().is_some_and(|m| m.values().any(Json::is_object)), "with tables"))
}

fn strings() -> BoxedStrategy<Json> {
    vec(select(vec!["any_is_na", "coalesce", "PERF", "SUSP", "ALL", "T"]), 0..3).prop_map(|l| Json::from(l.into_iter().filter(|x| *x != "T").map(Json::from).collect::<Vec<_>>())).boxed()
}

fn functions() -> BoxedStrategy<Json> {
    vec(select(vec!["f", "g2", "a.b", "stop"]), 0..3).prop_map(Json::from).boxed()
}

/// What is documented, and what each may hold.
fn options() -> BoxedStrategy<Vec<(String, Json)>> {
    let lists = ["select", "extend-select", "ignore", "fixable", "unfixable"].map(|k| strings().prop_map(move |v| (k.to_string(), v)).boxed());
    let paths = ["include", "exclude"].map(|k| vec(select(vec!["R/", "*.R", "a b/c.R"]), 0..3).prop_map(move |v| (k.to_string(), Json::from(v))).boxed());
    let operator = || select(vec!["<-", "="]).prop_map(Json::from);
    let table = |k: &'static str, o: Vec<BoxedStrategy<(String, Json)>>| {
        // At most one: most of them exclude each other.
        prop_oneof![1 => Just(Json::Object(Map::new())), 4 => Union::new(o).prop_map(|(k, v)| Json::Object([(k, v)].into_iter().collect()))].prop_map(move |v| (k.to_string(), v)).boxed()
    };
    let f = |k: &'static str| functions().prop_map(move |v| (k.to_string(), v)).boxed();
    let threshold = (0..1000u32).prop_map(|n| ("threshold-ignore".to_string(), Json::from(n))).boxed();
    let mut one: Vec<BoxedStrategy<(String, Json)>> = lists.into_iter().chain(paths).collect();
    one.push(any::<bool>().prop_map(|b| ("default-exclude".to_string(), Json::from(b))).boxed());
    one.push(operator().prop_map(|v| ("assignment".to_string(), v)).boxed());
    one.push(table("assignment", vec![operator().prop_map(|v| ("operator".to_string(), v)).boxed()]));
    one.push(table("duplicated_arguments", vec![f("skipped-functions"), f("extend-skipped-functions")]));
    one.push(table("implicit_assignment", vec![f("skipped-functions"), f("extend-skipped-functions")]));
    one.push(table("undesirable_function", vec![f("functions"), f("extend-functions")]));
    one.push(table("unreachable_code", vec![f("stopping-functions"), f("extend-stopping-functions")]));
    one.push(table("unused_function", vec![f("skipped-functions"), threshold]));
    vec(Union::new(one), 0..5).boxed()
}
use vpkit::proptest::strategy::Union;

fn wrong() -> BoxedStrategy<Json> {
    let leaf = prop_oneof![Just(Json::from(1)), Just(Json::from(-1)), Just(Json::from(1.5)), Just(Json::from(true)), Just(Json::from("=")), Just(Json::Array(vec![])), Just(Json::Object(Map::new()))];
    prop_oneof![4 => leaf.clone(), 1 => vec(leaf.clone(), 1..3).prop_map(Json::Array), 1 => (select(KEYS.to_vec()), leaf).prop_map(|(k, v)| Json::Object([(k.to_string(), v)].into_iter().collect()))].boxed()
}
const KEYS: &[&str] = &["select", "extend_select", "extend-select", "Select", "lint", "operator", "functions", "skipped-functions", "skipped_functions", "threshold-ignore", "assignment", "any_is_na", "include", "min-r-version", "default_exclude", "unused-function", "unused_function", "x y", "extend-ignore", "cache"];

/// All paths to values.
fn paths(v: &Json, at: Vec<String>, out: &mut Vec<Vec<String>>) {
    if let Json::Object(m) = v {
        for (k, v) in m {
            let mut p = at.clone();
            p.push(k.clone());
            paths(v, p, out);
        }
    }
    out.push(at);
}

fn cases() -> impl Strategy<Value = Case> {
    let change = (any::<Index>(), select(KEYS.to_vec()), wrong(), 0..3u8);
    let good = options().prop_map(|o| {
        let lint: Map<String, Json> = o.into_iter().collect();
        let mut m = Map::new();
        m.insert("lint".into(), Json::Object(lint));
        m
    });
    (prop_oneof![12 => good, 1 => Just(Map::new())], vec(change, 0..3), 0..3u8, any::<bool>()).prop_map(|(m, changes, style, keep)| {
        let mut v = Json::Object(m);
        let good = keep || changes.is_empty();
        for (at, k, w, how) in if good { vec![] } else { changes } {
            let mut all = vec![];
            paths(&v, vec![], &mut all);
            let mut p = at.get(&all).clone();
            let is_table = p.iter().fold(&v, |v, k| &v[k]).is_object();
            // Another value, a further key, or another name.
            if how == 0 && !p.is_empty() {
                *p.iter().fold(&mut v, |v, k| &mut v[k]) = w;
            } else if how == 2 && !p.is_empty() {
                let last = p.pop().unwrap();
                let m = p.iter().fold(&mut v, |v, k| &mut v[k]).as_object_mut().unwrap();
                let old = m.remove(&last).unwrap();
                m.insert(k.to_string(), old);
            } else if is_table {
                let m = p.iter().fold(&mut v, |v, k| &mut v[k]).as_object_mut().unwrap();
                m.insert(k.to_string(), w);
            }
        }
        // Values that jarl refuses for what they are, and lists that exclude each other, are not
        // the business of the schema.
        scrub(&mut v);
        Case { config: v, style, good }
    })
}

fn scrub(v: &mut Json) {
    let Some(lint) = v.get_mut("lint").and_then(Json::as_object_mut) else { return };
    let operator = |x: &mut Json| {
        if x.is_string() && x != "<-" {
            *x = "=".into();
        }
    };
    if let Some(a) = lint.get_mut("assignment") {
        operator(a);
        if let Some(o) = a.get_mut("operator") {
            operator(o);
        }
    }
    for (_, t) in lint.iter_mut() {
        if let Some(t) = t.as_object_mut() {
            for k in ["skipped-functions", "functions", "stopping-functions"] {
                if t.contains_key(k) {
                    t.remove(&format!("extend-{k}"));
                }
            }
        }
    }
}

pub fn c44() -> ExitCode {
    let mut ck = Check::new("C44");
    ck.assume("values that only mean something to jarl (names of rules, operators, regular expressions, two lists that exclude each other) are not judged: all of them are valid here; keywords of JSON schema are those of a validator written for this check");
    ck.prop("agreement", "configurations with any of the documented options, as tables, inline tables or dotted keys, and the same with up to two values, keys or names changed: accepted by the published schema if and only if jarl reads them; the documented ones are read; non-trivial: two options or more", 30_000, 600_000, cases, agree);
    ck.finish()
}
