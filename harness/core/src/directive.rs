use jarl_core::directive::{DirectiveParseResult as R, LintDirective as L, is_quarto_chunk_array_header, parse_comment_directive, parse_quarto_chunk_array_item};
use jarl_core::rule_set::Rule;
use std::process::ExitCode;
use vpkit::proptest::prelude::*;
use vpkit::{Check, Info, Outcome, ensure};

fn known(name: &str) -> Option<Rule> {
    Rule::all().iter().copied().find(|r| r.name() == name)
}

/// The results allowed for a rule and its optional reason.
fn rule_and_reason(s: &str, make: impl Fn(Rule) -> L) -> Vec<Option<R>> {
    let (name, reason) = match s.split_once(':') {
        Some((n, r)) => (n.trim(), r.trim()),
        None => (s.trim(), ""),
    };
    match (known(name), reason.is_empty()) {
        (Some(r), false) => vec![Some(R::Valid(make(r)))],
        (Some(_), true) => vec![Some(R::MissingExplanation)],
        (None, false) => vec![Some(R::InvalidRuleName)],
        (None, true) => vec![Some(R::InvalidRuleName), Some(R::MissingExplanation)],
    }
}

/// The reference: what the documentation says of a comment, as the set of allowed results
/// (more than one where the documentation leaves the choice).
fn reference(text: &str) -> Vec<Option<R>> {
    let t = text.trim_start();
    let (body, pipe) = if let Some(b) = t.strip_prefix("#| ") {
        (b, true)
    } else if let Some(b) = t.strip_prefix('#') {
        (b.strip_prefix(' ').unwrap_or(b), false)
    } else {
        return vec![None];
    };
    let Some(tail) = body.strip_prefix("jarl-ignore") else { return vec![None] };
    let (kind, after) = ["-file", "-start", "-end", "-chunk"]
        .iter()
        .find_map(|k| tail.strip_prefix(k).map(|a| (*k, a)))
        .unwrap_or(("", tail));
    if !(after.is_empty() || after.starts_with(' ') || after.starts_with(':')) {
        return vec![None];
    }
    if pipe && kind != "-chunk" {
        return vec![None];
    }
    let scoped = matches!(kind, "-file" | "-start" | "-end");
    let blanket = if scoped { vec![None, Some(R::BlanketSuppression)] } else { vec![Some(R::BlanketSuppression)] };
    if after.is_empty() || after.starts_with(':') {
        return blanket;
    }
    let s = &after[1..];
    if s.starts_with(':') {
        return blanket;
    }
    if s.trim_start().is_empty() || s.trim_start().starts_with(':') {
        // no rule, oddly spaced
        return vec![None, Some(R::BlanketSuppression)];
    }
    match kind {
        "" => rule_and_reason(s, L::Ignore),
        "-file" => rule_and_reason(s, L::IgnoreFile),
        "-start" => rule_and_reason(s, L::IgnoreStart),
        "-chunk" => rule_and_reason(s, L::IgnoreChunk),
        _ => {
            let name = s.split(':').next().unwrap().trim();
            vec![Some(known(name).map_or(R::InvalidRuleName, |r| R::Valid(L::IgnoreEnd(r))))]
        }
    }
}

fn names() -> Vec<String> {
    Rule::all().iter().map(|r| r.name().to_string()).collect()
}

fn rule_text() -> impl Strategy<Value = String> {
    let all = names();
    let bad: Vec<String> = all
        .iter()
        .flat_map(|n| [n.to_uppercase(), format!("{n}_"), n.replace('_', "-"), n[..n.len() - 1].to_string(), format!("`{n}`"), format!("{n}s")])
        .filter(|n| known(n).is_none())
        .collect();
    prop_oneof![
        10 => prop::sample::select(all.clone()),
        3 => prop::sample::select(bad),
        1 => (prop::sample::select(all.clone()), prop::sample::select(all)).prop_map(|(a, b)| format!("{a}, {b}")),
        1 => prop::sample::select(vec!["ALL", "PERF", "all", "<rule>", "any is na", "", "unused_suppression", "nolint", "-", "_"]).prop_map(String::from),
        1 => "[a-z_0-9]{1,12}",
    ]
}

fn reason() -> impl Strategy<Value = String> {
    prop_oneof![
        6 => "[a-z]{1,6}( [a-z]{1,6}){0,3}",
        2 => prop::sample::select(vec![
            "", " ", "   ", "a: b", ": x", "# jarl-ignore any_is_na: y", "jarl-ignore", "<reason>", ":", "é🌍", "\u{a0}", "see https://x.y", "-", "any_is_na", "'",
        ]).prop_map(String::from),
        1 => any::<String>().prop_map(|s| s.replace(['\n', '\r'], " ")),
    ]
}

fn indent() -> impl Strategy<Value = String> {
    prop_oneof![3 => Just(""), 1 => Just("  "), 1 => Just("\t"), 1 => Just("        ")].prop_map(String::from)
}

fn comment() -> impl Strategy<Value = String> {
    let prefix = prop_oneof![
        10 => Just("# "), 4 => Just("#"), 5 => Just("#| "), 1 => Just("#|"), 1 => Just("#  "), 1 => Just("## "), 1 => Just("#' "), 1 => Just(""), 1 => Just("#\t"), 1 => Just("#> "),
    ];
    let word = prop_oneof![
        6 => Just("jarl-ignore"), 4 => Just("jarl-ignore-file"), 4 => Just("jarl-ignore-start"), 4 => Just("jarl-ignore-end"), 4 => Just("jarl-ignore-chunk"),
        2 => prop::sample::select(vec!["Jarl-ignore", "jarl-ignorefoo", "jarl-ignore-", "jarl_ignore", "jarl-ignore-files", "jarl-ignore-block", "jarl ignore", "nolint", "jarl-ignore-chunks", "jarl-ignore-endx", "jarl-ignore-file-start", "jarl"]),
    ];
    let sep = prop_oneof![12 => Just(" "), 2 => Just("  "), 1 => Just(""), 2 => Just(":"), 2 => Just(": "), 1 => Just(" :"), 1 => Just("\t"), 1 => Just(" \t")];
    let colon = prop_oneof![8 => Just(": "), 3 => Just(":"), 2 => Just(" : "), 3 => Just(""), 1 => Just(" "), 1 => Just(";"), 1 => Just("::")];
    let tail = prop_oneof![4 => Just(""), 1 => Just(" "), 1 => Just("\t")];
    let whole = (indent(), prefix.clone(), word.clone(), sep, rule_text(), colon, reason(), tail.clone()).prop_map(|(i, p, w, s, r, c, why, t)| format!("{i}{p}{w}{s}{r}{c}{why}{t}"));
    let short = (indent(), prefix, word, prop::sample::select(vec!["", ":", " ", ": ", " :", ": reason", " : reason"]), tail).prop_map(|(i, p, w, s, t)| format!("{i}{p}{w}{s}{t}"));
    prop_oneof![6 => whole, 1 => short]
}

fn c06_case(t: &String) -> Outcome {
    let want = reference(t);
    let got = parse_comment_directive(t);
    let sig = match &got {
        Some(R::Valid(_)) => "valid",
        Some(_) => "mistake",
        None => "not-a-directive",
    };
    ensure!(want.contains(&got), format!("classified-{sig}"), "comment {t:?} was taken for {got:?}, expected one of {want:?}");
    let l = match &want[0] {
        Some(R::Valid(L::Ignore(_))) => "valid plain",
        Some(R::Valid(L::IgnoreFile(_))) => "valid file",
        Some(R::Valid(L::IgnoreStart(_))) => "valid start",
        Some(R::Valid(L::IgnoreEnd(_))) => "valid end",
        Some(R::Valid(L::IgnoreChunk(_))) => "valid chunk",
        Some(R::BlanketSuppression) => "blanket",
        Some(R::MissingExplanation) => "no reason",
        Some(R::InvalidRuleName) => "unknown rule",
        None => "not a directive",
    };
    Ok(Info::when(t.contains("jarl-ignore")).label(l))
}

pub fn c06() -> ExitCode {
    let mut ck = Check::new("C06");
    ck.assume("forms the documentation does not settle (a scoped directive without a rule, odd spacing around a missing rule) may be reported or ignored, but are never valid");
    let kinds = ["jarl-ignore", "jarl-ignore-file", "jarl-ignore-start", "jarl-ignore-end", "jarl-ignore-chunk"];
    let mut all = vec![];
    for n in names() {
        for k in kinds {
            for p in ["# ", "#", "  # ", "#| "] {
                all.push(format!("{p}{k} {n}: because"));
                all.push(format!("{p}{k} {n}"));
                all.push(format!("{p}{k} {n}x: because"));
            }
        }
    }
    ck.exhaustive("every_rule_and_kind", "every rule name in every kind, with each prefix, with and without a reason, and misspelt", all, c06_case);
    ck.prop(
        "grammar_and_mutations",
        "comments built from the documented grammar with each part correct or mutated; non-trivial: it contains jarl-ignore",
        200_000,
        6_000_000,
        comment,
        c06_case,
    );
    ck.prop(
        "arbitrary_comments",
        "any text, and any text after a directive's start; non-trivial: it contains jarl-ignore",
        60_000,
        2_000_000,
        || {
            prop_oneof![
                any::<String>(),
                any::<String>().prop_map(|s| format!("# jarl-ignore{s}")),
                any::<String>().prop_map(|s| format!("# jarl-ignore any_is_na: {s}")),
                "#[| ]{0,2}jarl-ignore(-file|-start|-end|-chunk)?[ :]{0,3}[a-z_]{0,10}[ :]{0,3}[a-z]{0,5}",
            ]
        },
        c06_case,
    );
    ck.finish()
}

/// The reference for list items.
fn reference_item(text: &str) -> Vec<Option<R>> {
    let t = text.trim();
    let Some(t) = t.strip_prefix("#|") else { return vec![None] };
    let Some(t) = t.trim_start().strip_prefix('-') else { return vec![None] };
    if t.trim().is_empty() || !t.starts_with(char::is_whitespace) {
        return vec![None];
    }
    let t = t.trim();
    if t.starts_with(':') {
        // an item without a rule
        return vec![None, Some(R::InvalidRuleName)];
    }
    rule_and_reason(t, L::IgnoreChunk)
}

fn item() -> impl Strategy<Value = String> {
    let prefix = prop_oneof![10 => Just("#|"), 1 => Just("#"), 1 => Just("# |"), 1 => Just("##|"), 1 => Just("#||"), 1 => Just("|")];
    let ws = || prop_oneof![3 => Just("   "), 2 => Just(" "), 1 => Just(""), 1 => Just("\t"), 1 => Just("      ")];
    let dash = prop_oneof![10 => Just("-"), 1 => Just("*"), 1 => Just("--"), 1 => Just("+"), 1 => Just("")];
    let colon = prop_oneof![8 => Just(": "), 3 => Just(":"), 2 => Just(" : "), 3 => Just(""), 1 => Just(" ")];
    let tail = prop_oneof![4 => Just(""), 1 => Just(" "), 1 => Just("\n")];
    (indent(), prefix, ws(), dash, ws(), rule_text(), colon, reason(), tail).prop_map(|(i, p, a, d, b, r, c, why, t)| format!("{i}{p}{a}{d}{b}{r}{c}{why}{t}"))
}

fn c07_item(t: &String) -> Outcome {
    let want = reference_item(t);
    let got = parse_quarto_chunk_array_item(t);
    ensure!(want.contains(&got), "item", "line {t:?} was taken for {got:?}, expected one of {want:?}");
    let l = match &want[0] {
        Some(R::Valid(_)) => "valid",
        Some(R::MissingExplanation) => "no reason",
        Some(R::InvalidRuleName) => "unknown rule",
        _ => "not an item",
    };
    // An item is no header.
    if want[0].is_some() {
        ensure!(!is_quarto_chunk_array_header(t), "item-header", "item {t:?} was taken for a header");
    }
    Ok(Info::when(t.contains("#|")).label(l))
}

fn c07_header(t: &String) -> Outcome {
    let want = t.trim() == format!("{}{}", "#| ", "jarl-ignore-chunk:");
    let got = is_quarto_chunk_array_header(t);
    ensure!(got == want, "header", "line {t:?}: header {got}, expected {want}");
    if want {
        ensure!(parse_quarto_chunk_array_item(t).is_none(), "header-item", "header {t:?} was taken for an item");
        // and, parsed as a comment, it suppresses nothing
        let d = parse_comment_directive(t);
        ensure!(!matches!(d, Some(R::Valid(_))), "header-directive", "header {t:?} is {d:?}");
    }
    Ok(Info::when(want || t.contains("jarl-ignore-chunk")).label(if want { "header" } else { "not a header" }))
}

pub fn c07() -> ExitCode {
    let mut ck = Check::new("C07");
    let mut all = vec![];
    for n in names() {
        for s in ["#|   - {}: why", "#| - {}: why", "  #|   - {}:why", "#|-  {} : why: really", "#|   - {}", "#|   - {}:", "#|   - {}y: why", "#|   {}: why", "#   - {}: why"] {
            all.push(s.replace("{}", &n));
        }
    }
    ck.exhaustive("every_rule", "every rule as an item, in several layouts, without reason, misspelt, without marker", all, c07_item);
    ck.prop(
        "items",
        "lines built from the list-item grammar with each part correct or mutated; non-trivial: it contains #|",
        150_000,
        4_000_000,
        item,
        c07_item,
    );
    ck.prop(
        "arbitrary_items",
        "any text, also after an item's start; non-trivial: it contains #|",
        40_000,
        1_500_000,
        || prop_oneof![any::<String>(), any::<String>().prop_map(|s| format!("#|   - {s}")), any::<String>().prop_map(|s| format!("#|{s}")), any::<String>().prop_map(|s| format!("#|  - any_is_na:{s}"))],
        c07_item,
    );
    ck.prop(
        "headers",
        "header lines with each part correct or mutated, and any text; non-trivial: it contains jarl-ignore-chunk",
        60_000,
        2_000_000,
        || {
            let p = prop_oneof![8 => Just("#| "), 1 => Just("#|"), 1 => Just("# "), 1 => Just("#|  "), 1 => Just("")];
            let w = prop_oneof![8 => Just("jarl-ignore-chunk"), 1 => Just("jarl-ignore"), 1 => Just("Jarl-ignore-chunk"), 1 => Just("jarl-ignore-chunks")];
            let c = prop_oneof![8 => Just(":"), 1 => Just(""), 1 => Just(" :"), 1 => Just("::"), 1 => Just(": any_is_na"), 1 => Just(" any_is_na: x")];
            let t = prop_oneof![4 => Just(""), 1 => Just("  "), 1 => Just("\t"), 1 => Just("\r\n")];
            prop_oneof![8 => (indent(), p, w, c, t).prop_map(|(i, p, w, c, t)| format!("{i}{p}{w}{c}{t}")), 1 => any::<String>()]
        },
        c07_header,
    );
    ck.finish()
}
