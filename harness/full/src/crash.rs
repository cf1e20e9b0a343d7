//! C20: any text is linted without a crash, and every diagnostic lies in it.

use crate::lint::{config, lint_as, row_col};
use std::process::ExitCode;
use vpgen::{Opts, corpus, crlf, mangled, near_miss, program};
use vpkit::proptest::prelude::*;
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq};

fn look(text: &str, file: &str, select: &str) -> Outcome {
    let c = config(select);
    let Some(ds) = lint_as(text, file, &c)? else {
        return Ok(Info::trivial().label("syntax error"));
    };
    let mut known = None;
    for d in &ds {
        ensure!(d.start <= d.end && d.end <= text.len(), "outside", "{d:?} is outside the {} bytes of {text:?}", text.len());
        ensure!(text.is_char_boundary(d.start) && text.is_char_boundary(d.end), "mid-char", "{d:?} starts or ends inside a character of {text:?}");
        let at = row_col(text, d.start);
        if text.starts_with('\n') && at.0 == 2 && d.loc == Some((2, at.1 + 1)) {
            known = Some(Fail::new("column-after-leading-newline", format!("the column of {d:?} in {text:?} is one too large")));
        } else {
            ensure_eq!(d.loc, Some(at), "row-column", "row and column of {d:?} in {text:?}");
        }
        ensure!(jarl_core::rule_set::Rule::from_name(&d.rule).is_some(), "no-rule", "{d:?} names no rule");
        if let Some((a, b, s)) = &d.fix {
            ensure!(a <= b && *b <= text.len() && text.is_char_boundary(*a) && text.is_char_boundary(*b), "fix-outside", "the fix of {d:?} is outside {text:?} or inside a character");
            let _ = s;
        }
    }
    if let Some(e) = known {
        return Err(e);
    }
    let non_ascii = ds.iter().any(|d| !text[..d.start].is_ascii());
    Ok(Info::when(!ds.is_empty()).label_if(!ds.is_empty(), "has diagnostics").label_if(non_ascii, "after non-ASCII").label_if(text.contains('\r'), "has \\r"))
}

fn select() -> impl Strategy<Value = String> + Clone {
    prop_oneof![3 => Just("ALL".to_string()), 1 => Just(String::new()), 1 => (0..corpus().len()).prop_map(|i| corpus()[i].rule.clone())]
}

pub fn c20() -> ExitCode {
    let mut ck = Check::new("C20");
    crate::lint::STRICT.store(true, std::sync::atomic::Ordering::Relaxed);
    ck.assume("the parser, tree and comment attachment are the stand-ins of /verif/standins, which pass all of jarl's own tests");
    let o = Opts { comments: true, directives: true, max: 5, depth: 3 };
    ck.prop("programs", "R programs of rule-shaped expressions, comments, directives, non-ASCII text, LF or CRLF; non-trivial: has diagnostics", 30_000, 600_000, || (program(o), select()), |(t, s)| look(t, "a.R", s));
    ck.prop("mangled", "programs with characters removed, added, repeated, and noise; non-trivial: parses and has diagnostics", 40_000, 800_000, || (mangled(), select()), |(t, s)| look(t, "a.R", s));
    ck.prop("near-misses", "snippets of jarl's tests with tokens removed, replaced, repeated or inserted; non-trivial: parses and has diagnostics", 100_000, 2_000_000, near_miss, |t| look(t, "a.R", "ALL"));
    ck.prop(
        "documents",
        "Rmd and qmd files of prose, R chunks of programs and noise; non-trivial: has diagnostics",
        10_000,
        200_000,
        || {
            let part = prop_oneof![
                3 => (program(o), vpkit::proptest::sample::select(vec!["{r}", "{r, echo=FALSE}", "{r é}", "{R}", "{python}", "r", ""])).prop_map(|(p, h)| format!("```{h}\n{p}\n```\n")),
                1 => mangled(),
                1 => Just("some *prose* é\n\n".to_string()),
            ];
            (vpkit::proptest::collection::vec(part, 0..4).prop_map(|v| v.concat()), any::<bool>(), select())
        },
        |(t, cr, s)| look(&if *cr { crlf(t) } else { t.clone() }, "a.Rmd", s),
    );
    let deep = vec!["(", "{", "[", "f(", "!", "-", "~", "if (x) ", "function(x) ", "x <- ", "x + ", "x[", "x$", "x |> f() |> "];
    let items: Vec<(String, usize)> = deep.iter().flat_map(|d| [10usize, 100, 300].map(|n| (d.to_string(), n))).collect();
    ck.exhaustive("nesting", "one construct nested 10, 100 and 300 times, closed and not", items, |(d, n)| {
        let close: String = d.chars().rev().filter_map(|c| match c { '(' if !d.starts_with("if") && !d.starts_with("fun") && !d.contains("|>") => Some(")"), '{' => Some("}"), '[' => Some("]"), _ => None }).collect();
        let t = format!("{}x{}\n", d.repeat(*n), close.repeat(*n));
        look(&t, "a.R", "ALL")?;
        look(&t[..t.len() - 2], "a.R", "ALL")?;
        Ok(Info::nontrivial())
    });
    ck.exhaustive("corpus", "every snippet of jarl's tests, with LF and CRLF, alone and after an empty line and non-ASCII text", (0..corpus().len()).collect(), |i| {
        let t = &corpus()[*i].text;
        for x in [t.clone(), crlf(t), format!("\n{t}"), format!("'é😀'; {t}"), format!("\n\n# é\n{t}\n"), format!("\u{feff}{t}")] {
            look(&x, "a.R", "ALL")?;
        }
        Ok(Info::nontrivial())
    });
    ck.finish()
}
