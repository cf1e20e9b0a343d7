//! C22: fixing ends, with code that parses, has its comments, and needs no more fixing.

use crate::code::code;
use crate::lint::{D, args, plain, sorted};
use jarl_core::check::check;
use jarl_core::config::{ArgsConfig, Config, build_config};
use jarl_core::error::ParseError;
use serde::{Deserialize, Serialize};
use std::process::ExitCode;
use vpgen::{Opts, corpus, near_miss, program};
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select as pick;
use vpkit::{Check, Fail, Info, Outcome, Scratch, ensure, ensure_eq};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct How {
    select: String,
    unsafe_fixes: bool,
    fix_only: bool,
    v: Option<String>,
    equal: bool,
}

fn how() -> impl Strategy<Value = How> + Clone {
    let sel = prop_oneof![4 => Just("ALL".to_string()), 1 => Just(String::new()), 2 => (0..corpus().len()).prop_map(|i| corpus()[i].rule.clone())];
    (sel, prop::bool::weighted(0.7), prop::bool::weighted(0.1), pick(vec![Some("4.5.0"), Some("4.5.0"), Some("3.6.0"), None]), prop::bool::weighted(0.2))
        .prop_map(|(select, unsafe_fixes, fix_only, v, equal)| How { select, unsafe_fixes, fix_only, v: v.map(str::to_string), equal })
}

fn cfg(h: &How, fix: bool, paths: Vec<std::path::PathBuf>) -> Config {
    let a = ArgsConfig { select: h.select.clone(), fix, unsafe_fixes: fix && h.unsafe_fixes, fix_only: h.fix_only, min_r_version: h.v.clone(), assignment: h.equal.then(|| "=".to_string()), ..args() };
    build_config(&a, None, paths).expect("config")
}

/// Fixes a text the way the command line does: the text afterwards and the diagnostics.
fn fix(t: &str, h: &How, dir: &Scratch) -> Result<Option<(String, Vec<D>)>, Fail> {
    let p = dir.path().join("a.R");
    std::fs::write(&p, t).unwrap();
    let mut r = check(cfg(h, true, vec![p.clone()]));
    let out = std::fs::read(&p).unwrap();
    ensure!(r.len() == 1, "results", "one file, {} results", r.len());
    let out = String::from_utf8(out).map_err(|_| Fail::new("not-utf8", format!("fixing {t:?} ({h:?}) left text that is not UTF-8")))?;
    match r.remove(0).1 {
        Ok(ds) => Ok(Some((out, ds.iter().map(plain).collect()))),
        Err(e) if e.downcast_ref::<ParseError>().is_some() => {
            ensure!(out == t, "broken-code", "fixing {t:?} ({h:?}) left a file that does not parse: {out:?}");
            Ok(None)
        }
        // A known finding of C20.
        Err(e) if t.contains("length") && format!("{e:#}").contains("Found named argument without any value") => Ok(None),
        Err(e) => Err(Fail::new("internal-error", format!("fixing {t:?} ({h:?}) failed: {e:#}"))),
    }
}

fn look(t: &str, h: &How) -> Outcome {
    let dir = Scratch::new("fix");
    let Some(before) = code(t) else {
        return Ok(Info::trivial().label("syntax error"));
    };
    let Some((out, ds)) = fix(t, h, &dir)? else {
        return Ok(Info::trivial().label("syntax error"));
    };
    let Some(after) = code(&out) else {
        return Err(Fail::new("broken-code", format!("fixing {t:?} ({h:?}) left a file that does not parse: {out:?}")));
    };
    ensure_eq!(after.comments, before.comments, "comments", "the comments after fixing {t:?} ({h:?}) to {out:?}");
    if let Some(d) = ds.iter().find(|d| d.fix.is_some()) {
        return Err(Fail::new("unfinished", format!("after fixing {t:?} ({h:?}) to {out:?}, a fixable violation is reported: {d:?}")));
    }
    let Some((again, ds2)) = fix(&out, h, &dir)? else { unreachable!() };
    ensure_eq!(again, out, "not-idempotent", "fixing {t:?} ({h:?}) a second time");
    ensure_eq!(sorted(ds2), sorted(ds.clone()), "other-diagnostics", "the violations reported when fixing {t:?} ({h:?}) a second time");
    if ds.is_empty() && out == t {
        return Ok(Info::trivial().label("nothing to report"));
    }
    Ok(Info::when(out != t).label_if(out != t, "fixed").label_if(!before.comments.is_empty() && out != t, "fixed, has comments").label_if(!t.is_ascii() && out != t, "fixed, non-ASCII"))
}

pub fn c22() -> ExitCode {
    let mut ck = Check::new("C22");
    ck.assume("the parser, tree and comment attachment are the stand-ins of /verif/standins, which pass all of jarl's own tests");
    let o = Opts { comments: true, directives: true, max: 4, depth: 3 };
    ck.prop("programs", "R programs of rule-shaped expressions, comments, directives, non-ASCII text; all, default or one rule, safe or unsafe fixes, several minimum R versions; non-trivial: the file was changed", 15_000, 400_000, move || (program(o), how()), |(t, h)| look(t, h));
    ck.prop("near-misses", "snippets of jarl's tests with tokens removed, replaced, repeated or inserted; non-trivial: the file was changed", 30_000, 800_000, || (near_miss(), how()), |(t, h)| look(t, h));
    let all: Vec<(usize, bool)> = (0..corpus().len()).flat_map(|i| [(i, false), (i, true)]).collect();
    ck.exhaustive("corpus", "every snippet of jarl's tests, with safe and unsafe fixes of all rules", all, |(i, u)| {
        look(&corpus()[*i].text, &How { select: "ALL".into(), unsafe_fixes: *u, fix_only: false, v: Some("4.5.0".into()), equal: false })
    });
    ck.finish()
}
