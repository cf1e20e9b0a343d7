//! C21: a fix pass rewrites exactly the ranges of the fixes it applies.

use biome_rowan::{TextRange, TextSize};
use jarl_core::diagnostic::{Diagnostic, Fix, ViolationData};
use jarl_core::fix::apply_fixes;
use std::process::ExitCode;
use vpkit::proptest::collection::vec;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select;
use vpkit::{Check, Info, Outcome, ensure, ensure_eq};

/// One fix: its range (in characters of the text), its content, whether it is to be skipped.
type F = (usize, usize, String, bool);

fn text() -> impl Strategy<Value = String> {
    let bit = select(vec!["a", "b", "x <- 1", "any(is.na(x))", "\n", "\r\n", " ", "é", "日本", "😀", "e\u{301}", "'", "\t", "# é\n", "f(", ")", "\u{feff}"]);
    vec(bit, 0..30).prop_map(|v| v.concat())
}

fn content() -> impl Strategy<Value = String> {
    prop_oneof![2 => Just(String::new()), 6 => text().prop_map(|t| t.chars().take(12).collect()), 1 => text()]
}

/// Offsets of the character boundaries.
fn bounds(t: &str) -> Vec<usize> {
    t.char_indices().map(|(i, _)| i).chain([t.len()]).collect()
}

fn diagnostics(t: &str, fs: &[F]) -> Vec<Diagnostic> {
    let b = bounds(t);
    fs.iter()
        .map(|(s, e, c, skip)| {
            let (s, e) = (b[*s], b[*e]);
            let at = |n: usize| TextSize::from(n as u32);
            let fix = if *skip { Fix::empty() } else { Fix { content: c.clone(), start: s, end: e, to_skip: false } };
            Diagnostic::new(ViolationData::new("any_is_na".into(), "b".into(), None), TextRange::new(at(s), at(e)), fix)
        })
        .collect()
}

/// What is left of the text, and the contents of the fixes, when the fixes of `on` are applied.
fn apply(t: &str, fs: &[F], on: &[bool]) -> String {
    let b = bounds(t);
    let mut v: Vec<(usize, usize, usize)> = (0..fs.len()).filter(|i| on[*i] && !fs[*i].3).map(|i| (b[fs[i].0], b[fs[i].1], i)).collect();
    v.sort();
    let mut out = String::new();
    let mut at = 0;
    for (s, e, i) in v {
        out += &t[at..s];
        out += &fs[i].2;
        at = e;
    }
    out + &t[at..]
}

fn disjoint(t: &str, cuts: &[usize], ks: &[(u8, String, bool)]) -> Vec<F> {
    let n = t.chars().count();
    let mut c: Vec<usize> = cuts.iter().map(|i| i % (n + 1)).collect();
    c.sort();
    c.chunks(2).filter(|p| p.len() == 2).zip(ks).map(|(p, k)| (p[0], if k.0 == 0 { p[0] } else { p[1] }, k.1.clone(), k.2)).collect()
}

fn run(t: &str, fs: &[F]) -> (bool, String) {
    apply_fixes(&diagnostics(t, fs), t)
}

fn look_disjoint((t, cuts, ks): &(String, Vec<usize>, Vec<(u8, String, bool)>)) -> Outcome {
    let fs = disjoint(t, cuts, ks);
    let (skipped, out) = run(t, &fs);
    let want = apply(t, &fs, &vec![true; fs.len()]);
    ensure_eq!(out, want, "disjoint", "the text after the fixes {fs:?} (ranges in characters) of {t:?}");
    ensure!(!skipped, "skipped-disjoint", "fixes that do not overlap were left for a later pass: {fs:?} of {t:?}");
    let real = fs.iter().filter(|f| !f.3).count();
    let grow = fs.iter().any(|f| !f.3 && f.2.chars().count() > f.1 - f.0);
    let shrink = fs.iter().any(|f| !f.3 && f.2.chars().count() < f.1 - f.0);
    Ok(Info::when(real >= 2 && out != *t).label_if(!t.is_ascii(), "non-ASCII").label_if(grow, "grows").label_if(shrink, "shrinks").label_if(fs.iter().any(|f| f.3), "has a diagnostic without fix"))
}

fn look_any((t, rs): &(String, Vec<(usize, usize, String, bool)>)) -> Outcome {
    let n = t.chars().count();
    let fs: Vec<F> = rs.iter().map(|(a, b, c, k)| { let (a, b) = (a % (n + 1), b % (n + 1)); (a.min(b), a.max(b), c.clone(), *k) }).collect();
    let (skipped, out) = run(t, &fs);
    // Some set of fixes, no two of which overlap, explains the text. It holds the first one
    // and is all of them unless the caller is told.
    let real: Vec<usize> = (0..fs.len()).filter(|i| !fs[*i].3).collect();
    let overlap = |a: &F, b: &F| a.0 < b.1 && b.0 < a.1 || (a.0 == a.1 && b.0 < a.0 && a.0 < b.1) || (b.0 == b.1 && a.0 < b.0 && b.0 < a.1);
    let mut ok = false;
    for m in 0u32..1 << real.len() {
        let mut on = vec![false; fs.len()];
        for (j, i) in real.iter().enumerate() {
            on[*i] = m >> j & 1 == 1;
        }
        let all = real.iter().all(|i| on[*i]);
        if all == skipped || (!real.is_empty() && !on[real[0]]) {
            continue;
        }
        // A fix that overlaps no other fix and comes after all before it has no reason to wait.
        let must = real.iter().enumerate().all(|(j, i)| on[*i] || real[..j].iter().any(|k| fs[*k].1 > fs[*i].0) );
        let apart = real.iter().all(|i| real.iter().all(|k| i == k || !on[*i] || !on[*k] || !overlap(&fs[*i], &fs[*k])));
        if apart && must && apply(t, &fs, &on) == out {
            ok = true;
            break;
        }
    }
    ensure!(ok, "overlapping", "no set of the fixes {fs:?} (ranges in characters), applied without overlap, gives {out:?} from {t:?} with 'some skipped' = {skipped}");
    Ok(Info::when(skipped && out != *t).label_if(skipped, "some skipped").label_if(!t.is_ascii(), "non-ASCII"))
}

fn c21() -> ExitCode {
    let mut ck = Check::new("C21");
    ck.assume("the text ranges of diagnostics are the stand-in biome_rowan");
    let k = || (0u8..5, content(), prop::bool::weighted(0.15));
    ck.prop("disjoint", "a text and fixes of disjoint ranges in order, replaced by shorter, longer, empty or non-ASCII text, some diagnostics without a fix: the result is computed independently; non-trivial: two or more fixes and the text changed", 40_000, 1_500_000, move || (text(), vec(0usize..400, 0..16), vec(k(), 8)), look_disjoint);
    ck.prop("overlapping", "fixes of any ranges in any order: some set without overlaps explains the result, and only if it is not all of them the caller is told; non-trivial: some fixes are left", 30_000, 1_000_000, || (text(), vec((0usize..400, 0usize..400, content(), prop::bool::weighted(0.1)), 0..6)), look_any);
    ck.prop("none", "a text with diagnostics that have no fix is returned as it is; non-trivial: has diagnostics", 5_000, 100_000, || (text(), 0usize..5), |(t, n)| {
        let (s, out) = run(t, &vec![(0, t.chars().count(), "zz".into(), true); *n]);
        ensure_eq!(out, t.clone(), "unchanged", "a text with nothing to fix");
        ensure!(!s, "skipped-none", "{n} diagnostics without a fix count as fixes left for later in {t:?}");
        Ok(Info::when(*n > 0))
    });
    ck.finish()
}

fn main() -> ExitCode {
    match std::env::args().nth(1).as_deref() {
        Some("C21") => c21(),
        _ => ExitCode::from(2),
    }
}
