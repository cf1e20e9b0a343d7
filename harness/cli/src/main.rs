//! C11: exit codes and logging of the command line program, observed on subprocesses.

use jarl::logging::LogLevel;
use jarl::status::ExitStatus;
use std::io::{Read, Write};
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};
use vpkit::proptest::prelude::*;
use vpkit::{Check, Fail, Info, Outcome, ensure, ensure_eq};

const LEVELS: [(&str, LogLevel); 5] =
    [("error", LogLevel::Error), ("warn", LogLevel::Warn), ("info", LogLevel::Info), ("debug", LogLevel::Debug), ("trace", LogLevel::Trace)];

/// (target, is it the program's own)
const TARGETS: [(&str, bool); 20] = [
    ("jarl", true),
    ("jarl::lint", true),
    ("jarl::output_format::json", true),
    ("jarl_core::check", true),
    ("air_r_parser", false),
    ("foo", false),
    ("tokio::jarl", false),
    ("xjarl", false),
    ("ignore::walk", false),
    ("globset", false),
    ("biome_rowan", false),
    ("biome_formatter", false),
    ("lsp_server", false),
    ("git2", false),
    ("rayon", false),
    ("air", false),
    ("jar", false),
    ("JARL", false),
    ("toml::jarl", false),
    ("clap", false),
];

macro_rules! emit {
    ($t:expr, $l:expr, $m:expr; $($i:literal => $target:literal),*) => {
        match $t { $($i => match $l {
            0 => tracing::error!(target: $target, "{}", $m),
            1 => tracing::warn!(target: $target, "{}", $m),
            2 => tracing::info!(target: $target, "{}", $m),
            3 => tracing::debug!(target: $target, "{}", $m),
            _ => tracing::trace!(target: $target, "{}", $m),
        },)* _ => {} }
    };
}

fn emit(target: usize, level: usize, n: usize) {
    let m = format!("<event {n}>");
    emit!(target, level, m;
        0 => "jarl", 1 => "jarl::lint", 2 => "jarl::output_format::json", 3 => "jarl_core::check", 4 => "air_r_parser",
        5 => "foo", 6 => "tokio::jarl", 7 => "xjarl", 8 => "ignore::walk", 9 => "globset",
        10 => "biome_rowan", 11 => "biome_formatter", 12 => "lsp_server", 13 => "git2", 14 => "rayon", 15 => "air", 16 => "jar", 17 => "JARL", 18 => "toml::jarl", 19 => "clap");
}

struct Out {
    code: Option<i32>,
    stdout: String,
    stderr: String,
}

fn child(args: &[&str], env: Option<&str>, input: &str) -> Result<Out, Fail> {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_remove("RUST_LOG");
    if let Some(v) = env {
        c.env("RUST_LOG", v);
    }
    let mut ch = c.spawn().expect("child");
    let mut pipe = ch.stdin.take().unwrap();
    let _ = pipe.write_all(input.as_bytes());
    drop(pipe);
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let read = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        s
    });
    let read2 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        s
    });
    let t = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break s;
        }
        if t.elapsed() > Duration::from_secs(40) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(Fail::new("hang", "the program does not end"));
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let text = |h: std::thread::JoinHandle<Vec<u8>>| String::from_utf8_lossy(&h.join().unwrap()).into_owned();
    Ok(Out { code: st.code(), stdout: text(read), stderr: text(read2) })
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("exit") => {
            return match args[2].as_str() {
                "success" => ExitStatus::Success.into(),
                "failure" => ExitStatus::Failure.into(),
                _ => ExitCode::from(ExitStatus::Error),
            };
        }
        Some("log") => {
            jarl::vp_init_logging(args[2].parse().expect("level"));
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            let events: Vec<(usize, usize)> = serde_json::from_str(&s).unwrap();
            for (n, (t, l)) in events.iter().enumerate() {
                emit(*t, *l, n);
            }
            return ExitCode::from(0);
        }
        Some("default") => {
            jarl::vp_init_logging(LogLevel::default());
            for l in 0..5 {
                emit(0, l, l);
            }
            return ExitCode::from(0);
        }
        Some("C11") => {}
        _ => return ExitCode::from(2),
    }
    let mut ck = Check::new("C11");
    ck.exhaustive("exit_code", "every outcome of a run", vec!["success", "failure", "error"].into_iter().map(String::from).collect(), |s: &String| {
        let out = child(&["exit", s], None, "")?;
        let want = match s.as_str() {
            "success" => 0,
            "failure" => 1,
            _ => 255,
        };
        ensure_eq!(out.code, Some(want), "exit-code", "exit code of {s}");
        ensure!(out.stdout.is_empty() && out.stderr.is_empty(), "exit-output", "exiting wrote something");
        Ok(Info::nontrivial())
    });
    ck.prop(
        "level_names",
        "texts that are, resemble or contain a level name, and any other; non-trivial: contains a level name in some case",
        120_000,
        2_000_000,
        || {
            let name = || prop::sample::select(LEVELS.map(|l| l.0).to_vec());
            prop_oneof![
                2 => name().prop_map(String::from),
                2 => name().prop_map(|n| n.to_uppercase()),
                1 => name().prop_map(|n| format!("{}{}", n[..1].to_uppercase(), &n[1..])),
                2 => ("[ \t\n]{0,2}", name(), "[ \t\n]{0,2}").prop_map(|(a, n, b)| format!("{a}{n}{b}")),
                2 => (name(), any::<prop::sample::Index>(), any::<char>()).prop_map(|(n, i, c)| {
                    let mut v: Vec<char> = n.chars().collect();
                    let i = i.index(v.len());
                    v[i] = c;
                    v.into_iter().collect()
                }),
                2 => (name(), any::<prop::sample::Index>()).prop_map(|(n, i)| n[..i.index(n.len())].to_string()),
                2 => (name(), name()).prop_map(|(a, b)| format!("{a}{b}")),
                2 => prop::sample::select(vec!["", "warning", "err", "none", "off", "all", "verbose", "fatal", "0", "1", "2", "warn,info", "WARN", "errors", "traces", "information"]).prop_map(String::from),
                1 => "[a-z]{1,6}",
                1 => any::<String>(),
            ]
        },
        |s: &String| {
            let got = s.parse::<LogLevel>().ok();
            let want = LEVELS.iter().find(|l| l.0 == s).map(|l| l.1);
            ensure_eq!(got, want, "level-name", "log level of {s:?}");
            if let Err(e) = s.parse::<LogLevel>() {
                ensure!(e.to_string().contains(s.as_str()), "level-error", "the error {e} does not name {s:?}");
            }
            if let Some(l) = got {
                ensure!(l.to_string().eq_ignore_ascii_case(s), "level-shown", "{s:?} is shown as {l}");
            }
            let lower = s.to_lowercase();
            Ok(Info::when(LEVELS.iter().any(|l| lower.contains(l.0))).label_if(want.is_some(), "name"))
        },
    );
    ck.exhaustive("level_order", "every pair of levels", (0..25usize).collect(), |i: &usize| {
        let (a, b) = (i / 5, i % 5);
        ensure_eq!(LEVELS[a].1.cmp(&LEVELS[b].1), a.cmp(&b), "level-order", "order of {} and {}", LEVELS[a].0, LEVELS[b].0);
        ensure_eq!(LEVELS[a].1 == LEVELS[b].1, a == b, "level-order", "equality");
        Ok(Info::when(a != b))
    });
    ck.prop(
        "events",
        "events of any severity of the program itself and of other crates, at any level, whatever RUST_LOG says; non-trivial: some events are shown and some are not",
        1_500,
        20_000,
        || (0usize..5, prop::option::of(prop::sample::select(vec!["trace", "off", "foo=trace", "jarl=error", "debug"]).prop_map(String::from)), prop::collection::vec((0usize..TARGETS.len(), 0usize..5), 0..25)),
        |(level, env, events)| {
            let out = child(&["log", LEVELS[*level].0], env.as_deref(), &serde_json::to_string(events).unwrap())?;
            shown(&out, *level, events)
        },
    );
    ck.exhaustive("default_level", "the level used when none is given", vec![0u8], |_| {
        let out = child(&["default"], None, "")?;
        shown(&out, 1, &[(0, 0), (0, 1), (0, 2), (0, 3), (0, 4)])
    });
    ck.finish()
}

fn shown(out: &Out, level: usize, events: &[(usize, usize)]) -> Outcome {
    ensure_eq!(out.code, Some(0), "log-crash", "exit code; stderr:\n{}", out.stderr);
    ensure!(out.stdout.is_empty(), "log-stdout", "logging wrote to standard output: {:?}", out.stdout);
    let mut got = vec![];
    for l in out.stderr.lines() {
        let Some(r) = l.split("<event ").nth(1) else { continue };
        let n: usize = r.split('>').next().unwrap().parse().unwrap();
        let name = LEVELS[events[n].1].0.to_uppercase();
        ensure!(l.contains(&name), "log-severity", "{l:?} does not show its severity {name}");
        got.push(n);
    }
    let want: Vec<usize> = (0..events.len()).filter(|n| TARGETS[events[*n].0].1 && events[*n].1 <= level).collect();
    ensure_eq!(got, want, "log-filter", "events shown at level {} of {:?}", LEVELS[level].0, events.iter().map(|e| (TARGETS[e.0].0, LEVELS[e.1].0)).collect::<Vec<_>>());
    Ok(Info::when(!want.is_empty() && want.len() < events.len()))
}
