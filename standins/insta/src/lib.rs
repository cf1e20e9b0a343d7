//! Stand-in for insta: compares snapshots, never writes them.
use std::cell::RefCell;
use std::collections::HashMap;

fn dedent(s: &str) -> String {
    let lines: Vec<&str> = s.trim_end().lines().collect();
    let first = lines.iter().position(|l| !l.trim().is_empty()).unwrap_or(0);
    let lines = &lines[first.min(lines.len())..];
    let indent = lines
        .iter()
        .filter(|l| !l.trim().is_empty())
        .map(|l| l.len() - l.trim_start().len())
        .min()
        .unwrap_or(0);
    lines.iter().map(|l| l.get(indent..).unwrap_or("").trim_end()).collect::<Vec<_>>().join("\n")
}
pub fn inline(value: &str, expected: &str, at: (&str, u32)) {
    let (v, e) = (dedent(value), dedent(expected));
    if v != e {
        panic!("snapshot differs at {}:{}\n--- expected\n{e}\n--- got\n{v}\n---", at.0, at.1);
    }
}
thread_local! { static COUNT: RefCell<HashMap<String, usize>> = RefCell::default(); }
pub fn file(name: Option<&str>, value: &str, module: &str, function: &str, at: (&str, &str, u32)) {
    let (manifest, file, line) = at;
    let name = match name {
        Some(n) => n.to_string(),
        None => {
            let f = function.rsplit("::").find(|s| *s != "{{closure}}").unwrap_or("");
            let f = f.strip_prefix("test_").unwrap_or(f);
            let n = COUNT.with(|c| {
                let mut c = c.borrow_mut();
                let n = c.entry(format!("{module}::{f}")).or_insert(0);
                *n += 1;
                *n
            });
            if n == 1 { f.to_string() } else { format!("{f}-{n}") }
        }
    };
    let snap = std::path::Path::new(manifest).join(file);
    let snap = snap
        .parent()
        .unwrap()
        .join("snapshots")
        .join(format!("{}__{name}.snap", module.replace("::", "__")));
    let text = std::fs::read_to_string(&snap).unwrap_or_else(|e| panic!("{}: {e}", snap.display()));
    let body = text.splitn(3, "---\n").nth(2).unwrap_or("");
    inline(value, body, (file, line));
}
#[macro_export]
macro_rules! assert_snapshot {
    ($v:expr, @$e:literal $(,)?) => { $crate::inline(&format!("{}", $v), $e, (file!(), line!())) };
    ($n:expr, $v:expr, @$e:literal $(,)?) => { $crate::inline(&format!("{}", $v), $e, (file!(), line!())) };
    ($n:expr, $v:expr $(,)?) => {{
        fn f() {}
        let name = std::any::type_name_of_val(&f);
        let name = name.strip_suffix("::f").unwrap_or(name);
        let n: Option<String> = Some($n.to_string());
        $crate::file(n.as_deref(), &format!("{}", $v), module_path!(), name, (env!("CARGO_MANIFEST_DIR"), file!(), line!()))
    }};
    ($v:expr $(,)?) => {{
        fn f() {}
        let name = std::any::type_name_of_val(&f);
        let name = name.strip_suffix("::f").unwrap_or(name);
        $crate::file(None, &format!("{}", $v), module_path!(), name, (env!("CARGO_MANIFEST_DIR"), file!(), line!()))
    }};
}
#[macro_export]
macro_rules! assert_debug_snapshot {
    ($v:expr, @$e:literal $(,)?) => { $crate::inline(&format!("{:#?}", $v), $e, (file!(), line!())) };
}
