mod description;
mod directive;
mod extraction;
mod files;
mod location;
mod rules;

use std::process::ExitCode;

fn main() -> ExitCode {
    match std::env::args().nth(1).as_deref() {
        Some("C05") => description::c05(),
        Some("C06") => directive::c06(),
        Some("C07") => directive::c07(),
        Some("C08") => extraction::c08(),
        Some("C09") => files::c09(),
        Some("C10") => rules::c10(),
        Some("C12") => location::c12(),
        _ => ExitCode::from(2),
    }
}
