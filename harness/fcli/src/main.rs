mod allowed;
mod found;
mod nearest;
mod notes;
mod order;
mod refused;
mod report;
mod run;
mod editor;
mod serve;
mod versions;
mod silence;
mod vcs;
mod world;

use std::process::ExitCode;

fn main() -> ExitCode {
    match std::env::args().nth(1).as_deref() {
        Some("C23") => allowed::c23(),
        Some("C28") => order::c28(),
        Some("C29") => report::c29(),
        Some("C32") => vcs::c32(),
        Some("C30") => nearest::c30(),
        Some("C31") => found::c31(),
        Some("C33") => silence::c33(),
        Some("C34") => editor::c34(),
        Some("C37") => versions::c37(),
        Some("C46") => refused::c46(),
        Some("C45") => notes::c45(),
        Some("C35") => serve::c35(),
        _ => ExitCode::from(2),
    }
}
