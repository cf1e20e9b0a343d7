mod chunks;
mod packages;
mod code;
mod crash;
mod fixing;
mod layout;
mod lint;
mod literals;
mod schema;
mod options;
mod patterns;
mod reach;
mod suppress;
mod selection;
mod tree;

use std::process::ExitCode;

fn main() -> ExitCode {
    match std::env::args().nth(1).as_deref() {
        Some("C20") => crash::c20(),
        Some("C22") => fixing::c22(),
        Some("C25") => selection::c25(),
        Some("C26") => layout::c26(),
        Some("C24") => suppress::c24(),
        Some("C27") => chunks::c27(),
        Some("C36") => packages::run(),
        Some("C38") => reach::c38(),
        Some("C41") => options::c41(),
        Some("C42") => literals::c42(),
        Some("C44") => schema::c44(),
        Some("C39") => patterns::c39(),
        Some("C40") => patterns::c40(),
        Some("C47") => patterns::c47(),
        _ => ExitCode::from(2),
    }
}
