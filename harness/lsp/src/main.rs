mod buffer;
mod client;
mod conv;
mod history;

use std::process::ExitCode;

fn main() -> ExitCode {
    match std::env::args().nth(1).as_deref() {
        Some("C01") => history::c01(),
        Some("C02") => conv::c02(),
        Some("C03") => history::c03(),
        Some("C04") => client::c04(),
        _ => ExitCode::from(2),
    }
}
