//! Stand-in for colored.
use std::fmt;
use std::io::IsTerminal;
use std::ops::Deref;
use std::sync::LazyLock;
pub mod control {
    use std::sync::atomic::{AtomicU8, Ordering};
    pub(crate) static OVERRIDE: AtomicU8 = AtomicU8::new(0);
    pub fn set_override(b: bool) {
        OVERRIDE.store(1 + u8::from(b), Ordering::SeqCst);
    }
    pub fn unset_override() {
        OVERRIDE.store(0, Ordering::SeqCst);
    }
    #[allow(clippy::result_unit_err)]
    pub fn set_virtual_terminal(_: bool) -> Result<(), ()> {
        Ok(())
    }
}
static SHOULD: LazyLock<bool> = LazyLock::new(|| {
    let set = |v: &str| std::env::var(v).ok().map(|s| s != "0");
    if set("CLICOLOR_FORCE") == Some(true) {
        return true;
    }
    if std::env::var_os("NO_COLOR").is_some() || set("CLICOLOR_FORCE") == Some(false) {
        return false;
    }
    set("CLICOLOR").unwrap_or(true) && std::io::stdout().is_terminal()
});
fn colorize() -> bool {
    match control::OVERRIDE.load(std::sync::atomic::Ordering::SeqCst) {
        1 => false,
        2 => true,
        _ => *SHOULD,
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString {
    pub input: String,
    fg: Option<u8>,
    bg: Option<u8>,
    styles: Vec<u8>,
}
impl ColoredString {
    fn plain(s: &str) -> Self {
        Self { input: s.to_string(), ..Self::default() }
    }
}
impl Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.input
    }
}
impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut codes: Vec<String> = self.styles.iter().map(u8::to_string).collect();
        codes.extend(self.bg.map(|c| c.to_string()));
        codes.extend(self.fg.map(|c| c.to_string()));
        if !colorize() || codes.is_empty() {
            return <str as fmt::Display>::fmt(&self.input, f);
        }
        write!(f, "\x1B[{}m", codes.join(";"))?;
        <str as fmt::Display>::fmt(&self.input, f)?;
        f.write_str("\x1B[0m")
    }
}
macro_rules! colorize {
    ($($fg:ident $n:literal $bg:ident),*; $($st:ident $m:literal),*) => {
        pub trait Colorize: Sized {
            fn to_colored(self) -> ColoredString;
            $(fn $fg(self) -> ColoredString { let mut c = self.to_colored(); c.fg = Some($n); c }
              fn $bg(self) -> ColoredString { let mut c = self.to_colored(); c.bg = Some($n + 10); c })*
            $(fn $st(self) -> ColoredString { let mut c = self.to_colored(); c.styles.push($m); c })*
            fn normal(self) -> ColoredString { ColoredString::plain(&self.to_colored().input) }
            fn clear(self) -> ColoredString { self.normal() }
        }
    };
}
colorize!(black 30 on_black, red 31 on_red, green 32 on_green, yellow 33 on_yellow, blue 34 on_blue,
    magenta 35 on_magenta, cyan 36 on_cyan, white 37 on_white, bright_black 90 on_bright_black,
    bright_red 91 on_bright_red, bright_green 92 on_bright_green, bright_yellow 93 on_bright_yellow,
    bright_blue 94 on_bright_blue, bright_magenta 95 on_bright_magenta, bright_cyan 96 on_bright_cyan,
    bright_white 97 on_bright_white;
    bold 1, dimmed 2, italic 3, underline 4, blink 5, reversed 7, hidden 8, strikethrough 9);
impl Colorize for ColoredString {
    fn to_colored(self) -> ColoredString {
        self
    }
}
impl Colorize for &str {
    fn to_colored(self) -> ColoredString {
        ColoredString::plain(self)
    }
}
