//! Tokens of R source, each with the trivia around it.
use air_r_syntax::RSyntaxKind::{self, *};
use biome_rowan::{TriviaPiece, TriviaPieceKind};

#[derive(Debug)]
pub struct Tok {
    pub kind: RSyntaxKind,
    pub leading: Vec<TriviaPiece>,
    pub trailing: Vec<TriviaPiece>,
    pub len: u32,
    pub start: usize,
    /// Is there a line break between the previous token and this one?
    pub newline_before: bool,
    /// Is there a semicolon between the previous token and this one?
    pub semicolon_before: bool,
}

/// Trivia from `i`, up to the first line break if `trailing`.
fn trivia(s: &str, mut i: usize, trailing: bool, semi: &mut bool, newline: &mut bool) -> (Vec<TriviaPiece>, usize) {
    let b = s.as_bytes();
    let mut v = vec![];
    while i < b.len() {
        let start = i;
        let kind = match b[i] {
            b'\n' | b'\r' => {
                if trailing {
                    break;
                }
                i += if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') { 2 } else { 1 };
                *newline = true;
                TriviaPieceKind::Newline
            }
            b' ' | b'\t' | 0x0c => {
                while i < b.len() && matches!(b[i], b' ' | b'\t' | 0x0c) {
                    i += 1;
                }
                TriviaPieceKind::Whitespace
            }
            0xc2 if b.get(i + 1) == Some(&0xa0) => {
                i += 2;
                TriviaPieceKind::Whitespace
            }
            b'#' => {
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
                TriviaPieceKind::SingleLineComment
            }
            b';' => {
                i += 1;
                *semi = true;
                TriviaPieceKind::Skipped
            }
            _ => break,
        };
        v.push(TriviaPiece::new(kind, (i - start) as u32));
    }
    (v, i)
}

pub fn lex(s: &str) -> (Vec<Tok>, bool) {
    let b = s.as_bytes();
    let mut toks: Vec<Tok> = vec![];
    let mut brackets: Vec<RSyntaxKind> = vec![];
    let mut ok = true;
    let mut i = 0;
    let mut semi = false;
    if s.starts_with('\u{feff}') {
        toks.push(Tok { kind: UNICODE_BOM, leading: vec![], trailing: vec![], len: 3, start: 0, newline_before: false, semicolon_before: false });
        i = 3;
    }
    loop {
        let mut newline = false;
        let (leading, at) = trivia(s, i, false, &mut semi, &mut newline);
        let (kind, len) = if at >= b.len() { (EOF, 0) } else { token(s, at, &mut brackets) };
        if kind == ERROR_TOKEN {
            ok = false;
        }
        let semicolon_before = std::mem::take(&mut semi);
        let (trailing, end) = if kind == EOF { (vec![], at) } else { trivia(s, at + len, true, &mut semi, &mut newline.clone()) };
        toks.push(Tok { kind, leading, trailing, len: len as u32, start: at, newline_before: newline, semicolon_before });
        i = end;
        if kind == EOF {
            return (toks, ok);
        }
    }
}

fn is_ident_start(c: char) -> bool {
    c.is_alphabetic() || c == '.' || c == '_'
}
fn is_ident(c: char) -> bool {
    c.is_alphanumeric() || c == '.' || c == '_'
}

fn token(s: &str, at: usize, brackets: &mut Vec<RSyntaxKind>) -> (RSyntaxKind, usize) {
    let rest = &s[at..];
    let b = rest.as_bytes();
    let c = rest.chars().next().unwrap();
    let next = b.get(1).copied().unwrap_or(0);
    // strings
    if (c == 'r' || c == 'R') && (next == b'"' || next == b'\'') {
        if let Some(n) = raw_string(rest) {
            return (R_STRING_LITERAL, n);
        }
    }
    if c == '"' || c == '\'' || c == '`' {
        let mut i = 1;
        while i < b.len() {
            if b[i] == b'\\' {
                i += 2;
                continue;
            }
            if b[i] == c as u8 {
                if c == '`' && i == 1 {
                    return (ERROR_TOKEN, 2);
                }
                return (if c == '`' { IDENT } else { R_STRING_LITERAL }, i + 1);
            }
            i += 1;
        }
        return (ERROR_TOKEN, rest.len());
    }
    // numbers
    if c.is_ascii_digit() || (c == '.' && next.is_ascii_digit()) {
        return number(b);
    }
    if is_ident_start(c) {
        let len: usize = rest.chars().take_while(|c| is_ident(*c)).map(|c| c.len_utf8()).sum();
        let word = &rest[..len];
        let kind = match word {
            "function" => FUNCTION_KW,
            "for" => FOR_KW,
            "in" => IN_KW,
            "while" => WHILE_KW,
            "repeat" => REPEAT_KW,
            "if" => IF_KW,
            "else" => ELSE_KW,
            "return" => RETURN_KW,
            "break" => BREAK_KW,
            "next" => NEXT_KW,
            "TRUE" => TRUE_KW,
            "FALSE" => FALSE_KW,
            "NULL" => NULL_KW,
            "Inf" => INF_KW,
            "NaN" => NAN_KW,
            "NA" => NA_LOGICAL_KW,
            "NA_integer_" => NA_INTEGER_KW,
            "NA_real_" => NA_DOUBLE_KW,
            "NA_complex_" => NA_COMPLEX_KW,
            "NA_character_" => NA_CHARACTER_KW,
            "..." => DOTS,
            _ if word.len() > 2 && word.starts_with("..") && word[2..].bytes().all(|b| b.is_ascii_digit()) => DOTDOTI,
            _ => IDENT,
        };
        return (kind, len);
    }
    if c == '%' {
        return match rest[1..].find(['%', '\n']) {
            Some(n) if b[n + 1] == b'%' => (SPECIAL, n + 2),
            _ => (ERROR_TOKEN, 1),
        };
    }
    const OPS: &[(&str, RSyntaxKind)] = &[
        ("<<-", SUPER_ASSIGN),
        ("->>", SUPER_ASSIGN_RIGHT),
        (":::", COLON3),
        ("<-", ASSIGN),
        ("->", ASSIGN_RIGHT),
        (":=", WALRUS),
        ("::", COLON2),
        ("||", OR2),
        ("|>", PIPE),
        ("&&", AND2),
        ("==", EQUAL2),
        ("!=", NOT_EQUAL),
        ("<=", LESS_THAN_OR_EQUAL_TO),
        (">=", GREATER_THAN_OR_EQUAL_TO),
        ("**", EXPONENTIATE2),
        ("?", WAT),
        ("~", TILDE),
        ("=", EQUAL),
        ("|", OR),
        ("&", AND),
        ("!", BANG),
        (">", GREATER_THAN),
        ("<", LESS_THAN),
        ("+", PLUS),
        ("-", MINUS),
        ("*", MULTIPLY),
        ("/", DIVIDE),
        (":", COLON),
        ("^", EXPONENTIATE),
        ("$", DOLLAR),
        ("@", AT),
        (",", COMMA),
        ("\\", BACKSLASH),
    ];
    match c {
        '(' | '{' => {
            let k = if c == '(' { L_PAREN } else { L_CURLY };
            brackets.push(k);
            return (k, 1);
        }
        ')' | '}' => {
            brackets.pop();
            return (if c == ')' { R_PAREN } else { R_CURLY }, 1);
        }
        '[' => {
            let k = if next == b'[' { L_BRACK2 } else { L_BRACK };
            brackets.push(k);
            return (k, if k == L_BRACK2 { 2 } else { 1 });
        }
        ']' => {
            let double = brackets.last() == Some(&L_BRACK2) && next == b']';
            brackets.pop();
            return if double { (R_BRACK2, 2) } else { (R_BRACK, 1) };
        }
        _ => {}
    }
    for (t, k) in OPS {
        if rest.starts_with(t) {
            return (*k, t.len());
        }
    }
    (ERROR_TOKEN, c.len_utf8())
}

fn raw_string(rest: &str) -> Option<usize> {
    let b = rest.as_bytes();
    let quote = b[1];
    let mut i = 2;
    while b.get(i) == Some(&b'-') {
        i += 1;
    }
    let close = match b.get(i)? {
        b'(' => ')',
        b'[' => ']',
        b'{' => '}',
        _ => return None,
    };
    let end = format!("{close}{}{}", "-".repeat(i - 2), quote as char);
    rest[i + 1..].find(&end).map(|n| i + 1 + n + end.len())
}

fn number(b: &[u8]) -> (RSyntaxKind, usize) {
    let mut i = 0;
    let digits = |i: &mut usize, hex: bool| {
        while *i < b.len() && (b[*i].is_ascii_digit() || (hex && b[*i].is_ascii_hexdigit())) {
            *i += 1;
        }
    };
    if b[0] == b'0' && matches!(b.get(1), Some(b'x' | b'X')) && b.get(2).is_some_and(|c| c.is_ascii_hexdigit()) {
        i = 2;
        digits(&mut i, true);
        if b.get(i) == Some(&b'.') {
            i += 1;
            digits(&mut i, true);
        }
        if matches!(b.get(i), Some(b'p' | b'P')) {
            exponent(b, &mut i);
        }
    } else {
        digits(&mut i, false);
        if b.get(i) == Some(&b'.') {
            i += 1;
            digits(&mut i, false);
        }
        if matches!(b.get(i), Some(b'e' | b'E')) {
            exponent(b, &mut i);
        }
    }
    match b.get(i) {
        Some(b'L') => (R_INTEGER_LITERAL, i + 1),
        // tree-sitter-r takes a complex number with no leading digit for something else.
        Some(b'i') if b.first() == Some(&b'.') => (IDENT, i + 1),
        Some(b'i') => (R_COMPLEX_LITERAL, i + 1),
        _ => (R_DOUBLE_LITERAL, i),
    }
}
fn exponent(b: &[u8], i: &mut usize) {
    let mut j = *i + 1;
    if matches!(b.get(j), Some(b'+' | b'-')) {
        j += 1;
    }
    let from = j;
    while j < b.len() && b[j].is_ascii_digit() {
        j += 1;
    }
    if j > from {
        *i = j;
    }
}
