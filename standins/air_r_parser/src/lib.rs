//! Stand-in for air_r_parser: R source to a lossless syntax tree. R's own grammar (gram.y) decides
//! precedences and what a line break ends.
mod lexer;
use air_r_syntax::{RRoot, RSyntaxKind, RSyntaxKind::*, RSyntaxNode};
use biome_rowan::{AstNode, TreeBuilder};
use lexer::Tok;

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq)]
pub struct RParserOptions {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError {
    message: String,
}
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for ParseError {}
#[derive(Debug, Clone)]
pub struct Parse {
    root: RSyntaxNode,
    error: Option<ParseError>,
}
impl Parse {
    pub fn syntax(&self) -> RSyntaxNode {
        self.root.clone()
    }
    pub fn tree(&self) -> RRoot {
        RRoot::unwrap_cast(self.root.clone())
    }
    pub fn has_error(&self) -> bool {
        self.error.is_some()
    }
    pub fn has_errors(&self) -> bool {
        self.has_error()
    }
    pub fn error(&self) -> Option<&ParseError> {
        self.error.as_ref()
    }
    pub fn into_error(self) -> Option<ParseError> {
        self.error
    }
}

/// A tree under construction.
enum N {
    Node(RSyntaxKind, Vec<N>),
    Tok(usize),
    Empty,
}
use N::{Empty, Node};
type R<T> = Result<T, String>;

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    Top,
    Brace,
    Paren,
}
struct P {
    toks: Vec<Tok>,
    i: usize,
    ctx: Ctx,
    depth: usize,
}

pub fn parse(text: &str, _options: RParserOptions) -> Parse {
    let (toks, lexed) = lexer::lex(text);
    let mut p = P { toks, i: 0, ctx: Ctx::Top, depth: 0 };
    let bom = p.toks[0].kind == UNICODE_BOM;
    if bom {
        p.i = 1;
    }
    let bom = if bom { N::Tok(0) } else { Empty };
    let (list, error) = match if lexed { p.expressions(EOF) } else { Err("invalid token".into()) } {
        Ok(list) => (list, None),
        Err(message) => {
            let first = if matches!(bom, N::Tok(_)) { 1 } else { 0 };
            let all: Vec<N> = (first..p.toks.len() - 1).map(N::Tok).collect();
            let items = if all.is_empty() { vec![] } else { vec![Node(R_BOGUS_EXPRESSION, all)] };
            (Node(R_EXPRESSION_LIST, items), Some(ParseError { message }))
        }
    };
    let eof = N::Tok(p.toks.len() - 1);
    let mut b = TreeBuilder::new(text);
    emit(&mut b, &Node(R_ROOT, vec![bom, list, eof]), &mut p.toks);
    Parse { root: b.finish(), error }
}
fn emit(b: &mut TreeBuilder<air_r_syntax::RLanguage>, n: &N, toks: &mut [Tok]) {
    match n {
        Empty => {
            b.empty_slot();
        }
        N::Tok(i) => {
            let t = &mut toks[*i];
            b.token(t.kind, std::mem::take(&mut t.leading), t.len, std::mem::take(&mut t.trailing));
        }
        Node(k, children) => {
            b.start_node(*k);
            for c in children {
                emit(b, c, toks);
            }
            b.finish_node();
        }
    }
}

/// (precedence, right associative) of a binary operator; higher binds tighter.
fn binary(k: RSyntaxKind) -> Option<(u8, bool)> {
    Some(match k {
        WAT => (1, false),
        EQUAL => (5, true),
        ASSIGN | SUPER_ASSIGN | WALRUS => (6, true),
        ASSIGN_RIGHT | SUPER_ASSIGN_RIGHT => (7, false),
        TILDE => (8, false),
        OR | OR2 => (9, false),
        AND | AND2 => (10, false),
        GREATER_THAN | GREATER_THAN_OR_EQUAL_TO | LESS_THAN | LESS_THAN_OR_EQUAL_TO | EQUAL2 | NOT_EQUAL => (12, false),
        PLUS | MINUS => (13, false),
        MULTIPLY | DIVIDE => (14, false),
        SPECIAL | PIPE => (15, false),
        COLON => (16, false),
        EXPONENTIATE | EXPONENTIATE2 => (18, true),
        DOLLAR | AT => (19, false),
        _ => return None,
    })
}
const LOW: u8 = 2;
const POSTFIX: u8 = 21;

impl P {
    fn kind(&self) -> RSyntaxKind {
        self.toks[self.i].kind
    }
    fn bump(&mut self) -> N {
        self.i += 1;
        N::Tok(self.i - 1)
    }
    fn expect(&mut self, k: RSyntaxKind) -> R<N> {
        if self.kind() == k { Ok(self.bump()) } else { Err(format!("expected {k:?} at {}", self.toks[self.i].start)) }
    }
    fn within<T>(&mut self, ctx: Ctx, f: impl FnOnce(&mut P) -> R<T>) -> R<T> {
        let old = std::mem::replace(&mut self.ctx, ctx);
        let r = f(self);
        self.ctx = old;
        r
    }
    /// Does what comes next belong to another expression?
    fn ended(&self) -> bool {
        let t = &self.toks[self.i];
        t.semicolon_before || (t.newline_before && self.ctx != Ctx::Paren)
    }
    fn expressions(&mut self, end: RSyntaxKind) -> R<N> {
        let mut v = vec![];
        while self.kind() != end {
            if self.kind() == EOF || (!v.is_empty() && !self.ended()) {
                return Err(format!("unexpected {:?} at {}", self.kind(), self.toks[self.i].start));
            }
            v.push(self.expr(0)?);
        }
        Ok(Node(R_EXPRESSION_LIST, v))
    }
    fn expr(&mut self, min: u8) -> R<N> {
        self.depth += 1;
        if self.depth > 2000 {
            return Err("too deeply nested".into());
        }
        let r = self.expr_inner(min);
        self.depth -= 1;
        r
    }
    fn expr_inner(&mut self, min: u8) -> R<N> {
        let mut lhs = self.primary()?;
        loop {
            if self.ended() {
                return Ok(lhs);
            }
            let k = self.kind();
            if POSTFIX >= min && matches!(k, L_PAREN | L_BRACK | L_BRACK2) {
                let (node, args, close) = match k {
                    L_PAREN => (R_CALL, R_CALL_ARGUMENTS, R_PAREN),
                    L_BRACK => (R_SUBSET, R_SUBSET_ARGUMENTS, R_BRACK),
                    _ => (R_SUBSET2, R_SUBSET2_ARGUMENTS, R_BRACK2),
                };
                let a = self.arguments(args, close)?;
                lhs = Node(node, vec![lhs, a]);
                continue;
            }
            let Some((prec, right)) = binary(k) else { return Ok(lhs) };
            if prec < min {
                return Ok(lhs);
            }
            let op = self.bump();
            if matches!(k, DOLLAR | AT) {
                let sel = self.selector()?;
                lhs = Node(R_EXTRACT_EXPRESSION, vec![lhs, op, sel]);
                continue;
            }
            let rhs = self.expr(if right { prec } else { prec + 1 })?;
            lhs = Node(R_BINARY_EXPRESSION, vec![lhs, op, rhs]);
        }
    }
    fn selector(&mut self) -> R<N> {
        match self.kind() {
            L_PAREN | L_CURLY | IDENT | R_STRING_LITERAL | DOTS | DOTDOTI | RETURN_KW => match self.primary()? {
                // no place in the tree for it
                Node(R_NAMESPACE_EXPRESSION, _) => Err(format!("namespace after an extraction operator at {}", self.toks[self.i].start)),
                n => Ok(n),
            },
            // `x$function` and the like: reserved words are not names
            k => Err(format!("unexpected {k:?} after an extraction operator at {}", self.toks[self.i].start)),
        }
    }
    fn one(&mut self, k: RSyntaxKind) -> N {
        let t = self.bump();
        Node(k, vec![t])
    }
    fn primary(&mut self) -> R<N> {
        let k = self.kind();
        Ok(match k {
            IDENT | R_STRING_LITERAL => {
                let left = self.one(if k == IDENT { R_IDENTIFIER } else { R_STRING_VALUE });
                if matches!(self.kind(), COLON2 | COLON3) && !self.ended() {
                    let op = self.bump();
                    let right = match self.kind() {
                        IDENT => self.one(R_IDENTIFIER),
                        R_STRING_LITERAL => self.one(R_STRING_VALUE),
                        k => return Err(format!("unexpected {k:?} after ::")),
                    };
                    return Ok(Node(R_NAMESPACE_EXPRESSION, vec![left, op, right]));
                }
                left
            }
            R_INTEGER_LITERAL => self.one(R_INTEGER_VALUE),
            R_DOUBLE_LITERAL => self.one(R_DOUBLE_VALUE),
            R_COMPLEX_LITERAL => self.one(R_COMPLEX_VALUE),
            DOTS => self.one(R_DOTS),
            DOTDOTI => self.one(R_DOT_DOT_I),
            TRUE_KW => self.one(R_TRUE_EXPRESSION),
            FALSE_KW => self.one(R_FALSE_EXPRESSION),
            NULL_KW => self.one(R_NULL_EXPRESSION),
            INF_KW => self.one(R_INF_EXPRESSION),
            NAN_KW => self.one(R_NAN_EXPRESSION),
            NA_LOGICAL_KW | NA_INTEGER_KW | NA_DOUBLE_KW | NA_COMPLEX_KW | NA_CHARACTER_KW => self.one(R_NA_EXPRESSION),
            NEXT_KW => self.one(R_NEXT_EXPRESSION),
            BREAK_KW => self.one(R_BREAK_EXPRESSION),
            RETURN_KW => self.one(R_RETURN_EXPRESSION),
            L_CURLY => {
                let open = self.bump();
                let list = self.within(Ctx::Brace, |p| p.expressions(R_CURLY))?;
                let close = self.bump();
                Node(R_BRACED_EXPRESSIONS, vec![open, list, close])
            }
            L_PAREN => {
                let open = self.bump();
                let body = self.within(Ctx::Paren, |p| p.expr(0))?;
                let close = self.expect(R_PAREN)?;
                Node(R_PARENTHESIZED_EXPRESSION, vec![open, body, close])
            }
            PLUS | MINUS | BANG | TILDE | WAT => {
                let op = self.bump();
                let arg = self.expr(match k {
                    PLUS | MINUS => 17,
                    BANG => 11,
                    TILDE => 8,
                    _ => 1,
                })?;
                Node(R_UNARY_EXPRESSION, vec![op, arg])
            }
            FUNCTION_KW | BACKSLASH => {
                let name = self.bump();
                let params = self.parameters()?;
                let body = self.expr(LOW)?;
                Node(R_FUNCTION_DEFINITION, vec![name, params, body])
            }
            IF_KW => {
                let kw = self.bump();
                let open = self.expect(L_PAREN)?;
                let cond = self.within(Ctx::Paren, |p| p.expr(0))?;
                let close = self.expect(R_PAREN)?;
                let then = self.expr(3)?;
                let t = &self.toks[self.i];
                let otherwise = if t.kind == ELSE_KW && !t.semicolon_before && !(t.newline_before && self.ctx == Ctx::Top) {
                    let kw = self.bump();
                    let alt = self.expr(4)?;
                    Node(R_ELSE_CLAUSE, vec![kw, alt])
                } else {
                    Empty
                };
                Node(R_IF_STATEMENT, vec![kw, open, cond, close, then, otherwise])
            }
            FOR_KW => {
                let kw = self.bump();
                let open = self.expect(L_PAREN)?;
                let var = self.expect(IDENT)?;
                let in_ = self.expect(IN_KW)?;
                let seq = self.within(Ctx::Paren, |p| p.expr(0))?;
                let close = self.expect(R_PAREN)?;
                let body = self.expr(LOW)?;
                Node(R_FOR_STATEMENT, vec![kw, open, Node(R_IDENTIFIER, vec![var]), in_, seq, close, body])
            }
            WHILE_KW => {
                let kw = self.bump();
                let open = self.expect(L_PAREN)?;
                let cond = self.within(Ctx::Paren, |p| p.expr(0))?;
                let close = self.expect(R_PAREN)?;
                let body = self.expr(LOW)?;
                Node(R_WHILE_STATEMENT, vec![kw, open, cond, close, body])
            }
            REPEAT_KW => {
                let kw = self.bump();
                let body = self.expr(LOW)?;
                Node(R_REPEAT_STATEMENT, vec![kw, body])
            }
            _ => return Err(format!("unexpected {k:?} at {}", self.toks[self.i].start)),
        })
    }
    fn parameters(&mut self) -> R<N> {
        let open = self.expect(L_PAREN)?;
        let list = self.within(Ctx::Paren, |p| {
            let mut v = vec![];
            if p.kind() != R_PAREN {
                loop {
                    let name = match p.kind() {
                        IDENT => p.one(R_IDENTIFIER),
                        DOTS => p.one(R_DOTS),
                        DOTDOTI => p.one(R_DOT_DOT_I),
                        k => return Err(format!("unexpected {k:?} in parameters")),
                    };
                    let default = if p.kind() == EQUAL {
                        let eq = p.bump();
                        let value = p.expr(LOW)?;
                        Node(R_PARAMETER_DEFAULT, vec![eq, value])
                    } else {
                        Empty
                    };
                    v.push(Node(R_PARAMETER, vec![name, default]));
                    if p.kind() != COMMA {
                        break;
                    }
                    v.push(p.bump());
                }
            }
            Ok(Node(R_PARAMETER_LIST, v))
        })?;
        let close = self.expect(R_PAREN)?;
        Ok(Node(R_PARAMETERS, vec![open, list, close]))
    }
    fn arguments(&mut self, kind: RSyntaxKind, close: RSyntaxKind) -> R<N> {
        let open = self.bump();
        let list = self.within(Ctx::Paren, |p| {
            let mut v = vec![];
            loop {
                if p.kind() == COMMA || p.kind() == close {
                    if p.kind() == close && v.is_empty() {
                        break;
                    }
                    v.push(Node(R_ARGUMENT, vec![Empty, Empty]));
                } else {
                    let named = matches!(p.kind(), IDENT | R_STRING_LITERAL | DOTS | DOTDOTI | NULL_KW) && p.toks[p.i + 1].kind == EQUAL;
                    let clause = if named {
                        let name = match p.kind() {
                            IDENT => p.one(R_IDENTIFIER),
                            R_STRING_LITERAL => p.one(R_STRING_VALUE),
                            DOTS => p.one(R_DOTS),
                            DOTDOTI => p.one(R_DOT_DOT_I),
                            _ => p.one(R_NULL_EXPRESSION),
                        };
                        let eq = p.bump();
                        Node(R_ARGUMENT_NAME_CLAUSE, vec![name, eq])
                    } else {
                        Empty
                    };
                    let value = if named && (p.kind() == COMMA || p.kind() == close) { Empty } else { p.expr(0)? };
                    v.push(Node(R_ARGUMENT, vec![clause, value]));
                }
                if p.kind() != COMMA {
                    break;
                }
                v.push(p.bump());
            }
            Ok(Node(R_ARGUMENT_LIST, v))
        })?;
        let close = self.expect(close)?;
        Ok(Node(kind, vec![open, list, close]))
    }
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn trees() {
        for s in [
            "x <- 1\n# c\nf(a = 1, , b = )[[1]]$z@y # t\n",
            "if (a) b else c",
            "{\n if (a) b\n else c\n}",
            "function(x, ... , y = 2) x + 1",
            "\\(x) -x^2:3",
            "a; b;\n",
            "x[y[[1]]]",
            "r\"(a)\" ; a::b(1)\n",
            "x |> f() %>% g(...)",
            "",
            "# only\n",
        ] {
            let p = parse(s, RParserOptions::default());
            assert!(!p.has_error(), "{s} {:?}", p.error());
            assert_eq!(p.syntax().to_string(), s);
        }
        for s in ["if (a) b\nelse c", "f(", "a b", "x <- ", "'a", "(a", "a)", "%", "function"] {
            assert!(parse(s, RParserOptions::default()).has_error(), "{s}");
        }
    }
}
