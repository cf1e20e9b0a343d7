//! Stand-in for air_r_syntax: the kinds and typed nodes of R syntax trees.
#![allow(non_camel_case_types, clippy::upper_case_acronyms)]
pub use biome_rowan::{TextLen, TextRange, TextSize, TokenAtOffset, TriviaPieceKind, WalkEvent};
use biome_rowan::{AstNode, Language, RawSyntaxKind, SyntaxKind, SyntaxList, SyntaxResult, support};

macro_rules! kinds {
    ($($k:ident $(= $s:literal)?,)*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #[repr(u16)]
        pub enum RSyntaxKind { $($k,)* }
        const ALL_KINDS: &[RSyntaxKind] = &[$(RSyntaxKind::$k,)*];
        impl RSyntaxKind {
            pub const fn to_string(&self) -> Option<&'static str> {
                match self { $($(RSyntaxKind::$k => Some($s),)?)* #[allow(unreachable_patterns)] _ => None }
            }
        }
    };
}
kinds! {
    TOMBSTONE, EOF, UNICODE_BOM,
    COMMA = ",", SEMICOLON = ";", BACKSLASH = "\\",
    L_CURLY = "{", R_CURLY = "}", L_BRACK = "[", R_BRACK = "]", L_BRACK2 = "[[", R_BRACK2 = "]]", L_PAREN = "(", R_PAREN = ")",
    WAT = "?", TILDE = "~", ASSIGN = "<-", SUPER_ASSIGN = "<<-", WALRUS = ":=", ASSIGN_RIGHT = "->", SUPER_ASSIGN_RIGHT = "->>",
    EQUAL = "=", OR = "|", OR2 = "||", AND = "&", AND2 = "&&", BANG = "!",
    GREATER_THAN = ">", GREATER_THAN_OR_EQUAL_TO = ">=", LESS_THAN = "<", LESS_THAN_OR_EQUAL_TO = "<=", EQUAL2 = "==", NOT_EQUAL = "!=",
    PLUS = "+", MINUS = "-", MULTIPLY = "*", DIVIDE = "/", PIPE = "|>", COLON = ":", EXPONENTIATE = "^", EXPONENTIATE2 = "**",
    DOLLAR = "$", AT = "@", COLON2 = "::", COLON3 = ":::",
    FUNCTION_KW = "function", FOR_KW = "for", IN_KW = "in", WHILE_KW = "while", REPEAT_KW = "repeat", IF_KW = "if", ELSE_KW = "else",
    RETURN_KW = "return", BREAK_KW = "break", NEXT_KW = "next", TRUE_KW = "TRUE", FALSE_KW = "FALSE", NULL_KW = "NULL", INF_KW = "Inf", NAN_KW = "NaN",
    NA_LOGICAL_KW = "NA", NA_INTEGER_KW = "NA_integer_", NA_DOUBLE_KW = "NA_real_", NA_COMPLEX_KW = "NA_complex_", NA_CHARACTER_KW = "NA_character_",
    SPECIAL, R_INTEGER_LITERAL, R_DOUBLE_LITERAL, R_COMPLEX_LITERAL, R_STRING_LITERAL, DOTS = "...", DOTDOTI,
    NEWLINE, WHITESPACE, IDENT, COMMENT, ERROR_TOKEN,
    R_ROOT, R_EXPRESSION_LIST, R_BOGUS, R_BOGUS_VALUE, R_BOGUS_EXPRESSION,
    R_IDENTIFIER, R_DOTS, R_DOT_DOT_I,
    R_INTEGER_VALUE, R_DOUBLE_VALUE, R_COMPLEX_VALUE, R_STRING_VALUE,
    R_TRUE_EXPRESSION, R_FALSE_EXPRESSION, R_NULL_EXPRESSION, R_INF_EXPRESSION, R_NAN_EXPRESSION, R_NA_EXPRESSION,
    R_NEXT_EXPRESSION, R_BREAK_EXPRESSION, R_RETURN_EXPRESSION,
    R_FUNCTION_DEFINITION, R_PARAMETERS, R_PARAMETER_LIST, R_PARAMETER, R_PARAMETER_DEFAULT,
    R_IF_STATEMENT, R_ELSE_CLAUSE, R_FOR_STATEMENT, R_WHILE_STATEMENT, R_REPEAT_STATEMENT,
    R_BRACED_EXPRESSIONS, R_PARENTHESIZED_EXPRESSION,
    R_CALL, R_CALL_ARGUMENTS, R_SUBSET, R_SUBSET_ARGUMENTS, R_SUBSET2, R_SUBSET2_ARGUMENTS, R_ARGUMENT_LIST, R_ARGUMENT, R_ARGUMENT_NAME_CLAUSE,
    R_UNARY_EXPRESSION, R_BINARY_EXPRESSION, R_EXTRACT_EXPRESSION, R_NAMESPACE_EXPRESSION,
}
use RSyntaxKind::*;
impl From<u16> for RSyntaxKind {
    fn from(d: u16) -> Self {
        ALL_KINDS[d as usize]
    }
}
impl From<RSyntaxKind> for u16 {
    fn from(k: RSyntaxKind) -> u16 {
        k as u16
    }
}
impl RSyntaxKind {
    pub const fn is_punct(self) -> bool {
        (self as u16) >= COMMA as u16 && (self as u16) <= COLON3 as u16
    }
    pub const fn is_keyword(self) -> bool {
        (self as u16) >= FUNCTION_KW as u16 && (self as u16) <= NA_CHARACTER_KW as u16
    }
    pub const fn is_literal(self) -> bool {
        matches!(self, R_INTEGER_LITERAL | R_DOUBLE_LITERAL | R_COMPLEX_LITERAL | R_STRING_LITERAL)
    }
}
impl SyntaxKind for RSyntaxKind {
    fn is_list(&self) -> bool {
        matches!(self, R_EXPRESSION_LIST | R_PARAMETER_LIST | R_ARGUMENT_LIST)
    }
    fn is_root(&self) -> bool {
        matches!(self, R_ROOT)
    }
    fn is_bogus(&self) -> bool {
        matches!(self, R_BOGUS | R_BOGUS_VALUE | R_BOGUS_EXPRESSION)
    }
    fn is_trivia(self) -> bool {
        matches!(self, NEWLINE | WHITESPACE | COMMENT)
    }
    fn to_raw(&self) -> RawSyntaxKind {
        RawSyntaxKind(*self as u16)
    }
    fn from_raw(raw: RawSyntaxKind) -> Self {
        ALL_KINDS[raw.0 as usize]
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct RLanguage;
impl Language for RLanguage {
    type Kind = RSyntaxKind;
    type Root = RRoot;
}
pub type RSyntaxNode = biome_rowan::SyntaxNode<RLanguage>;
pub type RSyntaxToken = biome_rowan::SyntaxToken<RLanguage>;
pub type RSyntaxElement = biome_rowan::SyntaxElement<RLanguage>;
pub type RSyntaxList = biome_rowan::SyntaxList<RLanguage>;

macro_rules! field_type {
    (tok) => { SyntaxResult<RSyntaxToken> };
    (opttok) => { Option<RSyntaxToken> };
    (req $t:ident) => { SyntaxResult<$t> };
    (opt $t:ident) => { Option<$t> };
    (list $t:ident) => { $t };
}
macro_rules! field_get {
    ($s:expr, $i:literal, tok) => { support::required_token($s, $i) };
    ($s:expr, $i:literal, opttok) => { support::token($s, $i) };
    ($s:expr, $i:literal, req $t:ident) => { support::required_node($s, $i) };
    ($s:expr, $i:literal, opt $t:ident) => { support::node($s, $i) };
    ($s:expr, $i:literal, list $t:ident) => { support::list($s, $i) };
}
macro_rules! wrapper {
    ($n:ident $k:ident) => {
        #[derive(Clone, PartialEq, Eq, Hash)]
        pub struct $n { syntax: RSyntaxNode }
        impl std::fmt::Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.debug_tuple(stringify!($n)).field(&self.syntax).finish()
            }
        }
        impl AstNode for $n {
            type Language = RLanguage;
            fn can_cast(kind: RSyntaxKind) -> bool { kind == $k }
            fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then(|| Self { syntax }) }
            fn syntax(&self) -> &RSyntaxNode { &self.syntax }
            fn into_syntax(self) -> RSyntaxNode { self.syntax }
        }
        impl From<$n> for RSyntaxNode {
            fn from(n: $n) -> RSyntaxNode { n.syntax }
        }
        impl From<$n> for RSyntaxElement {
            fn from(n: $n) -> RSyntaxElement { n.syntax.into() }
        }
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&self.syntax, f) }
        }
    };
}
macro_rules! nodes {
    ($($n:ident $f:ident $k:ident { $($i:literal $name:ident : $how:ident $($t:ident)?;)* })*) => {$(
        wrapper!($n $k);
        #[derive(Debug)]
        pub struct $f { $(pub $name: field_type!($how $($t)?),)* }
        impl $n {
            /// # Safety
            /// As in biome: the kind of the node must be the right one.
            pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
            pub fn as_fields(&self) -> $f { $f { $($name: self.$name(),)* } }
            $(pub fn $name(&self) -> field_type!($how $($t)?) { field_get!(&self.syntax, $i, $how $($t)?) })*
        }
    )*};
}
nodes! {
    RRoot RRootFields R_ROOT { 0 bom_token: opttok; 1 expressions: list RExpressionList; 2 eof_token: tok; }
    RIdentifier RIdentifierFields R_IDENTIFIER { 0 name_token: tok; }
    RDots RDotsFields R_DOTS { 0 name_token: tok; }
    RDotDotI RDotDotIFields R_DOT_DOT_I { 0 name_token: tok; }
    RIntegerValue RIntegerValueFields R_INTEGER_VALUE { 0 value_token: tok; }
    RDoubleValue RDoubleValueFields R_DOUBLE_VALUE { 0 value_token: tok; }
    RComplexValue RComplexValueFields R_COMPLEX_VALUE { 0 value_token: tok; }
    RStringValue RStringValueFields R_STRING_VALUE { 0 value_token: tok; }
    RTrueExpression RTrueExpressionFields R_TRUE_EXPRESSION { 0 true_token: tok; }
    RFalseExpression RFalseExpressionFields R_FALSE_EXPRESSION { 0 false_token: tok; }
    RNullExpression RNullExpressionFields R_NULL_EXPRESSION { 0 null_token: tok; }
    RInfExpression RInfExpressionFields R_INF_EXPRESSION { 0 inf_token: tok; }
    RNanExpression RNanExpressionFields R_NAN_EXPRESSION { 0 nan_token: tok; }
    RNaExpression RNaExpressionFields R_NA_EXPRESSION { 0 value: tok; }
    RNextExpression RNextExpressionFields R_NEXT_EXPRESSION { 0 next_token: tok; }
    RBreakExpression RBreakExpressionFields R_BREAK_EXPRESSION { 0 break_token: tok; }
    RReturnExpression RReturnExpressionFields R_RETURN_EXPRESSION { 0 return_token: tok; }
    RFunctionDefinition RFunctionDefinitionFields R_FUNCTION_DEFINITION { 0 name: tok; 1 parameters: req RParameters; 2 body: req AnyRExpression; }
    RParameters RParametersFields R_PARAMETERS { 0 l_paren_token: tok; 1 items: list RParameterList; 2 r_paren_token: tok; }
    RParameter RParameterFields R_PARAMETER { 0 name: req AnyRParameterName; 1 default: opt RParameterDefault; }
    RParameterDefault RParameterDefaultFields R_PARAMETER_DEFAULT { 0 eq_token: tok; 1 value: req AnyRExpression; }
    RIfStatement RIfStatementFields R_IF_STATEMENT { 0 if_token: tok; 1 l_paren_token: tok; 2 condition: req AnyRExpression; 3 r_paren_token: tok; 4 consequence: req AnyRExpression; 5 else_clause: opt RElseClause; }
    RElseClause RElseClauseFields R_ELSE_CLAUSE { 0 else_token: tok; 1 alternative: req AnyRExpression; }
    RForStatement RForStatementFields R_FOR_STATEMENT { 0 for_token: tok; 1 l_paren_token: tok; 2 variable: req RIdentifier; 3 in_token: tok; 4 sequence: req AnyRExpression; 5 r_paren_token: tok; 6 body: req AnyRExpression; }
    RWhileStatement RWhileStatementFields R_WHILE_STATEMENT { 0 while_token: tok; 1 l_paren_token: tok; 2 condition: req AnyRExpression; 3 r_paren_token: tok; 4 body: req AnyRExpression; }
    RRepeatStatement RRepeatStatementFields R_REPEAT_STATEMENT { 0 repeat_token: tok; 1 body: req AnyRExpression; }
    RBracedExpressions RBracedExpressionsFields R_BRACED_EXPRESSIONS { 0 l_curly_token: tok; 1 expressions: list RExpressionList; 2 r_curly_token: tok; }
    RParenthesizedExpression RParenthesizedExpressionFields R_PARENTHESIZED_EXPRESSION { 0 l_paren_token: tok; 1 body: req AnyRExpression; 2 r_paren_token: tok; }
    RCall RCallFields R_CALL { 0 function: req AnyRExpression; 1 arguments: req RCallArguments; }
    RCallArguments RCallArgumentsFields R_CALL_ARGUMENTS { 0 l_paren_token: tok; 1 items: list RArgumentList; 2 r_paren_token: tok; }
    RSubset RSubsetFields R_SUBSET { 0 function: req AnyRExpression; 1 arguments: req RSubsetArguments; }
    RSubsetArguments RSubsetArgumentsFields R_SUBSET_ARGUMENTS { 0 l_brack_token: tok; 1 items: list RArgumentList; 2 r_brack_token: tok; }
    RSubset2 RSubset2Fields R_SUBSET2 { 0 function: req AnyRExpression; 1 arguments: req RSubset2Arguments; }
    RSubset2Arguments RSubset2ArgumentsFields R_SUBSET2_ARGUMENTS { 0 l_brack2_token: tok; 1 items: list RArgumentList; 2 r_brack2_token: tok; }
    RArgument RArgumentFields R_ARGUMENT { 0 name_clause: opt RArgumentNameClause; 1 value: opt AnyRExpression; }
    RArgumentNameClause RArgumentNameClauseFields R_ARGUMENT_NAME_CLAUSE { 0 name: req AnyRArgumentName; 1 eq_token: tok; }
    RUnaryExpression RUnaryExpressionFields R_UNARY_EXPRESSION { 0 operator: tok; 1 argument: req AnyRExpression; }
    RBinaryExpression RBinaryExpressionFields R_BINARY_EXPRESSION { 0 left: req AnyRExpression; 1 operator: tok; 2 right: req AnyRExpression; }
    RExtractExpression RExtractExpressionFields R_EXTRACT_EXPRESSION { 0 left: req AnyRExpression; 1 operator: tok; 2 right: req AnyRSelector; }
    RNamespaceExpression RNamespaceExpressionFields R_NAMESPACE_EXPRESSION { 0 left: req AnyRSelector; 1 operator: tok; 2 right: req AnyRSelector; }
}
wrapper!(RBogus R_BOGUS);
wrapper!(RBogusValue R_BOGUS_VALUE);
wrapper!(RBogusExpression R_BOGUS_EXPRESSION);

macro_rules! lists {
    ($($n:ident $k:ident $trait:ident $item:ident $out:ty;)*) => {$(
        #[derive(Clone, PartialEq, Eq, Hash, Debug)]
        pub struct $n { syntax_list: RSyntaxList }
        impl AstNode for $n {
            type Language = RLanguage;
            fn can_cast(kind: RSyntaxKind) -> bool { kind == $k }
            fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then(|| Self { syntax_list: syntax.into_list() }) }
            fn syntax(&self) -> &RSyntaxNode { self.syntax_list.node() }
            fn into_syntax(self) -> RSyntaxNode { self.syntax_list.into_node() }
        }
        impl biome_rowan::$trait for $n {
            type Language = RLanguage;
            type Node = $item;
            fn syntax_list(&self) -> &SyntaxList<RLanguage> { &self.syntax_list }
            fn into_syntax_list(self) -> SyntaxList<RLanguage> { self.syntax_list }
        }
        impl IntoIterator for $n {
            type Item = $out;
            type IntoIter = std::vec::IntoIter<$out>;
            fn into_iter(self) -> Self::IntoIter { biome_rowan::$trait::iter(&self) }
        }
        impl IntoIterator for &$n {
            type Item = $out;
            type IntoIter = std::vec::IntoIter<$out>;
            fn into_iter(self) -> Self::IntoIter { biome_rowan::$trait::iter(self) }
        }
    )*};
}
lists! {
    RExpressionList R_EXPRESSION_LIST AstNodeList AnyRExpression AnyRExpression;
    RParameterList R_PARAMETER_LIST AstSeparatedList RParameter SyntaxResult<RParameter>;
    RArgumentList R_ARGUMENT_LIST AstSeparatedList RArgument SyntaxResult<RArgument>;
}

macro_rules! unions {
    ($($n:ident { $($v:ident $as:ident;)* $([$nested:ident $nas:ident])? })*) => {$(
        #[derive(Clone, PartialEq, Eq, Hash, Debug)]
        pub enum $n { $($v($v),)* $($nested($nested),)? }
        impl $n {
            $(pub fn $as(&self) -> Option<&$v> { match self { $n::$v(x) => Some(x), #[allow(unreachable_patterns)] _ => None } })*
            $(pub fn $nas(&self) -> Option<&$nested> { match self { $n::$nested(x) => Some(x), _ => None } })?
        }
        impl AstNode for $n {
            type Language = RLanguage;
            fn can_cast(kind: RSyntaxKind) -> bool { false $(|| $v::can_cast(kind))* $(|| $nested::can_cast(kind))? }
            fn cast(syntax: RSyntaxNode) -> Option<Self> {
                let kind = syntax.kind();
                $(if $v::can_cast(kind) { return $v::cast(syntax).map($n::$v); })*
                $(if $nested::can_cast(kind) { return $nested::cast(syntax).map($n::$nested); })?
                None
            }
            fn syntax(&self) -> &RSyntaxNode { match self { $($n::$v(x) => x.syntax(),)* $($n::$nested(x) => x.syntax(),)? } }
            fn into_syntax(self) -> RSyntaxNode { match self { $($n::$v(x) => x.into_syntax(),)* $($n::$nested(x) => x.into_syntax(),)? } }
        }
        $(impl From<$v> for $n { fn from(x: $v) -> Self { $n::$v(x) } })*
        $(impl From<$nested> for $n { fn from(x: $nested) -> Self { $n::$nested(x) } })?
        impl From<$n> for RSyntaxNode { fn from(n: $n) -> RSyntaxNode { n.into_syntax() } }
        impl From<$n> for RSyntaxElement { fn from(n: $n) -> RSyntaxElement { n.into_syntax().into() } }
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(self.syntax(), f) }
        }
    )*};
}
unions! {
    AnyRValue {
        RBogusValue as_r_bogus_value;
        RComplexValue as_r_complex_value;
        RDoubleValue as_r_double_value;
        RIntegerValue as_r_integer_value;
        RStringValue as_r_string_value;
    }
    AnyRArgumentName { RDotDotI as_r_dot_dot_i; RDots as_r_dots; RIdentifier as_r_identifier; RStringValue as_r_string_value; RNullExpression as_r_null_expression; }
    AnyRParameterName { RDotDotI as_r_dot_dot_i; RDots as_r_dots; RIdentifier as_r_identifier; }
    AnyRSelector {
        RCall as_r_call;
        RDotDotI as_r_dot_dot_i;
        RDots as_r_dots;
        RIdentifier as_r_identifier;
        RStringValue as_r_string_value;
        RParenthesizedExpression as_r_parenthesized_expression;
        RBracedExpressions as_r_braced_expressions;
        RReturnExpression as_r_return_expression;
    }
    AnyRExpression {
        RBinaryExpression as_r_binary_expression;
        RBogusExpression as_r_bogus_expression;
        RBracedExpressions as_r_braced_expressions;
        RBreakExpression as_r_break_expression;
        RCall as_r_call;
        RDotDotI as_r_dot_dot_i;
        RDots as_r_dots;
        RExtractExpression as_r_extract_expression;
        RFalseExpression as_r_false_expression;
        RForStatement as_r_for_statement;
        RFunctionDefinition as_r_function_definition;
        RIdentifier as_r_identifier;
        RIfStatement as_r_if_statement;
        RInfExpression as_r_inf_expression;
        RNaExpression as_r_na_expression;
        RNamespaceExpression as_r_namespace_expression;
        RNanExpression as_r_nan_expression;
        RNextExpression as_r_next_expression;
        RNullExpression as_r_null_expression;
        RParenthesizedExpression as_r_parenthesized_expression;
        RRepeatStatement as_r_repeat_statement;
        RReturnExpression as_r_return_expression;
        RSubset as_r_subset;
        RSubset2 as_r_subset2;
        RTrueExpression as_r_true_expression;
        RUnaryExpression as_r_unary_expression;
        RWhileStatement as_r_while_statement;
        [AnyRValue as_any_r_value]
    }
}
