//! Typed access to syntax trees.
use crate::text::*;
use crate::tree::*;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum SyntaxError {
    MissingRequiredChild,
    UnexpectedBogusNode,
    UnexpectedMetavariable,
}
impl fmt::Display for SyntaxError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            SyntaxError::MissingRequiredChild => "missing required child",
            SyntaxError::UnexpectedBogusNode => "unexpected bogus node",
            SyntaxError::UnexpectedMetavariable => "unexpected metavariable node",
        })
    }
}
impl std::error::Error for SyntaxError {}
pub type SyntaxResult<T> = Result<T, SyntaxError>;

/// A set of kinds.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct SyntaxKindSet<L: Language>([u128; 2], std::marker::PhantomData<L>);
impl<L: Language> SyntaxKindSet<L> {
    pub const fn from_raw(kind: RawSyntaxKind) -> Self {
        let mut bits = [0u128; 2];
        bits[(kind.0 / 128) as usize] = 1 << (kind.0 % 128);
        SyntaxKindSet(bits, std::marker::PhantomData)
    }
    pub const fn union(self, o: Self) -> Self {
        SyntaxKindSet([self.0[0] | o.0[0], self.0[1] | o.0[1]], std::marker::PhantomData)
    }
    pub fn matches(self, kind: L::Kind) -> bool {
        let k = kind.to_raw().0;
        self.0[(k / 128) as usize] & (1 << (k % 128)) != 0
    }
}

pub trait AstNode: Clone {
    type Language: Language;
    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;
    fn cast(syntax: SyntaxNode<Self::Language>) -> Option<Self>
    where
        Self: Sized;
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language>
    where
        Self: Sized;
    fn cast_ref(syntax: &SyntaxNode<Self::Language>) -> Option<Self>
    where
        Self: Sized,
    {
        if Self::can_cast(syntax.kind()) { Self::cast(syntax.clone()) } else { None }
    }
    fn try_cast(syntax: SyntaxNode<Self::Language>) -> Result<Self, SyntaxNode<Self::Language>>
    where
        Self: Sized,
    {
        if Self::can_cast(syntax.kind()) { Ok(Self::cast(syntax).unwrap()) } else { Err(syntax) }
    }
    fn try_cast_node<T: AstNode<Language = Self::Language>>(self) -> Result<T, Self>
    where
        Self: Sized,
    {
        if T::can_cast(self.syntax().kind()) { Ok(T::cast(self.into_syntax()).unwrap()) } else { Err(self) }
    }
    fn unwrap_cast(syntax: SyntaxNode<Self::Language>) -> Self
    where
        Self: Sized,
    {
        let kind = syntax.kind();
        Self::cast(syntax).unwrap_or_else(|| panic!("Tried to cast node of kind {kind:?}"))
    }
    fn text(&self) -> String {
        self.to_trimmed_string()
    }
    fn to_trimmed_string(&self) -> String {
        self.syntax().text_trimmed().to_string()
    }
    fn to_trimmed_text(&self) -> Text {
        self.syntax().text_trimmed().into_text()
    }
    fn range(&self) -> TextRange {
        self.syntax().text_trimmed_range()
    }
    fn clone_subtree(&self) -> Self
    where
        Self: Sized,
    {
        self.clone()
    }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> {
        self.syntax().parent().and_then(T::cast)
    }
}

pub trait SyntaxNodeCast<L: Language> {
    fn cast<T: AstNode<Language = L>>(self) -> Option<T>;
}
impl<L: Language> SyntaxNodeCast<L> for SyntaxNode<L> {
    fn cast<T: AstNode<Language = L>>(self) -> Option<T> {
        T::cast(self)
    }
}

pub trait AstNodeList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;
    fn iter(&self) -> std::vec::IntoIter<Self::Node> {
        self.syntax_list().iter().map(|s| cast_slot::<Self::Node>(s)).collect::<Vec<_>>().into_iter()
    }
    fn len(&self) -> usize {
        self.syntax_list().len()
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn first(&self) -> Option<Self::Node> {
        self.iter().next()
    }
    fn last(&self) -> Option<Self::Node> {
        self.iter().next_back()
    }
}
fn cast_slot<N: AstNode>(s: SyntaxSlot<N::Language>) -> N {
    match s {
        SyntaxSlot::Node(n) => N::unwrap_cast(n),
        s => panic!("Unexpected slot {s:?} in a list"),
    }
}

#[derive(Clone, Debug)]
pub struct AstSeparatedElement<L: Language, N> {
    node: SyntaxResult<N>,
    trailing_separator: SyntaxResult<Option<SyntaxToken<L>>>,
}
impl<L: Language, N: AstNode<Language = L> + Clone> AstSeparatedElement<L, N> {
    pub fn node(&self) -> SyntaxResult<&N> {
        self.node.as_ref().map_err(|e| *e)
    }
    pub fn into_node(self) -> SyntaxResult<N> {
        self.node
    }
    pub fn trailing_separator(&self) -> SyntaxResult<Option<&SyntaxToken<L>>> {
        self.trailing_separator.as_ref().map(|o| o.as_ref()).map_err(|e| *e)
    }
    pub fn into_trailing_separator(self) -> SyntaxResult<Option<SyntaxToken<L>>> {
        self.trailing_separator
    }
}
pub trait AstSeparatedList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;
    fn elements(&self) -> std::vec::IntoIter<AstSeparatedElement<Self::Language, Self::Node>> {
        let slots: Vec<_> = self.syntax_list().iter().collect();
        let mut v = vec![];
        for pair in slots.chunks(2) {
            let node = match &pair[0] {
                SyntaxSlot::Node(n) => Ok(Self::Node::unwrap_cast(n.clone())),
                SyntaxSlot::Empty { .. } => Err(SyntaxError::MissingRequiredChild),
                s => panic!("Unexpected slot {s:?} in a separated list"),
            };
            let trailing_separator = match pair.get(1) {
                None => Ok(None),
                Some(SyntaxSlot::Token(t)) => Ok(Some(t.clone())),
                Some(_) => Err(SyntaxError::MissingRequiredChild),
            };
            v.push(AstSeparatedElement { node, trailing_separator });
        }
        v.into_iter()
    }
    fn separators(&self) -> std::vec::IntoIter<SyntaxResult<SyntaxToken<Self::Language>>> {
        self.elements()
            .filter_map(|e| match e.trailing_separator {
                Ok(None) => None,
                Ok(Some(t)) => Some(Ok(t)),
                Err(e) => Some(Err(e)),
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
    fn iter(&self) -> std::vec::IntoIter<SyntaxResult<Self::Node>> {
        self.elements().map(|e| e.node).collect::<Vec<_>>().into_iter()
    }
    fn len(&self) -> usize {
        self.syntax_list().len().div_ceil(2)
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn first(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().next()
    }
    fn last(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().next_back()
    }
    fn trailing_separator(&self) -> Option<SyntaxToken<Self::Language>> {
        match self.syntax_list().last()? {
            SyntaxSlot::Token(t) => Some(t),
            _ => None,
        }
    }
}

pub mod support {
    use super::*;
    pub fn node<L: Language, N: AstNode<Language = L>>(parent: &SyntaxNode<L>, slot: usize) -> Option<N> {
        match parent.element_in_slot(slot as u32)? {
            NodeOrToken::Node(n) => Some(N::cast(n).unwrap_or_else(|| panic!("unexpected node in slot {slot} of {:?}", parent.kind()))),
            NodeOrToken::Token(_) => panic!("expected a node in slot {slot} of {:?}", parent.kind()),
        }
    }
    pub fn required_node<L: Language, N: AstNode<Language = L>>(parent: &SyntaxNode<L>, slot: usize) -> SyntaxResult<N> {
        node(parent, slot).ok_or(SyntaxError::MissingRequiredChild)
    }
    pub fn token<L: Language>(parent: &SyntaxNode<L>, slot: usize) -> Option<SyntaxToken<L>> {
        match parent.element_in_slot(slot as u32)? {
            NodeOrToken::Token(t) => Some(t),
            NodeOrToken::Node(_) => panic!("expected a token in slot {slot} of {:?}", parent.kind()),
        }
    }
    pub fn required_token<L: Language>(parent: &SyntaxNode<L>, slot: usize) -> SyntaxResult<SyntaxToken<L>> {
        token(parent, slot).ok_or(SyntaxError::MissingRequiredChild)
    }
    pub fn list<L: Language, N: AstNode<Language = L>>(parent: &SyntaxNode<L>, slot: usize) -> N {
        required_node(parent, slot).unwrap()
    }
}
