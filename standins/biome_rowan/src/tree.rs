//! Immutable lossless syntax trees: one arena per document, shared by its nodes.
use crate::text::*;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::ops::Range;
use std::sync::Arc;

pub trait SyntaxKind: fmt::Debug + Copy + PartialEq + Eq + 'static {
    fn is_list(&self) -> bool;
    fn is_root(&self) -> bool;
    fn is_bogus(&self) -> bool;
    fn is_trivia(self) -> bool;
    fn to_raw(&self) -> RawSyntaxKind;
    fn from_raw(raw: RawSyntaxKind) -> Self;
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct RawSyntaxKind(pub u16);

pub trait Language: Sized + Clone + Copy + fmt::Debug + Eq + Ord + Hash + 'static {
    type Kind: SyntaxKind;
    type Root: crate::ast::AstNode<Language = Self> + Clone + Eq + fmt::Debug;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum TriviaPieceKind {
    Newline,
    Whitespace,
    SingleLineComment,
    MultiLineComment,
    Skipped,
}
impl TriviaPieceKind {
    pub fn is_newline(&self) -> bool {
        *self == Self::Newline
    }
    pub fn is_whitespace(&self) -> bool {
        *self == Self::Whitespace
    }
    pub fn is_comment(&self) -> bool {
        self.is_single_line_comment() || self.is_multiline_comment()
    }
    pub fn is_single_line_comment(&self) -> bool {
        *self == Self::SingleLineComment
    }
    pub fn is_multiline_comment(&self) -> bool {
        *self == Self::MultiLineComment
    }
    pub fn is_skipped(&self) -> bool {
        *self == Self::Skipped
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct TriviaPiece {
    pub kind: TriviaPieceKind,
    pub length: TextSize,
}
impl TriviaPiece {
    pub fn new<L: Into<TextSize>>(kind: TriviaPieceKind, length: L) -> Self {
        TriviaPiece { kind, length: length.into() }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub(crate) enum Slot {
    Empty,
    Node(u32),
    Token(u32),
}
pub(crate) struct NodeData {
    kind: RawSyntaxKind,
    parent: Option<(u32, u32)>,
    slots: Vec<Slot>,
    start: u32,
    end: u32,
}
pub(crate) struct TokenData {
    kind: RawSyntaxKind,
    parent: (u32, u32),
    start: u32,
    end: u32,
    leading: Vec<TriviaPiece>,
    trailing: Vec<TriviaPiece>,
    text_start: u32,
    text_end: u32,
}
pub(crate) struct Tree {
    text: Arc<str>,
    nodes: Vec<NodeData>,
    tokens: Vec<TokenData>,
}

/// Builds a tree in document order.
pub struct TreeBuilder<L: Language> {
    text: Arc<str>,
    offset: u32,
    nodes: Vec<NodeData>,
    tokens: Vec<TokenData>,
    stack: Vec<u32>,
    _l: PhantomData<L>,
}
impl<L: Language> TreeBuilder<L> {
    pub fn new(text: &str) -> Self {
        TreeBuilder { text: text.into(), offset: 0, nodes: vec![], tokens: vec![], stack: vec![], _l: PhantomData }
    }
    pub fn start_node(&mut self, kind: L::Kind) -> &mut Self {
        let id = self.nodes.len() as u32;
        let parent = self.stack.last().map(|&p| {
            let n = &mut self.nodes[p as usize];
            n.slots.push(Slot::Node(id));
            (p, n.slots.len() as u32 - 1)
        });
        self.nodes.push(NodeData { kind: kind.to_raw(), parent, slots: vec![], start: self.offset, end: self.offset });
        self.stack.push(id);
        self
    }
    pub fn finish_node(&mut self) -> &mut Self {
        let id = self.stack.pop().expect("a node is open");
        self.nodes[id as usize].end = self.offset;
        self
    }
    pub fn empty_slot(&mut self) -> &mut Self {
        let p = *self.stack.last().expect("a node is open");
        self.nodes[p as usize].slots.push(Slot::Empty);
        self
    }
    /// The token takes the next bytes of the text: its leading trivia, its text, its trailing trivia.
    pub fn token(&mut self, kind: L::Kind, leading: Vec<TriviaPiece>, len: u32, trailing: Vec<TriviaPiece>) -> &mut Self {
        let p = *self.stack.last().expect("a node is open");
        let id = self.tokens.len() as u32;
        let n = &mut self.nodes[p as usize];
        n.slots.push(Slot::Token(id));
        let lead: u32 = leading.iter().map(|t| u32::from(t.length)).sum();
        let trail: u32 = trailing.iter().map(|t| u32::from(t.length)).sum();
        let start = self.offset;
        self.offset += lead + len + trail;
        self.tokens.push(TokenData {
            kind: kind.to_raw(),
            parent: (p, n.slots.len() as u32 - 1),
            start,
            end: self.offset,
            leading,
            trailing,
            text_start: start + lead,
            text_end: start + lead + len,
        });
        self
    }
    pub fn finish(self) -> SyntaxNode<L> {
        assert!(self.stack.is_empty(), "a node is still open");
        assert_eq!(self.offset as usize, self.text.len(), "the tree covers the text");
        SyntaxNode::new(Arc::new(Tree { text: self.text, nodes: self.nodes, tokens: self.tokens }), 0)
    }
}

pub struct SyntaxNode<L: Language> {
    tree: Arc<Tree>,
    id: u32,
    _l: PhantomData<L>,
}
pub struct SyntaxToken<L: Language> {
    tree: Arc<Tree>,
    id: u32,
    _l: PhantomData<L>,
}
macro_rules! common {
    ($t:ident) => {
        impl<L: Language> Clone for $t<L> {
            fn clone(&self) -> Self {
                $t { tree: self.tree.clone(), id: self.id, _l: PhantomData }
            }
        }
        impl<L: Language> PartialEq for $t<L> {
            fn eq(&self, o: &Self) -> bool {
                self.id == o.id && Arc::ptr_eq(&self.tree, &o.tree)
            }
        }
        impl<L: Language> Eq for $t<L> {}
        impl<L: Language> Hash for $t<L> {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.id.hash(h);
                (Arc::as_ptr(&self.tree) as usize).hash(h);
            }
        }
        impl<L: Language> $t<L> {
            fn new(tree: Arc<Tree>, id: u32) -> Self {
                $t { tree, id, _l: PhantomData }
            }
        }
        // Like the real ones, these do not go from one thread to another.
    };
}
common!(SyntaxNode);
common!(SyntaxToken);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Direction {
    Next,
    Prev,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum WalkEvent<T> {
    Enter(T),
    Leave(T),
}
impl<T> WalkEvent<T> {
    pub fn map<F: FnOnce(T) -> U, U>(self, f: F) -> WalkEvent<U> {
        match self {
            WalkEvent::Enter(x) => WalkEvent::Enter(f(x)),
            WalkEvent::Leave(x) => WalkEvent::Leave(f(x)),
        }
    }
}
#[derive(Clone, Debug)]
pub enum TokenAtOffset<T> {
    None,
    Single(T),
    Between(T, T),
}
impl<T> TokenAtOffset<T> {
    pub fn right_biased(self) -> Option<T> {
        match self {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(n) => Some(n),
            TokenAtOffset::Between(_, r) => Some(r),
        }
    }
    pub fn left_biased(self) -> Option<T> {
        match self {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(n) => Some(n),
            TokenAtOffset::Between(l, _) => Some(l),
        }
    }
    pub fn is_empty(&self) -> bool {
        matches!(self, TokenAtOffset::None)
    }
    pub fn map<U>(self, f: impl Fn(T) -> U) -> TokenAtOffset<U> {
        match self {
            TokenAtOffset::None => TokenAtOffset::None,
            TokenAtOffset::Single(n) => TokenAtOffset::Single(f(n)),
            TokenAtOffset::Between(l, r) => TokenAtOffset::Between(f(l), f(r)),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum NodeOrToken<N, T> {
    Node(N),
    Token(T),
}
impl<N, T> NodeOrToken<N, T> {
    pub fn into_node(self) -> Option<N> {
        match self {
            NodeOrToken::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn into_token(self) -> Option<T> {
        match self {
            NodeOrToken::Token(t) => Some(t),
            _ => None,
        }
    }
    pub fn as_node(&self) -> Option<&N> {
        match self {
            NodeOrToken::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn as_token(&self) -> Option<&T> {
        match self {
            NodeOrToken::Token(t) => Some(t),
            _ => None,
        }
    }
    pub fn is_node(&self) -> bool {
        self.as_node().is_some()
    }
    pub fn is_token(&self) -> bool {
        self.as_token().is_some()
    }
}
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> {
    fn from(n: SyntaxNode<L>) -> Self {
        NodeOrToken::Node(n)
    }
}
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> {
    fn from(t: SyntaxToken<L>) -> Self {
        NodeOrToken::Token(t)
    }
}
impl<N: fmt::Display, T: fmt::Display> fmt::Display for NodeOrToken<N, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            NodeOrToken::Node(n) => fmt::Display::fmt(n, f),
            NodeOrToken::Token(t) => fmt::Display::fmt(t, f),
        }
    }
}
impl<L: Language> NodeOrToken<SyntaxNode<L>, SyntaxToken<L>> {
    pub fn kind(&self) -> L::Kind {
        match self {
            NodeOrToken::Node(n) => n.kind(),
            NodeOrToken::Token(t) => t.kind(),
        }
    }
    pub fn text_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(n) => n.text_range(),
            NodeOrToken::Token(t) => t.text_range(),
        }
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        self.text_range()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(n) => n.text_trimmed_range(),
            NodeOrToken::Token(t) => t.text_trimmed_range(),
        }
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        match self {
            NodeOrToken::Node(n) => n.parent(),
            NodeOrToken::Token(t) => t.parent(),
        }
    }
    pub fn index(&self) -> usize {
        match self {
            NodeOrToken::Node(n) => n.index(),
            NodeOrToken::Token(t) => t.index(),
        }
    }
    pub fn ancestors(&self) -> Box<dyn Iterator<Item = SyntaxNode<L>>> {
        match self {
            NodeOrToken::Node(n) => Box::new(n.ancestors()),
            NodeOrToken::Token(t) => Box::new(t.ancestors()),
        }
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            NodeOrToken::Node(n) => n.next_sibling_or_token(),
            NodeOrToken::Token(t) => t.next_sibling_or_token(),
        }
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            NodeOrToken::Node(n) => n.prev_sibling_or_token(),
            NodeOrToken::Token(t) => t.prev_sibling_or_token(),
        }
    }
    pub fn leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        match self {
            NodeOrToken::Node(n) => n.first_leading_trivia(),
            NodeOrToken::Token(t) => Some(t.leading_trivia()),
        }
    }
    pub fn trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        match self {
            NodeOrToken::Node(n) => n.last_trailing_trivia(),
            NodeOrToken::Token(t) => Some(t.trailing_trivia()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SyntaxSlot<L: Language> {
    Node(SyntaxNode<L>),
    Token(SyntaxToken<L>),
    Empty { index: u32 },
}
impl<L: Language> SyntaxSlot<L> {
    pub fn into_node(self) -> Option<SyntaxNode<L>> {
        match self {
            SyntaxSlot::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn into_token(self) -> Option<SyntaxToken<L>> {
        match self {
            SyntaxSlot::Token(t) => Some(t),
            _ => None,
        }
    }
    pub fn into_syntax_element(self) -> Option<SyntaxElement<L>> {
        match self {
            SyntaxSlot::Node(n) => Some(n.into()),
            SyntaxSlot::Token(t) => Some(t.into()),
            SyntaxSlot::Empty { .. } => None,
        }
    }
    pub fn kind(&self) -> Option<L::Kind> {
        match self {
            SyntaxSlot::Node(n) => Some(n.kind()),
            SyntaxSlot::Token(t) => Some(t.kind()),
            SyntaxSlot::Empty { .. } => None,
        }
    }
}

impl<L: Language> SyntaxNode<L> {
    fn data(&self) -> &NodeData {
        &self.tree.nodes[self.id as usize]
    }
    fn node(&self, id: u32) -> Self {
        SyntaxNode::new(self.tree.clone(), id)
    }
    fn slot(&self, s: Slot) -> Option<SyntaxElement<L>> {
        match s {
            Slot::Empty => None,
            Slot::Node(id) => Some(NodeOrToken::Node(self.node(id))),
            Slot::Token(id) => Some(NodeOrToken::Token(SyntaxToken::new(self.tree.clone(), id))),
        }
    }
    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(self.data().kind)
    }
    pub fn index(&self) -> usize {
        self.data().parent.map_or(0, |p| p.1 as usize)
    }
    pub fn parent(&self) -> Option<Self> {
        self.data().parent.map(|p| self.node(p.0))
    }
    pub fn grand_parent(&self) -> Option<Self> {
        self.parent()?.parent()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = Self> + use<L> {
        std::iter::successors(Some(self.clone()), |n| n.parent())
    }
    pub fn is_list(&self) -> bool {
        self.kind().is_list()
    }
    /// The range with trivia.
    pub fn text_range(&self) -> TextRange {
        TextRange::new(self.data().start.into(), self.data().end.into())
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        self.text_range()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        let range = self.text_range();
        let mut start = range.start();
        let mut end = range.end();
        if let Some(t) = self.first_token() {
            start += t.leading_trivia().text_range().len();
        }
        if let Some(t) = self.last_token() {
            end -= t.trailing_trivia().text_range().len();
        }
        TextRange::new(start, end.max(start))
    }
    pub fn text(&self) -> SyntaxNodeText {
        SyntaxNodeText { text: Text::from_source(self.tree.text.clone(), self.data().start as usize, self.data().end as usize) }
    }
    pub fn text_with_trivia(&self) -> SyntaxNodeText {
        self.text()
    }
    pub fn text_trimmed(&self) -> SyntaxNodeText {
        let r = self.text_trimmed_range();
        SyntaxNodeText { text: Text::from_source(self.tree.text.clone(), r.start().into(), r.end().into()) }
    }
    pub fn slots(&self) -> impl ExactSizeIterator<Item = SyntaxSlot<L>> + DoubleEndedIterator + use<L> {
        let this = self.clone();
        (0..self.data().slots.len()).map(move |i| match this.slot(this.data().slots[i]) {
            Some(NodeOrToken::Node(n)) => SyntaxSlot::Node(n),
            Some(NodeOrToken::Token(t)) => SyntaxSlot::Token(t),
            None => SyntaxSlot::Empty { index: i as u32 },
        })
    }
    pub fn element_in_slot(&self, i: u32) -> Option<SyntaxElement<L>> {
        self.data().slots.get(i as usize).and_then(|s| self.slot(*s))
    }
    pub fn children_with_tokens(&self) -> impl DoubleEndedIterator<Item = SyntaxElement<L>> + use<L> {
        let this = self.clone();
        (0..self.data().slots.len()).filter_map(move |i| this.slot(this.data().slots[i]))
    }
    pub fn children(&self) -> impl DoubleEndedIterator<Item = Self> + use<L> {
        self.children_with_tokens().filter_map(|e| e.into_node())
    }
    pub fn tokens(&self) -> impl DoubleEndedIterator<Item = SyntaxToken<L>> + use<L> {
        self.children_with_tokens().filter_map(|e| e.into_token())
    }
    pub fn first_child(&self) -> Option<Self> {
        self.children().next()
    }
    pub fn last_child(&self) -> Option<Self> {
        self.children().next_back()
    }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().next()
    }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().next_back()
    }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        self.children_with_tokens().find_map(|e| match e {
            NodeOrToken::Node(n) => n.first_token(),
            NodeOrToken::Token(t) => Some(t),
        })
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        self.children_with_tokens().rev().find_map(|e| match e {
            NodeOrToken::Node(n) => n.last_token(),
            NodeOrToken::Token(t) => Some(t),
        })
    }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.first_token().map(|t| t.leading_trivia())
    }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.last_token().map(|t| t.trailing_trivia())
    }
    fn sibling_elements(&self, dir: Direction) -> Vec<SyntaxElement<L>> {
        match self.data().parent {
            None => vec![],
            Some((p, i)) => siblings(&self.node(p), i as usize, dir),
        }
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.sibling_elements(Direction::Next).into_iter().next()
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.sibling_elements(Direction::Prev).into_iter().next()
    }
    pub fn next_sibling(&self) -> Option<Self> {
        self.sibling_elements(Direction::Next).into_iter().find_map(|e| e.into_node())
    }
    pub fn prev_sibling(&self) -> Option<Self> {
        self.sibling_elements(Direction::Prev).into_iter().find_map(|e| e.into_node())
    }
    pub fn siblings_with_tokens(&self, dir: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        std::iter::once(NodeOrToken::Node(self.clone())).chain(self.sibling_elements(dir))
    }
    pub fn siblings(&self, dir: Direction) -> impl Iterator<Item = Self> + use<L> {
        self.siblings_with_tokens(dir).filter_map(|e| e.into_node())
    }
    pub fn preorder_with_tokens(&self, dir: Direction) -> PreorderWithTokens<L> {
        PreorderWithTokens { stack: vec![WalkEvent::Enter(NodeOrToken::Node(self.clone()))], last_entered: 0, dir }
    }
    pub fn preorder(&self) -> Preorder<L> {
        Preorder { inner: self.preorder_with_tokens(Direction::Next) }
    }
    pub fn descendants_with_tokens(&self, dir: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        self.preorder_with_tokens(dir).filter_map(|e| match e {
            WalkEvent::Enter(e) => Some(e),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn descendants(&self) -> impl Iterator<Item = Self> + use<L> {
        self.descendants_with_tokens(Direction::Next).filter_map(|e| e.into_node())
    }
    pub fn descendants_tokens(&self, dir: Direction) -> impl Iterator<Item = SyntaxToken<L>> + use<L> {
        self.descendants_with_tokens(dir).filter_map(|e| e.into_token())
    }
    pub fn has_comments_descendants(&self) -> bool {
        self.descendants_tokens(Direction::Next).any(|t| t.has_trailing_comments() || t.has_leading_comments())
    }
    pub fn has_comments_direct(&self) -> bool {
        self.has_trailing_comments() || self.has_leading_comments()
    }
    pub fn first_or_last_token_have_comments(&self) -> bool {
        self.first_token_has_comments() || self.last_token_has_comments()
    }
    pub fn first_token_has_comments(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_trailing_comments() || t.has_leading_comments())
    }
    pub fn last_token_has_comments(&self) -> bool {
        self.last_token().is_some_and(|t| t.has_trailing_comments() || t.has_leading_comments())
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.last_token().is_some_and(|t| t.has_trailing_comments())
    }
    pub fn has_leading_comments(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_comments())
    }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_non_whitespace_trivia())
    }
    pub fn has_leading_newline(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_newline())
    }
    pub fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken<L>> {
        let range = self.text_range();
        assert!(range.start() <= offset && offset <= range.end(), "Bad offset: range {range:?} offset {offset:?}");
        let mut found = self.descendants_tokens(Direction::Next).filter(|t| {
            let r = t.text_range();
            !r.is_empty() && r.start() <= offset && offset <= r.end()
        });
        match (found.next(), found.next()) {
            (None, _) => TokenAtOffset::None,
            (Some(a), None) => TokenAtOffset::Single(a),
            (Some(a), Some(b)) => TokenAtOffset::Between(a, b),
        }
    }
    pub fn child_or_token_at_range(&self, range: TextRange) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().find(|e| e.text_range().contains_range(range))
    }
    pub fn child_at_range(&self, range: TextRange) -> Option<SyntaxElement<L>> {
        self.child_or_token_at_range(range)
    }
    /// The smallest element whose range (with trivia) contains `range`.
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement<L> {
        let mut res: SyntaxElement<L> = NodeOrToken::Node(self.clone());
        loop {
            assert!(
                res.text_range().contains_range(range),
                "Bad range: node range {:?}, range {range:?}",
                res.text_range()
            );
            res = match &res {
                NodeOrToken::Token(_) => return res,
                NodeOrToken::Node(node) => match node.child_or_token_at_range(range) {
                    Some(it) => it,
                    None => return res,
                },
            };
        }
    }
    pub fn clone_subtree(&self) -> Self {
        self.clone()
    }
    pub fn into_list(self) -> SyntaxList<L> {
        SyntaxList { list: self }
    }
}
fn siblings<L: Language>(parent: &SyntaxNode<L>, i: usize, dir: Direction) -> Vec<SyntaxElement<L>> {
    let slots = &parent.data().slots;
    match dir {
        Direction::Next => slots[i + 1..].iter().filter_map(|s| parent.slot(*s)).collect(),
        Direction::Prev => slots[..i].iter().rev().filter_map(|s| parent.slot(*s)).collect(),
    }
}
impl<L: Language> fmt::Display for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text().as_ref())
    }
}
impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if !f.alternate() {
            return write!(f, "{:?}@{:?}", self.kind(), self.text_range());
        }
        let mut level = 0;
        for event in self.preorder_with_tokens(Direction::Next) {
            match event {
                WalkEvent::Enter(e) => {
                    for _ in 0..level {
                        write!(f, "  ")?;
                    }
                    match e {
                        NodeOrToken::Node(n) => {
                            writeln!(f, "{}: {:?}@{:?}", n.index(), n.kind(), n.text_range())?;
                            level += 1;
                        }
                        NodeOrToken::Token(t) => writeln!(f, "{}: {t:?}", t.index())?,
                    }
                }
                WalkEvent::Leave(NodeOrToken::Node(_)) => level -= 1,
                WalkEvent::Leave(_) => {}
            }
        }
        Ok(())
    }
}

pub struct PreorderWithTokens<L: Language> {
    stack: Vec<WalkEvent<SyntaxElement<L>>>,
    last_entered: usize,
    dir: Direction,
}
impl<L: Language> PreorderWithTokens<L> {
    pub fn skip_subtree(&mut self) {
        self.stack.truncate(self.last_entered);
    }
}
impl<L: Language> Iterator for PreorderWithTokens<L> {
    type Item = WalkEvent<SyntaxElement<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        let e = self.stack.pop()?;
        if let WalkEvent::Enter(x) = &e {
            self.stack.push(WalkEvent::Leave(x.clone()));
            self.last_entered = self.stack.len();
            if let NodeOrToken::Node(n) = x {
                let children = n.children_with_tokens().map(WalkEvent::Enter);
                match self.dir {
                    Direction::Next => self.stack.extend(children.rev()),
                    Direction::Prev => self.stack.extend(children),
                }
            }
        } else {
            self.last_entered = self.stack.len();
        }
        Some(e)
    }
}
pub struct Preorder<L: Language> {
    inner: PreorderWithTokens<L>,
}
impl<L: Language> Preorder<L> {
    pub fn skip_subtree(&mut self) {
        self.inner.skip_subtree();
    }
}
impl<L: Language> Iterator for Preorder<L> {
    type Item = WalkEvent<SyntaxNode<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            match self.inner.next()? {
                WalkEvent::Enter(NodeOrToken::Node(n)) => return Some(WalkEvent::Enter(n)),
                WalkEvent::Leave(NodeOrToken::Node(n)) => return Some(WalkEvent::Leave(n)),
                _ => {}
            }
        }
    }
}

impl<L: Language> SyntaxToken<L> {
    fn data(&self) -> &TokenData {
        &self.tree.tokens[self.id as usize]
    }
    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(self.data().kind)
    }
    pub fn index(&self) -> usize {
        self.data().parent.1 as usize
    }
    pub fn text_range(&self) -> TextRange {
        TextRange::new(self.data().start.into(), self.data().end.into())
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        self.text_range()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        TextRange::new(self.data().text_start.into(), self.data().text_end.into())
    }
    pub fn text(&self) -> &str {
        &self.tree.text[self.data().start as usize..self.data().end as usize]
    }
    pub fn text_with_trivia(&self) -> &str {
        self.text()
    }
    pub fn text_trimmed(&self) -> &str {
        &self.tree.text[self.data().text_start as usize..self.data().text_end as usize]
    }
    pub fn token_text(&self) -> TokenText {
        Text::from_source(self.tree.text.clone(), self.data().start as usize, self.data().end as usize)
    }
    pub fn token_text_trimmed(&self) -> TokenText {
        Text::from_source(self.tree.text.clone(), self.data().text_start as usize, self.data().text_end as usize)
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        Some(SyntaxNode::new(self.tree.clone(), self.data().parent.0))
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::successors(self.parent(), |n| n.parent())
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        siblings(&self.parent()?, self.index(), Direction::Next).into_iter().next()
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        siblings(&self.parent()?, self.index(), Direction::Prev).into_iter().next()
    }
    pub fn siblings_with_tokens(&self, dir: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        let rest = self.parent().map(|p| siblings(&p, self.index(), dir)).unwrap_or_default();
        std::iter::once(NodeOrToken::Token(self.clone())).chain(rest)
    }
    /// Tokens are kept in document order.
    pub fn next_token(&self) -> Option<Self> {
        ((self.id as usize) + 1 < self.tree.tokens.len()).then(|| SyntaxToken::new(self.tree.clone(), self.id + 1))
    }
    pub fn prev_token(&self) -> Option<Self> {
        (self.id > 0).then(|| SyntaxToken::new(self.tree.clone(), self.id - 1))
    }
    pub fn leading_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { token: self.clone(), leading: true }
    }
    pub fn trailing_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { token: self.clone(), leading: false }
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.data().trailing.iter().any(|p| p.kind.is_comment())
    }
    pub fn has_leading_comments(&self) -> bool {
        self.data().leading.iter().any(|p| p.kind.is_comment())
    }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool {
        self.data().leading.iter().any(|p| !p.kind.is_whitespace() && !p.kind.is_newline())
    }
    pub fn has_leading_newline(&self) -> bool {
        self.data().leading.iter().any(|p| p.kind.is_newline())
    }
}
impl<L: Language> fmt::Display for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
impl<L: Language> fmt::Debug for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(
            f,
            "{:?}@{:?} {:?} {:?} {:?}",
            self.kind(),
            self.text_range(),
            self.text_trimmed(),
            self.leading_trivia().pieces().map(|p| p.text().to_string()).collect::<Vec<_>>(),
            self.trailing_trivia().pieces().map(|p| p.text().to_string()).collect::<Vec<_>>()
        )
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTrivia<L: Language> {
    token: SyntaxToken<L>,
    leading: bool,
}
impl<L: Language> SyntaxTrivia<L> {
    fn list(&self) -> &[TriviaPiece] {
        if self.leading { &self.token.data().leading } else { &self.token.data().trailing }
    }
    pub fn text_range(&self) -> TextRange {
        let d = self.token.data();
        if self.leading {
            TextRange::new(d.start.into(), d.text_start.into())
        } else {
            TextRange::new(d.text_end.into(), d.end.into())
        }
    }
    pub fn text(&self) -> &str {
        &self.token.tree.text[self.text_range()]
    }
    pub fn token(&self) -> &SyntaxToken<L> {
        &self.token
    }
    pub fn is_empty(&self) -> bool {
        self.list().is_empty()
    }
    pub fn len(&self) -> usize {
        self.list().len()
    }
    pub fn has_skipped(&self) -> bool {
        self.pieces().any(|p| p.is_skipped())
    }
    pub fn first(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().next()
    }
    pub fn last(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().next_back()
    }
    pub fn pieces(&self) -> impl DoubleEndedIterator<Item = SyntaxTriviaPiece<L>> + ExactSizeIterator + use<L> {
        let mut offset = self.text_range().start();
        let mut v = vec![];
        for p in self.list() {
            v.push(SyntaxTriviaPiece { token: self.token.clone(), kind: p.kind, range: TextRange::at(offset, p.length) });
            offset += p.length;
        }
        v.into_iter()
    }
}
impl<L: Language> fmt::Debug for SyntaxTrivia<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.pieces()).finish()
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPiece<L: Language> {
    token: SyntaxToken<L>,
    kind: TriviaPieceKind,
    range: TextRange,
}
impl<L: Language> SyntaxTriviaPiece<L> {
    pub fn kind(&self) -> TriviaPieceKind {
        self.kind
    }
    pub fn text(&self) -> &str {
        &self.token.tree.text[self.range]
    }
    pub fn text_len(&self) -> TextSize {
        self.range.len()
    }
    pub fn text_range(&self) -> TextRange {
        self.range
    }
    pub fn token(&self) -> SyntaxToken<L> {
        self.token.clone()
    }
    pub fn is_newline(&self) -> bool {
        self.kind.is_newline()
    }
    pub fn is_whitespace(&self) -> bool {
        self.kind.is_whitespace()
    }
    pub fn is_comments(&self) -> bool {
        self.kind.is_comment()
    }
    pub fn is_skipped(&self) -> bool {
        self.kind.is_skipped()
    }
    pub fn as_newline(&self) -> Option<SyntaxTriviaPieceNewline<L>> {
        self.is_newline().then(|| SyntaxTriviaPieceNewline(self.clone()))
    }
    pub fn as_whitespace(&self) -> Option<SyntaxTriviaPieceWhitespace<L>> {
        self.is_whitespace().then(|| SyntaxTriviaPieceWhitespace(self.clone()))
    }
    pub fn as_comments(&self) -> Option<SyntaxTriviaPieceComments<L>> {
        self.is_comments().then(|| SyntaxTriviaPieceComments(self.clone()))
    }
    pub fn as_skipped(&self) -> Option<SyntaxTriviaPieceSkipped<L>> {
        self.is_skipped().then(|| SyntaxTriviaPieceSkipped(self.clone()))
    }
}
impl<L: Language> fmt::Debug for SyntaxTriviaPiece<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}({:?})", self.kind, self.text())
    }
}
macro_rules! piece {
    ($($t:ident)*) => {$(
        #[derive(Clone, PartialEq, Eq, Hash, Debug)]
        pub struct $t<L: Language>(SyntaxTriviaPiece<L>);
        impl<L: Language> $t<L> {
            pub fn text(&self) -> &str { self.0.text() }
            pub fn text_len(&self) -> TextSize { self.0.text_len() }
            pub fn text_range(&self) -> TextRange { self.0.text_range() }
            pub fn as_piece(&self) -> &SyntaxTriviaPiece<L> { &self.0 }
            pub fn into_piece(self) -> SyntaxTriviaPiece<L> { self.0 }
        }
    )*};
}
piece! { SyntaxTriviaPieceNewline SyntaxTriviaPieceWhitespace SyntaxTriviaPieceComments SyntaxTriviaPieceSkipped }
impl<L: Language> SyntaxTriviaPieceComments<L> {
    pub fn has_newline(&self) -> bool {
        self.0.kind.is_multiline_comment()
    }
}

#[derive(Clone)]
pub struct SyntaxNodeText {
    text: Text,
}
impl SyntaxNodeText {
    pub fn len(&self) -> TextSize {
        self.text.len()
    }
    pub fn is_empty(&self) -> bool {
        self.text.is_empty()
    }
    pub fn contains_char(&self, c: char) -> bool {
        self.text.contains(c)
    }
    pub fn find_char(&self, c: char) -> Option<TextSize> {
        self.text.find(c).map(|i| (i as u32).into())
    }
    pub fn char_at(&self, offset: TextSize) -> Option<char> {
        self.text.get(usize::from(offset)..)?.chars().next()
    }
    pub fn chars(&self) -> impl Iterator<Item = char> + '_ {
        self.text.chars()
    }
    pub fn slice(&self, range: TextRange) -> SyntaxNodeText {
        SyntaxNodeText { text: self.text.slice(range) }
    }
    pub fn into_text(self) -> Text {
        self.text
    }
    pub fn for_each_chunk<F: FnMut(&str)>(&self, mut f: F) {
        f(&self.text)
    }
    pub fn try_for_each_chunk<F: FnMut(&str) -> Result<(), E>, E>(&self, mut f: F) -> Result<(), E> {
        f(&self.text)
    }
    pub fn try_fold_chunks<T, F: FnMut(T, &str) -> Result<T, E>, E>(&self, init: T, mut f: F) -> Result<T, E> {
        f(init, &self.text)
    }
}
impl AsRef<str> for SyntaxNodeText {
    fn as_ref(&self) -> &str {
        &self.text
    }
}
impl fmt::Display for SyntaxNodeText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self.text.text(), f)
    }
}
impl fmt::Debug for SyntaxNodeText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self.text.text(), f)
    }
}
impl From<SyntaxNodeText> for String {
    fn from(t: SyntaxNodeText) -> String {
        t.to_string()
    }
}
impl PartialEq<str> for SyntaxNodeText {
    fn eq(&self, o: &str) -> bool {
        self.text.text() == o
    }
}
impl PartialEq<&str> for SyntaxNodeText {
    fn eq(&self, o: &&str) -> bool {
        self.text.text() == *o
    }
}
impl PartialEq<SyntaxNodeText> for str {
    fn eq(&self, o: &SyntaxNodeText) -> bool {
        self == o.text.text()
    }
}
impl PartialEq<SyntaxNodeText> for &str {
    fn eq(&self, o: &SyntaxNodeText) -> bool {
        *self == o.text.text()
    }
}
impl PartialEq<String> for SyntaxNodeText {
    fn eq(&self, o: &String) -> bool {
        self.text.text() == o
    }
}
impl PartialEq for SyntaxNodeText {
    fn eq(&self, o: &Self) -> bool {
        self.text == o.text
    }
}
impl Eq for SyntaxNodeText {}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SyntaxList<L: Language> {
    list: SyntaxNode<L>,
}
impl<L: Language> SyntaxList<L> {
    pub fn len(&self) -> usize {
        self.list.data().slots.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn iter(&self) -> impl ExactSizeIterator<Item = SyntaxSlot<L>> + DoubleEndedIterator + use<L> {
        self.list.slots()
    }
    pub fn first(&self) -> Option<SyntaxSlot<L>> {
        self.list.slots().next()
    }
    pub fn last(&self) -> Option<SyntaxSlot<L>> {
        self.list.slots().next_back()
    }
    pub fn node(&self) -> &SyntaxNode<L> {
        &self.list
    }
    pub fn into_node(self) -> SyntaxNode<L> {
        self.list
    }
}
#[allow(unused)]
type _R = Range<u32>;
