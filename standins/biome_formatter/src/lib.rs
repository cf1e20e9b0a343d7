//! Stand-in for biome_formatter: comment attachment only.
use std::collections::HashMap;
use std::rc::Rc;
use biome_rowan::{
    Direction, Language, NodeOrToken, SyntaxNode, SyntaxToken,
    SyntaxTriviaPieceComments, WalkEvent,
};

#[derive(Debug, Clone, Default)]
pub struct TransformSourceMap;

pub mod comments {
    pub use super::*;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CommentKind {
        InlineBlock,
        Block,
        Line,
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CommentTextPosition {
        EndOfLine,
        OwnLine,
        SameLine,
    }

    #[derive(Debug, Clone)]
    pub struct SourceComment<L: Language> {
        piece: SyntaxTriviaPieceComments<L>,
        kind: CommentKind,
        lines_before: u32,
    }
    impl<L: Language> SourceComment<L> {
        pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
            &self.piece
        }
        pub fn kind(&self) -> CommentKind {
            self.kind
        }
        pub fn lines_before(&self) -> u32 {
            self.lines_before
        }
    }

    #[derive(Debug, Clone)]
    pub struct DecoratedComment<L: Language> {
        enclosing: SyntaxNode<L>,
        preceding: Option<SyntaxNode<L>>,
        following: Option<SyntaxNode<L>>,
        following_token: Option<SyntaxToken<L>>,
        position: CommentTextPosition,
        lines_before: u32,
        piece: SyntaxTriviaPieceComments<L>,
        kind: CommentKind,
    }
    impl<L: Language> DecoratedComment<L> {
        pub fn enclosing_node(&self) -> &SyntaxNode<L> {
            &self.enclosing
        }
        pub fn preceding_node(&self) -> Option<&SyntaxNode<L>> {
            self.preceding.as_ref()
        }
        pub fn following_node(&self) -> Option<&SyntaxNode<L>> {
            self.following.as_ref()
        }
        pub fn following_token(&self) -> Option<&SyntaxToken<L>> {
            self.following_token.as_ref()
        }
        pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
            &self.piece
        }
        pub fn text_position(&self) -> CommentTextPosition {
            self.position
        }
        pub fn lines_before(&self) -> u32 {
            self.lines_before
        }
        pub fn kind(&self) -> CommentKind {
            self.kind
        }
    }
    impl<L: Language> From<DecoratedComment<L>> for SourceComment<L> {
        fn from(d: DecoratedComment<L>) -> Self {
            SourceComment { piece: d.piece, kind: d.kind, lines_before: d.lines_before }
        }
    }

    #[derive(Debug)]
    pub enum CommentPlacement<L: Language> {
        Leading { node: SyntaxNode<L>, comment: SourceComment<L> },
        Trailing { node: SyntaxNode<L>, comment: SourceComment<L> },
        Dangling { node: SyntaxNode<L>, comment: SourceComment<L> },
        Default(DecoratedComment<L>),
    }
    impl<L: Language> CommentPlacement<L> {
        pub fn leading(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
            Self::Leading { node, comment: comment.into() }
        }
        pub fn trailing(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
            Self::Trailing { node, comment: comment.into() }
        }
        pub fn dangling(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
            Self::Dangling { node, comment: comment.into() }
        }
        pub fn or_else<F: FnOnce(DecoratedComment<L>) -> CommentPlacement<L>>(self, f: F) -> Self {
            match self {
                Self::Default(c) => f(c),
                p => p,
            }
        }
    }

    pub trait CommentStyle: Default {
        type Language: Language;
        fn is_suppression(_text: &str) -> bool {
            false
        }
        fn get_comment_kind(comment: &SyntaxTriviaPieceComments<Self::Language>) -> CommentKind;
        fn place_comment(
            &self,
            comment: DecoratedComment<Self::Language>,
        ) -> CommentPlacement<Self::Language> {
            CommentPlacement::Default(comment)
        }
    }

    #[derive(Debug, Clone)]
    struct Parts<L: Language> {
        leading: Vec<SourceComment<L>>,
        trailing: Vec<SourceComment<L>>,
        dangling: Vec<SourceComment<L>>,
    }

    #[derive(Debug, Clone)]
    pub struct Comments<L: Language> {
        data: Rc<HashMap<SyntaxNode<L>, Parts<L>>>,
    }
    impl<L: Language> Default for Comments<L> {
        fn default() -> Self {
            Self { data: Rc::default() }
        }
    }
    impl<L: Language> Comments<L> {
        pub fn from_node<S: CommentStyle<Language = L>>(
            root: &SyntaxNode<L>,
            style: &S,
            _source_map: Option<&TransformSourceMap>,
        ) -> Self {
            let mut v = Visitor {
                style,
                data: HashMap::new(),
                pending: vec![],
                parents: vec![],
                preceding: None,
                following_index: None,
                last_token: None,
            };
            for ev in root.preorder_with_tokens(Direction::Next) {
                match ev {
                    WalkEvent::Enter(NodeOrToken::Node(n)) => v.enter(n),
                    WalkEvent::Leave(NodeOrToken::Node(n)) => v.leave(n),
                    WalkEvent::Enter(NodeOrToken::Token(t)) => v.token(t),
                    WalkEvent::Leave(NodeOrToken::Token(_)) => {}
                }
            }
            v.flush(None);
            Self { data: Rc::new(v.data) }
        }
        pub fn leading_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
            self.data.get(node).map_or(&[], |p| &p.leading)
        }
        pub fn trailing_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
            self.data.get(node).map_or(&[], |p| &p.trailing)
        }
        pub fn dangling_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
            self.data.get(node).map_or(&[], |p| &p.dangling)
        }
        pub fn has_comments(&self, node: &SyntaxNode<L>) -> bool {
            self.data.contains_key(node)
        }
        pub fn has_leading_comments(&self, node: &SyntaxNode<L>) -> bool {
            !self.leading_comments(node).is_empty()
        }
        pub fn has_trailing_comments(&self, node: &SyntaxNode<L>) -> bool {
            !self.trailing_comments(node).is_empty()
        }
        pub fn has_dangling_comments(&self, node: &SyntaxNode<L>) -> bool {
            !self.dangling_comments(node).is_empty()
        }
        pub fn leading_dangling_trailing_comments<'a>(
            &'a self,
            node: &SyntaxNode<L>,
        ) -> impl Iterator<Item = &'a SourceComment<L>> + use<'a, L> {
            self.data
                .get(node)
                .into_iter()
                .flat_map(|p| p.leading.iter().chain(&p.dangling).chain(&p.trailing))
        }
    }

    struct Visitor<'a, S: CommentStyle> {
        style: &'a S,
        data: HashMap<SyntaxNode<S::Language>, Parts<S::Language>>,
        pending: Vec<DecoratedComment<S::Language>>,
        parents: Vec<SyntaxNode<S::Language>>,
        preceding: Option<SyntaxNode<S::Language>>,
        following_index: Option<usize>,
        last_token: Option<SyntaxToken<S::Language>>,
    }
    impl<S: CommentStyle> Visitor<'_, S> {
        fn enter(&mut self, node: SyntaxNode<S::Language>) {
            if node.is_list() {
                return;
            }
            if matches!(self.following_index, None | Some(0)) {
                self.flush(Some(node.clone()));
                self.following_index = Some(self.parents.len());
            }
            self.parents.push(node);
        }
        fn leave(&mut self, node: SyntaxNode<S::Language>) {
            if node.is_list() {
                return;
            }
            self.parents.pop();
            self.following_index = None;
            self.flush(None);
            self.preceding = Some(node);
        }
        fn token(&mut self, token: SyntaxToken<S::Language>) {
            let enclosing = match self.following_index {
                None => self.parents.last(),
                Some(0) => self.parents.first(),
                Some(i) => self.parents.get(i - 1),
            }
            .cloned();
            let Some(enclosing) = enclosing else { return };
            let first = self.pending.len();
            let mut eol_end = None;
            let mut lines_before = 0;
            let mut position = CommentTextPosition::SameLine;
            let trailing = self.last_token.take().map(|t| t.trailing_trivia());
            let trailing: Vec<_> = trailing.into_iter().flat_map(|t| t.pieces()).collect();
            for p in trailing.into_iter().chain(token.leading_trivia().pieces()) {
                if p.is_newline() {
                    lines_before += 1;
                    position = CommentTextPosition::OwnLine;
                    eol_end.get_or_insert(self.pending.len());
                } else if let Some(piece) = p.as_comments() {
                    self.pending.push(DecoratedComment {
                        enclosing: enclosing.clone(),
                        preceding: self.preceding.clone(),
                        following: None,
                        following_token: Some(token.clone()),
                        position,
                        lines_before,
                        kind: S::get_comment_kind(&piece),
                        piece,
                    });
                    lines_before = 0;
                }
            }
            for c in &mut self.pending[first..eol_end.unwrap_or(first)] {
                c.position = CommentTextPosition::EndOfLine;
            }
            if let Some(i) = self.following_index.take() {
                let following = self.parents[i].clone();
                self.flush(Some(following));
                self.preceding = None;
            }
            self.last_token = Some(token);
        }
        fn parts(&mut self, node: SyntaxNode<S::Language>) -> &mut Parts<S::Language> {
            self.data.entry(node).or_insert_with(|| Parts {
                leading: vec![],
                trailing: vec![],
                dangling: vec![],
            })
        }
        fn flush(&mut self, following: Option<SyntaxNode<S::Language>>) {
            for mut c in std::mem::take(&mut self.pending) {
                c.following = following.clone();
                match self.style.place_comment(c) {
                    CommentPlacement::Leading { node, comment } => self.parts(node).leading.push(comment),
                    CommentPlacement::Trailing { node, comment } => self.parts(node).trailing.push(comment),
                    CommentPlacement::Dangling { node, comment } => self.parts(node).dangling.push(comment),
                    CommentPlacement::Default(mut c) => {
                        let (pre, post) = (c.preceding.take(), c.following.take());
                        let enclosing = c.enclosing.clone();
                        let position = c.position;
                        let at = c.piece.text_range();
                        let comment: SourceComment<S::Language> = c.into();
                        match (position, pre, post) {
                            (CommentTextPosition::EndOfLine, Some(n), _)
                            | (CommentTextPosition::OwnLine, Some(n), None)
                            | (CommentTextPosition::SameLine, Some(n), None) => {
                                self.parts(n).trailing.push(comment)
                            }
                            (CommentTextPosition::EndOfLine, None, Some(n))
                            | (CommentTextPosition::OwnLine, _, Some(n))
                            | (CommentTextPosition::SameLine, None, Some(n)) => {
                                self.parts(n).leading.push(comment)
                            }
                            (CommentTextPosition::SameLine, Some(p), Some(f)) => {
                                if p.text_range().end() >= at.start() {
                                    self.parts(p).trailing.push(comment)
                                } else {
                                    self.parts(f).leading.push(comment)
                                }
                            }
                            (_, None, None) => self.parts(enclosing).dangling.push(comment),
                        }
                    }
                }
            }
        }
    }

}
