//! R code as a tree without layout, comments and parentheses that only group: what it means.

use air_r_parser::{RParserOptions, parse};
use air_r_syntax::{RSyntaxKind, RSyntaxNode};
use biome_rowan::SyntaxKind;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tree {
    Leaf(String),
    Node(RSyntaxKind, Vec<Tree>),
}

fn of(n: &RSyntaxNode) -> Tree {
    let k = n.kind();
    if matches!(k, RSyntaxKind::R_PARENTHESIZED_EXPRESSION) {
        if let Some(c) = n.children().next() {
            return of(&c);
        }
    }
    let mut v = vec![];
    for c in n.children_with_tokens() {
        if let Some(c) = c.as_node() {
            v.push(of(c));
        } else if let Some(t) = c.as_token() {
            let t = t.text_trimmed();
            if !t.is_empty() && t != ";" {
                v.push(Tree::Leaf(t.to_string()));
            }
        }
    }
    if v.len() == 1 && !k.is_list() {
        return v.pop().unwrap();
    }
    Tree::Node(k, v)
}

/// None: a syntax error.
pub fn tree(t: &str) -> Option<Tree> {
    let p = parse(t, RParserOptions::default());
    (!p.has_error()).then(|| of(&p.syntax()))
}

impl Tree {
    /// The tree with what stands for each name in place of it.
    pub fn fill(&self, with: &HashMap<String, Tree>) -> Tree {
        match self {
            Tree::Leaf(s) => with.get(s).cloned().unwrap_or_else(|| self.clone()),
            Tree::Node(k, v) => Tree::Node(*k, v.iter().map(|c| c.fill(with)).collect()),
        }
    }
    pub fn count(&self, what: &Tree) -> usize {
        usize::from(self == what) + if let Tree::Node(_, v) = self { v.iter().map(|c| c.count(what)).sum() } else { 0 }
    }
    /// As an expression, roughly.
    pub fn show(&self) -> String {
        match self {
            Tree::Leaf(s) => s.clone(),
            Tree::Node(k, v) => {
                let s = v.iter().map(Tree::show).collect::<Vec<_>>().join(" ");
                if k.is_list() || v.len() < 2 { s } else { format!("⟨{s}⟩") }
            }
        }
    }
}

/// The tree of one expression.
pub fn expr(t: &str) -> Option<Tree> {
    let Tree::Node(RSyntaxKind::R_EXPRESSION_LIST, mut es) = tree(t)? else { return None };
    if es.len() == 1 { es.pop() } else { None }
}
