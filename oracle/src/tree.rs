//! Neutral syntax tree, produced by the reference grammar and by reading the real tree.

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Pos {
    pub byte: usize,
    pub line: usize,
    pub col: usize,
}

#[derive(Clone, Debug)]
pub struct Tree {
    /// "NodeKind::Alternative", or "leaf" for a piece of source text.
    pub kind: &'static str,
    pub text: Option<String>,
    /// Start and end, if the node carries positions.
    pub span: Option<(Pos, Pos)>,
    /// Range of token indices (reference trees only; first..last inclusive).
    pub toks: (usize, usize),
    pub ch: Vec<Tree>,
    /// Address of the real node (real trees only).
    pub ptr: usize,
}

pub const LEAF: &str = "leaf";

impl Tree {
    pub fn node(kind: &'static str, ch: Vec<Tree>) -> Tree {
        Tree { kind, text: None, span: None, toks: (0, 0), ch, ptr: 0 }
    }
    pub fn leaf(text: &str) -> Tree {
        Tree { kind: LEAF, text: Some(text.to_string()), span: None, toks: (0, 0), ch: vec![], ptr: 0 }
    }
    pub fn is_leaf(&self) -> bool {
        self.kind == LEAF
    }
    /// "TypeNameIdentifier" of "TypeNameIdentifier::EventType" or "AddressType/contract".
    pub fn node_type(&self) -> &'static str {
        node_type(self.kind)
    }
    pub fn count(&self) -> usize {
        1 + self.ch.iter().map(|c| c.count()).sum::<usize>()
    }
    pub fn render(&self, out: &mut String, depth: usize, spans: bool) {
        for _ in 0..depth {
            out.push_str("  ");
        }
        out.push_str(self.kind);
        if let Some(t) = &self.text {
            out.push_str(&format!(" {:?}", t));
        }
        if spans {
            if let Some((a, b)) = self.span {
                out.push_str(&format!(" @{}:{}:{}..{}:{}:{}", a.byte, a.line, a.col, b.byte, b.line, b.col));
            }
        }
        out.push('\n');
        for c in &self.ch {
            c.render(out, depth + 1, spans);
        }
    }
    pub fn find<'a>(&'a self, ty: &str) -> Option<&'a Tree> {
        self.ch.iter().find(|c| c.node_type() == ty)
    }
    pub fn find_all<'a>(&'a self, ty: &'a str) -> impl Iterator<Item = &'a Tree> + 'a {
        self.ch.iter().filter(move |c| c.node_type() == ty)
    }
}

pub fn node_type(kind: &'static str) -> &'static str {
    let mut n = kind.len();
    if let Some(i) = kind.find("::") {
        n = n.min(i);
    }
    if let Some(i) = kind.find('/') {
        n = n.min(i);
    }
    &kind[..n]
}

pub fn render_forest(f: &[Tree], spans: bool) -> String {
    let mut s = String::new();
    for t in f {
        t.render(&mut s, 0, spans);
    }
    s
}

/// First structural difference (kind, text, children), as a path and a description.
pub fn diff_shape(want: &[Tree], got: &[Tree]) -> Option<String> {
    fn go(path: &mut Vec<String>, w: &[Tree], g: &[Tree]) -> Option<String> {
        for i in 0..w.len().max(g.len()) {
            match (w.get(i), g.get(i)) {
                (Some(a), Some(b)) => {
                    if a.kind != b.kind || a.text != b.text {
                        return Some(format!(
                            "at {}[{}]: expected {} {:?}, got {} {:?}",
                            path.join("/"), i, a.kind, a.text, b.kind, b.text
                        ));
                    }
                    path.push(format!("{}[{}]", a.kind, i));
                    let r = go(path, &a.ch, &b.ch);
                    path.pop();
                    if r.is_some() {
                        return r;
                    }
                }
                (Some(a), None) => return Some(format!("at {}[{}]: {} is missing", path.join("/"), i, a.kind)),
                (None, Some(b)) => return Some(format!("at {}[{}]: unexpected {}", path.join("/"), i, b.kind)),
                (None, None) => {}
            }
        }
        None
    }
    go(&mut vec![], want, got)
}

/// First span difference between two trees of equal shape.
pub fn diff_spans(want: &[Tree], got: &[Tree]) -> Option<String> {
    for (a, b) in want.iter().zip(got) {
        if let (Some(x), Some(y)) = (a.span, b.span) {
            if x != y {
                return Some(format!("span of {} {:?}: expected {:?}, got {:?}", a.kind, a.text, x, y));
            }
        } else if a.span.is_some() != b.span.is_some() && a.kind != LEAF {
            return Some(format!("{}: node positions expected {:?}, got {:?}", a.kind, a.span, b.span));
        }
        if let Some(d) = diff_spans(&a.ch, &b.ch) {
            return Some(d);
        }
    }
    None
}
