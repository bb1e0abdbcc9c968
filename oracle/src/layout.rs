//! Turning token sequences into texts with all kinds of white space and comments between the tokens.

use crate::gen::GTok;
use crate::lexref::{glue_ok, lex, LineIndex, HEX};
use crate::rng::Rng;
use crate::tree::{Pos, Tree};

#[derive(Clone, Debug)]
pub struct Laid {
    pub text: String,
    /// Start and end position of every token.
    pub pos: Vec<(Pos, Pos)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// One space between tokens.
    Plain,
    /// Nothing where nothing is needed.
    Tight,
    Lines,
    Crlf,
    /// Any mixture of white space and comments.
    Wild,
}

pub const SPACES: &[&str] = &[
    " ", " ", " ", "  ", "\t", "\n", "\n\n", "\r\n", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2003}", "\u{2028}", "\u{2029}", "\u{3000}", "\u{1680}", "\u{202f}",
];
pub const COMMENTS: &[&str] = &[
    "(**)", "(***)", "(* c *)", "(*x*)", "(* a\nb *)", "(*\r\n*)", "(* \" *)", "(* (* *)", "(* end *)", "(* contract Foo () *)", "(** doc **)", "(*)*)", "(* \u{e9}\u{1F980} *)",
    "(* ' *)", "(* \\ *)", "(*\n\n\n*)", "(* * ) *)", "(*\u{3000}*)", "(* field x : Int32 = y *)", "(* := => <- -> *)", "(*(*)", "(****)", "(* \"*)",
];

/// A comment made of pieces that mean something to a lexer.
pub fn comment(r: &mut Rng) -> String {
    let pieces = ["(", "(", ")", "*", "(*", "(*", " ", " ", "\n", "-", "--", "\"", "\\", "a", "end", "1", "0x", "'", "_", "\u{e9}", "=>", "/", "|", ";", "//", "{", "#"];
    loop {
        let mut s = "(*".to_string();
        let few = if r.chance(1, 2) { 8 } else { pieces.len() };
        for _ in 0..r.range(0, 7) {
            s.push_str(pieces[r.below(few)]);
        }
        s.push_str("*)");
        if s[2..].find("*)") == Some(s.len() - 4) {
            return s;
        }
    }
}

/// A separator; may be empty unless `need`.
pub fn separator(r: &mut Rng, need: bool) -> String {
    let mut s = String::new();
    match r.below(8) {
        0 | 1 if !need => {}
        2..=5 => s.push_str(*r.pick(SPACES)),
        _ => {
            for _ in 0..1 + r.geo(1, 2, 6) {
                match r.below(4) {
                    0 => s.push_str(*r.pick(COMMENTS)),
                    1 => s.push_str(&comment(r)),
                    _ => s.push_str(*r.pick(SPACES)),
                }
            }
            if r.chance(1, 300) {
                let unit = *r.pick(&[" ", "\n", "(* *)", "\t", "(* xx\n *)"]);
                for _ in 0..r.range(50, 600) {
                    s.push_str(unit);
                }
            }
        }
    }
    if s.is_empty() && need {
        s.push(' ');
    }
    s
}

pub fn layout(toks: &[GTok], mode: Mode, r: &mut Rng) -> Laid {
    let mut text = String::new();
    let mut at = vec![];
    if mode == Mode::Wild {
        text.push_str(&separator(r, false));
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            // A hexadecimal literal could absorb the digits of two following tokens.
            let digit = t.text.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_');
            let need = (toks[i - 1].t == HEX && digit) || !glue_ok(&toks[i - 1].text, &t.text);
            match mode {
                Mode::Plain => text.push(' '),
                Mode::Tight => {
                    if need {
                        text.push(' ')
                    }
                }
                Mode::Lines => text.push('\n'),
                Mode::Crlf => text.push_str("\r\n"),
                Mode::Wild => text.push_str(&separator(r, need)),
            }
        }
        let s = text.len();
        text.push_str(&t.text);
        at.push((s, text.len()));
    }
    if mode == Mode::Wild || (mode != Mode::Tight && r.chance(1, 2)) {
        text.push_str(&separator(r, false));
    }
    let li = LineIndex::new(&text);
    let pos = at.iter().map(|(a, b)| (li.pos(*a), li.pos(*b))).collect();
    Laid { text, pos }
}

pub fn any_mode(r: &mut Rng) -> Mode {
    *r.pick(&[Mode::Plain, Mode::Tight, Mode::Lines, Mode::Crlf, Mode::Wild, Mode::Wild, Mode::Wild])
}

/// The layout really consists of the intended tokens, by the lexical rules.
pub fn self_check(toks: &[GTok], l: &Laid) -> Result<(), String> {
    let lexed = lex(&l.text);
    if lexed.open_from.is_some() || lexed.toks.len() != toks.len() {
        return Err(format!("layout has {} tokens instead of {}: {:?}", lexed.toks.len(), toks.len(), l.text));
    }
    for (i, t) in lexed.toks.iter().enumerate() {
        if t.t != toks[i].t || t.alt.is_some() || (t.start, t.end) != l.pos[i] {
            return Err(format!("token {} of the layout is {:?}, intended {:?}", i, t, toks[i]));
        }
    }
    Ok(())
}

/// Gives every node the positions of its first and last token.
pub fn place(forest: &mut [Tree], pos: &[(Pos, Pos)], nospan: &dyn Fn(&str) -> bool) {
    for t in forest {
        if !nospan(t.node_type()) {
            t.span = Some((pos[t.toks.0].0, pos[t.toks.1].1));
        }
        place(&mut t.ch, pos, nospan);
    }
}
