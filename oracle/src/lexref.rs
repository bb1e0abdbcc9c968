//! Reference lexer: an independent statement of the lexical rules.

use crate::tree::Pos;

/// Terminal symbols. Fixed ones first (their text is their name), then the classes.
pub const TERMS: &[&str] = &[
    "+", "*", ";", ":", ".", "|", "[", "]", "(", ")", "{", "}", ",", "=>", "->", "=", "&", "<-", ":=", "@", "-", "_",
    "forall", "builtin", "library", "import", "let", "in", "match", "with", "end", "fun", "tfun", "contract",
    "transition", "send", "event", "Event", "field", "accept", "exists", "delete", "throw", "Map", "scilla_version",
    "type", "of", "as", "procedure", "Emp", "ByStr",
    "BYSTRN", "NUMBER", "HEX", "STRING", "ID", "SPID", "CID", "TID",
    "UNKNOWN",
];
pub type T = u8;
pub const FIRST_WORD: usize = 22;
pub const FIRST_CLASS: usize = 51;
pub const BYSTRN: T = 51;
pub const NUMBER: T = 52;
pub const HEX: T = 53;
pub const STRING: T = 54;
pub const ID: T = 55;
pub const SPID: T = 56;
pub const CID: T = 57;
pub const TID: T = 58;
pub const UNKNOWN: T = 59;
pub const UNDERSCORE: T = 21;
pub const MINUS: T = 20;
/// Number of terminals that exist in the grammar (all but UNKNOWN).
pub const NTERM: usize = 59;

pub fn term(name: &str) -> T {
    TERMS.iter().position(|x| *x == name).unwrap_or_else(|| panic!("no terminal {}", name)) as T
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub t: T,
    /// Another class that the rules do not exclude (only next to non-ASCII letters or digits).
    pub alt: Option<T>,
    pub start: Pos,
    pub end: Pos,
    /// The rules leave the end open (unknown tokens).
    pub end_open: bool,
}

impl Tok {
    pub fn text<'a>(&self, src: &'a str) -> &'a str {
        &src[self.start.byte..self.end.byte]
    }
}

#[derive(Clone, Debug, Default)]
pub struct Lexed {
    pub toks: Vec<Tok>,
    /// From this byte on the rules are ambiguous (a string literal without a proper terminator).
    pub open_from: Option<usize>,
}

/// Line and column of byte offsets, computed from the text alone.
pub struct LineIndex {
    starts: Vec<usize>,
}
impl LineIndex {
    pub fn new(src: &str) -> Self {
        let mut starts = vec![0];
        for (i, b) in src.bytes().enumerate() {
            if b == b'\n' {
                starts.push(i + 1);
            }
        }
        LineIndex { starts }
    }
    pub fn pos(&self, byte: usize) -> Pos {
        let line = match self.starts.binary_search(&byte) {
            Ok(i) => i,
            Err(i) => i - 1,
        };
        Pos { byte, line, col: byte - self.starts[line] }
    }
}

fn is_word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_'
}

pub fn lex(src: &str) -> Lexed {
    let li = LineIndex::new(src);
    let b = src.as_bytes();
    let mut out = Lexed::default();
    let mut i = 0;
    let n = b.len();
    let mut push = |t: T, alt: Option<T>, s: usize, e: usize, open: bool| {
        out.toks.push(Tok { t, alt, start: li.pos(s), end: li.pos(e), end_open: open })
    };
    let mut open_from = None;
    while i < n {
        let c = src[i..].chars().next().unwrap();
        if c.is_whitespace() {
            i += c.len_utf8();
            continue;
        }
        let next = if i + 1 < n { b[i + 1] } else { 0 };
        let two: &[u8] = &b[i..(i + 2).min(n)];
        // Comments end at the first terminator and do not nest.
        if two == b"(*" {
            match src[i + 2..].find("*)") {
                Some(k) => {
                    i += 2 + k + 2;
                    continue;
                }
                None => {
                    push(UNKNOWN, None, i, i, true);
                    break;
                }
            }
        }
        let mut len = match two {
            b"=>" | b"->" | b"<-" | b":=" => 2,
            _ => 1,
        };
        if len == 2 {
            push(term(std::str::from_utf8(two).unwrap()), None, i, i + 2, false);
            i += 2;
            continue;
        }
        let mut alt = None;
        let t: T = match c {
            '+' | '*' | ';' | ':' | '.' | '|' | '[' | ']' | '(' | ')' | '{' | '}' | ',' | '&' | '@' | '=' => {
                term(&c.to_string())
            }
            '-' => {
                let digits = b[i + 1..].iter().take_while(|x| x.is_ascii_digit()).count();
                if digits > 0 {
                    len = 1 + digits;
                    NUMBER
                } else {
                    // Not a number either way if a digit of another script follows.
                    if src[i + 1..].chars().next().is_some_and(|x| !x.is_ascii() && x.is_numeric()) {
                        alt = Some(UNKNOWN);
                    }
                    MINUS
                }
            }
            '0' if next == b'x' || next == b'X' => {
                len = 2;
                while i + len + 1 < n && b[i + len].is_ascii_hexdigit() && b[i + len + 1].is_ascii_hexdigit() {
                    len += 2;
                }
                HEX
            }
            '0'..='9' => {
                len = b[i..].iter().take_while(|x| x.is_ascii_digit()).count();
                NUMBER
            }
            '"' => {
                let mut k = i + 1;
                let mut escaped_quote = false;
                let mut close = None;
                while k < n {
                    if b[k] == b'"' {
                        close = Some(k);
                        break;
                    }
                    // A backslash protects the next character, except a line feed.
                    if b[k] == b'\\' && k + 1 < n && b[k + 1] != b'\n' {
                        if b[k + 1] == b'"' {
                            escaped_quote = true;
                        }
                        k += 2;
                    } else {
                        k += 1;
                    }
                }
                match close {
                    Some(k) => {
                        len = k + 1 - i;
                        STRING
                    }
                    None => {
                        if escaped_quote {
                            open_from = Some(i);
                            break;
                        }
                        UNKNOWN
                    }
                }
            }
            '\'' => {
                if next.is_ascii_uppercase() {
                    len = 1 + b[i + 1..].iter().take_while(|x| is_word(**x)).count();
                    TID
                } else {
                    UNKNOWN
                }
            }
            'a'..='z' | 'A'..='Z' | '_' => {
                len = b[i..].iter().take_while(|x| is_word(**x)).count();
                let w = &src[i..i + len];
                let class = if c == '_' {
                    SPID
                } else if c.is_ascii_lowercase() {
                    ID
                } else {
                    CID
                };
                let kw = TERMS[UNDERSCORE as usize..FIRST_CLASS].iter().position(|x| *x == w).map(|k| k as T + UNDERSCORE);
                let sized = w.len() > 5 && w.starts_with("ByStr") && w[5..].bytes().all(|x| x.is_ascii_digit());
                let t = match kw {
                    Some(k) => k,
                    None if sized => BYSTRN,
                    None => class,
                };
                // Next to a non-ASCII letter or digit the text is not a word of the language; it is
                // rejected at that character, and the class of this part does not matter.
                let after = src[i + len..].chars().next();
                if t != class && after.map_or(false, |x| !x.is_ascii() && x.is_alphanumeric()) {
                    alt = Some(class);
                }
                t
            }
            _ => UNKNOWN,
        };
        if t == UNKNOWN {
            push(t, None, i, i, true);
            i += c.len_utf8();
        } else {
            push(t, alt, i, i + len, false);
            i += len;
        }
    }
    out.open_from = open_from;
    out
}

/// Can these two token texts stand next to each other without a separator?
pub fn glue_ok(a: &str, b: &str) -> bool {
    if a.is_empty() || b.is_empty() {
        return true;
    }
    // Long literals only interact at their ends.
    let x = a.as_bytes()[a.len() - 1];
    let y = b.as_bytes()[0];
    if !is_word(x) && !is_word(y) && x < 0x80 && y < 0x80 {
        let j: &[u8] = &[x, y];
        if a.len() == 1 && b.len() == 1 {
            return !matches!(j, b"(*" | b"=>" | b"->" | b"<-" | b":=");
        }
    }
    let s = format!("{}{}", a, b);
    let l = lex(&s);
    l.toks.len() == 2 && l.toks[0].end.byte == a.len() && l.toks[0].alt.is_none() && l.toks[1].start.byte == a.len() && l.toks[1].end.byte == s.len()
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basics() {
        let s = "let x = ByStr20Foo ByStr20 0x123 -5 (* a **) 'A \"a\\\"b\"";
        let k: Vec<_> = lex(s).toks.iter().map(|t| (TERMS[t.t as usize], t.text(s).to_string())).collect();
        assert_eq!(
            format!("{:?}", k),
            r#"[("let", "let"), ("ID", "x"), ("=", "="), ("CID", "ByStr20Foo"), ("BYSTRN", "ByStr20"), ("HEX", "0x12"), ("NUMBER", "3"), ("NUMBER", "-5"), ("TID", "'A"), ("STRING", "\"a\\\"b\"")]"#
        );
    }
}
