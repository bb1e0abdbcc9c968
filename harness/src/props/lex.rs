//! C06 and C07: the token stream.

use super::{long, source};
use crate::core::*;
use crate::real::{from_token, lex_all};
use crate::shape::sp;
use oracle::gen::GTok;
use oracle::layout::{self, any_mode};
use oracle::lexref::{lex, LineIndex, FIRST_CLASS, NTERM, TERMS, UNKNOWN};
use oracle::mutate;
use oracle::rng::Rng;
use scilla_parser::parser::lexer::{SourcePosition, Token};

type Toks<'a> = Vec<(SourcePosition, Token<&'a str>, SourcePosition)>;

pub const ALPHA: &[&str] = &[
    "(", "*", ")", "\"", "\\", "-", ">", "<", "=", ":", "_", "'", "0", "x", "1", "a", "A", "\n", "\r", " ", "\u{e9}", "\u{3000}", ".", "B", "+", "\u{b2}", "n",
];

/// Words whose every neighbour is tried.
fn words() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = TERMS[..FIRST_CLASS].to_vec();
    v.extend(["ByStr20", "ByStr0", "ByStr007", "12", "-7", "0x", "0xaB", "0X12", "\"s\"", "\"\\\"\"", "abc", "_x", "Abc", "'A", "(* c *)", "(**)", "\u{e9}", "$"]);
    v
}

pub const NB: usize = 27;

pub fn blocks(ctx: &Ctx) -> u64 {
    // Strings over ALPHA by their first two characters; neighbours of every word; the contracts; long ones.
    (NB * NB) as u64 + words().len() as u64 + ctx.corpus.len() as u64 + 20 + (long::LAYOUT.len() + long::TOKENS.len()) as u64 + (PREFIXES * FAR_PARTS) as u64 + FAR_PARTS as u64
}

fn long_text(k: u64, r: &mut Rng) -> String {
    match k {
        0 => format!("{}contract", "\n".repeat(70_000)),
        1 => format!("{}contract x", " ".repeat(70_000)),
        2 => format!("(*{}*) a", "\n".repeat(66_000)),
        3 => format!("\"{}\" a", "x".repeat(70_000)),
        4 => format!("\"{}\" a", "\n\u{e9}".repeat(30_000)),
        5 => format!("{} b", "a".repeat(70_000)),
        6 => format!("{} b", "7".repeat(70_000)),
        7 => format!("0x{} b", "aB".repeat(40_000)),
        8 => format!("{} b", "\u{e9}".repeat(300)),
        9 => format!("{}", "(* x *)".repeat(3_000)),
        10 => format!("{}a", "\r\n".repeat(33_000)),
        11 => format!("{}a", "\u{3000}\u{2028}".repeat(22_000)),
        12 => "x \n".repeat(700),
        13 => "(".repeat(3000) + &")".repeat(3000),
        14 => "* ".repeat(3000),
        15 => "-".repeat(3000) + ">",
        16 => format!("(*{}*) a", "(*".repeat(3000)),
        17 => format!("(*{}", "*".repeat(30_000)),
        18 => "\"\\\"\" ".repeat(300),
        _ => (0..700).map(|_| *r.pick(ALPHA)).collect(),
    }
}

pub const PREFIXES: usize = 7;
const FAR_PARTS: usize = 16;

/// What may stand in front of any text without a meaning of its own.
pub fn prefix(k: usize) -> String {
    match k % PREFIXES {
        0 => "\n".repeat(1_500),
        1 => "\n".repeat(70_000),
        2 => " ".repeat(70_000),
        3 => format!("(*{}*)\n", "x\n".repeat(12_000)),
        4 => "(* c *) \r\n".repeat(500),
        5 => "\u{3000}\n\t".repeat(400),
        _ => format!("{}(*)*)", " ".repeat(25_000)),
    }
}

/// Texts that consist of terminated tokens.
fn elements(ctx: &Ctx) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for a in ALPHA {
        v.push(a.to_string());
        for b in ALPHA {
            v.push(format!("{}{}", a, b));
            for c in ALPHA {
                v.push(format!("{}{}{}", a, b, c));
            }
        }
    }
    if !ctx.thorough {
        let mut k = 0;
        v.retain(|s| {
            k += 1;
            s.chars().count() < 3 || k % 6 == 0 || s.starts_with('_') || s.starts_with("0x") || s.starts_with('-')
        });
    }
    for w in words() {
        v.push(w.to_string());
        for x in mutate::NASTY.iter().chain(&["_", "1", "a", "Z", ".", ")"]) {
            v.push(format!("{}{}", w, x));
        }
    }
    v.retain(|e| {
        let l = lex(&format!("{} ", e));
        l.open_from.is_none() && !e.contains('"') && !e.contains("(*") && l.toks.iter().all(|t| t.alt.is_none())
    });
    v
}

pub fn random_text(ctx: &Ctx, r: &mut Rng, st: &mut Stats) -> String {
    if r.chance(1, 12) {
        st.hit("texts: far away");
        let k = r.below(PREFIXES);
        return prefix(k) + &near_text(ctx, r, st);
    }
    near_text(ctx, r, st)
}

pub fn near_text(ctx: &Ctx, r: &mut Rng, st: &mut Stats) -> String {
    match r.below(14) {
        0..=2 => {
            st.hit("texts: random token sequences, laid out");
            let n = r.range(1, 60);
            let toks: Vec<GTok> = (0..n).map(|_| mutate::random_tok(&ctx.dict, r)).collect();
            let m = any_mode(r);
            layout::layout(&toks, m, r).text
        }
        3 | 4 => {
            st.hit("texts: sentences, laid out");
            let s = source::sentence(ctx, r, None, 60);
            let m = any_mode(r);
            layout::layout(&s.toks, m, r).text
        }
        5 | 6 => {
            st.hit("texts: damaged sentences");
            let s = source::sentence(ctx, r, None, 50);
            let m = any_mode(r);
            let t = layout::layout(&s.toks, m, r).text;
            mutate::text(&t, &t.clone(), r)
        }
        7 | 8 => {
            st.hit("texts: fragments");
            mutate::soup(&ctx.dict, r)
        }
        9 if !ctx.corpus.is_empty() => {
            st.hit("texts: damaged pieces of contracts");
            let c = &r.pick(&ctx.corpus).text;
            let mut a = r.below(c.len());
            let mut b = (a + r.range(1, 700)).min(c.len());
            while !c.is_char_boundary(a) {
                a -= 1
            }
            while !c.is_char_boundary(b) {
                b += 1
            }
            mutate::text(&c[a..b], "", r)
        }
        10 => {
            st.hit("texts: characters");
            let n = r.range(1, 40);
            (0..n).map(|_| *r.pick(ALPHA)).collect()
        }
        11 => {
            st.hit("texts: any characters");
            let n = r.range(1, 30);
            (0..n)
                .map(|_| loop {
                    let hi = *r.pick(&[0x80usize, 0x250, 0x3100, 0x110000]);
                    if let Some(c) = char::from_u32(r.below(hi) as u32) {
                        break c;
                    }
                })
                .collect()
        }
        12 => {
            st.hit("texts: comments and strings mixed");
            let n = r.range(1, 25);
            (0..n)
                .map(|_| *r.pick(&["(*", "*)", "(*)", "*", "(", ")", "\"", "\\\"", "\\", "\\\\", " ", "\n", "x", "end", "\u{e9}", "'", "\"(*\"", "\"*)\"", "\r\n", "(**)"]))
                .collect()
        }
        _ => {
            st.hit("texts: words run together");
            let n = r.range(1, 12);
            let w = words();
            (0..n)
                .map(|_| {
                    let a: String = if r.chance(1, 2) { r.pick(&w).to_string() } else { mutate::random_tok(&ctx.dict, r).text };
                    a + *r.pick(&["", "", "", " ", "_", "1", "a", "\n"])
                })
                .collect()
        }
    }
}

/// All texts of a case.
fn texts(ctx: &Ctx, id: u64, st: &mut Stats, prop: &str) -> Vec<String> {
    let mut r = ctx.rng(prop, id);
    let nn = (NB * NB) as u64;
    let nw = words().len() as u64;
    let nc = ctx.corpus.len() as u64;
    if id < nn {
        // Every string of up to four characters over the alphabet (three for the slower half).
        let p = format!("{}{}", ALPHA[id as usize / NB], ALPHA[id as usize % NB]);
        let mut v = vec![p.clone(), ALPHA[id as usize % NB].to_string()];
        for a in ALPHA {
            v.push(format!("{}{}", p, a));
            for b in ALPHA {
                v.push(format!("{}{}{}", p, a, b));
            }
        }
        st.add("texts: all strings of up to four characters", v.len() as u64);
        return v;
    }
    let id = id - nn;
    if id < nw {
        let ws = words();
        let w = ws[id as usize];
        let mut v = vec![];
        for x in ws.iter().chain(mutate::NASTY) {
            v.push(format!("{}{}", w, x));
            v.push(format!("{}{}", x, w));
        }
        for c in 1u8..128 {
            v.push(format!("{}{}", w, c as char));
            v.push(format!("{}{}", c as char, w));
        }
        let mut chars: Vec<char> = w.chars().collect();
        for i in 0..chars.len() {
            v.push(chars[..i].iter().collect());
            let c = chars[i];
            for d in ['_', 'Z', 'q', '0', '\u{e9}'] {
                chars[i] = d;
                v.push(chars.iter().collect());
            }
            chars[i] = c;
        }
        st.add("texts: neighbours of every word", v.len() as u64);
        return v;
    }
    let id = id - nw;
    if id < nc {
        st.hit("texts: contracts");
        return vec![ctx.corpus[id as usize].text.clone()];
    }
    let id = id - nc;
    if id < 20 {
        st.hit("texts: long");
        return vec![long_text(id, &mut r)];
    }
    let id = id as usize - 20;
    if id < long::LAYOUT.len() + long::TOKENS.len() {
        let x = long::LAYOUT.iter().chain(long::TOKENS).nth(id).unwrap();
        st.add("texts: long runs in every lexical context", 2 * long::lengths(ctx).len() as u64);
        let mut v = vec![];
        for n in long::lengths(ctx) {
            let m = long::run(x, *n);
            v.push(format!("{}contract", m));
            v.push(format!("\u{e9} \"\n\" end{} (* \n *){}\nx0 <-\tend", if id < long::LAYOUT.len() { "" } else { " " }, m));
        }
        return v;
    }
    let id = id - (long::LAYOUT.len() + long::TOKENS.len());
    if id < PREFIXES * FAR_PARTS {
        // The same, far into a text.
        let (k, part) = (id % PREFIXES, id / PREFIXES);
        let all = elements(ctx);
        let mine: Vec<String> = all.into_iter().skip(part).step_by(FAR_PARTS).collect();
        st.add("texts: short ones far into a text", mine.len() as u64);
        return vec![format!("{}{}", prefix(k), mine.join(if k % 2 == 0 { "\n" } else { " " }))];
    }
    let id = id - PREFIXES * FAR_PARTS;
    if id < FAR_PARTS {
        // Tokens of every class, before anything that may follow them.
        let mut v = vec![];
        for (_, l) in oracle::dict::literals().into_iter().skip(id).step_by(FAR_PARTS) {
            st.hit("texts: literals");
            let mut t = l.clone();
            for x in [" ", ".", ")", ",", "\n", "=", ":", "(", "(* *)", "\t", ";", "|", "->", "\u{3000}", "'", "@"] {
                t.push_str(&l);
                t.push_str(x);
                t.push(' ');
            }
            t.push_str(&format!(" {}", l));
            v.push(t);
        }
        return v;
    }
    vec![random_text(ctx, &mut r, st)]
}

fn unterminated(text: &str, at: usize) -> bool {
    text[at..].starts_with("(*") && !text[at + 2..].contains("*)")
}

pub fn c06(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    for text in texts(ctx, id, st, "C06") {
        let real = match guard(&text, "the lexer", || lex_all(&text))? {
            Ok(t) => t,
            Err(e) => fail!(text, "{}", e),
        };
        st.eval();
        st.add("tokens observed", real.len() as u64);
        check_against_rules(&text, &real, st)?;
        check_partition(&text, &real)?;
        if !real.is_empty() {
            st.distinct(text.as_bytes());
            if id > 2000 {
                st.sample(|| format!("{:?} -> {} tokens", clip(&text, 200), real.len()));
            }
        }
    }
    Ok(())
}

fn check_against_rules(text: &str, real: &Toks, st: &mut Stats) -> R {
    let want = lex(text);
    for (i, w) in want.toks.iter().enumerate() {
        let Some((a, t, b)) = real.get(i) else {
            fail!(text, "token {} is missing: {} at byte {}", i, TERMS[w.t as usize], w.start.byte)
        };
        let Some((class, carried)) = from_token(t) else { fail!(text, "token {} is {:?}, which is no token of the language", i, t) };
        if class != w.t && w.alt != Some(class) {
            fail!(text, "token {} at byte {} is {:?}, expected {} {:?}", i, w.start.byte, t, TERMS[w.t as usize], &text[w.start.byte..w.end.byte.max(w.start.byte)]);
        }
        st.seen("token classes", class as u64);
        if a.position != w.start.byte || (class != UNKNOWN && !w.end_open && b.position != w.end.byte) {
            fail!(text, "token {} ({:?}) is at {}..{}, expected {}..{}", i, t, a.position, b.position, w.start.byte, w.end.byte);
        }
        if let Some(c) = carried {
            if c != w.text(text) {
                fail!(text, "token {} carries {:?}, its text is {:?}", i, c, w.text(text));
            }
        }
        if class == UNKNOWN {
            st.hit("unknown tokens observed");
            if unterminated(text, w.start.byte) {
                st.hit("unterminated comments observed");
                return Ok(());
            }
        }
    }
    if want.open_from.is_none() && real.len() > want.toks.len() {
        fail!(text, "{} tokens instead of {}: {:?} follows", real.len(), want.toks.len(), real[want.toks.len()].1);
    }
    Ok(())
}

/// Independent of the reference lexer: everything between the tokens is white space or terminated comments.
fn check_partition(text: &str, real: &Toks) -> R {
    let gap = |from: usize, to: usize| -> R {
        if from > to {
            fail!(text, "tokens overlap: one ends at {}, the next starts at {}", from, to);
        }
        let Some(mut s) = text.get(from..to) else { fail!(text, "{}..{} does not lie between characters", from, to) };
        loop {
            s = s.trim_start();
            if s.is_empty() {
                return Ok(());
            }
            if !s.starts_with("(*") {
                fail!(text, "{:?} at byte {} belongs to no token", clip(s, 40), to - s.len());
            }
            let Some(k) = s[2..].find("*)") else { fail!(text, "an unterminated comment hides {:?}", clip(s, 40)) };
            s = &s[k + 4..];
        }
    };
    let mut at = 0;
    for (a, t, b) in real {
        gap(at, a.position)?;
        if *t == Token::Unknown {
            if unterminated(text, a.position) {
                return Ok(());
            }
            // Where an unknown token ends is not specified beyond its first character.
            match text[a.position..].chars().next() {
                Some(c) => at = (a.position + c.len_utf8()).max(b.position.min(text.len())),
                None => fail!(text, "an unknown token at the end of the text"),
            }
            if text[a.position..].starts_with('"') && lex(text).open_from.is_some() {
                return Ok(());
            }
            continue;
        }
        let s: String = t.clone().into();
        if text.get(a.position..b.position) != Some(s.as_str()) {
            fail!(text, "token {:?} covers {:?}", t, text.get(a.position..b.position));
        }
        at = b.position;
    }
    gap(at, text.len())
}

pub fn c07(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    for text in texts(ctx, id, st, "C07") {
        let real = match guard(&text, "the lexer", || lex_all(&text))? {
            Ok(t) => t,
            Err(e) => fail!(text, "{}", e),
        };
        st.eval();
        let li = LineIndex::new(&text);
        let want = lex(&text);
        let mut prev = 0;
        let mut max_line = 0;
        let mut same = true;
        for (i, (a, t, b)) in real.iter().enumerate() {
            let both = if *t == Token::Unknown { vec![a] } else { vec![a, b] };
            for p in both {
                if p.position > text.len() || !text.is_char_boundary(p.position) {
                    fail!(text, "token {} ({:?}): byte {} is not between characters", i, t, p.position);
                }
                if sp(p) != li.pos(p.position) {
                    fail!(text, "token {} ({:?}): reported {:?}, the text says {:?}", i, t, sp(p), li.pos(p.position));
                }
                if p.position < prev {
                    fail!(text, "token {} ({:?}) starts before the end of the one before", i, t);
                }
                prev = p.position;
                max_line = max_line.max(p.line);
            }
            // As long as the tokens are the expected ones, so are their offsets.
            if let (Some(w), Some((class, _))) = (want.toks.get(i), from_token(t)) {
                if class == w.t && class != UNKNOWN && i < want.toks.len() && same && (a.position, b.position) != (w.start.byte, w.end.byte) {
                    fail!(text, "token {} ({:?}) is reported at {}..{}, it stands at {}..{}", i, t, a.position, b.position, w.start.byte, w.end.byte);
                }
                same &= class == w.t;
            }
        }
        st.add("positions observed", 2 * real.len() as u64);
        st.max("largest line number observed", max_line as u64);
        let interesting = text.contains('\n') || !text.is_ascii() || text.contains('\t') || text.contains("(*");
        if !real.is_empty() && interesting {
            st.distinct(text.as_bytes());
            if id > 2000 {
                st.sample(|| format!("{:?} -> last token at {:?}", clip(&text, 200), real.last().map(|x| sp(&x.0))));
            }
        }
    }
    Ok(())
}

/// C16, tokens: the string of a token is its text.
pub fn token_strings(text: &str, st: &mut Stats) -> R {
    let real = match guard(text, "the lexer", || lex_all(text))? {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    for (a, t, b) in &real {
        if *t == Token::Unknown {
            continue;
        }
        let Some((class, _)) = from_token(t) else { continue };
        if (class as usize) < NTERM {
            st.seen("token classes", class as u64);
        }
        let s: String = guard(text, "the conversion of a token to a string", || t.clone().into())?;
        st.hit("token strings observed");
        if text.get(a.position..b.position) != Some(s.as_str()) {
            fail!(text, "token {:?} converts to {:?}, its text is {:?}", t, s, text.get(a.position..b.position));
        }
    }
    Ok(())
}
