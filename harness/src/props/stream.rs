//! C25: a lexer is an honest iterator, and tokenising is local.

use super::lex;
use crate::core::*;
use crate::real::lex_all;
use crate::shape::sp;
use oracle::dict::literals;
use oracle::layout::{comment, COMMENTS, SPACES};
use oracle::lexref::{self, LineIndex, UNKNOWN};
use oracle::rng::Rng;
use oracle::tree::Pos;
use scilla_parser::parser::lexer::{Lexer, SourcePosition, Token};

type Tok<'a> = (SourcePosition, Token<&'a str>, SourcePosition);

const PARTS: u64 = 24;

pub fn blocks(ctx: &Ctx) -> u64 {
    ctx.corpus.len() as u64 + (lex::NB * lex::NB) as u64 + PARTS
}

fn all(text: &str) -> Result<Vec<Tok<'_>>, Viol> {
    match guard(text, "the lexer", || lex_all(text))? {
        Ok(t) => Ok(t),
        Err(e) => fail!(text, "{}", e),
    }
}

/// Compares items that came out of a lexer with those that should.
fn same(text: &str, how: &str, got: &[Option<Tok>], want: &[Option<&Tok>]) -> R {
    for i in 0..got.len().max(want.len()) {
        let (g, w) = (got.get(i).and_then(|x| x.as_ref()), want.get(i).and_then(|x| *x));
        if g != w || (got.len() != want.len() && i >= got.len().min(want.len())) {
            fail!(text, "{}: item {} is {:?}, one token after another gives {:?}", how, i, g, w);
        }
    }
    Ok(())
}

fn item<'a>(text: &str, how: &str, x: Option<Result<Tok<'a>, impl std::fmt::Debug>>) -> Result<Option<Tok<'a>>, Viol> {
    match x {
        None => Ok(None),
        Some(Ok(t)) => Ok(Some(t)),
        Some(Err(e)) => fail!(text, "{}: the lexer returns an error: {:?}", how, e),
    }
}

/// One text, consumed in every way.
fn consumed(text: &str, r: &mut Rng, st: &mut Stats) -> R {
    let want = all(text)?;
    let n = want.len();
    let limit = text.len() + 2;
    let w = |i: usize| want.get(i);
    // One by one, with what is said about the rest, and beyond the end.
    let v = guard(text, "the lexer", || -> R {
        let mut l = Lexer::new(text);
        for i in 0..=n + 4 {
            let (low, high) = l.size_hint();
            let left = n.saturating_sub(i);
            if low > left || high.is_some_and(|h| h < left) {
                fail!(text, "before token {} the lexer says {:?} are left, there are {}", i, (low, high), left);
            }
            let x = item(text, "one by one", l.next())?;
            if x.as_ref() != w(i) {
                fail!(text, "one by one: item {} is {:?} instead of {:?}", i, x, w(i));
            }
        }
        st.hit("lexers asked again after the end");
        Ok(())
    })?;
    v?;
    let ways = if n > 400 { 2 } else { 4 };
    let first = r.below(12);
    for k in 0..ways {
        let a = r.below(n + 2);
        let b = r.range(1, 4);
        let way = (first + k * 5) % 12;
        let v = guard(text, "the lexer", || -> R {
            let mut l = Lexer::new(text);
            let mut got = vec![];
            let mut exp: Vec<Option<&Tok>> = vec![];
            let how;
            match way {
                0 => {
                    how = "nth";
                    let mut at = 0;
                    while at < n + 3 {
                        let k = r.below(4);
                        got.push(item(text, how, l.nth(k))?);
                        exp.push(w(at + k));
                        at += k + 1;
                    }
                }
                1 => {
                    how = "skip";
                    for x in l.skip(a).take(limit) {
                        got.push(item(text, how, Some(x))?);
                    }
                    exp = want.iter().skip(a).map(Some).collect();
                }
                2 => {
                    how = "step_by";
                    for x in l.step_by(b).take(limit) {
                        got.push(item(text, how, Some(x))?);
                    }
                    exp = want.iter().step_by(b).map(Some).collect();
                }
                3 => {
                    how = "by_ref and take";
                    for x in l.by_ref().take(a) {
                        got.push(item(text, how, Some(x))?);
                    }
                    for x in l.by_ref().take(limit) {
                        got.push(item(text, how, Some(x))?);
                    }
                    got.push(item(text, how, l.next())?);
                    exp = want.iter().map(Some).collect();
                    exp.push(None);
                }
                4 => {
                    how = "peekable";
                    let mut p = l.peekable();
                    for _ in 0..n + 2 {
                        if r.chance(2, 3) {
                            let seen = match p.peek() {
                                Some(Ok(t)) => Some(t.clone()),
                                Some(Err(e)) => fail!(text, "{}: the lexer returns an error: {:?}", how, e),
                                None => None,
                            };
                            if seen.as_ref() != w(got.len()) {
                                fail!(text, "looking ahead at item {} shows {:?} instead of {:?}", got.len(), seen, w(got.len()));
                            }
                        }
                        got.push(item(text, how, p.next())?);
                        exp.push(w(exp.len()));
                    }
                }
                5 => {
                    how = "count";
                    let k = l.count();
                    if k != n {
                        fail!(text, "there are {} tokens, count gives {}", n, k);
                    }
                }
                6 => {
                    how = "last";
                    got.push(item(text, how, l.last())?);
                    exp.push(want.last());
                }
                7 => {
                    how = "for_each";
                    let mut v = vec![];
                    l.for_each(|x| v.push(x));
                    for x in v {
                        got.push(item(text, how, Some(x))?);
                    }
                    exp = want.iter().map(Some).collect();
                }
                8 => {
                    how = "collect";
                    match l.collect::<Result<Vec<_>, _>>() {
                        Ok(v) => got = v.into_iter().map(Some).collect(),
                        Err(e) => fail!(text, "{}: the lexer returns an error: {:?}", how, e),
                    }
                    exp = want.iter().map(Some).collect();
                }
                9 => {
                    how = "a boxed iterator";
                    let mut p: Box<dyn Iterator<Item = _>> = Box::new(l);
                    for i in 0..n + 2 {
                        got.push(item(text, how, p.next())?);
                        exp.push(w(i));
                    }
                }
                10 => {
                    how = "two lexers at once";
                    let mut m = Lexer::new(text);
                    let mut ahead = 0;
                    for i in 0..n + 2 {
                        for _ in 0..r.below(3) {
                            let x = item(text, how, m.next())?;
                            if x.as_ref() != w(ahead) {
                                fail!(text, "of two lexers, the one ahead gives {:?} as item {} instead of {:?}", x, ahead, w(ahead));
                            }
                            ahead += 1;
                        }
                        got.push(item(text, how, l.next())?);
                        exp.push(w(i));
                    }
                }
                _ => {
                    how = "position and the rest";
                    let mut k = 0;
                    let at = l.position(|_| {
                        k += 1;
                        k > a
                    });
                    let want_at = if a < n { Some(a) } else { None };
                    if at != want_at {
                        fail!(text, "position finds {:?} instead of {:?}", at, want_at);
                    }
                    for x in l.take(limit) {
                        got.push(item(text, how, Some(x))?);
                    }
                    exp = want.iter().skip(a + 1).map(Some).collect();
                }
            }
            st.seen_str("ways to consume a lexer", how);
            same(text, how, &got, &exp)
        })?;
        v?;
        st.eval();
    }
    if n > 1 {
        st.distinct(text.as_bytes());
    }
    Ok(())
}

/// Nothing is open at the end, every token is one of the language, by the lexical rules.
fn closed(text: &str) -> bool {
    let l = lexref::lex(text);
    l.open_from.is_none() && l.toks.iter().all(|t| t.t != UNKNOWN && t.alt.is_none())
}

/// The tokens `part` has must be those of `whole` from a place on, moved by so many bytes.
fn moved(whole: &str, how: &str, got: &[Tok], part: &str, want: &[Tok], by: usize) -> R {
    let (lw, lp) = (LineIndex::new(whole), LineIndex::new(part));
    if got.len() != want.len() {
        fail!(whole, "{}: {} tokens, alone it has {} (from byte {}: {:?})", how, got.len(), want.len(), by, clip(part, 300));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let put = |p: &SourcePosition| -> Pos { lw.pos(p.position + by) };
        let ends = w.1 == Token::Unknown || sp(&g.2) == put(&w.2);
        // Where positions are right in the part, they must be right in the whole.
        if g.1 != w.1 || (sp(&w.0) == lp.pos(w.0.position) && (sp(&g.0) != put(&w.0) || !ends)) {
            fail!(whole, "{}: token {} is {:?}, alone it is {:?} (from byte {}: {:?})", how, i, g, w, by, clip(part, 300));
        }
    }
    Ok(())
}

/// The tokens of two texts with something between them are those of the one and of the other.
fn joined(a: &str, sep: &str, b: &str, st: &mut Stats) -> R {
    if !closed(a) {
        return Ok(());
    }
    let text = format!("{}{}{}", a, sep, b);
    let (ta, tb, t) = (all(a)?, all(b)?, all(&text)?);
    st.eval();
    st.hit("pairs of texts joined");
    if t.len() < ta.len() {
        fail!(text, "{} tokens; the first {} bytes alone have {}", t.len(), a.len(), ta.len());
    }
    let k = ta.len();
    moved(&text, "the first of two texts", &t[..k], a, &ta, 0)?;
    moved(&text, "the second of two texts", &t[k..], b, &tb, a.len() + sep.len())?;
    if !ta.is_empty() && !tb.is_empty() {
        st.distinct(text.as_bytes());
    }
    Ok(())
}

/// A text cut before or after one of its tokens has the tokens on that side.
fn cut(text: &str, r: &mut Rng, st: &mut Stats) -> R {
    if !closed(text) {
        return Ok(());
    }
    let t = all(text)?;
    if t.is_empty() {
        return Ok(());
    }
    for _ in 0..2 {
        let i = r.below(t.len());
        let (a, b) = (t[i].0.position, t[i].2.position);
        let (Some(head), Some(tail)) = (text.get(..b), text.get(a..)) else { continue };
        let (th, tt) = (all(head)?, all(tail)?);
        st.eval();
        st.hit("texts cut at a token");
        moved(text, "up to the end of a token", &t[..=i], head, &th, 0)?;
        moved(text, "from the start of a token", &t[i..], tail, &tt, a)?;
    }
    Ok(())
}

fn sep(r: &mut Rng) -> String {
    let mut s = r.pick(SPACES).to_string();
    match r.below(32) {
        0..=3 => s.push_str(r.pick(COMMENTS)),
        4..=7 => s.push_str(&comment(r)),
        8 => s = lex::prefix(r.below(lex::PREFIXES)),
        9..=12 => {
            for _ in 0..r.range(1, 6) {
                s.push_str(r.pick(SPACES));
            }
        }
        _ => {}
    }
    // White space first, so that nothing is glued to the last token, and last, for the next one.
    if !s.ends_with(char::is_whitespace) {
        s.push(' ');
    }
    format!(" {}", s)
}

pub fn c25(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C25", id);
    let r = &mut r;
    let nc = ctx.corpus.len() as u64;
    if id < nc {
        let c = &ctx.corpus[id as usize];
        if c.tokens > if ctx.thorough { 20_000 } else { 900 } {
            return Ok(());
        }
        consumed(&c.text, r, st)?;
        return cut(&c.text, r, st);
    }
    let id = id - nc;
    if id < (lex::NB * lex::NB) as u64 {
        // Short texts, alone and joined.
        let a = format!("{}{}", lex::ALPHA[id as usize / lex::NB], lex::ALPHA[id as usize % lex::NB]);
        consumed(&a, r, st)?;
        for _ in 0..if ctx.thorough { 60 } else { 10 } {
            let b: String = (0..r.range(1, 4)).map(|_| *r.pick(lex::ALPHA)).collect();
            consumed(&format!("{}{}", a, b), r, st)?;
            joined(&a, &sep(r), &b, st)?;
            joined(&b, &sep(r), &a, st)?;
        }
        return Ok(());
    }
    let id = id - (lex::NB * lex::NB) as u64;
    if id < PARTS {
        let all = literals();
        let step = if ctx.thorough { 1 } else { 8 };
        for (_, l) in all.iter().skip(id as usize).step_by(PARTS as usize * step) {
            let b = lex::near_text(ctx, r, st);
            joined(l, &sep(r), &r.pick(&all).1, st)?;
            if b.len() < 200 {
                joined(l, &sep(r), &b, st)?;
            }
            st.hit("tokens of a list joined with others");
        }
        return Ok(());
    }
    let a = lex::random_text(ctx, r, st);
    let b = lex::near_text(ctx, r, st);
    if a.len() < 100_000 {
        consumed(&a, r, st)?;
    }
    joined(&b, &sep(r), &a, st)?;
    cut(&a, r, st)?;
    joined(&a, &sep(r), &b, st)?;
    st.sample(|| format!("{:?} and {:?}", clip(&a, 100), clip(&b, 100)));
    Ok(())
}
