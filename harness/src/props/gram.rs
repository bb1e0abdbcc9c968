//! C08 to C11 and C04: the language, the tree, its spans, errors, layout.

use super::long;
use super::source::{self, *};
use crate::core::*;
use crate::model::{is_parse_error, result_text};
use crate::real::{expected_term, parse_text, parse_tokens, EKind, Out, PErr, NAMES};
use oracle::earley::Outcome;
use oracle::gen::{GTok, Gen, Style};
use oracle::grammar::Sym;
use oracle::layout::{any_mode, layout, place, Mode};
use oracle::lexref::{self, FIRST_CLASS, NTERM, STRING, T, TERMS, UNKNOWN};
use oracle::mutate;
use oracle::rng::{hash_bytes, Rng};
use oracle::tree::{diff_shape, diff_spans, render_forest, Pos, Tree};
use scilla_parser::Contract;
use std::str::FromStr;

fn parse(input: &str, name: &str, toks: &[GTok], pos: &[(Pos, Pos)]) -> Result<Out, Viol> {
    guard(input, &format!("{}Parser", name), || parse_tokens(name, toks, pos))
}

fn verdict(o: &Outcome, toks: &[GTok]) -> String {
    if o.accepted {
        return "a sentence of the rule".into();
    }
    let e: Vec<&str> = o.expected.iter().map(|t| TERMS[*t as usize]).collect();
    if o.fail_at == toks.len() {
        format!("incomplete, {:?} could follow", e)
    } else {
        format!("wrong from token {} ({:?}) on, {:?} could follow before it", o.fail_at, toks[o.fail_at].text, e)
    }
}

// ---------------------------------------------------------------- C08

/// The symbols of an alternative, each of its groups taken the given number of times (counts are used in turn).
fn flat<'a>(syms: &'a [Sym], counts: &mut dyn Iterator<Item = usize>, out: &mut Vec<&'a Sym>) {
    for s in syms {
        match s {
            Sym::Group(b, _) => {
                for _ in 0..counts.next().unwrap_or(1) {
                    flat(b, counts, out);
                }
            }
            s => out.push(s),
        }
    }
}

fn groups(syms: &[Sym]) -> usize {
    syms.iter().map(|s| if let Sym::Group(b, _) = s { 1 + groups(b) } else { 0 }).sum()
}

/// Tokens for a sequence of symbols.
fn spell(ctx: &Ctx, syms: &[&Sym], r: &mut Rng) -> Vec<GTok> {
    let mut g = Gen::new(&ctx.g, &ctx.dict, r.next());
    syms.iter().flat_map(|s| g.piece(std::slice::from_ref(*s))).collect()
}

/// Puts what stands for a private rule into a public one.
fn embed(ctx: &Ctx, rule: usize, toks: Vec<GTok>, r: &mut Rng) -> (usize, Vec<GTok>) {
    let (mut rule, mut toks) = (rule, toks);
    while ctx.g.rules[rule].private {
        let mut homes: Vec<(usize, Vec<&Sym>)> = vec![];
        for (i, x) in ctx.g.rules.iter().enumerate() {
            for a in &x.alts {
                let mut f = vec![];
                flat(&a.syms, &mut std::iter::repeat(1), &mut f);
                if i != rule && f.iter().any(|s| matches!(s, Sym::N(n) if *n == rule)) {
                    homes.push((i, f));
                }
            }
        }
        let (home, f) = r.pick(&homes).clone();
        let at = f.iter().position(|s| matches!(s, Sym::N(n) if *n == rule)).unwrap();
        let mut v = spell(ctx, &f[..at], r);
        v.append(&mut toks);
        v.extend(spell(ctx, &f[at + 1..], r));
        rule = home;
        toks = v;
    }
    (rule, toks)
}

/// An alternative of the grammar with everything that may be forgotten, doubled, exchanged or slipped in.
fn twisted(ctx: &Ctx, alt: usize, r: &mut Rng, st: &mut Stats) -> R {
    let own = ctx.g.rules.iter().position(|x| x.alts.iter().any(|a| a.id == alt)).unwrap();
    let syms = &ctx.g.rules[own].alts.iter().find(|a| a.id == alt).unwrap().syms;
    let n = groups(syms);
    let try_it = |f: &[&Sym], r: &mut Rng, st: &mut Stats| -> R {
        let toks = spell(ctx, f, r);
        let (rule, toks) = embed(ctx, own, toks, r);
        st.seen("distinct", key(ctx.g.rules[rule].name, &toks));
        st.hit("alternatives taken with something forgotten, doubled, exchanged or slipped in");
        accept_iff(ctx, ctx.g.rules[rule].name, &toks, r, st).map(|_| ())
    };
    let total = 3usize.pow(n.min(4) as u32);
    for k in 0..total {
        let mut rest = k;
        let mut counts = std::iter::from_fn(move || {
            let c = [1, 0, 2][rest % 3];
            rest /= 3;
            Some(c)
        });
        let mut f = vec![];
        flat(syms, &mut counts, &mut f);
        try_it(&f, r, st)?;
        if total > 30 && !ctx.thorough && r.chance(2, 3) {
            continue;
        }
        for i in 0..f.len() {
            let mut v = f.clone();
            v.remove(i);
            try_it(&v, r, st)?;
            v = f.clone();
            v.insert(i, f[i]);
            try_it(&v, r, st)?;
            for j in i + 1..(i + 4).min(f.len()) {
                v = f.clone();
                v.swap(i, j);
                try_it(&v, r, st)?;
                v = f.clone();
                v.drain(i..=j);
                try_it(&v, r, st)?;
                v = f.clone();
                for (x, s) in f[i..=j].iter().enumerate() {
                    v.insert(i + x, s);
                }
                try_it(&v, r, st)?;
            }
        }
    }
    let others: Vec<Sym> = (0..ctx.g.rules.len()).map(Sym::N).chain((0..NTERM as u8).map(|t| if (t as usize) < FIRST_CLASS { Sym::T(t) } else { Sym::Leaf(t) })).collect();
    let mut f = vec![];
    flat(syms, &mut std::iter::repeat(1), &mut f);
    for i in 0..=f.len() {
        for o in &others {
            let mut v = f.clone();
            v.insert(i, o);
            try_it(&v, r, st)?;
            if i < f.len() {
                v.remove(i + 1);
                try_it(&v, r, st)?;
            }
        }
    }
    Ok(())
}

pub fn c08_blocks(ctx: &Ctx) -> u64 {
    // Every sequence of up to two tokens for every parser; then what can follow every short viable prefix.
    (NAMES.len() * NTERM) as u64 + big_count(ctx) + ctx.g.nalts as u64 + EDITED + TAILS + if ctx.thorough { (NAMES.len() * NTERM) as u64 } else { 0 }
}

fn short(ctx: &Ctx, r: &mut Rng, t: u8) -> GTok {
    GTok { t, text: ctx.dict.text(t, r) }
}

fn accept_iff(ctx: &Ctx, name: &str, toks: &[GTok], r: &mut Rng, st: &mut Stats) -> Result<bool, Viol> {
    let o = ctx.earley.run(ctx.g.rule(name), &classes(toks));
    let pos = positions(toks, r);
    let input = format!("{}: {}", name, source::show(toks));
    let got = parse(&input, name, toks, &pos)?;
    st.eval();
    if got.is_ok() != o.accepted {
        fail!(input, "the parser {} the sequence; by the grammar it is {}", if got.is_ok() { "accepts" } else { "rejects" }, verdict(&o, toks));
    }
    st.hit(if o.accepted { "accepted sequences observed" } else { "rejected sequences observed" });
    Ok(o.accepted)
}

/// A text is accepted if and only if its tokens are; where the lexical rules leave something open there is nothing to say.
fn text_iff(ctx: &Ctx, name: &str, text: &str, st: &mut Stats) -> R {
    let lexed = oracle::lexref::lex(text);
    if lexed.open_from.is_some() || lexed.toks.iter().any(|t| t.alt.is_some()) {
        return Ok(());
    }
    let toks: Vec<GTok> = lexed.toks.iter().map(|t| GTok { t: t.t, text: t.text(text).to_string() }).collect();
    let o = ctx.earley.run(ctx.g.rule(name), &classes(&toks));
    let input = format!("{}: {}", name, text);
    let got = guard(&input, &format!("{}Parser", name), || parse_text(name, text))?;
    st.eval();
    if got.is_ok() != o.accepted {
        fail!(input, "the parser {} the text; by the grammar it is {}", if got.is_ok() { "accepts" } else { "rejects" }, verdict(&o, &toks));
    }
    st.hit(if o.accepted { "accepted texts observed" } else { "rejected texts observed" });
    st.distinct(input.as_bytes());
    Ok(())
}

const EDITED: u64 = 40;
const TAILS: u64 = 2 * super::lex::PREFIXES as u64;

/// Contracts of many lines, or far into a text, with one token too many at the end or elsewhere.
fn tails(ctx: &Ctx, k: usize, r: &mut Rng) -> Vec<String> {
    let mut toks = vec![];
    while toks.len() < 25 || toks.len() > 120 {
        toks = program(ctx, r, crate::compose::Fill::Small).toks;
    }
    let mode = *r.pick(&[Mode::Lines, Mode::Lines, Mode::Crlf, Mode::Wild, Mode::Plain]);
    let pre = super::lex::prefix(k);
    let mut v = vec![];
    for t in 0..=NTERM as u8 {
        let tok = if t == UNKNOWN { r.pick(&["$", "#", "%", "^", "\u{e9}", "<", "?", ">"]).to_string() } else { ctx.dict.text(t, r) };
        let l = lay(&toks, mode, r);
        match (k / super::lex::PREFIXES, r.below(3)) {
            (0, 0) => v.push(format!("{}{} {}", pre, l.text, tok)),
            (0, _) => v.push(format!("{}{}\n{}\n", l.text, pre, tok)),
            _ => {
                let mut w = toks.clone();
                let at = r.below(w.len());
                w.insert(at, GTok { t, text: tok });
                let m = layout(&w, mode, r);
                v.push(format!("{}{}", pre, m.text));
            }
        }
        if t % 4 == 0 {
            v.push(format!("{}{}{}", pre, lay(&toks, mode, r).text, r.pick(mutate::MARKS)));
        }
    }
    v
}

/// A text in which each token in turn is missing, twice there, or has something else beside it.
fn edited(ctx: &Ctx, k: usize, r: &mut Rng, st: &mut Stats) -> R {
    let (name, toks) = if k % 4 == 0 {
        let mut toks = vec![];
        while toks.len() < 20 || toks.len() > 120 {
            toks = program(ctx, r, crate::compose::Fill::Small).toks;
        }
        ("Program", toks)
    } else {
        let rule = any_rule(ctx, r);
        (ctx.g.rules[rule].name, sentence(ctx, r, Some(rule), 60).toks)
    };
    for i in 0..=toks.len() {
        let mut edits = vec![];
        if i < toks.len() {
            let mut v = toks.clone();
            v.insert(i, v[i].clone());
            edits.push(v.clone());
            v.remove(i);
            v.remove(i);
            edits.push(v);
        }
        let mut v = toks.clone();
        let t = r.below(NTERM) as u8;
        v.insert(i, short(ctx, r, t));
        edits.push(v);
        for v in edits {
            let l = lay(&v, any_mode(r), r);
            text_iff(ctx, name, &l.text, st)?;
        }
        let l = lay(&toks, any_mode(r), r);
        let mut at = if i < toks.len() { l.pos[i].0.byte } else { l.text.len() };
        if i < toks.len() && r.chance(1, 2) {
            at = l.pos[i].1.byte;
        }
        let marks = if r.chance(1, 2) { mutate::NASTY } else { mutate::MARKS };
        let mark = *r.pick(marks);
        let mut text = l.text;
        text.insert_str(at, mark);
        text_iff(ctx, name, &text, st)?;
    }
    st.hit("texts with every token removed, doubled, or next to another");
    Ok(())
}

/// Every token at the place after a viable prefix, and so on to the given depth.
fn explore(ctx: &Ctx, name: &str, prefix: &mut Vec<GTok>, depth: usize, r: &mut Rng, st: &mut Stats) -> R {
    let o = ctx.earley.run(ctx.g.rule(name), &classes(prefix));
    if o.fail_at < prefix.len() {
        return Ok(());
    }
    for t in 0..NTERM as u8 {
        prefix.push(short(ctx, r, t));
        accept_iff(ctx, name, prefix, r, st)?;
        if depth > 1 && o.expected.contains(&t) {
            explore(ctx, name, prefix, depth - 1, r, st)?;
        }
        prefix.pop();
    }
    Ok(())
}

pub fn c08(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C08", id);
    let r = &mut r;
    let nn = (NAMES.len() * NTERM) as u64;
    if id < nn {
        let name = NAMES[id as usize / NTERM];
        let t = (id as usize % NTERM) as u8;
        if t == 0 {
            accept_iff(ctx, name, &[], r, st)?;
        }
        let a = short(ctx, r, t);
        accept_iff(ctx, name, &[a.clone()], r, st)?;
        for u in 0..NTERM as u8 {
            let v = vec![a.clone(), short(ctx, r, u)];
            accept_iff(ctx, name, &v, r, st)?;
            st.distinct(&[id as u8, (id >> 8) as u8, u]);
        }
        st.add("all sequences of up to two tokens", NTERM as u64 + 1);
        return Ok(());
    }
    let nbig = big_count(ctx);
    if id < nn + nbig {
        // Long lists and deep nests are accepted, whatever their size.
        let b = big(ctx, id - nn, r);
        let name = ctx.g.rules[b.rule].name;
        note_big(st, &b);
        st.seen("distinct", key(name, &b.s.toks));
        let pos = positions(&b.s.toks, r);
        let input = format!("{}: {}", b.what, source::show(&b.s.toks));
        let got = parse(&input, name, &b.s.toks, &pos)?;
        st.eval();
        if let Err(e) = got {
            fail!(input, "the parser rejects {}: {:?}", b.what, e);
        }
        if b.s.toks.len() < 1200 {
            for _ in 0..6 {
                let mut v = b.s.toks.clone();
                mutate::tokens(&mut v, &[], &ctx.dict, r);
                accept_iff(ctx, name, &v, r, st)?;
            }
        }
        return Ok(());
    }
    let na = ctx.g.nalts as u64;
    if id < nn + nbig + na {
        return twisted(ctx, (id - nn - nbig) as usize, r, st);
    }
    let nbig = nbig + na;
    if id < nn + nbig + EDITED {
        return edited(ctx, (id - nn - nbig) as usize, r, st);
    }
    let nbig = nbig + EDITED;
    if id < nn + nbig + TAILS {
        for text in tails(ctx, (id - nn - nbig) as usize, r) {
            st.hit("long texts with one token too many");
            text_iff(ctx, "Program", &text, st)?;
        }
        return Ok(());
    }
    let nbig = nbig + TAILS;
    if ctx.thorough && id < 2 * nn + nbig {
        let k = (id - nn - nbig) as usize;
        let name = NAMES[k / NTERM];
        let mut p = vec![short(ctx, r, (k % NTERM) as u8)];
        st.hit("sets of all viable prefixes of up to four tokens, each with every next token");
        return explore(ctx, name, &mut p, 3, r, st);
    }
    let rule = any_rule(ctx, r);
    let name = ctx.g.rules[rule].name;
    let max = if r.chance(1, 12) { 200 } else { 45 };
    let s = sentence(ctx, r, Some(rule), max);
    token_classes(st, &s.toks);
    note_kinds(st, &s.forest);
    let toks = s.toks;
    if !accept_iff(ctx, name, &toks, r, st)? {
        panic!("the grammar rejects its own sentence: {}", source::show(&toks));
    }
    st.seen("distinct", key(name, &toks));
    st.sample(|| format!("{}: {}", name, source::show(&toks)));
    match r.below(9) {
        8 => {
            // Damaged texts.
            if toks.len() > 150 {
                return Ok(());
            }
            for _ in 0..3 {
                let mut v = toks.clone();
                if r.chance(2, 3) {
                    mutate::tokens(&mut v, &toks, &ctx.dict, r);
                }
                let l = lay(&v, any_mode(r), r);
                let text = if r.chance(1, 3) { mutate::text(&l.text, "", r) } else { l.text };
                text_iff(ctx, name, &text, st)?;
            }
        }
        // As a text, through the lexer.
        0 => {
            let l = lay(&toks, any_mode(r), r);
            let got = guard(&l.text, name, || parse_text(name, &l.text))?;
            st.eval();
            st.hit("sentences parsed as text");
            if let Err(e) = got {
                fail!(l.text, "{} rejects a sentence of the rule given as text: {:?}", name, e);
            }
            if name == "Program" {
                // A contract is parsed from text as the grammar says (apart from what its interface model cannot express).
                let got = guard(&l.text, "Contract::from_str", || Contract::from_str(&l.text))?;
                let expressible = oracle::iface::extract(&s.forest[0]);
                if let (Err(e), Ok(f)) = (&got, expressible) {
                    if !f.has_any() {
                        fail!(l.text, "a well-formed contract is refused: {:?}", e);
                    }
                }
            }
        }
        // Every single token removed, doubled, or exchanged with its neighbour.
        1 if toks.len() <= 60 => {
            for i in 0..toks.len() {
                let mut v = toks.clone();
                v.remove(i);
                accept_iff(ctx, name, &v, r, st)?;
                v = toks.clone();
                v.insert(i, toks[i].clone());
                accept_iff(ctx, name, &v, r, st)?;
                if i + 1 < toks.len() {
                    v = toks.clone();
                    v.swap(i, i + 1);
                    accept_iff(ctx, name, &v, r, st)?;
                }
            }
            st.hit("sentences with every token removed, doubled, swapped");
        }
        // Every token inserted and substituted at one place.
        2 | 3 => {
            let i = r.below(toks.len() + 1);
            for t in 0..NTERM as u8 {
                let mut v = toks.clone();
                v.insert(i, short(ctx, r, t));
                accept_iff(ctx, name, &v, r, st)?;
                if i < toks.len() {
                    v.remove(i + 1);
                    accept_iff(ctx, name, &v, r, st)?;
                }
            }
            st.hit("places where every token was inserted and substituted");
        }
        // Anything after the end, anything cut off.
        4 => {
            for t in 0..NTERM as u8 {
                let mut v = toks.clone();
                v.push(short(ctx, r, t));
                accept_iff(ctx, name, &v, r, st)?;
            }
            let step = (toks.len() / 40).max(1);
            for i in (0..toks.len()).step_by(step) {
                accept_iff(ctx, name, &toks[..i], r, st)?;
            }
            let w = sentence(ctx, r, Some(rule), 20);
            let mut v = toks.clone();
            v.extend(w.toks);
            accept_iff(ctx, name, &v, r, st)?;
            st.hit("sentences with everything appended and cut off everywhere");
        }
        // The same sequence given to every other parser.
        5 => {
            for other in NAMES {
                accept_iff(ctx, other, &toks, r, st)?;
            }
            st.hit("sentences given to every parser");
        }
        _ => {
            for _ in 0..12 {
                let mut v = toks.clone();
                let donor = if r.chance(1, 3) { sentence(ctx, r, None, 20).toks } else { toks.clone() };
                mutate::tokens(&mut v, &donor, &ctx.dict, r);
                if accept_iff(ctx, name, &v, r, st)? {
                    st.hit("damaged sequences that are sentences");
                }
                st.seen("distinct", key(name, &v));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09, C10

/// Trees to compare: (rule, tokens, expected forest, whether the parse goes through text).
struct TreeCase {
    name: &'static str,
    toks: Vec<GTok>,
    forest: Vec<Tree>,
}

fn tree_case(ctx: &Ctx, id: u64, r: &mut Rng, st: &mut Stats) -> Option<TreeCase> {
    // Every alternative in turn, then at random.
    let nalts = ctx.g.nalts as u64;
    let (rule, focus) = if id < nalts * 6 {
        let alt = (id % nalts) as usize;
        let k = id / nalts;
        let own = ctx.g.rules.iter().position(|x| x.alts.iter().any(|a| a.id == alt)).unwrap();
        let rule = match k {
            0..=2 if !ctx.g.rules[own].private => own,
            3 => ctx.g.rule("ContractDefinition"),
            _ => ctx.g.rule("Program"),
        };
        (rule, Some(alt))
    } else {
        (any_rule(ctx, r), if r.chance(2, 3) { Some(r.below(ctx.g.nalts)) } else { None })
    };
    let name = ctx.g.rules[rule].name;
    let mut g = oracle::gen::Gen::new(&ctx.g, &ctx.dict, r.next());
    if r.chance(3, 4) {
        g.used = vec![3; ctx.g.nalts];
    }
    g.focus = focus;
    let mut style = Style::random(r);
    style.max_tokens = style.max_tokens.min(if r.chance(1, 10) { 400 } else { 120 });
    if focus.is_some() && r.chance(1, 2) {
        style.depth = style.depth.max(14);
        style.max_tokens = style.max_tokens.max(40);
    }
    let s = g.sentence_with(rule, style);
    if r.chance(1, 4) {
        // A damaged sentence that still is one: its tree comes from the grammar.
        for _ in 0..6 {
            let mut v = s.toks.clone();
            mutate::tokens(&mut v, &s.toks, &ctx.dict, r);
            let o = ctx.earley.run(rule, &classes(&v));
            if o.accepted {
                let forest = ctx.earley.tree(&o, &|i| v[i].text.clone());
                st.hit("damaged sentences that are sentences");
                return Some(TreeCase { name, toks: v, forest });
            }
        }
    }
    Some(TreeCase { name, toks: s.toks, forest: s.forest })
}

pub fn tree_blocks(ctx: &Ctx) -> u64 {
    ctx.g.nalts as u64 * 6 + ctx.corpus.len() as u64 + big_count(ctx) + LITERALS
}

const LITERALS: u64 = 64;

/// Where a token of a class may stand.
const PLACES: &[(T, &[(&str, &str)])] = &[
    (lexref::STRING, &[("FullExpression", "{}"), ("FullExpression", "let x = {} in y"), ("FullExpression", "{ a : {} ; b : {} }")]),
    (lexref::HEX, &[("FullExpression", "let x = {} in y"), ("ScillaType", "{} . T"), ("ScillaType", "Map {} . K {} . V"), ("ScillaType", "List {} . T"), ("Pattern", "{} . C _"), ("FullExpression", "{ a : {} }")]),
    (lexref::NUMBER, &[("FullExpression", "let x = Int32 {} in y"), ("Program", "scilla_version {} contract C ( )"), ("Statement", "x [ y ] := z")]),
    (lexref::BYSTRN, &[("ScillaType", "{}"), ("ScillaType", "Map {} {}"), ("ScillaType", "List {}"), ("ScillaType", "L . {}"), ("ScillaType", "{} with end"), ("FullExpression", "{} x"), ("Pattern", "{} _")]),
    (lexref::ID, &[("FullExpression", "let {} = {} in {}"), ("FullExpression", "fun ( {} : T ) => {}"), ("Statement", "{} := {}"), ("Statement", "{} <- & {}"), ("FullExpression", "builtin {} {}"), ("TransitionDefinition", "transition {} ( {} : T ) end"), ("ContractField", "field {} : T = {}"), ("FullExpression", "L . {}")]),
    (lexref::CID, &[("ScillaType", "{}"), ("ScillaType", "{} . {}"), ("ScillaType", "List {}"), ("Pattern", "{} _"), ("FullExpression", "{} x"), ("TransitionDefinition", "transition {} ( x : {} ) end"), ("ScillaType", "Map {} {}")]),
    (lexref::SPID, &[("FullExpression", "let x = {} in {}"), ("FullExpression", "{ {} : {} }"), ("ScillaType", "ByStr20 with contract field {} : T end"), ("Statement", "x := {}")]),
    (lexref::TID, &[("ScillaType", "{}"), ("ScillaType", "{} -> {}"), ("ScillaType", "forall {} . List {}"), ("FullExpression", "tfun {} => x")]),
];

/// Tokens of every class in every place: their trees, or the spans of those.
fn literal_trees(ctx: &Ctx, k: usize, spans: bool, r: &mut Rng, st: &mut Stats) -> R {
    for (t, l) in oracle::dict::literals().into_iter().skip(k).step_by(LITERALS as usize) {
        let Some((_, places)) = PLACES.iter().find(|p| p.0 == t) else { continue };
        let quick = !ctx.thorough && l.len() > 3;
        for (i, (name, text)) in places.iter().enumerate() {
            if quick && matches!(t, lexref::ID | lexref::CID | lexref::SPID | lexref::TID) && i != r.below(places.len()) {
                continue;
            }
            let mut toks = vec![];
            for w in text.split(' ') {
                crate::compose::raw(&mut toks, if w == "{}" { &l } else { w });
            }
            let o = ctx.earley.run(ctx.g.rule(name), &classes(&toks));
            if !o.accepted {
                continue;
            }
            let forest = ctx.earley.tree(&o, &|i| toks[i].text.clone());
            for mode in [Mode::Tight, any_mode(r)] {
                let laid = lay(&toks, mode, r);
                let mut want = forest.clone();
                place(&mut want, &laid.pos, &nospan);
                let Ok(got) = guard(&laid.text, &format!("{}Parser", name), || parse_text(name, &laid.text))? else { continue };
                let got = got.forest();
                st.eval();
                st.hit("trees around every token of a list");
                if let Some(d) = diff_shape(&want, &got) {
                    if !spans {
                        fail!(format!("{}: {}", name, laid.text), "the tree differs from the source {}\nexpected:\n{}got:\n{}", d, clip(&render_forest(&want, false), 3000), clip(&render_forest(&got, false), 3000));
                    }
                } else if spans {
                    if let Some(d) = diff_spans(&want, &got) {
                        fail!(format!("{}: {}", name, laid.text), "{}", d);
                    }
                }
            }
        }
    }
    Ok(())
}

fn is_literals(ctx: &Ctx, id: u64) -> Option<usize> {
    let n = tree_blocks(ctx);
    (id < n && id >= n - LITERALS).then(|| (id + LITERALS - n) as usize)
}

fn observe(ctx: &Ctx, prop: &str, id: u64, st: &mut Stats) -> Result<Option<(String, Vec<Tree>, Vec<Tree>)>, Viol> {
    let mut r = ctx.rng(prop, id);
    let r = &mut r;
    let nb = ctx.g.nalts as u64 * 6;
    let c;
    let text_case;
    if id >= nb && id < nb + ctx.corpus.len() as u64 {
        // A real contract: tokens by the lexical rules, tree by the grammar.
        let k = &ctx.corpus[(id - nb) as usize];
        if k.tokens > if ctx.thorough { 20_000 } else { 9_000 } {
            return Ok(None);
        }
        let lexed = oracle::lexref::lex(&k.text);
        let toks: Vec<GTok> = lexed.toks.iter().map(|t| GTok { t: t.t, text: t.text(&k.text).to_string() }).collect();
        let o = ctx.earley.run(ctx.g.rule("Program"), &classes(&toks));
        if !o.accepted {
            return Ok(None);
        }
        let mut forest = ctx.earley.tree(&o, &|i| toks[i].text.clone());
        let pos: Vec<(Pos, Pos)> = lexed.toks.iter().map(|t| (t.start, t.end)).collect();
        place(&mut forest, &pos, &nospan);
        st.hit("contracts observed");
        let got = guard(&k.text, "ProgramParser", || parse_text("Program", &k.text))?;
        return match got {
            Ok(p) => {
                st.eval();
                st.distinct(k.text.as_bytes());
                st.add("nodes observed", forest.iter().map(|t| t.count() as u64).sum());
                let real = p.forest();
                Ok(Some((k.text.clone(), forest, real)))
            }
            Err(_) => Ok(None),
        };
    } else {
        let first = nb + ctx.corpus.len() as u64;
        c = if id >= first && id < first + big_count(ctx) {
            let b = big(ctx, id - first, r);
            note_big(st, &b);
            TreeCase { name: ctx.g.rules[b.rule].name, toks: b.s.toks, forest: b.s.forest }
        } else {
            match tree_case(ctx, id, r, st) {
                Some(c) => c,
                None => return Ok(None),
            }
        };
        text_case = r.chance(1, 3) && c.toks.len() < 150;
    }
    let mut want = c.forest;
    let got;
    let input;
    if text_case {
        let l = lay(&c.toks, any_mode(r), r);
        place(&mut want, &l.pos, &nospan);
        got = guard(&l.text, &format!("{}Parser", c.name), || parse_text(c.name, &l.text))?;
        input = format!("{}: {}", c.name, l.text);
        st.hit("trees from text");
    } else {
        let pos = positions(&c.toks, r);
        place(&mut want, &pos, &nospan);
        input = format!("{}: {}", c.name, source::show(&c.toks));
        got = parse(&input, c.name, &c.toks, &pos)?;
        st.hit("trees from tokens");
    }
    let got = match got {
        Ok(g) => g,
        Err(_) => {
            // Whether it must be accepted is C08.
            st.hit("sentences that are not accepted");
            return Ok(None);
        }
    };
    st.eval();
    note_kinds(st, &want);
    st.add("nodes observed", want.iter().map(|t| t.count() as u64).sum());
    if c.toks.len() > 1 {
        st.seen("distinct", key(c.name, &c.toks));
        st.sample(|| format!("{} -> {}", input, clip(&render_forest(&want, true), 300)));
    }
    let real = got.forest();
    Ok(Some((input, want, real)))
}

pub fn c09(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    if let Some(k) = is_literals(ctx, id) {
        return literal_trees(ctx, k, false, &mut ctx.rng("literals", id), st);
    }
    if let Some((input, want, got)) = observe(ctx, "C09", id, st)? {
        if let Some(d) = diff_shape(&want, &got) {
            fail!(input, "the tree differs from the source {}\nexpected:\n{}got:\n{}", d, clip(&render_forest(&want, false), 3000), clip(&render_forest(&got, false), 3000));
        }
    }
    Ok(())
}

/// Nesting and order of the spans in a tree.
fn nested(t: &Tree, within: Option<(Pos, Pos)>) -> Option<String> {
    let here = t.span.or(within);
    if let (Some(s), Some(w)) = (t.span, within) {
        if s.0.byte < w.0.byte || s.1.byte > w.1.byte || s.0.byte > s.1.byte {
            return Some(format!("{} spans {:?}, which is not within its parent's {:?}", t.kind, s, w));
        }
    }
    let mut prev: Option<(Pos, Pos)> = None;
    for c in &t.ch {
        if let Some(d) = nested(c, here) {
            return Some(d);
        }
        if let Some(s) = c.span {
            if let Some(p) = prev {
                if s.0.byte < p.1.byte {
                    return Some(format!("children of {} overlap: {:?} and {:?}", t.kind, p, s));
                }
            }
            prev = Some(s);
        }
    }
    None
}

pub fn c10(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    if let Some(k) = is_literals(ctx, id) {
        return literal_trees(ctx, k, true, &mut ctx.rng("literals", id), st);
    }
    if let Some((input, want, got)) = observe(ctx, "C10", id, st)? {
        for t in &got {
            if let Some(d) = nested(t, None) {
                fail!(input, "{}", d);
            }
        }
        // Span by span, as long as the trees have the same nodes (which is C09).
        if diff_shape(&want, &got).is_none() {
            if let Some(d) = diff_spans(&want, &got) {
                fail!(input, "{}", d);
            }
            st.hit("trees compared span by span");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn check_error(input: &str, toks: &[GTok], pos: &[(Pos, Pos)], o: &Outcome, e: &PErr, st: &mut Stats) -> R {
    let end = pos.last().map(|p| p.1).unwrap_or(Pos { byte: 0, line: 0, col: 0 });
    if o.fail_at == toks.len() {
        st.hit("errors at the end observed");
        if e.kind != EKind::Eof {
            fail!(input, "reported as {:?} at {:?}, but the input is {}", e.kind, e.start, verdict(o, toks));
        }
        if e.start != end {
            fail!(input, "the end of input is reported at {:?}, the last token ends at {:?}", e.start, end);
        }
    } else {
        st.hit("errors at a token observed");
        let t = &toks[o.fail_at];
        if !matches!(e.kind, EKind::Token | EKind::Extra) || (e.start, e.end) != pos[o.fail_at] || e.token != Some(t.t) {
            fail!(
                input,
                "reported as {:?} for token {:?} at {:?}..{:?}, but the input is {}, which stands at {:?}",
                e.kind,
                e.token.map(|t| TERMS[t as usize]),
                e.start,
                e.end,
                verdict(o, toks),
                pos[o.fail_at]
            );
        }
        if e.kind == EKind::Extra {
            if !o.expected.is_empty() {
                fail!(input, "reported as a superfluous token, but the input is {}", verdict(o, toks));
            }
            return Ok(());
        }
    }
    let mut got = vec![];
    for x in &e.expected {
        match expected_term(x) {
            Some(t) => got.push(t),
            None => fail!(input, "{:?} is listed as expected, which is no token", x),
        }
    }
    let n = got.len();
    got.sort();
    got.dedup();
    if got.len() != n {
        fail!(input, "the list of acceptable tokens repeats some: {:?}", e.expected);
    }
    if let Some(x) = got.iter().find(|t| !o.expected.contains(t)) {
        fail!(input, "{:?} is listed as acceptable, but the input is {}", TERMS[*x as usize], verdict(o, toks));
    }
    // The generated parser may have reduced before it meets the error; its list can then be shorter.
    st.hit(if got == o.expected { "complete lists observed" } else { "shorter lists observed" });
    st.add("expected tokens observed", n as u64);
    Ok(())
}

pub fn c11_blocks(ctx: &Ctx) -> u64 {
    (NAMES.len() * NTERM) as u64 + big_count(ctx) + mutate::MARKS.len() as u64 + TAILS
}

fn reject(ctx: &Ctx, name: &str, toks: &[GTok], r: &mut Rng, st: &mut Stats) -> R {
    let o = ctx.earley.run(ctx.g.rule(name), &classes(toks));
    if o.accepted {
        return Ok(());
    }
    let pos = positions(toks, r);
    let input = format!("{}: {}", name, source::show(toks));
    match parse(&input, name, toks, &pos)? {
        // Accepting it is C08.
        Ok(_) => st.hit("wrong sequences that are accepted"),
        Err(e) => {
            st.eval();
            st.seen("distinct", key(name, toks));
            check_error(&input, toks, &pos, &o, &e, st)?;
            st.sample(|| format!("{} -> {:?}", input, e));
        }
    }
    Ok(())
}

fn reject_text(ctx: &Ctx, text: &str, st: &mut Stats) -> R {
    // Tokens by the lexical rules; where those leave something open there is nothing to say.
    let lexed = oracle::lexref::lex(text);
    if lexed.open_from.is_some() || lexed.toks.iter().any(|t| t.alt.is_some()) {
        return Ok(());
    }
    let toks: Vec<GTok> = lexed.toks.iter().map(|t| GTok { t: t.t, text: t.text(text).to_string() }).collect();
    let mut pos: Vec<(Pos, Pos)> = lexed.toks.iter().map(|t| (t.start, t.end)).collect();
    let o = ctx.earley.run(ctx.g.rule("Program"), &classes(&toks));
    if o.accepted {
        return Ok(());
    }
    let got = guard(text, "Contract::from_str", || Contract::from_str(text))?;
    st.eval();
    st.hit("texts rejected as contracts");
    st.distinct(text.as_bytes());
    match &got {
        Err(e) if is_parse_error(e) => {}
        Ok(_) => fail!(text, "accepted, but by the grammar it is {}", verdict(&o, &toks)),
        _ => fail!(text, "a text that is no contract gives {}", result_text(&got)),
    }
    if let Err(e) = guard(text, "ProgramParser", || parse_text("Program", text))? {
        if e.kind == EKind::Token && e.token == Some(UNKNOWN) && o.fail_at < toks.len() {
            // Where an unknown token ends is not specified.
            pos[o.fail_at].1 = e.end;
        }
        check_error(text, &toks, &pos, &o, &e, st)?;
    }
    Ok(())
}

pub fn c11(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C11", id);
    let r = &mut r;
    let nn = (NAMES.len() * NTERM) as u64;
    if id < c11_blocks(ctx) && id >= nn + big_count(ctx) {
        let k = (id - nn - big_count(ctx)) as usize;
        if k >= mutate::MARKS.len() {
            for text in tails(ctx, k - mutate::MARKS.len(), r) {
                st.hit("long texts with one token too many");
                reject_text(ctx, &text, st)?;
            }
            return Ok(());
        }
        let m = mutate::MARKS[k];
        for place in 0..5 {
            let mut text = lay(&program(ctx, r, crate::compose::Fill::Small).toks, any_mode(r), r).text;
            mutate::mark(&mut text, m, place, r);
            if text.len() < 6000 {
                reject_text(ctx, &text, st)?;
            }
        }
        return Ok(());
    }
    if id >= nn && id < c11_blocks(ctx) {
        // Errors in long lists and deep nests.
        let b = big(ctx, id - nn, r);
        let name = ctx.g.rules[b.rule].name;
        if b.s.toks.len() > if ctx.thorough { 20_000 } else { 6_000 } {
            return Ok(());
        }
        note_big(st, &b);
        let toks = &b.s.toks;
        let n = if toks.len() > 1500 { 2 } else { 6 };
        for _ in 0..n {
            reject(ctx, name, &toks[..r.below(toks.len())], r, st)?;
            let mut v = toks.clone();
            mutate::tokens(&mut v, &[], &ctx.dict, r);
            reject(ctx, name, &v, r, st)?;
        }
        return Ok(());
    }
    if id < nn {
        let name = NAMES[id as usize / NTERM];
        let t = (id as usize % NTERM) as u8;
        if t == 0 {
            reject(ctx, name, &[], r, st)?;
        }
        let a = short(ctx, r, t);
        reject(ctx, name, &[a.clone()], r, st)?;
        for _ in 0..4 {
            let u = r.below(NTERM + 1) as u8;
            let b = if u == UNKNOWN { GTok::new(UNKNOWN, "$") } else { short(ctx, r, u) };
            reject(ctx, name, &[a.clone(), b], r, st)?;
        }
        return Ok(());
    }
    if r.chance(1, 4) {
        // Texts: damaged contracts.
        let fill = *r.pick(&[crate::compose::Fill::None, crate::compose::Fill::Small, crate::compose::Fill::Small]);
        let p = program(ctx, r, fill);
        let mut toks = p.toks;
        if toks.len() > 250 {
            return Ok(());
        }
        if r.chance(2, 3) {
            mutate::tokens(&mut toks, &[], &ctx.dict, r);
        }
        let l = lay(&toks, any_mode(r), r);
        let text = if r.chance(1, 3) { mutate::text(&l.text, "", r) } else { l.text };
        return reject_text(ctx, &text, st);
    }
    let rule = any_rule(ctx, r);
    let name = ctx.g.rules[rule].name;
    let max = if r.chance(1, 12) { 200 } else { 45 };
    let s = sentence(ctx, r, Some(rule), max);
    note_kinds(st, &s.forest);
    let toks = s.toks;
    match r.below(4) {
        0 => {
            // Cut off everywhere.
            let step = (toks.len() / 40).max(1);
            for i in (0..toks.len()).step_by(step) {
                reject(ctx, name, &toks[..i], r, st)?;
            }
        }
        1 => {
            // A wrong token of every kind at one place.
            let i = r.below(toks.len() + 1);
            for t in 0..=NTERM as u8 {
                let mut v = toks.clone();
                v.insert(i, if t == UNKNOWN { GTok::new(UNKNOWN, "#") } else { short(ctx, r, t) });
                reject(ctx, name, &v, r, st)?;
            }
        }
        _ => {
            for _ in 0..15 {
                let mut v = toks.clone();
                let donor = if r.chance(1, 3) { sentence(ctx, r, None, 20).toks } else { toks.clone() };
                mutate::tokens(&mut v, &donor, &ctx.dict, r);
                if r.chance(1, 12) {
                    v.insert(r.below(v.len() + 1), GTok::new(UNKNOWN, "$"));
                }
                reject(ctx, name, &v, r, st)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

fn index_of(e: &PErr, pos: &[(Pos, Pos)]) -> Option<usize> {
    if e.kind == EKind::Eof {
        return Some(pos.len());
    }
    pos.iter().position(|p| p.0.byte == e.start.byte)
}

/// Two texts with the same tokens are parsed alike.
fn alike(name: &str, a: &str, apos: &[(Pos, Pos)], b: &str, bpos: &[(Pos, Pos)], st: &mut Stats) -> R {
    let input = format!("{}:\n{}\n---- and ----\n{}", name, a, b);
    let x = guard(a, name, || parse_text(name, a))?;
    let y = guard(b, name, || parse_text(name, b))?;
    st.eval();
    match (&x, &y) {
        (Ok(p), Ok(q)) => {
            st.hit("accepted pairs observed");
            if let Some(d) = diff_shape(&p.forest(), &q.forest()) {
                fail!(input, "the trees differ {}", d);
            }
        }
        (Err(e), Err(f)) => {
            st.hit("rejected pairs observed");
            if e.kind != f.kind || e.token != f.token || e.expected != f.expected || index_of(e, apos) != index_of(f, bpos) {
                fail!(input, "the errors differ: {:?} (token {:?}) and {:?} (token {:?})", e, index_of(e, apos), f, index_of(f, bpos));
            }
        }
        _ => fail!(input, "one is accepted and the other is not: {:?} {:?}", x.as_ref().err(), y.as_ref().err()),
    }
    if name == "Program" {
        let x = guard(a, "Contract::from_str", || Contract::from_str(a))?;
        let y = guard(b, "Contract::from_str", || Contract::from_str(b))?;
        st.hit("contract pairs observed");
        match (&x, &y) {
            (Ok(c), Ok(d)) if c == d => {}
            (Err(e), Err(f)) if std::mem::discriminant(e) == std::mem::discriminant(f) => {}
            _ => fail!(input, "the results differ:\n{}\n{}", result_text(&x), result_text(&y)),
        }
    }
    Ok(())
}

pub fn c04_blocks(ctx: &Ctx) -> u64 {
    // Every separator at every kind of place; the contracts.
    (oracle::layout::SPACES.len() + oracle::layout::COMMENTS.len() + long::LAYOUT.len()) as u64 + ctx.corpus.len() as u64 + odd().len() as u64
}

/// Pieces of text that are no white space, though they may look like it.
fn odd() -> Vec<&'static str> {
    oracle::mutate::NASTY.iter().chain(oracle::mutate::MARKS).cloned().collect()
}

/// An odd piece between two tokens, with other white space and comments around it.
fn c04_odd(ctx: &Ctx, odd: &str, r: &mut Rng, st: &mut Stats) -> R {
    const AROUND: &[(&str, &str)] = &[
        (" ", " "), ("\n", " "), (" ", "\n"), ("\n", "\n"), ("\r\n", "\r\n"), ("\t", "\t"), ("(**)", "(**)"), ("\n(* x *)", "(* y *)\n"), ("\n\n", ""), ("", "\n"), ("\n", ""), ("", " "), (" ", ""), ("\u{3000}", "\u{a0}"),
        ("\r", "\r"), ("    ", ""), ("\n\t", "\t"),
    ];
    for _ in 0..if ctx.thorough { 12 } else { 3 } {
        let (name, toks) = if r.chance(2, 3) {
            ("Program", program(ctx, r, crate::compose::Fill::None).toks)
        } else {
            let rule = any_rule(ctx, r);
            (ctx.g.rules[rule].name, sentence(ctx, r, Some(rule), 25).toks)
        };
        if toks.len() > 60 {
            continue;
        }
        let gaps = [0, r.below(toks.len() + 1), r.below(toks.len() + 1), toks.len()];
        for at in gaps {
            let text = |before: &str, after: &str| {
                let mut s = String::new();
                for (i, t) in toks.iter().enumerate() {
                    if i == at {
                        s.push_str(before);
                        s.push_str(odd);
                        s.push_str(after);
                    } else if i > 0 {
                        s.push(' ');
                    }
                    s.push_str(&t.text);
                }
                if at == toks.len() {
                    s.push_str(before);
                    s.push_str(odd);
                    s.push_str(after);
                }
                s
            };
            let classes = |s: &str| {
                let l = oracle::lexref::lex(s);
                if l.open_from.is_some() || l.toks.iter().any(|t| t.alt.is_some()) {
                    return None;
                }
                let c: Vec<(u8, String)> = l.toks.iter().map(|t| (t.t, if t.end_open { String::new() } else { t.text(s).to_string() })).collect();
                let p: Vec<(Pos, Pos)> = l.toks.iter().map(|t| (t.start, t.end)).collect();
                Some((c, p))
            };
            let a = text(" ", " ");
            let (ca, pa) = match classes(&a) {
                Some(x) => x,
                None => continue,
            };
            for _ in 0..if ctx.thorough { 12 } else { 5 } {
                let (before, after) = r.pick(AROUND);
                let b = text(before, after);
                match classes(&b) {
                    Some((cb, pb)) if cb == ca => {
                        st.hit("pairs with an odd piece observed");
                        st.distinct(b.as_bytes());
                        alike(name, &a, &pa, &b, &pb, st)?;
                    }
                    _ => {}
                }
            }
        }
    }
    Ok(())
}

const STRINGS: &[&str] = &["\" \"", "\"(*\"", "\"(* x *)\"", "\"*)\"", "\"\\\"(*\"", "\"a  b\"", "\"\n\"", "\"\\n\"", "\"\"", "\"\\\\\""];

pub fn c04(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C04", id);
    let r = &mut r;
    let seps: Vec<&str> = oracle::layout::SPACES.iter().chain(oracle::layout::COMMENTS).cloned().collect();
    if id < seps.len() as u64 {
        // The same separator between all tokens of a few sentences of every rule.
        let sep = seps[id as usize];
        for name in NAMES {
            let s = sentence(ctx, r, Some(ctx.g.rule(name)), 25);
            let a = lay(&s.toks, Mode::Plain, r);
            let mut text = sep.to_string();
            for t in &s.toks {
                text.push_str(&t.text);
                text.push_str(sep);
            }
            let lexed = oracle::lexref::lex(&text);
            assert!(lexed.toks.len() == s.toks.len());
            let bpos: Vec<(Pos, Pos)> = lexed.toks.iter().map(|t| (t.start, t.end)).collect();
            alike(name, &a.text, &a.pos, &text, &bpos, st)?;
            st.distinct(text.as_bytes());
        }
        st.hit("separators tried everywhere");
        return Ok(());
    }
    let id = id - seps.len() as u64;
    if id < long::LAYOUT.len() as u64 {
        // A long stretch of layout between any two tokens.
        for n in long::lengths(ctx) {
            let gap = long::run(&long::LAYOUT[id as usize], *n);
            let (name, toks) = if r.chance(2, 3) {
                ("Program", program(ctx, r, crate::compose::Fill::None).toks)
            } else {
                let rule = any_rule(ctx, r);
                (ctx.g.rules[rule].name, sentence(ctx, r, Some(rule), 25).toks)
            };
            let a = lay(&toks, Mode::Plain, r);
            for _ in 0..2 {
                let at = r.below(toks.len() + 1);
                let mut text = String::new();
                for (i, t) in toks.iter().enumerate() {
                    text.push_str(if i == at { &gap } else { " " });
                    text.push_str(&t.text);
                }
                if at == toks.len() {
                    text.push_str(&gap);
                }
                let lexed = oracle::lexref::lex(&text);
                if lexed.toks.len() != toks.len() {
                    panic!("a long gap changes the tokens");
                }
                let bpos: Vec<(Pos, Pos)> = lexed.toks.iter().map(|t| (t.start, t.end)).collect();
                alike(name, &a.text, &a.pos, &text, &bpos, st)?;
                st.distinct(text.as_bytes());
            }
            st.hit("long gaps tried");
        }
        return Ok(());
    }
    let id = id - long::LAYOUT.len() as u64;
    if id < ctx.corpus.len() as u64 {
        let k = &ctx.corpus[id as usize];
        if k.tokens > 3000 && !ctx.thorough {
            return Ok(());
        }
        let lexed = oracle::lexref::lex(&k.text);
        let toks: Vec<GTok> = lexed.toks.iter().map(|t| GTok { t: t.t, text: t.text(&k.text).to_string() }).collect();
        let apos: Vec<(Pos, Pos)> = lexed.toks.iter().map(|t| (t.start, t.end)).collect();
        for m in [Mode::Tight, Mode::Wild] {
            let b = lay(&toks, m, r);
            alike("Program", &k.text, &apos, &b.text, &b.pos, st)?;
            st.distinct(b.text.as_bytes());
        }
        st.hit("contracts laid out anew");
        return Ok(());
    }
    let id = id - ctx.corpus.len() as u64;
    if id < odd().len() as u64 {
        return c04_odd(ctx, odd()[id as usize], r, st);
    }
    let (name, mut toks) = if r.chance(1, 2) {
        let fill = *r.pick(&[crate::compose::Fill::None, crate::compose::Fill::Small, crate::compose::Fill::Rich]);
        ("Program", program(ctx, r, fill).toks)
    } else {
        let rule = any_rule(ctx, r);
        (ctx.g.rules[rule].name, sentence(ctx, r, Some(rule), 80).toks)
    };
    if toks.len() > 500 {
        return Ok(());
    }
    for t in toks.iter_mut() {
        if t.t == STRING && r.chance(1, 2) {
            t.text = r.pick(STRINGS).to_string();
        }
    }
    if r.chance(1, 3) {
        mutate::tokens(&mut toks, &[], &ctx.dict, r);
    }
    let a = lay(&toks, any_mode(r), r);
    let m = if r.chance(2, 3) { Mode::Wild } else { any_mode(r) };
    let b = lay(&toks, m, r);
    st.seen("distinct", hash_bytes(b.text.as_bytes()));
    st.add("tokens laid out", 2 * toks.len() as u64);
    st.sample(|| format!("{:?} and {:?}", clip(&a.text, 200), clip(&b.text, 200)));
    alike(name, &a.text, &a.pos, &b.text, &b.pos, st)
}

