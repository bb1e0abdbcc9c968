//! Inputs shared by the monitors.

use crate::compose::{self, Builder, Fill};
use crate::core::*;
use crate::real::NAMES;
use oracle::gen::{GTok, Gen, Sentence, Style};
use oracle::iface::Iface;
use oracle::layout::{layout, self_check, Laid, Mode};
use oracle::rng::{hash_bytes, Rng};
use oracle::tree::{Pos, Tree};

/// A random sentence of a rule (of any public rule if none is given) of about so many tokens at most.
pub fn sentence(ctx: &Ctx, r: &mut Rng, rule: Option<usize>, max_tokens: usize) -> Sentence {
    let rule = rule.unwrap_or_else(|| any_rule(ctx, r));
    let mut style = Style::random(r);
    if style.max_tokens > max_tokens {
        style.max_tokens = r.range(max_tokens / 2, max_tokens);
    }
    if style.long > max_tokens {
        style.long = 0;
    }
    sentence_styled(ctx, r, rule, style)
}

pub fn sentence_styled(ctx: &Ctx, r: &mut Rng, rule: usize, style: Style) -> Sentence {
    let mut g = Gen::new(&ctx.g, &ctx.dict, r.next());
    if r.chance(3, 4) {
        g.used = vec![3; ctx.g.nalts];
    }
    if r.chance(2, 3) {
        g.focus = Some(r.below(ctx.g.nalts));
    }
    g.sentence_with(rule, style)
}

/// A public rule; those near the top of the grammar more often.
pub fn any_rule(ctx: &Ctx, r: &mut Rng) -> usize {
    match r.below(6) {
        0 => ctx.g.rule("Program"),
        1 => ctx.g.rule(*r.pick(&["ContractDefinition", "ComponentDefinition", "StatementBlock", "FullExpression", "LibraryDefinition", "ScillaType", "ComponentBody", "WithConstraint"])),
        _ => ctx.g.rule(*r.pick(NAMES)),
    }
}

pub fn nospan(t: &str) -> bool {
    matches!(t, "ByteStr" | "Program" | "Statement" | "RemoteFetchStatement" | "BlockchainFetchArguments")
}

pub fn classes(toks: &[GTok]) -> Vec<u8> {
    toks.iter().map(|t| t.t).collect()
}

pub fn key(rule: &str, toks: &[GTok]) -> u64 {
    let mut s = rule.as_bytes().to_vec();
    for t in toks {
        s.push(0);
        s.extend(t.text.as_bytes());
    }
    hash_bytes(&s)
}

pub fn show(toks: &[GTok]) -> String {
    toks.iter().map(|t| t.text.as_str()).collect::<Vec<_>>().join(" ")
}

/// Lays out a token sequence and makes sure that the layout has exactly these tokens.
pub fn lay(toks: &[GTok], mode: Mode, r: &mut Rng) -> Laid {
    let l = layout(toks, mode, r);
    if let Err(e) = self_check(toks, &l) {
        panic!("{}", e);
    }
    l
}

/// Positions for a token sequence that is fed to a parser without being lexed.
pub fn positions(toks: &[GTok], r: &mut Rng) -> Vec<(Pos, Pos)> {
    let m = *r.pick(&[Mode::Plain, Mode::Tight, Mode::Lines, Mode::Crlf, Mode::Wild, Mode::Wild]);
    layout(toks, m, r).pos
}

/// Positions no text has.
pub fn odd_positions(toks: &[GTok], r: &mut Rng) -> Vec<(Pos, Pos)> {
    let mut pos = positions(toks, r);
    let mut any = |r: &mut Rng| {
        let mut x = || (r.next() >> r.below(64)) as usize;
        Pos { byte: x(), line: x(), col: x() }
    };
    let none = Pos { byte: usize::MAX, line: usize::MAX, col: usize::MAX };
    let zero = Pos { byte: 0, line: 0, col: 0 };
    match r.below(9) {
        0 => pos.iter_mut().for_each(|x| *x = (zero, zero)),
        1 => pos.iter_mut().for_each(|x| *x = (none, none)),
        2 => {
            let p = (any(r), any(r));
            pos.iter_mut().for_each(|x| *x = p);
        }
        3 => pos.reverse(),
        // Nothing between start and end.
        4 => pos.iter_mut().for_each(|x| x.1 = x.0),
        5 => {
            let few = [(any(r), any(r)), (zero, none), (none, none), pos[0]];
            pos.iter_mut().for_each(|x| *x = *r.pick(&few));
        }
        6 => pos.iter_mut().for_each(|x| *x = (any(r), any(r))),
        7 => {
            for _ in 0..1 + pos.len() / 6 {
                let (i, j) = (r.below(pos.len()), r.below(pos.len()));
                pos[i] = pos[j];
            }
        }
        _ => pos.iter_mut().for_each(|x| std::mem::swap(&mut x.0, &mut x.1)),
    }
    pos
}

/// Marks the alternatives used in a tree.
pub fn note_kinds(st: &mut Stats, forest: &[Tree]) {
    for t in forest {
        if !t.is_leaf() {
            st.seen_str("node alternatives", t.kind);
            note_kinds(st, &t.ch);
        }
    }
}

pub fn token_classes(st: &mut Stats, toks: &[GTok]) {
    for t in toks {
        st.seen("terminals", t.t as u64);
    }
}

pub struct Prog {
    pub toks: Vec<GTok>,
    pub iface: Iface,
}

/// A contract around the given interface; gives up (None) when a type has no written form.
pub fn around(ctx: &Ctx, r: &mut Rng, f: &Iface, fill: Fill) -> Option<Vec<GTok>> {
    for _ in 0..10 {
        let mut b = Builder::new(ctx, r, fill);
        if let Some(t) = b.program(r, f) {
            return Some(t);
        }
    }
    None
}

pub fn program(ctx: &Ctx, r: &mut Rng, fill: Fill) -> Prog {
    loop {
        let f = if fill == Fill::None || r.chance(1, 4) { compose::small_iface(ctx, r) } else { compose::iface(ctx, r) };
        let fill = if f.entries() > 40 && fill == Fill::Rich { Fill::Small } else { fill };
        if let Some(toks) = around(ctx, r, &f, fill) {
            return Prog { toks, iface: f };
        }
    }
}

/// Long lists: every repetition of the grammar, with these numbers of elements.
fn lengths(ctx: &Ctx) -> &'static [usize] {
    if ctx.thorough {
        &[256, 257, 300, 1025, 4097, 65_537, 70_000, 140_000]
    } else {
        &[257, 4_097, 65_537]
    }
}

/// Deep nests: every rule within itself, along the shortest way, this many steps.
fn depths(ctx: &Ctx) -> &'static [usize] {
    if ctx.thorough {
        &[60, 130, 260, 520, 1030, 2050, 5000]
    } else {
        &[60, 300, 1500]
    }
}

pub struct Big {
    pub rule: usize,
    pub s: Sentence,
    pub what: String,
}

pub fn big_count(ctx: &Ctx) -> u64 {
    (ctx.g.repetitions().len() * lengths(ctx).len() + ctx.g.cycles().len() * depths(ctx).len()) as u64
}

/// The k-th long or deep sentence.
pub fn big(ctx: &Ctx, k: u64, r: &mut Rng) -> Big {
    let k = k as usize;
    let mut gen = Gen::new(&ctx.g, &ctx.dict, r.next());
    let reps = ctx.g.repetitions();
    let n = reps.len() * lengths(ctx).len();
    if k < n {
        let (rule, alt, body) = reps[k % reps.len()];
        let len = lengths(ctx)[k / reps.len()];
        let s = gen.list(rule, alt, body, len);
        return Big { rule, s, what: format!("{} (alternative {}) with a list of {}", ctx.g.rules[rule].name, alt, len) };
    }
    let k = k - n;
    let cycles = ctx.g.cycles();
    let c = &cycles[k % cycles.len()];
    let depth = depths(ctx)[k / cycles.len()];
    let way: Vec<&str> = c.iter().map(|s| ctx.g.rules[s.rule].name).collect();
    Big { rule: c[0].rule, s: gen.chain(c, depth), what: format!("{} nested {} deep", way.join(" > "), depth) }
}

pub fn note_big(st: &mut Stats, b: &Big) {
    st.hit("long lists and deep nests observed");
    st.max("largest number of tokens in a sentence", b.s.toks.len() as u64);
}
