//! C12, C13, C14 and C16: traversals, observed by a converter that records every call.

use super::source::{self, *};
use crate::core::*;
use crate::real::{parse_text, parse_tokens, Parsed};
use crate::rec::{script, show, Act, Rec, Script, Watch, NODE_TYPES};
use crate::shape::Shape;
use oracle::gen::{GTok, Style};
use oracle::iface;
use oracle::layout::{any_mode, layout};
use oracle::rng::Rng;
use oracle::tree::{diff_shape, Pos, Tree};
use std::collections::HashMap;

struct Walked {
    input: String,
    node: Box<dyn Parsed>,
    /// The real tree, with the addresses of its nodes.
    tree: Vec<Tree>,
    toks: Vec<GTok>,
}

pub fn blocks(ctx: &Ctx) -> u64 {
    ctx.g.nalts as u64 * 6 + ctx.corpus.len() as u64 + big_count(ctx)
}

/// At how many of n places something is done, so that it does not take too long.
fn places(n: usize, most: usize) -> usize {
    most.min(1 + 1_500_000 / (n + 1))
}

fn case(ctx: &Ctx, prop: &str, id: u64, r: &mut Rng, st: &mut Stats, max: usize) -> Result<Option<Walked>, Viol> {
    let _ = prop;
    let nalts = ctx.g.nalts as u64;
    let (rule, focus) = if id < nalts * 6 {
        let alt = (id % nalts) as usize;
        let own = ctx.g.rules.iter().position(|x| x.alts.iter().any(|a| a.id == alt)).unwrap();
        let rule = match id / nalts {
            0..=2 if !ctx.g.rules[own].private => own,
            3 => ctx.g.rule("ContractDefinition"),
            _ => ctx.g.rule("Program"),
        };
        (rule, Some(alt))
    } else if id < nalts * 6 + ctx.corpus.len() as u64 {
        let k = &ctx.corpus[(id - nalts * 6) as usize];
        let lexed = oracle::lexref::lex(&k.text);
        let toks: Vec<GTok> = lexed.toks.iter().map(|t| GTok { t: t.t, text: t.text(&k.text).to_string() }).collect();
        let got = guard(&k.text, "ProgramParser", || parse_text("Program", &k.text))?;
        return Ok(match got {
            Ok(node) => {
                st.hit("contracts walked");
                let tree = node.forest();
                Some(Walked { input: k.text.clone(), node, tree, toks })
            }
            Err(_) => None,
        });
    } else if id < blocks(ctx) {
        let b = big(ctx, id - nalts * 6 - ctx.corpus.len() as u64, r);
        note_big(st, &b);
        return walked(ctx, b.rule, b.s, r, st);
    } else {
        (any_rule(ctx, r), if r.chance(2, 3) { Some(r.below(ctx.g.nalts)) } else { None })
    };
    let mut g = oracle::gen::Gen::new(&ctx.g, &ctx.dict, r.next());
    if r.chance(3, 4) {
        g.used = vec![3; ctx.g.nalts];
    }
    g.focus = focus;
    let mut style = Style::random(r);
    style.max_tokens = style.max_tokens.min(max);
    if style.long > max {
        style.long = 0;
    }
    if focus.is_some() && r.chance(1, 2) {
        style.depth = style.depth.max(14);
        style.max_tokens = style.max_tokens.max(40);
    }
    let s = g.sentence_with(rule, style);
    walked(ctx, rule, s, r, st)
}

fn walked(ctx: &Ctx, rule: usize, s: oracle::gen::Sentence, r: &mut Rng, st: &mut Stats) -> Result<Option<Walked>, Viol> {
    let name = ctx.g.rules[rule].name;
    let m = any_mode(r);
    let pos = if r.chance(1, 4) && !s.toks.is_empty() {
        st.hit("trees with positions that no text has");
        odd_positions(&s.toks, r)
    } else {
        layout(&s.toks, m, r).pos
    };
    let input = format!("{}: {}", name, source::show(&s.toks));
    let got = guard(&input, name, || parse_tokens(name, &s.toks, &pos))?;
    Ok(match got {
        Ok(node) => {
            let tree = node.forest();
            if let Some(d) = diff_shape(&s.forest, &tree) {
                // The tree itself is C09; it is walked all the same.
                let _ = d;
                st.hit("trees that differ from the source");
            }
            note_kinds(st, &tree);
            st.seen("distinct", key(name, &s.toks));
            Some(Walked { input, node, tree, toks: s.toks })
        }
        Err(_) => {
            st.hit("sentences that are not accepted");
            None
        }
    })
}

fn mode(enter: bool) -> &'static str {
    if enter {
        "enter"
    } else {
        "exit"
    }
}

// ---------------------------------------------------------------- C12

/// Compares the events of a walk, one by one, with those the tree calls for.
struct Order<'t> {
    s: &'t Script<'t>,
    at: usize,
    skips: Vec<bool>,
    wrong: Option<String>,
    events: u64,
    skipped: u64,
}

impl<'t> Watch for Order<'t> {
    fn event(&mut self, ty: &'static str, enter: bool, ptr: usize, node: &dyn Shape) -> Act {
        self.events += 1;
        if self.wrong.is_some() {
            return Act::Continue;
        }
        let Some((n, e, exit)) = self.s.steps.get(self.at) else {
            self.wrong = Some(format!("event {} ({} {}) after the last one expected", self.events, mode(enter), ty));
            return Act::Continue;
        };
        let want = self.s.nodes[*n];
        let same = want.node_type() == ty && *e == enter && (want.ptr == ptr || diff_shape(std::slice::from_ref(want), &[node.shape()]).is_none());
        if !same {
            self.wrong = Some(format!("event {} is {} of {}, expected {} of {}", self.events, mode(enter), show(&node.shape()), mode(*e), show(want)));
            return Act::Continue;
        }
        if enter && self.skips[*n] {
            self.skipped += 1;
            self.at = *exit + 1;
            return Act::Skip;
        }
        self.at += 1;
        Act::Continue
    }
    fn push(&mut self, _: Pos, _: Pos) {}
    fn pop(&mut self) {}
}

fn ordered(w: &Walked, s: &Script, skips: Vec<bool>, st: &mut Stats) -> R {
    let list: Vec<usize> = (0..skips.len()).filter(|i| skips[*i]).collect();
    let mut o = Order { s, at: 0, skips, wrong: None, events: 0, skipped: 0 };
    let ret = guard(&w.input, "a traversal", || w.node.walk(&mut Rec(&mut o)).map(|_| ()))?;
    st.eval();
    st.add("events observed", o.events);
    st.add("skips observed", o.skipped);
    let with = if list.is_empty() { String::new() } else { format!(" (skipping the children of nodes {:?})", list) };
    if let Some(d) = o.wrong {
        fail!(w.input, "{}{}", d, with);
    }
    if let Err(m) = ret {
        fail!(w.input, "a walk in which nothing fails returns the error {:?}{}", m, with);
    }
    if o.at != s.steps.len() {
        let (n, e, _) = s.steps[o.at];
        fail!(w.input, "the walk ends before {} of {}{}", mode(e), show(s.nodes[n]), with);
    }
    Ok(())
}

pub fn c12(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C12", id);
    let r = &mut r;
    let Some(w) = case(ctx, "C12", id, r, st, 200)? else { return Ok(()) };
    let s = script(&w.tree);
    let n = s.nodes.len();
    for x in &s.nodes {
        st.seen_str("node types", x.node_type());
    }
    assert!(s.nodes.iter().all(|x| NODE_TYPES.contains(&x.node_type())));
    st.sample(|| format!("{} -> {} events", w.input, s.steps.len()));
    ordered(&w, &s, vec![false; n], st)?;
    // Each node skipped alone (every one, if there are few), then random sets.
    let step = n.div_ceil(places(n, 60)).max(1);
    let off = r.below(step);
    for i in (off..n).step_by(step) {
        let mut v = vec![false; n];
        v[i] = true;
        ordered(&w, &s, v, st)?;
    }
    for _ in 0..4 {
        let p = *r.pick(&[2usize, 4, 10, 30]);
        let v = (0..n).map(|_| r.chance(1, p)).collect();
        ordered(&w, &s, v, st)?;
    }
    // Every node of one type skipped.
    let ty = s.nodes[r.below(n)].node_type();
    let v = s.nodes.iter().map(|x| x.node_type() == ty).collect();
    ordered(&w, &s, v, st)
}

// ---------------------------------------------------------------- C13

struct Stack<'t> {
    by_ptr: &'t HashMap<(usize, &'static str), &'t Tree>,
    stack: Vec<(Pos, Pos)>,
    entered: Vec<(usize, &'static str, usize)>,
    act: Box<dyn FnMut(u64, bool) -> Act + 't>,
    wrong: Option<String>,
    events: u64,
    checked: u64,
    deepest: u64,
    failed: bool,
}

impl<'t> Watch for Stack<'t> {
    fn event(&mut self, ty: &'static str, enter: bool, ptr: usize, node: &dyn Shape) -> Act {
        self.events += 1;
        if self.wrong.is_none() {
            if let Some(t) = self.by_ptr.get(&(ptr, ty)) {
                if let Some(span) = t.span {
                    self.checked += 1;
                    if self.stack.last() != Some(&span) {
                        self.wrong = Some(format!(
                            "at event {} ({} of {}) the innermost of {} positions is {:?}, the node's are {:?}",
                            self.events,
                            mode(enter),
                            show(t),
                            self.stack.len(),
                            self.stack.last(),
                            span
                        ));
                    }
                }
                if !enter {
                    // Between enter and exit, as many positions are popped as are pushed.
                    while let Some((p, y, depth)) = self.entered.pop() {
                        if (p, y) == (ptr, ty) {
                            if depth != self.stack.len() && self.wrong.is_none() {
                                self.wrong = Some(format!("{} positions on exit of {}, {} on its entry", self.stack.len(), show(t), depth));
                            }
                            break;
                        }
                    }
                }
            } else {
                let _ = node;
            }
        }
        let a = (self.act)(self.events, enter);
        if enter && matches!(a, Act::Continue) {
            self.entered.push((ptr, ty, self.stack.len()));
        }
        if matches!(a, Act::Fail(_)) {
            self.failed = true;
        }
        a
    }
    fn push(&mut self, start: Pos, end: Pos) {
        self.stack.push((start, end));
        self.deepest = self.deepest.max(self.stack.len() as u64);
    }
    fn pop(&mut self) {
        if self.stack.pop().is_none() && self.wrong.is_none() {
            self.wrong = Some(format!("after event {} a position is popped that was never pushed", self.events));
        }
    }
}

fn stacked<'t>(w: &Walked, by_ptr: &'t HashMap<(usize, &'static str), &'t Tree>, how: &str, act: Box<dyn FnMut(u64, bool) -> Act + 't>, st: &mut Stats) -> R {
    // The walk may start with positions on the stack; they must be there at the end.
    let base = (Pos { byte: usize::MAX, line: 1, col: 2 }, Pos { byte: usize::MAX, line: 3, col: 4 });
    let mut s = Stack { by_ptr, stack: vec![base], entered: vec![], act, wrong: None, events: 0, checked: 0, deepest: 0, failed: false };
    let ret = guard(&w.input, "a traversal", || w.node.walk(&mut Rec(&mut s)).map(|_| ()))?;
    let _ = ret;
    st.eval();
    st.add("events observed", s.events);
    st.add("events whose innermost position was checked", s.checked);
    st.max("largest stack of positions observed", s.deepest);
    if let Some(d) = s.wrong {
        fail!(w.input, "{} ({})", d, how);
    }
    if s.stack != vec![base] {
        fail!(w.input, "the walk leaves {} positions on the stack instead of 1 ({})", s.stack.len(), how);
    }
    if s.failed {
        st.hit("failing walks observed");
    }
    Ok(())
}

pub fn c13(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C13", id);
    let r = &mut r;
    let Some(w) = case(ctx, "C13", id, r, st, 200)? else { return Ok(()) };
    let s = script(&w.tree);
    let by_ptr: HashMap<(usize, &'static str), &Tree> = s.nodes.iter().map(|t| ((t.ptr, t.node_type()), *t)).collect();
    st.sample(|| format!("{} -> {} events", w.input, s.steps.len()));
    for x in &s.nodes {
        st.seen_str("node types", x.node_type());
    }
    stacked(&w, &by_ptr, "no skips", Box::new(|_, _| Act::Continue), st)?;
    let total = s.steps.len() as u64;
    // Skip at, and fail at, every event (a sample of them in long walks).
    let step = (total as usize).div_ceil(places(total as usize, 60)).max(1) as u64;
    let mut i = 1 + r.below(step as usize) as u64;
    while i <= total {
        stacked(&w, &by_ptr, &format!("the converter fails at event {}", i), Box::new(move |n, _| if n == i { Act::Fail("x".into()) } else { Act::Continue }), st)?;
        stacked(&w, &by_ptr, &format!("children skipped at event {}", i), Box::new(move |n, e| if n == i && e { Act::Skip } else { Act::Continue }), st)?;
        i += step;
    }
    for _ in 0..3 {
        let p = *r.pick(&[2usize, 4, 12]);
        let mut q = Rng::new(r.next());
        stacked(&w, &by_ptr, "random skips", Box::new(move |_, e| if e && q.chance(1, p) { Act::Skip } else { Act::Continue }), st)?;
        let mut q = Rng::new(r.next());
        let at = 1 + r.below(total as usize) as u64;
        stacked(
            &w,
            &by_ptr,
            "random skips and a failure",
            Box::new(move |n, e| {
                if n == at {
                    Act::Fail("x".into())
                } else if e && q.chance(1, p) {
                    Act::Skip
                } else {
                    Act::Continue
                }
            }),
            st,
        )?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

struct Failing {
    at: u64,
    skip: Option<(usize, Rng)>,
    msg: String,
    events: u64,
    after: Option<String>,
    place: String,
}

impl Watch for Failing {
    fn event(&mut self, ty: &'static str, enter: bool, _: usize, node: &dyn Shape) -> Act {
        self.events += 1;
        if self.events > self.at {
            if self.after.is_none() {
                self.after = Some(format!("{} of {}", mode(enter), show(&node.shape())));
            }
            return Act::Continue;
        }
        if self.events == self.at {
            self.place = format!("{} of {}", mode(enter), ty);
            return Act::Fail(self.msg.clone());
        }
        if let Some((p, q)) = &mut self.skip {
            if enter && q.chance(1, *p) {
                return Act::Skip;
            }
        }
        Act::Continue
    }
    fn push(&mut self, _: Pos, _: Pos) {}
    fn pop(&mut self) {}
}

fn failing(w: &Walked, at: u64, skip: Option<(usize, Rng)>, msg: &str, st: &mut Stats) -> Result<u64, Viol> {
    let mut f = Failing { at, skip, msg: msg.to_string(), events: 0, after: None, place: String::new() };
    let ret = guard(&w.input, "a traversal", || w.node.walk(&mut Rec(&mut f)).map(|_| ()))?;
    st.eval();
    if f.events < at {
        // Fewer events than that: nothing failed.
        st.hit("walks without a failure observed");
        if let Err(m) = ret {
            fail!(w.input, "a walk in which nothing fails returns the error {:?}", m);
        }
        return Ok(f.events);
    }
    st.hit("injected failures observed");
    st.seen_str("places of failures", &f.place);
    if let Some(e) = f.after {
        fail!(w.input, "the converter fails at event {} ({}), yet the walk goes on with {}", at, f.place, e);
    }
    match ret {
        Ok(()) => fail!(w.input, "the converter fails at event {} ({}), yet the walk succeeds", at, f.place),
        Err(m) if m != msg => fail!(w.input, "the converter fails at event {} ({}) with {:?}, the walk returns {:?}", at, f.place, msg, m),
        Err(_) => {}
    }
    Ok(f.events)
}

const MSGS: &[&str] = &[
    "converter error 4711", "Failure", "", "Continue", "error", "\u{e9}\n", " ", "\n", "\0", "  indented", "trailing ", "two\nlines", "two\r\nlines\r\n", "{}", "{0} %s $1", "Enter",
    "Exit", "SkipChildren", "skip", "Ok", "Err", "Ok(Continue)", "None", "null", "0", "-1", "Error: nested: error", "not implemented", "unimplemented", "ParseError(\"x\")", "\"quoted\"",
    "\u{1F980}", "tab\there", "\u{1b}[31mred\u{1b}[0m", "ignore", "stop", "abort", "continue", "fatal", "warning: x", "Unsupported type", "\u{feff}x", "\u{a0}", "e\u{301}",
];

/// What a converter may say when it fails.
fn message(ctx: &Ctx, r: &mut Rng) -> String {
    match r.below(12) {
        0 => {
            let n = *r.pick(&[33usize, 65, 81, 121, 129, 201, 256, 257, 301, 513, 1025, 5000]);
            r.pick(&["a", "\u{e9}", "x ", "line\n", "0", " "]).repeat(n)
        }
        1 | 2 => r.pick(&ctx.dict.words).clone(),
        3 => format!("{}{}{}", r.pick(MSGS), r.pick(&["", " ", ": ", "\n"]), r.pick(&ctx.dict.words)),
        4 => format!("{}{}", r.pick(MSGS), r.pick(MSGS)),
        _ => r.pick(MSGS).to_string(),
    }
}

pub fn c14(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C14", id);
    let r = &mut r;
    let Some(w) = case(ctx, "C14", id, r, st, 120)? else { return Ok(()) };
    let total = failing(&w, u64::MAX, None, "", st)?;
    st.sample(|| format!("{} -> a failure at each of {} events", w.input, total));
    let limit = places(total as usize, if ctx.thorough { 2000 } else { 400 }) as u64;
    let step = (total / limit).max(1);
    let mut i = 1 + r.below(step as usize) as u64;
    if step == 1 {
        st.hit("walks with a failure at every event");
    }
    while i <= total {
        let m = message(ctx, r);
        failing(&w, i, None, &m, st)?;
        i += step;
    }
    for _ in 0..8 {
        let p = *r.pick(&[2usize, 5, 15]);
        let q = Rng::new(r.next());
        let n = failing(&w, u64::MAX, Some((p, q.clone())), "", st)?;
        if n > 0 {
            let at = 1 + r.below(n as usize) as u64;
            let m = message(ctx, r);
            failing(&w, at, Some((p, q)), &m, st)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

const IDENTIFIERS: &[(&str, &str)] =
    &[("TypeNameIdentifier", "TypeNameIdentifier"), ("MetaIdentifier", "MetaIdentifier"), ("VariableIdentifier", "VariableIdentifier"), ("ByteStr", "ByteString")];

struct Printer {
    got: Vec<(&'static str, String, Tree)>,
}
impl Watch for Printer {
    fn event(&mut self, ty: &'static str, enter: bool, _: usize, node: &dyn Shape) -> Act {
        if enter {
            if let Some(p) = node.printed() {
                self.got.push((ty, p, node.shape()));
            }
        }
        Act::Continue
    }
    fn push(&mut self, _: Pos, _: Pos) {}
    fn pop(&mut self) {}
}

fn strip(t: &Tree) -> String {
    iface::name(t)
}

fn reparse(input: &str, ty: &str, printed: &str, want: &Tree, st: &mut Stats) -> R {
    let parser = IDENTIFIERS.iter().find(|x| x.0 == ty).unwrap().1;
    let again = guard(printed, parser, || parse_text(parser, printed))?;
    st.hit("printed identifiers parsed back");
    match again {
        Err(e) => fail!(input, "{} prints as {:?}, which does not parse back: {:?}", show(want), printed, e),
        Ok(p) => {
            if let Some(d) = diff_shape(std::slice::from_ref(want), &p.forest()) {
                fail!(input, "{} prints as {:?}, which parses back differently {}", show(want), printed, d);
            }
        }
    }
    Ok(())
}

pub fn c16_blocks(ctx: &Ctx) -> u64 {
    ctx.corpus.len() as u64 + 30 + LITERALS
}

const LITERALS: u64 = 32;

/// Every name of a list as an identifier, alone and qualified.
fn named(ctx: &Ctx, k: usize, st: &mut Stats) -> R {
    for (t, l) in oracle::dict::literals().into_iter().skip(k).step_by(LITERALS as usize) {
        st.eval();
        super::lex::token_strings(&l, st)?;
        for (ty, parser) in IDENTIFIERS {
            for text in [l.clone(), format!("{}.T", l), format!("Lib.{}", l), format!("{}.x", l), format!("{}.ByStr7", l)] {
                let mut toks = vec![];
                crate::compose::raw(&mut toks, &text);
                if !ctx.earley.run(ctx.g.rule(parser), &toks.iter().map(|t| t.t).collect::<Vec<_>>()).accepted {
                    continue;
                }
                let Ok(p) = guard(&text, parser, || parse_text(parser, &text))? else { continue };
                let printed = guard(&text, "printing an identifier", || p.printed())?;
                st.hit("identifiers of a list observed");
                st.distinct(text.as_bytes());
                if printed.as_deref() != Some(text.as_str()) {
                    fail!(text, "the identifier prints as {:?}", printed);
                }
                if t != oracle::lexref::ID || l.len() < 40 {
                    reparse(&text, ty, &text, &p.forest()[0], st)?;
                }
            }
        }
    }
    Ok(())
}

pub fn c16(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C16", id);
    let r = &mut r;
    if id < ctx.corpus.len() as u64 {
        st.eval();
        let t = &ctx.corpus[id as usize].text;
        st.distinct(t.as_bytes());
        return super::lex::token_strings(t, st);
    }
    if id >= ctx.corpus.len() as u64 + 30 && id < c16_blocks(ctx) {
        return named(ctx, (id - 30) as usize - ctx.corpus.len(), st);
    }
    match r.below(3) {
        0 => {
            // Tokens of every class.
            let n = r.range(1, 60);
            let toks: Vec<GTok> = (0..n).map(|_| oracle::mutate::random_tok(&ctx.dict, r)).collect();
            let l = lay(&toks, any_mode(r), r);
            st.eval();
            st.distinct(l.text.as_bytes());
            super::lex::token_strings(&l.text, st)?;
            // The token values themselves.
            for t in &toks {
                let s: String = guard(&t.text, "the conversion of a token to a string", || crate::real::to_token(t.t, &t.text).into())?;
                if s != t.text {
                    fail!(t.text, "token {:?} converts to {:?}", crate::real::to_token(t.t, &t.text), s);
                }
                let s: String = guard(&t.text, "the conversion of a token to a string", || owned(t).into())?;
                if s != t.text {
                    fail!(t.text, "token {:?} converts to {:?}", owned(t), s);
                }
            }
            Ok(())
        }
        1 => {
            // One identifier: what it prints is its tokens.
            let (ty, parser) = *r.pick(IDENTIFIERS);
            let s = sentence(ctx, r, Some(ctx.g.rule(parser)), 10);
            let l = lay(&s.toks, any_mode(r), r);
            let want: String = s.toks.iter().map(|t| t.text.as_str()).collect();
            let got = guard(&l.text, parser, || parse_text(parser, &l.text))?;
            st.eval();
            st.distinct(l.text.as_bytes());
            note_kinds(st, &s.forest);
            if let Ok(p) = got {
                st.hit("identifiers observed");
                let printed = guard(&l.text, "printing an identifier", || p.printed())?;
                st.sample(|| format!("{:?} prints as {:?}", l.text, printed));
                if printed.as_deref() != Some(want.as_str()) {
                    fail!(l.text, "the identifier prints as {:?} instead of {:?}", printed, want);
                }
                reparse(&l.text, ty, &want, &p.forest()[0], st)?;
            }
            Ok(())
        }
        _ => {
            // Every identifier of a tree.
            let Some(w) = case(ctx, "C16", u64::MAX, r, st, 100)? else { return Ok(()) };
            let mut p = Printer { got: vec![] };
            let ret = guard(&w.input, "a traversal", || w.node.walk(&mut Rec(&mut p)).map(|_| ()))?;
            let _ = ret;
            st.eval();
            // The identifiers the source has, in order.
            for (ty, printed, t) in &p.got {
                st.hit("identifiers observed");
                if *printed != strip(t) {
                    fail!(w.input, "{} prints as {:?} instead of {:?}", show(t), printed, strip(t));
                }
                if !appears(printed, &w.toks) {
                    fail!(w.input, "an identifier prints as {:?}, which the source does not have", printed);
                }
                if r.chance(1, 4) {
                    reparse(&w.input, ty, printed, t, st)?;
                }
            }
            Ok(())
        }
    }
}

fn owned(t: &GTok) -> scilla_parser::parser::lexer::Token<String> {
    use scilla_parser::parser::lexer::Token::*;
    use crate::real::to_token;
    match to_token(t.t, &t.text) {
        ByStrWithSize(s) => ByStrWithSize(s.to_string()),
        Number(s) => Number(s.to_string()),
        HexNumber(s) => HexNumber(s.to_string()),
        StringLiteral(s) => StringLiteral(s.to_string()),
        Identifier(s) => Identifier(s.to_string()),
        SpecialIdentifier(s) => SpecialIdentifier(s.to_string()),
        CustomIdentifier(s) => CustomIdentifier(s.to_string()),
        TemplateIdentifier(s) => TemplateIdentifier(s.to_string()),
        Forall => Forall,
        Emp => Emp,
        _ => Number(t.text.clone()),
    }
}

/// The text is the concatenation of some consecutive tokens.
fn appears(s: &str, toks: &[GTok]) -> bool {
    (0..toks.len()).any(|i| {
        let mut rest = s;
        for t in &toks[i..] {
            match rest.strip_prefix(t.text.as_str()) {
                Some(x) if x.is_empty() => return true,
                Some(x) => rest = x,
                None => return false,
            }
        }
        false
    })
}
