//! C02, C03, C05, C15, C20: what is reported about a contract.

use super::bulk::{self, declared_fed, long_iface, long_names, nest};
use super::source::{self, *};
use crate::compose::{self, fixed, raw, Fill};
use crate::core::*;
use crate::model::{iface_diff, matches, result_text};
use oracle::gen::GTok;
use oracle::iface::{extract, ty, Iface, Refuse};
use oracle::layout::{any_mode, Mode};
use oracle::lexref::{self, CID, ID};
use oracle::mutate;
use oracle::rng::Rng;
use oracle::tree::Tree;
use oracle::tygen::{self, name_type, MTy, TyGen, PRIMS};
use scilla_parser::{Contract, Error, Field, Type};
use std::cell::RefCell;
use std::collections::HashMap;
use std::str::FromStr;

fn contract(text: &str) -> Result<Result<Contract, Error>, Viol> {
    guard(text, "Contract::from_str", || Contract::from_str(text))
}

/// The contract a text declares must be reported exactly.
fn declared(text: &str, want: &Iface, st: &mut Stats) -> R {
    let got = contract(text)?;
    st.eval();
    match got {
        Ok(c) => {
            if let Some(d) = iface_diff(&c, want) {
                fail!(text, "{}", d);
            }
            st.add("entries compared", want.entries() as u64);
        }
        // Whether a type without a meaning is refused is left open.
        Err(_) if want.has_any() => st.hit("left out: refused for a type without a meaning"),
        Err(e) => fail!(text, "a well-formed contract is refused: {:?}", e),
    }
    Ok(())
}

/// Tokens of a text and their tree as a contract, by the reference rules alone.
fn reference(ctx: &Ctx, text: &str) -> Option<Tree> {
    let l = lexref::lex(text);
    if l.open_from.is_some() || l.toks.iter().any(|t| t.t == lexref::UNKNOWN) {
        return None;
    }
    let toks: Vec<GTok> = l.toks.iter().map(|t| GTok { t: t.t, text: t.text(text).to_string() }).collect();
    tree_of(ctx, &toks)
}

fn tree_of(ctx: &Ctx, toks: &[GTok]) -> Option<Tree> {
    let o = ctx.earley.run(ctx.g.rule("Program"), &classes(toks));
    if !o.accepted {
        return None;
    }
    ctx.earley.tree(&o, &|i| toks[i].text.clone()).pop()
}

// ---------------------------------------------------------------- C02

const SHAPES: u64 = 4 * 4 * 4 * 4;

pub fn c02_blocks(ctx: &Ctx) -> u64 {
    ctx.corpus.len() as u64 + SHAPES + bulk_sizes(ctx).len() as u64 * bulk::LONG as u64 + 3 + bulk::REPEATS as u64
}

fn bulk_sizes(ctx: &Ctx) -> &'static [usize] {
    if ctx.thorough {
        &[64, 65, 127, 128, 129, 255, 256, 257, 300, 1023, 1025, 4097, 32_769, 65_536, 65_537, 70_000, 200_000]
    } else {
        &[128, 129, 256, 257, 1_025, 65_537]
    }
}

fn named(n: usize, p: &str) -> Vec<(String, MTy)> {
    (0..n).map(|i| (format!("{}{}", p, i), MTy::Prim(PRIMS[(i * 5 + p.len()) % PRIMS.len()].to_string()))).collect()
}

pub fn c02(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C02", id);
    let r = &mut r;
    let nc = ctx.corpus.len() as u64;
    if id < nc {
        let c = &ctx.corpus[id as usize];
        if c.tokens > 12_000 {
            return Ok(());
        }
        if let Some(t) = reference(ctx, &c.text) {
            if let Ok(f) = extract(&t) {
                st.hit("contracts of the repository compared");
                st.distinct(c.text.as_bytes());
                return declared(&c.text, &f, st);
            }
        }
        return Ok(());
    }
    if id < nc + SHAPES {
        // Every small shape of a contract.
        let k = id - nc;
        let (p, f, t, q) = ((k % 4) as usize, (k / 4 % 4) as usize, (k / 16 % 4) as usize, (k / 64) as usize);
        let mut want = Iface { name: "C".into(), params: named(p, "p"), fields: named(f, "f"), transitions: vec![] };
        for i in 0..t {
            want.transitions.push((if i == 1 { "t".into() } else { format!("T{}", i) }, named((i + q) % 4, "a")));
        }
        for fill in [Fill::None, Fill::Small, Fill::Small, Fill::Rich] {
            if let Some(toks) = around(ctx, r, &want, fill) {
                let l = lay(&toks, any_mode(r), r);
                st.distinct(l.text.as_bytes());
                declared(&l.text, &want, st)?;
            }
        }
        return Ok(());
    }
    let k = (id - nc - SHAPES.min(id - nc)) as usize;
    if k < bulk_sizes(ctx).len() * bulk::LONG {
        // One list is long.
        let n = bulk_sizes(ctx)[k / bulk::LONG];
        let n = if k % bulk::LONG == 6 { n.min(17_000) } else { n };
        let f = long_iface(k % bulk::LONG, n);
        st.hit("interfaces with a long list compared");
        st.distinct(format!("long list {} {}", k % bulk::LONG, n).as_bytes());
        if n <= 300 {
            let toks = around(ctx, r, &f, if n < 200 { Fill::Small } else { Fill::None }).unwrap();
            declared(&lay(&toks, any_mode(r), r).text, &f, st)?;
        }
        return declared_fed(ctx, r, &format!("a contract with list {} of length {}", k % bulk::LONG, n), &f, st);
    }
    let k = k - bulk_sizes(ctx).len() * bulk::LONG;
    if k < 2 {
        // Long names.
        for n in [63, 64, 65, 127, 128, 254, 255, 256, 257, 1000, 5000, 66_000] {
            let x = |c: &str| format!("{}{}", c, "a".repeat(n));
            let name = if k == 0 { x("C") } else { x("ByStr") };
            let f = Iface {
                name,
                params: vec![(x("p"), MTy::ByStr), (x("p") + "b", MTy::ByStr20), (x("p") + "c", MTy::ByStr20)],
                fields: vec![(x("p"), MTy::ByStr), (x("p") + "b", MTy::ByStr20)],
                transitions: vec![(x("t"), vec![(x("a"), MTy::ByStr)]), (x("T"), vec![(x("a") + "b", MTy::ByStr)]), (x("T") + "_", vec![])],
            };
            let toks = around(ctx, r, &f, Fill::None).unwrap();
            declared(&lay(&toks, Mode::Plain, r).text, &f, st)?;
            st.hit("interfaces with long names compared");
        }
        return Ok(());
    }
    let k = k - 2;
    if k == bulk::REPEATS {
        // Every name of a list, in every place.
        for (t, l) in oracle::dict::literals() {
            let e = |n: &str| (n.to_string(), MTy::ByStr20);
            let f = match t {
                ID => Iface { name: "C".into(), params: vec![e(&l), e("p")], fields: vec![e("f"), e(&l)], transitions: vec![(l.clone(), vec![e("a"), e(&l)]), ("U".into(), vec![e(&l)])] },
                CID | lexref::BYSTRN => Iface { name: l.clone(), params: vec![e("p")], fields: vec![e("f")], transitions: vec![(if t == CID { l.clone() } else { "T".into() }, vec![e("a")])] },
                _ => continue,
            };
            st.distinct(l.as_bytes());
            st.hit("names compared in every place");
            declared_fed(ctx, r, &l, &f, st)?;
        }
        return Ok(());
    }
    if k < bulk::REPEATS {
        for f in bulk::repeats(k) {
            st.distinct(format!("{:?}", f).as_bytes());
            st.hit("interfaces with repeated entries compared");
            declared_fed(ctx, r, &format!("{:?}", f), &f, st)?;
        }
        return Ok(());
    }
    if r.chance(1, 3) {
        for _ in 0..8 {
            let f = compose::related_iface(ctx, r);
            st.distinct(format!("{:?}", f).as_bytes());
            st.hit("interfaces of related names compared");
            declared_fed(ctx, r, &format!("{:?}", f), &f, st)?;
        }
        return Ok(());
    }
    let (toks, want) = match r.below(5) {
        0..=2 => {
            let fill = *r.pick(&[Fill::None, Fill::Small, Fill::Small, Fill::Rich]);
            let p = program(ctx, r, fill);
            if r.chance(1, 25) {
                // The two references must agree.
                let t = tree_of(ctx, &p.toks).unwrap_or_else(|| panic!("not a contract: {}", source::show(&p.toks)));
                match extract(&t) {
                    Ok(f) if f == p.iface => st.hit("composed contracts extracted again by the grammar"),
                    x => panic!("{:?} but {:?}: {}", p.iface, x, source::show(&p.toks)),
                }
            }
            st.hit("composed contracts");
            (p.toks, p.iface)
        }
        k => {
            let s = sentence(ctx, r, Some(ctx.g.rule("Program")), 250);
            note_kinds(st, &s.forest);
            let (toks, tree) = if k == 3 {
                st.hit("contracts drawn from the grammar");
                (s.toks, s.forest.into_iter().next().unwrap())
            } else {
                // Damaged, but still a contract.
                let mut v = s.toks.clone();
                mutate::tokens(&mut v, &s.toks, &ctx.dict, r);
                match tree_of(ctx, &v) {
                    Some(t) => {
                        st.hit("contracts obtained by edits");
                        (v, t)
                    }
                    None => return Ok(()),
                }
            };
            match extract(&tree) {
                Ok(f) => (toks, f),
                Err(Refuse(_)) => {
                    st.hit("left out: types that cannot be expressed");
                    return Ok(());
                }
            }
        }
    };
    let l = lay(&toks, any_mode(r), r);
    st.seen("distinct", key("", &toks));
    st.max("largest number of entries observed", want.entries() as u64);
    st.sample(|| l.text.clone());
    declared(&l.text, &want, st)
}

// ---------------------------------------------------------------- C03

const BATCH: usize = 12;

fn atoms() -> Vec<MTy> {
    let mut v: Vec<MTy> = PRIMS.iter().map(|p| MTy::Prim(p.to_string())).collect();
    v.push(MTy::ByStr);
    v.push(MTy::ByStr20);
    for n in [0usize, 1, 2, 19, 21, 32, 33, 64, 200, 255, 256, 65536, 4294967296] {
        v.push(MTy::ByStrX(n));
    }
    for n in ["Foo", "Lib.T", "0xaB.Message", "Event", "Event.Event", "ByStr20.ByStr3", "Unit", "Message", "Nat", "Options", "Uint33", "ByStr20x", "A.Option", "List.Uint32"] {
        v.push(name_type(n).unwrap());
    }
    v
}

fn few_atoms() -> Vec<MTy> {
    ["Uint128", "ByStr", "ByStr20", "ByStr32", "Foo", "Lib.Pair"].iter().map(|n| name_type(n).unwrap()).collect()
}

/// Types checked systematically: every type of depth two over all atoms, of depth three over a few.
fn systematic(ctx: &Ctx) -> Vec<MTy> {
    let mut v = tygen::small(2, &atoms());
    let deep = tygen::small(3, &few_atoms());
    let step = if ctx.thorough { 1 } else { 1 + deep.len() / 1200 };
    v.extend(deep.into_iter().step_by(step));
    let near = oracle::dict::near_names();
    let step = if ctx.thorough { 1 } else { 2 };
    for (i, w) in near.iter().enumerate() {
        if i % step == 0 || w.contains('_') || w.starts_with("ByStr") {
            v.extend(name_type(w).filter(|t| !matches!(t, MTy::Any)));
        }
    }
    for a in PRIMS.iter().chain(&["ByStr20", "ByStr7", "Event", "Option", "Map", "List", "Pair"]) {
        for b in ["Foo", a, "ByStr3", "0xab", "Option"] {
            for n in [format!("{}.{}", a, b), format!("{}.{}", b, a)] {
                let l = lexref::lex(&n);
                if l.toks.len() == 3 && l.toks[0].t != lexref::UNKNOWN && !n.contains("Map") && !n.ends_with(".0xab") {
                    v.extend(name_type(&n).filter(|t| !matches!(t, MTy::Any)));
                }
            }
        }
    }
    for w in &ctx.dict.words {
        if lexref::lex(w).toks.len() == 1 && oracle::dict::is_token(w, CID) && tygen::arity(w).is_none() {
            if let Some(t) = name_type(w) {
                v.push(t);
            }
        }
    }
    v
}

thread_local! {
    static SYSTEMATIC: RefCell<Option<(bool, std::rc::Rc<Vec<MTy>>)>> = const { RefCell::new(None) };
}
fn types(ctx: &Ctx) -> std::rc::Rc<Vec<MTy>> {
    SYSTEMATIC.with(|s| {
        let mut s = s.borrow_mut();
        match &*s {
            Some((t, v)) if *t == ctx.thorough => v.clone(),
            _ => {
                let v = std::rc::Rc::new(systematic(ctx));
                *s = Some((ctx.thorough, v.clone()));
                v
            }
        }
    })
}

pub fn c03_blocks(ctx: &Ctx) -> u64 {
    types(ctx).len().div_ceil(BATCH) as u64 + big_types(ctx) + (bulk::WRAPS * wrap_depths(ctx).len()) as u64 + 1
}

/// Every name of a list as a type, alone and qualified.
fn named_types(ctx: &Ctx, r: &mut Rng, st: &mut Stats) -> R {
    let mut ts = vec![];
    for (t, l) in oracle::dict::literals() {
        match t {
            CID | lexref::BYSTRN => {
                ts.extend(name_type(&l));
                ts.extend(name_type(&format!("Lib.{}", l)));
                ts.extend(name_type(&format!("{}.T", l)));
            }
            lexref::HEX => ts.extend(name_type(&format!("{}.T", l))),
            _ => {}
        }
    }
    ts.retain(|t| !matches!(t, MTy::Any) && !matches!(t, MTy::Arity(..)));
    for b in ts.chunks(BATCH) {
        let f = everywhere(ctx, r, b);
        st.add("names compared as types", b.len() as u64);
        st.distinct(format!("{:?}", b[0]).as_bytes());
        declared_fed(ctx, r, &format!("{:?}", b), &f, st)?;
    }
    Ok(())
}

fn wrap_depths(ctx: &Ctx) -> &'static [usize] {
    if ctx.thorough {
        &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40]
    } else {
        &[2, 3, 4, 5, 6, 7, 8, 10, 14]
    }
}

/// Every small type over a few atoms, this deep inside other types.
fn wrapped(ctx: &Ctx, r: &mut Rng, k: usize, st: &mut Stats) -> R {
    let (w, depth) = (k % bulk::WRAPS, wrap_depths(ctx)[k / bulk::WRAPS]);
    let few: Vec<MTy> = ["Uint128", "ByStr20", "ByStr7", "Lib.Pair", "0xaB.Event"].iter().map(|n| name_type(n).unwrap()).collect();
    let ts: Vec<MTy> = tygen::small(2, &few).into_iter().map(|t| nest(w, depth, t)).collect();
    for b in ts.chunks(BATCH) {
        let f = everywhere(ctx, r, b);
        st.add("small types deep inside others compared", b.len() as u64);
        st.distinct(format!("{:?}", b[0]).as_bytes());
        declared_fed(ctx, r, &format!("types {} deep in wrap {}", depth, w), &f, st)?;
    }
    Ok(())
}

/// Depths of types: those that are parsed as text, and those whose tokens are fed.
fn type_depths(ctx: &Ctx) -> (&'static [usize], &'static [usize]) {
    if ctx.thorough {
        (&[15, 16, 17, 31, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 512], &[1000, 1025, 2000, 4097, 10_000])
    } else {
        (&[33, 65, 101, 129, 257], &[600, 1_500])
    }
}

fn big_types(ctx: &Ctx) -> u64 {
    let (a, b) = type_depths(ctx);
    (bulk::WRAPS * (a.len() + b.len()) + 6) as u64
}

/// Deep types, and types with long names.
fn big_type(ctx: &Ctx, k: usize) -> (Vec<MTy>, bool) {
    let (a, b) = type_depths(ctx);
    let n = bulk::WRAPS * (a.len() + b.len());
    if k >= n {
        let n = [64, 129, 256, 257, 1000, 66_000][k - n];
        return (long_names(n), true);
    }
    let i = k / bulk::WRAPS;
    let depth = if i < a.len() { a[i] } else { b[i - a.len()] };
    (vec![nest(k % bulk::WRAPS, depth, MTy::Prim("Uint128".into()))], i < a.len())
}

/// A contract that declares each type in each of the four positions.
fn everywhere(ctx: &Ctx, r: &mut Rng, ts: &[MTy]) -> Iface {
    let mut f = Iface { name: "C".into(), ..Default::default() };
    let mut at = vec![];
    for (i, t) in ts.iter().enumerate() {
        f.params.push((format!("p{}", i), t.clone()));
        f.fields.push((format!("f{}", i), t.clone()));
        at.push((TyGen { d: &ctx.dict, r }.field_name(), t.clone()));
    }
    f.transitions.push(("T".into(), f.params.clone()));
    f.params.push(("address".into(), MTy::Addr("contract".into(), at)));
    f
}

pub fn c03(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C03", id);
    let r = &mut r;
    let all = types(ctx);
    let nb = all.len().div_ceil(BATCH) as u64;
    if id < nb {
        let ts = &all[id as usize * BATCH..(id as usize * BATCH + BATCH).min(all.len())];
        let f = everywhere(ctx, r, ts);
        let Some(toks) = around(ctx, r, &f, Fill::None) else { panic!("cannot write {:?}", ts) };
        let l = lay(&toks, *r.pick(&[Mode::Plain, Mode::Tight, Mode::Wild]), r);
        st.add("types compared, each in four positions", ts.len() as u64);
        for t in ts {
            st.distinct(format!("{:?}", t).as_bytes());
            st.seen_str("outer constructors", t.tag());
        }
        return declared(&l.text, &f, st);
    }
    if id < nb + big_types(ctx) {
        let (ts, text) = big_type(ctx, (id - nb) as usize);
        st.hit("deep types and long names compared");
        st.max("largest depth of a type observed", ts[0].depth() as u64);
        st.distinct(&id.to_le_bytes());
        let f = everywhere(ctx, r, &ts);
        if !text {
            return declared_fed(ctx, r, &format!("a type {} deep: {}", ts[0].depth(), clip(&format!("{:?}", ts[0]), 300)), &f, st);
        }
        let Some(toks) = around(ctx, r, &f, Fill::None) else { panic!("cannot write {:?}", ts) };
        let l = lay(&toks, any_mode(r), r);
        return declared(&l.text, &f, st);
    }
    if id < c03_blocks(ctx) {
        let k = (id - nb - big_types(ctx)) as usize;
        if k == bulk::WRAPS * wrap_depths(ctx).len() {
            return named_types(ctx, r, st);
        }
        return wrapped(ctx, r, k, st);
    }
    if r.chance(1, 3) {
        // A type drawn from the grammar, in one of the positions.
        let n = r.range(1, 3);
        let mut text = String::from("scilla_version 0 contract C (");
        let mut f = Iface { name: "C".into(), ..Default::default() };
        let mut k = 0;
        for i in 0..n {
            let s = sentence(ctx, r, Some(ctx.g.rule("ScillaType")), 60);
            let Ok(t) = ty(&s.forest[0]) else { continue };
            if t.has_any() && s.toks.len() == 1 {
                continue;
            }
            note_kinds(st, &s.forest);
            st.seen("distinct", key("", &s.toks));
            let l = lay(&s.toks, any_mode(r), r);
            if k > 0 {
                text.push(',');
            }
            k += 1;
            text.push_str(&format!("p{} : {}\n", i, l.text));
            f.params.push((format!("p{}", i), t));
        }
        if k == 0 {
            return Ok(());
        }
        text.push(')');
        st.add("types from the grammar compared", k);
        return declared(&text, &f, st);
    }
    let depth = TyGen { d: &ctx.dict, r }.any_depth();
    let t = TyGen { d: &ctx.dict, r }.ty(depth);
    let n = if t.size() > 60 { 1 } else { r.range(1, 6) };
    let mut ts = vec![t];
    for _ in 1..n {
        let depth = r.range(0, 5);
        ts.push(TyGen { d: &ctx.dict, r }.ty(depth));
    }
    let f = everywhere(ctx, r, &ts);
    let Some(toks) = around(ctx, r, &f, Fill::None) else { return Ok(()) };
    let l = lay(&toks, any_mode(r), r);
    st.add("types compared, each in four positions", n as u64);
    for t in &ts {
        st.distinct(format!("{:?}", t).as_bytes());
        st.max("largest depth of a type observed", t.depth() as u64);
        st.seen_str("outer constructors", t.tag());
    }
    st.sample(|| clip(&l.text, 500));
    declared(&l.text, &f, st)
}

// ---------------------------------------------------------------- C05

pub fn c05_blocks(ctx: &Ctx) -> u64 {
    ctx.g.nalts as u64 * 5 + big_count(ctx) * 2
}

pub fn c05(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C05", id);
    let r = &mut r;
    let nb = ctx.g.nalts as u64 * 5;
    if id >= nb && id < nb + 2 * big_count(ctx) {
        // Long lists and deep nests that are no part of the interface.
        let b = big(ctx, (id - nb) / 2, r);
        let Some((with, without)) = bulk::irrelevant(ctx, r, ctx.g.rules[b.rule].name, &b.s.toks) else { return Ok(()) };
        note_big(st, &b);
        let what = format!("{} in a contract", b.what);
        let got = bulk::contract_fed(&what, &with, &positions(&with, r))?;
        let want = bulk::contract_fed(&what, &without, &positions(&without, r))?;
        st.eval();
        if got != want {
            fail!(format!("{}: {}", what, clip(&source::show(&with), 1500)), "without it: {}\nwith it: {}", clip(&format!("{:?}", want), 1500), clip(&format!("{:?}", got), 1500));
        }
        st.add("tokens of irrelevant code", b.s.toks.len() as u64);
        return Ok(());
    }
    if id >= nb + 2 * big_count(ctx) && r.chance(1, 3) {
        // Code that uses the names of the interface, as tokens.
        let f = if r.chance(1, 3) { compose::related_iface(ctx, r) } else { compose::small_iface(ctx, r) };
        let Some(bare) = around(ctx, r, &f, Fill::None) else { return Ok(()) };
        let want = bulk::contract_fed(&source::show(&bare), &bare, &positions(&bare, r))?;
        for _ in 0..12 {
            let fill = *r.pick(&[Fill::Small, Fill::Small, Fill::Rich]);
            let mut b = compose::Builder::new(ctx, r, fill);
            b.shadow = true;
            let Some(toks) = b.program(r, &f) else { continue };
            let input = source::show(&toks);
            let got = bulk::contract_fed(&input, &toks, &positions(&toks, r))?;
            st.eval();
            st.hit("irrelevant code that uses the names of the interface");
            st.seen("distinct", key("", &toks));
            if got != want {
                fail!(clip(&input, 6000), "code that is no part of the interface changes the result\nwithout it: {}\nwith it:    {}", clip(&format!("{:?}", want), 1500), clip(&format!("{:?}", got), 1500));
            }
        }
        return Ok(());
    }
    let (f, fill) = if id < nb {
        let mut f = compose::small_iface(ctx, r);
        if f.transitions.is_empty() {
            f.transitions.push(("T".into(), vec![("a".into(), MTy::Prim("Uint32".into()))]));
        }
        if f.fields.is_empty() {
            f.fields.push(("f".into(), MTy::ByStr20));
        }
        (f, Fill::Rich)
    } else {
        (if r.chance(1, 2) { compose::small_iface(ctx, r) } else { compose::iface(ctx, r) }, *r.pick(&[Fill::Small, Fill::Small, Fill::Rich]))
    };
    let fill = if f.entries() > 40 { Fill::Small } else { fill };
    let Some(bare) = around(ctx, r, &f, Fill::None) else { return Ok(()) };
    let base = lay(&bare, Mode::Plain, r).text;
    let Ok(want) = contract(&base)? else { return Ok(()) };
    let n = if f.entries() > 40 { 1 } else { 3 };
    for _ in 0..n {
        let Some(toks) = focused(ctx, r, &f, fill, if id < nb { Some((id % ctx.g.nalts as u64) as usize) } else { None }) else { continue };
        token_classes(st, &toks);
        let l = lay(&toks, any_mode(r), r);
        let got = contract(&l.text)?;
        st.eval();
        st.seen("distinct", key("", &toks));
        st.sample(|| l.text.clone());
        match got {
            Err(e) => fail!(l.text, "code that is no part of the interface makes the contract refused: {:?}", e),
            Ok(c) if c != want => fail!(l.text, "code that is no part of the interface changes the result\nwithout it: {:?}\nwith it:    {:?}", want, c),
            Ok(_) => {}
        }
        st.add("tokens of irrelevant code", (toks.len() - bare.len().min(toks.len())) as u64);
    }
    Ok(())
}

fn focused(ctx: &Ctx, r: &mut Rng, f: &Iface, fill: Fill, focus: Option<usize>) -> Option<Vec<GTok>> {
    for _ in 0..10 {
        let mut b = compose::Builder::new(ctx, r, fill);
        if focus.is_some() {
            b.gen.focus = focus;
        }
        if let Some(t) = b.program(r, f) {
            return Some(t);
        }
    }
    None
}

// ---------------------------------------------------------------- C15

thread_local! {
    static PRINTED: RefCell<HashMap<String, Type>> = RefCell::new(HashMap::new());
}

/// Every type inside a reported type.
fn inner(t: &Type, out: &mut Vec<Type>) {
    match t {
        Type::Map(a, b) | Type::Pair(a, b) => {
            inner(a, out);
            inner(b, out);
        }
        Type::Option(a) | Type::List(a) => inner(a, out),
        Type::ByStr20With { fields, .. } => fields.iter().for_each(|f| inner(&f.r#type, out)),
        _ => {}
    }
    out.push(t.clone());
}

fn key_like(t: &Type) -> bool {
    !matches!(t, Type::Map(..) | Type::Option(_) | Type::List(_) | Type::Pair(..))
}

fn field(name: &str, t: &Type) -> Field {
    Field::new(name, t.clone())
}

/// The reported type, printed, is reported as itself wherever a type can stand.
fn round(t: &Type, st: &mut Stats) -> R {
    let shown = format!("{:?}", t);
    let p = guard(&shown, "printing a type", || t.to_string())?;
    if p.trim() != p || p.contains("  ") || p.chars().any(|c| c.is_whitespace() && c != ' ') {
        fail!(shown, "printed with superfluous white space, as {:?}", p);
    }
    // Different types print differently.
    let clash = PRINTED.with(|m| {
        let mut m = m.borrow_mut();
        match m.get(&p) {
            Some(u) if u != t => Some(u.clone()),
            Some(_) => None,
            None => {
                if m.len() < 300_000 {
                    m.insert(p.clone(), t.clone());
                }
                None
            }
        }
    });
    if let Some(u) = clash {
        fail!(p, "{:?} and {:?} both print as {:?}", t, u, p);
    }
    let b = |t: &Type| Box::new(t.clone());
    let u = Type::Uint32;
    let mut params = vec![
        (format!("{}", p), t.clone()),
        (format!("({})", p), t.clone()),
        (format!("Option {}", p), Type::Option(b(t))),
        (format!("(List {})", p), Type::List(b(t))),
        (format!("Pair {} Uint32", p), Type::Pair(b(t), b(&u))),
        (format!("Pair Uint32 {}", p), Type::Pair(b(&u), b(t))),
        (format!("Pair {} {}", p, p), Type::Pair(b(t), b(t))),
        (format!("List (Option {})", p), Type::List(Box::new(Type::Option(b(t))))),
        (format!("Map Uint32 {}", p), Type::Map(b(&u), b(t))),
        (format!("Map Uint32 (Map Uint32 {})", p), Type::Map(b(&u), Box::new(Type::Map(b(&u), b(t))))),
    ];
    if key_like(t) {
        params.push((format!("Map {} Uint32", p), Type::Map(b(t), b(&u))));
        params.push((format!("Map {} {}", p, p), Type::Map(b(t), b(t))));
    }
    if p.matches(',').count() > 40 {
        params.truncate(3);
    }
    params.push((
        format!("ByStr20 with contract field a: {}, field b: {} end", p, p),
        Type::ByStr20With { type_name: "contract".into(), fields: scilla_parser::FieldList(vec![field("a", t), field("b", t)]) },
    ));
    // As parameter of the contract, as field, as parameter of a transition.
    let mut s = String::from("scilla_version 0\ncontract C (");
    for (i, (w, _)) in params.iter().enumerate() {
        s.push_str(&format!("{}p{}: {}", if i > 0 { ", " } else { "" }, i, w));
    }
    s.push_str(")\n");
    s.push_str(&format!("field f: {} = x\n", p));
    s.push_str(&format!("transition T (a: {}, b: {}) end\n", p, p));
    let got = contract(&s)?;
    st.eval();
    let input = format!("{} printed as {:?}", shown, p);
    let c = match got {
        Ok(c) => c,
        Err(e) => fail!(input, "the printed type is not accepted where a type can stand: {:?}\n{}", e, clip(&s, 1500)),
    };
    if c.init_params.len() != params.len() || c.fields.len() != 1 || c.transitions.len() != 1 || c.transitions[0].params.len() != 2 {
        fail!(input, "the printed type disturbs the contract it is used in: {:?}", c);
    }
    for (f, (w, want)) in c.init_params.iter().zip(&params) {
        if f.r#type != *want {
            fail!(input, "used as {:?} it is reported as {:?} instead of {:?}", w, f.r#type, want);
        }
        // Printing what was read gives the same text again.
        if f.r#type.to_string() != want.to_string() {
            fail!(input, "equal types print as {:?} and {:?}", f.r#type.to_string(), want.to_string());
        }
    }
    for f in [&c.fields[0], &c.transitions[0].params[0], &c.transitions[0].params[1]] {
        if f.r#type != *t {
            fail!(input, "declared with the printed type, {} is reported as {:?}", f.name, f.r#type);
        }
    }
    st.distinct(p.as_bytes());
    st.add("positions compared", params.len() as u64 + 3);
    Ok(())
}

pub fn c15_blocks(ctx: &Ctx) -> u64 {
    types(ctx).len().div_ceil(BATCH) as u64 + big_types(ctx) + wide(ctx).len() as u64
}

/// Numbers of fields of an address type.
fn wide(ctx: &Ctx) -> &'static [usize] {
    if ctx.thorough { &[9, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 513, 1025] } else { &[17, 33, 65, 101, 129, 257] }
}

/// An address type with that many fields; the types of the fields differ.
fn wide_type(n: usize) -> MTy {
    let p = |s: &str| MTy::Prim(s.into());
    let f = |i: usize| match i % 7 {
        0 => p("Uint32"),
        1 => MTy::List(Box::new(p("String"))),
        2 => p("ByStr20"),
        3 => MTy::Map(Box::new(p("Uint64")), Box::new(p("Bool"))),
        4 => p("Int256"),
        5 => MTy::Option(Box::new(p("Message"))),
        _ => p("BNum"),
    };
    MTy::Addr("contract".into(), (0..n).map(|i| (format!("x{}", i), f(i))).collect())
}

fn reported(text: &str) -> Result<Vec<Type>, Viol> {
    Ok(match contract(text)? {
        Ok(c) => {
            let mut v: Vec<Type> = c.init_params.iter().chain(c.fields.iter()).map(|f| f.r#type.clone()).collect();
            for t in c.transitions.iter() {
                v.extend(t.params.iter().map(|f| f.r#type.clone()));
            }
            v
        }
        Err(_) => vec![],
    })
}

pub fn c15(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C15", id);
    let r = &mut r;
    let all = types(ctx);
    let nb = all.len().div_ceil(BATCH) as u64;
    let mut text = String::from("scilla_version 0 contract C (");
    let mut toks = vec![];
    if id < nb {
        for (i, t) in all[id as usize * BATCH..(id as usize * BATCH + BATCH).min(all.len())].iter().enumerate() {
            if i > 0 {
                fixed(&mut toks, ",");
            }
            toks.push(GTok::new(ID, "p"));
            fixed(&mut toks, ":");
            compose::type_toks(r, t, &mut toks).unwrap();
        }
    } else if id < nb + big_types(ctx) {
        let (ts, _) = big_type(ctx, (id - nb) as usize);
        if ts[0].depth() > if ctx.thorough { 260 } else { 131 } {
            return Ok(());
        }
        for (i, t) in ts.iter().enumerate() {
            if i > 0 {
                fixed(&mut toks, ",");
            }
            toks.push(GTok::new(ID, "p"));
            fixed(&mut toks, ":");
            compose::type_toks(r, t, &mut toks).unwrap();
        }
        st.hit("deep types and long names printed");
    } else if id < c15_blocks(ctx) {
        let n = wide(ctx)[(id - nb - big_types(ctx)) as usize];
        toks.push(GTok::new(ID, "p"));
        fixed(&mut toks, ":");
        compose::type_toks(r, &wide_type(n), &mut toks).unwrap();
        st.hit("address types with many fields printed");
    } else if r.chance(1, 4) {
        toks.push(GTok::new(ID, "p"));
        fixed(&mut toks, ":");
        toks.extend(sentence(ctx, r, Some(ctx.g.rule("ScillaType")), 40).toks);
        st.hit("types drawn from the grammar");
    } else if r.chance(1, 30) {
        // All types of a contract.
        let p = program(ctx, r, Fill::None);
        let l = lay(&p.toks, Mode::Plain, r);
        for t in reported(&l.text)?.iter().take(30) {
            round(t, st)?;
        }
        return Ok(());
    } else {
        let depth = TyGen { d: &ctx.dict, r }.any_depth().min(40);
        let t = TyGen { d: &ctx.dict, r }.ty(depth);
        if t.size() > 150 {
            return Ok(());
        }
        toks.push(GTok::new(ID, "p"));
        fixed(&mut toks, ":");
        if compose::type_toks(r, &t, &mut toks).is_none() {
            return Ok(());
        }
    }
    text.push_str(&lay(&toks, Mode::Plain, r).text);
    text.push_str(")");
    for t in reported(&text)? {
        st.sample(|| format!("{:?} <-> {}", t, t));
        if r.chance(1, 6) {
            let mut v = vec![];
            inner(&t, &mut v);
            for u in v.iter().take(20) {
                round(u, st)?;
            }
        }
        round(&t, st)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

/// Types with exactly one thing the model cannot express, to the given number of wrappings.
fn bad_types() -> Vec<MTy> {
    let a = || Box::new(MTy::Prim("Uint32".into()));
    let u = || MTy::Prim("Uint32".into());
    let mut v = vec![
        MTy::Fun(a(), a()),
        MTy::Fun(a(), Box::new(MTy::Fun(a(), a()))),
        MTy::Fun(Box::new(MTy::Option(a())), a()),
        MTy::Poly("'A".into(), a()),
        MTy::Poly("'A".into(), Box::new(MTy::Var("'A".into()))),
        MTy::Var("'A".into()),
    ];
    for n in ["Option", "List", "Pair"] {
        for k in 0..5 {
            if tygen::arity(n) != Some(k) {
                v.push(MTy::Arity(n.into(), (0..k).map(|_| u()).collect()));
            }
        }
    }
    v
}

fn wraps(t: &MTy) -> Vec<MTy> {
    let b = || Box::new(t.clone());
    let u = || MTy::Prim("Uint32".into());
    let a = || Box::new(u());
    let addr = |f: Vec<(&str, MTy)>| MTy::Addr("contract".into(), f.into_iter().map(|(n, t)| (n.to_string(), t)).collect());
    vec![
        MTy::Option(b()),
        MTy::List(b()),
        MTy::Pair(b(), a()),
        MTy::Pair(a(), b()),
        MTy::Map(a(), b()),
        MTy::Map(b(), a()),
        MTy::Extra("Foo".into(), vec![t.clone()]),
        MTy::Extra("Lib.Foo".into(), vec![u(), t.clone()]),
        MTy::Extra("Foo".into(), vec![u(), u(), t.clone()]),
        MTy::Extra("Foo".into(), vec![u(), u(), t.clone(), u()]),
        MTy::Extra("Foo".into(), (0..9).map(|_| u()).chain([t.clone()]).collect()),
        addr(vec![("x", t.clone())]),
        addr(vec![("x", u()), ("_y", t.clone())]),
        addr(vec![("x", t.clone()), ("y", u())]),
        addr(vec![("x", u()), ("y", u()), ("z", u()), ("w", t.clone()), ("y", u())]),
    ]
}

/// With the number of wrappings.
fn systematic_bad() -> Vec<(MTy, usize)> {
    let base = bad_types();
    let mut v: Vec<(MTy, usize)> = base.iter().map(|t| (t.clone(), 0)).collect();
    for t in &base {
        for w in wraps(t) {
            v.extend(wraps(&w).into_iter().map(|t| (t, 2)));
            v.push((w, 1));
        }
    }
    v
}

pub fn c20_blocks(_: &Ctx) -> u64 {
    systematic_bad().len() as u64 + BIG_BAD
}

/// Inexpressible types deep inside others, and far down long lists.
const BIG_BAD: u64 = (bulk::WRAPS * 3 + bulk::LONG * 2) as u64;

fn big_bad(ctx: &Ctx, k: usize, r: &mut Rng, st: &mut Stats) -> R {
    let all = bad_types();
    let (what, f) = if k < bulk::WRAPS * 3 {
        let depth = [40, 130, if ctx.thorough { 3000 } else { 700 }][k / bulk::WRAPS];
        let t = nest(k % bulk::WRAPS, depth, r.pick(&all).clone());
        let mut f = long_iface(0, 1);
        match r.below(3) {
            0 => f.params.push(("b".into(), t)),
            1 => f.fields.push(("b".into(), t)),
            _ => f.transitions[0].1.push(("b".into(), t)),
        }
        (format!("an inexpressible type {} deep", depth), f)
    } else {
        let k = k - bulk::WRAPS * 3;
        let n = if k < bulk::LONG { 257 } else { 16_500 };
        let mut f = long_iface(k % bulk::LONG, n);
        let t = ("b".to_string(), r.pick(&all).clone());
        let at = |r: &mut Rng, n: usize| if r.chance(1, 2) { n } else { r.below(n + 1) };
        match r.below(3) {
            0 => f.params.insert(at(r, f.params.len()), t),
            1 => f.fields.insert(at(r, f.fields.len()), t),
            _ => {
                let i = at(r, f.transitions.len() - 1);
                f.transitions[i].1.push(t)
            }
        }
        (format!("an inexpressible type in list {} of length {}", k % bulk::LONG, n), f)
    };
    st.hit("inexpressible types in deep types and long lists");
    match bulk::fed(ctx, r, &what, &f)? {
        None => st.hit("left out: cannot be written there"),
        Some(Err(_)) => {
            st.eval();
            st.hit("refusals observed");
        }
        Some(Ok(c)) => fail!(what, "it is not refused, the result is {}", clip(&format!("{:?}", c), 600)),
    }
    Ok(())
}


fn refused(text: &str, why: &str, st: &mut Stats) -> R {
    let got = contract(text)?;
    st.eval();
    match &got {
        Err(Error::ParseError(_)) => {
            st.hit("refusals observed");
            Ok(())
        }
        _ => fail!(text, "the contract declares what cannot be expressed ({}), yet the result is {}", why, result_text(&got)),
    }
}

thread_local! {
    static BAD: Vec<(MTy, usize)> = systematic_bad();
}

pub fn c20(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C20", id);
    let r = &mut r;
    if let Some((t, wrapped)) = BAD.with(|b| b.get(id as usize).cloned()) {
        // In each position of a contract that has nothing else wrong.
        let good = ("g".to_string(), MTy::Prim("Bool".into()));
        for pos in 0..12 {
            if wrapped == 2 && !ctx.thorough && (pos + id) % 3 != 0 {
                continue;
            }
            let bad = ("b".to_string(), t.clone());
            let l = match pos % 4 {
                0 => vec![bad],
                1 => vec![bad, good.clone()],
                2 => vec![good.clone(), bad],
                _ => vec![good.clone(), bad, good.clone()],
            };
            let mut f = Iface { name: "C".into(), ..Default::default() };
            match pos / 4 {
                0 => f.params = l,
                1 => f.fields = l,
                _ => f.transitions.push(("T".into(), l)),
            }
            if pos % 2 == 1 {
                f.transitions.push(("U".into(), vec![good.clone()]));
            }
            let Some(toks) = around(ctx, r, &f, Fill::None) else {
                st.hit("left out: cannot be written there");
                continue;
            };
            let l = lay(&toks, *r.pick(&[Mode::Plain, Mode::Tight]), r);
            st.distinct(l.text.as_bytes());
            st.seen_str("inexpressible types", &format!("{:?}", t));
            refused(&l.text, &format!("{:?}", t), st)?;
        }
        return Ok(());
    }
    let nb = BAD.with(|b| b.len()) as u64;
    if id < nb + BIG_BAD {
        for _ in 0..4 {
            big_bad(ctx, (id - nb) as usize, r, st)?;
        }
        return Ok(());
    }
    if r.chance(1, 4) {
        // By the grammar.
        let rule = ctx.g.rule("ScillaType");
        let s = sentence(ctx, r, Some(rule), 50);
        match ty(&s.forest[0]) {
            Err(Refuse(why)) => {
                let l = lay(&s.toks, any_mode(r), r);
                let text = match r.below(4) {
                    0 => format!("scilla_version 0 contract C (a : {} )", l.text),
                    1 => format!("scilla_version 0 contract C () field a : {} = x", l.text),
                    2 => format!("scilla_version 0 contract C () transition T (z : Bool, a : {} ) end", l.text),
                    _ => format!("scilla_version 0 contract C (a : ByStr20 with contract field a : {} end)", l.text),
                };
                note_kinds(st, &s.forest);
                st.distinct(text.as_bytes());
                st.hit("types from the grammar");
                return refused(&text, &why, st);
            }
            Ok(_) => return Ok(()),
        }
    }
    // One bad type somewhere in an otherwise good interface.
    let mut f = if r.chance(1, 2) { compose::small_iface(ctx, r) } else { compose::iface(ctx, r) };
    let bad = TyGen { d: &ctx.dict, r }.bad();
    let name = ctx.dict.text(ID, r);
    let mut n = 1;
    if r.chance(1, 10) {
        n = 2;
    }
    for _ in 0..n {
        let l: &mut Vec<(String, MTy)> = match r.below(3) {
            0 => &mut f.params,
            1 => &mut f.fields,
            _ => {
                if f.transitions.is_empty() {
                    f.transitions.push(("T".into(), vec![]));
                }
                let k = r.below(f.transitions.len());
                &mut f.transitions[k].1
            }
        };
        let at = r.below(l.len() + 1);
        l.insert(at, (name.clone(), bad.clone()));
    }
    let fill = if f.entries() > 40 { Fill::None } else { *r.pick(&[Fill::None, Fill::Small, Fill::Small, Fill::Rich]) };
    let Some(toks) = around(ctx, r, &f, fill) else {
        st.hit("left out: cannot be written there");
        return Ok(());
    };
    let l = lay(&toks, any_mode(r), r);
    st.seen("distinct", key("", &toks));
    st.seen_str("inexpressible types", &format!("{:?}", bad));
    st.sample(|| format!("{:?} in: {}", bad, l.text));
    let _ = (raw, matches);
    refused(&l.text, &format!("{:?}", bad), st)
}
