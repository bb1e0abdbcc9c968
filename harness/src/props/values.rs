//! C22 to C24: what an error says, results as values, the interface of a syntax tree.

use super::source::*;
use crate::compose::Fill;
use crate::core::*;
use crate::model::{iface_diff, matches, result_text};
use crate::real::{lex_all, parse_text, parse_tokens, to_token, EKind, Parsed};
use crate::shape::sp;
use oracle::gen::GTok;
use oracle::iface::{extract, Iface, Refuse};
use oracle::layout::{any_mode, Mode};
use oracle::lexref::{self, FIRST_CLASS, NTERM, UNKNOWN};
use oracle::mutate;
use oracle::rng::Rng;
use oracle::tree::{render_forest, Pos};
use oracle::tygen::{arity, MTy, TyGen};
use scilla_parser::ast::nodes::*;
use scilla_parser::parser::lexer::{Lexer, SourcePosition};
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::simplified_representation::primitives::{AddressType, SrType};
use scilla_parser::{Contract, Error, Field, FieldList, Transition, TransitionList, Type};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::str::FromStr;

// ---------------------------------------------------------------- C22

const PREFIXES: &[&str] = &[
    "",
    "scilla_version",
    "scilla_version 0",
    "scilla_version 0 import",
    "scilla_version 0 library L let x =",
    "scilla_version 0 library L type T = | A of",
    "scilla_version 0 contract",
    "scilla_version 0 contract C",
    "scilla_version 0 contract C (",
    "scilla_version 0 contract C ( a :",
    "scilla_version 0 contract C ( a : Map",
    "scilla_version 0 contract C ( )",
    "scilla_version 0 contract C ( ) field",
    "scilla_version 0 contract C ( ) field f : T =",
    "scilla_version 0 contract C ( ) transition T ( )",
    "scilla_version 0 contract C ( ) transition T ( ) x",
    "scilla_version 0 contract C ( ) transition T ( ) match x with",
];

fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}

/// The position is given: its byte offset, line and column stand together, in whatever order.
fn tells(desc: &str, p: Pos) -> bool {
    let mut want = [p.byte, p.line, p.col];
    want.sort();
    numbers(desc).windows(3).any(|w| {
        let mut w = [w[0], w[1], w[2]];
        w.sort();
        w == want
    })
}

/// Escaped or not.
fn quotes(desc: &str, what: &str) -> bool {
    let esc = format!("{:?}", what);
    desc.contains(what) || desc.contains(&esc) || desc.contains(&esc[1..esc.len() - 1])
}

fn description(text: &str) -> Result<Option<String>, Viol> {
    let e = match guard(text, "Contract::from_str", || Contract::from_str(text))? {
        Ok(_) => return Ok(None),
        Err(e) => e,
    };
    let Error::ParseError(d) = &e else { fail!(text, "parsing a text gives {:?}", e) };
    let d = d.clone();
    let shown = guard(text, "Display of Error", || e.to_string())?;
    if d.trim().is_empty() || !shown.contains(&d) {
        fail!(text, "the error prints as {:?}, its description is {:?}", clip(&shown, 300), clip(&d, 300));
    }
    let debug = guard(text, "Debug of Error", || format!("{:?}", e))?;
    if !quotes(&debug, &d) {
        fail!(text, "the error shows itself as {:?}, its description is {:?}", clip(&debug, 300), clip(&d, 300));
    }
    Ok(Some(d))
}

/// The description of a syntax error, if the rules say where it is, and how many tokens from the end (1: the last).
fn explained(ctx: &Ctx, text: &str, st: &mut Stats) -> Result<Option<(String, Option<usize>)>, Viol> {
    let lexed = lexref::lex(text);
    if lexed.open_from.is_some() || lexed.toks.iter().any(|t| t.alt.is_some()) || lexed.toks.len() > 4000 {
        return Ok(None);
    }
    let cls: Vec<u8> = lexed.toks.iter().map(|t| t.t).collect();
    let o = ctx.earley.run(ctx.g.rule("Program"), &cls);
    if o.accepted {
        return Ok(None);
    }
    let Some(d) = description(text)? else {
        st.hit("wrong texts that are accepted");
        return Ok(None);
    };
    st.eval();
    st.distinct(text.as_bytes());
    if let Some(t) = lexed.toks.get(o.fail_at) {
        st.hit("descriptions of a wrong token");
        if !tells(&d, t.start) {
            fail!(text, "the wrong token {:?} stands at {:?}, which the description does not tell: {}", t.text(text), t.start, clip(&d, 500));
        }
        if t.t != UNKNOWN {
            if !tells(&d, t.end) {
                fail!(text, "the wrong token {:?} ends at {:?}, which the description does not tell: {}", t.text(text), t.end, clip(&d, 500));
            }
            if t.t as usize >= FIRST_CLASS && !quotes(&d, t.text(text)) {
                fail!(text, "the wrong token is {:?}, which the description does not name: {}", t.text(text), clip(&d, 500));
            }
        }
    } else {
        st.hit("descriptions of a premature end");
        let end = lexed.toks.last().map(|t| t.end).unwrap_or(Pos { byte: 0, line: 0, col: 0 });
        if !tells(&d, end) {
            fail!(text, "the text ends early at {:?}, which the description does not tell: {}", end, clip(&d, 500));
        }
    }
    // What would have been acceptable.
    if let Err(e) = guard(text, "ProgramParser", || parse_text("Program", text))? {
        for x in &e.expected {
            if !quotes(&d, x) {
                fail!(text, "{} would be acceptable, says the parser, which the description does not tell: {}", x, clip(&d, 600));
            }
            st.hit("acceptable tokens told");
        }
        if (e.kind == EKind::Eof) != (o.fail_at == lexed.toks.len()) {
            fail!(text, "reported as {:?}, the error is at token {} of {}", e.kind, o.fail_at, lexed.toks.len());
        }
    }
    st.sample(|| format!("{} -> {}", clip(text, 200), clip(&d, 300)));
    Ok(Some((d, (o.fail_at < lexed.toks.len()).then_some(lexed.toks.len() - o.fail_at))))
}

pub fn c22_blocks(ctx: &Ctx) -> u64 {
    PREFIXES.len() as u64 + 2 + ctx.corpus.len() as u64
}

fn io_errors(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let dir = ctx.verif.join("out").join(format!("errors-{}-{}", std::process::id(), id));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("latin1.scilla"), b"scilla_version 0 \xe9").unwrap();
    std::fs::write(dir.join("empty.scilla"), b"").unwrap();
    let r = (|| -> R {
        for p in [dir.join("none.scilla"), dir.clone(), dir.join("latin1.scilla"), dir.join("empty.scilla/x"), dir.join("a".repeat(300)), "".into()] {
            let name = format!("{:?}", p);
            let want = std::fs::read_to_string(&p).unwrap_err();
            let got = guard(&name, "Contract::parse", || Contract::parse(&p))?;
            st.eval();
            st.distinct(name.as_bytes());
            let Err(e) = got else { fail!(name, "parsing it gives {}", result_text(&got)) };
            let shown = e.to_string();
            if !matches!(e, Error::IoError(_)) || shown != want.to_string() {
                fail!(name, "reading it fails with {:?}, the error is {:?}, printed as {:?}", want.to_string(), e, shown);
            }
            let boxed: Box<dyn std::error::Error + Send + Sync> = Box::new(e);
            if boxed.to_string() != shown {
                fail!(name, "printed as {:?} or {:?}", shown, boxed.to_string());
            }
            st.hit("I/O errors printed");
        }
        for kind in [std::io::ErrorKind::NotFound, std::io::ErrorKind::Interrupted, std::io::ErrorKind::InvalidData, std::io::ErrorKind::Other] {
            let e = Error::from(std::io::Error::new(kind, "the disk is full of eels"));
            st.eval();
            if !matches!(&e, Error::IoError(x) if x.kind() == kind) || e.to_string() != "the disk is full of eels" {
                fail!("Error::from", "an I/O error of kind {:?} becomes {:?}, printed as {:?}", kind, e, e.to_string());
            }
        }
        for bytes in [vec![0xffu8], vec![0x61, 0xe2, 0x82], vec![0xc0, 0x80]] {
            let f = String::from_utf8(bytes).unwrap_err();
            let shown = f.to_string();
            let e = Error::from(f);
            st.eval();
            if !matches!(&e, Error::FromUtf8Error(_)) || e.to_string() != shown {
                fail!("Error::from", "{:?} becomes {:?}, printed as {:?}", shown, e, e.to_string());
            }
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

pub fn c22(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C22", id);
    let r = &mut r;
    if let Some(p) = PREFIXES.get(id as usize) {
        // Every wrong token after it: told apart.
        let mut by: BTreeMap<String, u8> = BTreeMap::new();
        for t in 0..=NTERM as u8 {
            let w = if t == UNKNOWN { "$".to_string() } else { ctx.dict.text(t, r) };
            let text = format!("{}\n {} ", p, w);
            if let Some((d, Some(1))) = explained(ctx, &text, st)? {
                let d: String = d.chars().filter(|c| !c.is_ascii_digit()).collect();
                if let Some(u) = by.insert(d.clone(), t) {
                    fail!(text, "{:?} and {:?} in this place are described alike: {}", lexref::TERMS[u as usize], lexref::TERMS[t as usize], clip(&d, 400));
                }
            }
        }
        // However long they are.
        for n in [60, 250, 650, 1100, 5000, 70_000] {
            let long = [format!("a{}", "b".repeat(n)), format!("A{}", "b".repeat(n)), format!("_{}", "c".repeat(n)), format!("'A{}", "d".repeat(n)), format!("{}1", "9".repeat(n)), format!("0x{}", "ab".repeat(n)), format!("\"{}.\"", "\u{20ac} ".repeat(n / 4)), format!("ByStr{}", "7".repeat(n))];
            for w in long {
                explained(ctx, &format!("{} {}", p, w), st)?;
                explained(ctx, &format!("{} {} $", p, w), st)?;
                explained(ctx, &format!("{}\n{}let", p, " ".repeat(n)), st)?;
                st.max("largest wrong token described", w.len() as u64);
            }
        }
        explained(ctx, p, st)?;
        st.add("wrong tokens told apart", by.len() as u64);
        return Ok(());
    }
    let k = id - (PREFIXES.len() as u64).min(id);
    if id < c22_blocks(ctx) && k < 2 {
        return if k == 0 { io_errors(ctx, id, st) } else { refusals(ctx, r, st) };
    }
    let mut toks: Vec<GTok> = if id < c22_blocks(ctx) {
        let c = &ctx.corpus[k as usize - 2];
        if c.tokens > 3000 {
            return Ok(());
        }
        // The corpus, cut off or damaged in a few places.
        for _ in 0..4 {
            let mut at = r.below(c.text.len() + 1);
            while !c.text.is_char_boundary(at) {
                at -= 1;
            }
            explained(ctx, &c.text[..at], st)?;
            explained(ctx, &mutate::text(&c.text, "", r), st)?;
        }
        return Ok(());
    } else if r.chance(1, 12) {
        let text = mutate::soup(&ctx.dict, r);
        explained(ctx, &text, st)?;
        return Ok(());
    } else {
        let fill = *r.pick(&[Fill::None, Fill::Small, Fill::Small]);
        program(ctx, r, fill).toks
    };
    if toks.len() > 250 {
        return Ok(());
    }
    match r.below(3) {
        0 => toks.truncate(r.below(toks.len())),
        1 => {
            let t = r.below(NTERM) as u8;
            let text = ctx.dict.text(t, r);
            toks.insert(r.below(toks.len() + 1), GTok { t, text });
        }
        _ => mutate::tokens(&mut toks, &[], &ctx.dict, r),
    }
    let mut text = lay(&toks, any_mode(r), r).text;
    if r.chance(1, 8) {
        let at: Vec<usize> = text.match_indices(' ').map(|x| x.0).collect();
        if !at.is_empty() {
            text.insert_str(*r.pick(&at), r.pick(&[" $", " #", " ?\n", " \u{20ac}", "~ "]));
        }
    }
    explained(ctx, &text, st)?;
    Ok(())
}

/// A refused type is described.
fn refusals(ctx: &Ctx, r: &mut Rng, st: &mut Stats) -> R {
    for _ in 0..60 {
        let t = TyGen { d: &ctx.dict, r }.bad();
        let f = Iface { name: "C".into(), params: vec![("p".into(), t)], ..Default::default() };
        let Some(toks) = around(ctx, r, &f, Fill::None) else { continue };
        let l = lay(&toks, Mode::Plain, r);
        if description(&l.text)?.is_some() {
            st.eval();
            st.hit("descriptions of a refused type");
            st.distinct(l.text.as_bytes());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

fn to_type(t: &MTy) -> Option<Type> {
    let b = |t: &MTy| Some(Box::new(to_type(t)?));
    Some(match t {
        MTy::Prim(p) => match p.as_str() {
            "Int32" => Type::Int32,
            "Int64" => Type::Int64,
            "Int128" => Type::Int128,
            "Int256" => Type::Int256,
            "Uint32" => Type::Uint32,
            "Uint64" => Type::Uint64,
            "Uint128" => Type::Uint128,
            "Uint256" => Type::Uint256,
            "String" => Type::String,
            "BNum" => Type::BNum,
            "Bool" => Type::Bool,
            _ => return None,
        },
        MTy::ByStr => Type::ByStr,
        MTy::ByStr20 => Type::ByStr20,
        MTy::ByStrX(n) => Type::ByStrX(*n),
        MTy::Addr(k, f) => Type::ByStr20With { type_name: k.clone(), fields: to_fields(f)? },
        MTy::Map(a, c) => Type::Map(b(a)?, b(c)?),
        MTy::Pair(a, c) => Type::Pair(b(a)?, b(c)?),
        MTy::Option(a) => Type::Option(b(a)?),
        MTy::List(a) => Type::List(b(a)?),
        MTy::Other(s) => Type::Other(s.clone()),
        _ => return None,
    })
}

fn to_fields(l: &[(String, MTy)]) -> Option<FieldList> {
    let mut out = FieldList::default();
    for (n, t) in l {
        out.push(Field::new(n, to_type(t)?));
    }
    Some(out)
}

fn to_contract(f: &Iface) -> Option<Contract> {
    let mut transitions = TransitionList::default();
    for (n, p) in &f.transitions {
        if p.is_empty() {
            transitions.push(Transition::new_without_param(n));
        } else {
            transitions.push(Transition::new(n, to_fields(p)?));
        }
    }
    Some(Contract { name: f.name.clone(), init_params: to_fields(&f.params)?, fields: to_fields(&f.fields)?, transitions })
}

/// One change somewhere in a type; None if there is nothing like it.
fn vary(t: &MTy, r: &mut Rng) -> MTy {
    let other = |r: &mut Rng| MTy::Prim(r.pick(oracle::tygen::PRIMS).to_string());
    match t {
        // Alike when printed, or nearly
        MTy::Prim(p) if r.chance(1, 3) => MTy::Other(p.clone()),
        MTy::ByStr20 if r.chance(1, 4) => MTy::Other("ByStr20".into()),
        MTy::ByStr20 if r.chance(1, 3) => MTy::Addr(String::new(), vec![]),
        MTy::ByStr20 => MTy::ByStrX(*r.pick(&[20usize, 19, 21, 32, 0])),
        MTy::ByStr => MTy::Other("ByStr".into()),
        MTy::ByStrX(n) if r.chance(1, 4) => MTy::Other(format!("ByStr{}", n)),
        MTy::ByStrX(_) if r.chance(1, 4) => MTy::ByStr20,
        MTy::Addr(..) if r.chance(1, 6) => MTy::ByStr20,
        MTy::Option(a) | MTy::List(a) if r.chance(1, 8) => (**a).clone(),
        MTy::ByStrX(n) => MTy::ByStrX(n ^ (1 << r.below(9))),
        MTy::Map(a, b) if r.chance(1, 2) => MTy::Map(Box::new(vary(a, r)), b.clone()),
        MTy::Map(a, b) if r.chance(1, 2) => MTy::Pair(a.clone(), b.clone()),
        MTy::Map(a, b) => MTy::Map(a.clone(), Box::new(vary(b, r))),
        MTy::Pair(a, b) if r.chance(1, 3) => MTy::Pair(b.clone(), a.clone()),
        MTy::Pair(a, b) if r.chance(1, 2) => MTy::Pair(Box::new(vary(a, r)), b.clone()),
        MTy::Pair(a, b) => MTy::Pair(a.clone(), Box::new(vary(b, r))),
        MTy::Option(a) if r.chance(1, 3) => MTy::List(a.clone()),
        MTy::List(a) if r.chance(1, 3) => MTy::Option(a.clone()),
        MTy::Option(a) => MTy::Option(Box::new(vary(a, r))),
        MTy::List(a) => MTy::List(Box::new(vary(a, r))),
        MTy::Addr(k, f) => {
            let mut f = f.clone();
            if r.chance(1, 4) {
                let k = r.pick(&["", "contract", "library", "Contract"]).to_string();
                return MTy::Addr(k, f);
            }
            vary_list(&mut f, r);
            MTy::Addr(k.clone(), f)
        }
        MTy::Other(s) if r.chance(2, 3) => MTy::Other(vary_name(s, r)),
        _ => other(r),
    }
}

fn vary_name(s: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let i = r.below(c.len() + 1);
    match r.below(4) {
        0 => c.insert(i, *r.pick(&['a', 'Z', '_', '1', ' '])),
        1 if i < c.len() => c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() },
        2 if i < c.len() => {
            c.remove(i);
        }
        _ => c.push('x'),
    }
    c.into_iter().collect()
}

fn vary_list(l: &mut Vec<(String, MTy)>, r: &mut Rng) {
    let n = l.len();
    let i = r.below(n.max(1));
    match r.below(6) {
        0 if n > 0 => l[i].0 = vary_name(&l[i].0, r),
        1 | 2 if n > 0 => l[i].1 = vary(&l[i].1, r),
        3 if n > 0 => {
            l.remove(i);
        }
        4 if n > 1 => {
            let j = r.below(n);
            l.swap(i, j)
        }
        5 if n > 0 => {
            let x = l[i].clone();
            l.insert(i, x)
        }
        _ => l.push(("extra".into(), MTy::Prim("Bool".into()))),
    }
}

/// One change somewhere in an interface.
fn vary_iface(f: &mut Iface, r: &mut Rng) {
    let n = f.transitions.len();
    let i = r.below(n.max(1));
    match r.below(8) {
        0 => f.name = vary_name(&f.name, r),
        1 => vary_list(&mut f.params, r),
        2 => vary_list(&mut f.fields, r),
        3 if n > 0 => vary_list(&mut f.transitions[i].1, r),
        4 if n > 0 => f.transitions[i].0 = vary_name(&f.transitions[i].0, r),
        5 if n > 0 => {
            f.transitions.remove(i);
        }
        6 if n > 1 => {
            let j = r.below(n);
            f.transitions.swap(i, j)
        }
        7 => std::mem::swap(&mut f.params, &mut f.fields),
        _ => f.transitions.push(("Extra".into(), vec![])),
    }
}

fn same<T: PartialEq + std::fmt::Debug>(input: &str, what: &str, a: &T, b: &T, want: bool) -> R {
    if (a == b) != want || (b == a) != want || (a != b) == want || a != a {
        fail!(
            input,
            "{}: two values that are {} compare as {} / {}: {} and {}",
            what,
            if want { "equal" } else { "different" },
            a == b,
            b == a,
            clip(&format!("{:?}", a), 300),
            clip(&format!("{:?}", b), 300)
        );
    }
    Ok(())
}

fn contracts(ctx: &Ctx, r: &mut Rng, st: &mut Stats) -> R {
    let p = program(ctx, r, Fill::None);
    if p.iface.has_any() || p.toks.len() > 1500 {
        return Ok(());
    }
    let l = lay(&p.toks, Mode::Plain, r);
    let text = &l.text;
    let Ok(got) = guard(text, "Contract::from_str", || Contract::from_str(text))? else { return Ok(()) };
    if iface_diff(&got, &p.iface).is_some() {
        // C02.
        return Ok(());
    }
    let built = to_contract(&p.iface).unwrap_or_else(|| panic!("{:?}", p.iface));
    st.eval();
    st.distinct(text.as_bytes());
    same(text, "parsed and built by hand", &got, &built, true)?;
    let again = Contract::from_str(text);
    match again {
        Ok(c) => same(text, "parsed twice", &got, &c, true)?,
        Err(e) => fail!(text, "refused the second time: {:?}", e),
    }
    // Lists are what they contain.
    let names = |l: &FieldList| l.iter().map(|f| f.name.clone()).collect::<Vec<_>>();
    let want = |l: &[(String, MTy)]| l.iter().map(|f| f.0.clone()).collect::<Vec<_>>();
    if names(&got.fields) != want(&p.iface.fields) || got.fields.len() != p.iface.fields.len() || got.fields.is_empty() != p.iface.fields.is_empty() {
        fail!(text, "the fields iterate as {:?}", names(&got.fields));
    }
    same(text, "a list and its copy", &got.fields, &got.fields.clone(), true)?;
    same(text, "a list and the one inside", &got.init_params, &FieldList(got.init_params.to_vec()), true)?;
    for f in got.fields.iter().chain(got.init_params.iter()) {
        same(text, "a field and its copy", f, &f.clone(), true)?;
        same(text, "a field and one built", f, &Field::new(&f.name, f.r#type.clone()), true)?;
    }
    for (i, t) in got.transitions.iter().enumerate() {
        same(text, "a transition and one built", t, &Transition::new(&t.name, t.params.clone()), true)?;
        if names(&t.params) != want(&p.iface.transitions[i].1) {
            fail!(text, "the parameters of transition {} iterate as {:?}", i, names(&t.params));
        }
    }
    for _ in 0..12 {
        let mut g = p.iface.clone();
        vary_iface(&mut g, r);
        if r.chance(1, 6) {
            vary_iface(&mut g, r);
        }
        let Some(c) = to_contract(&g) else { continue };
        st.eval();
        st.hit(if g == p.iface { "changes that cancel out" } else { "changed interfaces compared" });
        same(text, &format!("the contract and {:?}", g), &got, &c, g == p.iface)?;
    }
    Ok(())
}

fn types(ctx: &Ctx, r: &mut Rng, st: &mut Stats) -> R {
    let depth = r.below(5);
    let mut v: Vec<MTy> = (0..6).map(|_| TyGen { d: &ctx.dict, r }.ty(depth)).collect();
    for _ in 0..18 {
        let i = r.below(v.len());
        let x = vary(&v[i], r);
        v.push(x);
    }
    let v: Vec<(MTy, Type)> = v.into_iter().filter_map(|t| to_type(&t).map(|x| (t, x))).collect();
    for (a, x) in &v {
        if !matches(x, a) {
            panic!("{:?} {:?}", a, x);
        }
        st.distinct(format!("{:?}", a).as_bytes());
        same(&x.to_string(), "a type and its copy", x, &x.clone(), true)?;
        for (b, y) in &v {
            st.eval();
            same(&format!("{} and {}", x, y), "types", x, y, a == b)?;
            st.hit(if a == b { "equal types compared" } else { "different types compared" });
        }
    }
    Ok(())
}

fn ordered(input: &str, v: &[Box<dyn Parsed>], st: &mut Stats) -> R {
    let key: Vec<String> = v.iter().map(|n| render_forest(&n.forest(), true)).collect();
    let mut ord = vec![vec![None; v.len()]; v.len()];
    for i in 0..v.len() {
        for j in 0..v.len() {
            let (eq, o) = guard(input, "comparing", || v[i].compare(&*v[j]))?.unwrap();
            st.eval();
            if eq != (key[i] == key[j]) {
                fail!(input, "syntax trees that are {} compare as {}: {} and {}", if eq { "different" } else { "equal" }, if eq { "equal" } else { "different" }, clip(&key[i], 400), clip(&key[j], 400));
            }
            if (o == Some(Ordering::Equal)) != eq {
                fail!(input, "equal is {}, but the order is {:?}: {} and {}", eq, o, clip(&key[i], 400), clip(&key[j], 400));
            }
            st.hit(if eq { "equal trees compared" } else { "different trees compared" });
            ord[i][j] = o;
        }
    }
    for i in 0..v.len() {
        for j in 0..v.len() {
            if ord[i][j] != ord[j][i].map(Ordering::reverse) {
                fail!(input, "order {:?} one way, {:?} the other: {} and {}", ord[i][j], ord[j][i], clip(&key[i], 400), clip(&key[j], 400));
            }
            for k in 0..v.len() {
                if ord[i][j] == Some(Ordering::Less) && ord[j][k] == Some(Ordering::Less) && ord[i][k] != Some(Ordering::Less) {
                    fail!(input, "the order is not transitive: {} and {} and {}", clip(&key[i], 300), clip(&key[j], 300), clip(&key[k], 300));
                }
            }
        }
    }
    Ok(())
}

/// Trees of one rule: of the same tokens, with one changed, elsewhere.
fn trees(ctx: &Ctx, r: &mut Rng, st: &mut Stats) -> R {
    let rule = any_rule(ctx, r);
    let name = ctx.g.rules[rule].name;
    let max = *r.pick(&[8, 20, 40]);
    let s = sentence(ctx, r, Some(rule), max);
    note_kinds(st, &s.forest);
    let pos = if r.chance(1, 4) && !s.toks.is_empty() { odd_positions(&s.toks, r) } else { positions(&s.toks, r) };
    let input = format!("{}: {}", name, show(&s.toks));
    let mut v: Vec<Box<dyn Parsed>> = vec![];
    let mut put = |t: &[GTok], p: &[(Pos, Pos)]| -> R {
        if let Ok(n) = guard(&input, name, || parse_tokens(name, t, p))? {
            v.push(n);
        }
        Ok(())
    };
    put(&s.toks, &pos)?;
    put(&s.toks, &pos)?;
    for _ in 0..5 {
        let mut t = s.toks.clone();
        let i = r.below(t.len());
        if t[i].t as usize >= FIRST_CLASS && r.chance(3, 4) {
            t[i].text = ctx.dict.text(t[i].t, r);
        } else {
            mutate::tokens(&mut t, &[], &ctx.dict, r);
        }
        // The positions of the same place and length.
        let mut p = pos.clone();
        p.resize(t.len(), *pos.last().unwrap());
        put(&t, &p)?;
    }
    let other = positions(&s.toks, r);
    put(&s.toks, &other)?;
    let mut p = pos.clone();
    let i = r.below(p.len());
    match r.below(4) {
        0 => p[i].0.byte ^= 1,
        1 => p[i].1.byte ^= 1,
        2 => p[i].0.line ^= 1,
        _ => p[i].1.col ^= 1,
    }
    put(&s.toks, &p)?;
    if let Some(f) = v.first() {
        let d = f.duplicate();
        if d.debug() != f.debug() {
            fail!(input, "a tree and its copy differ: {} and {}", clip(&f.debug(), 400), clip(&d.debug(), 400));
        }
        v.push(d);
    }
    if v.len() > 2 {
        st.seen("distinct", key(name, &s.toks));
        st.seen_str("rules whose trees were compared", name);
    }
    ordered(&input, &v, st)
}

fn tokens(ctx: &Ctx, r: &mut Rng, st: &mut Stats) -> R {
    // Tokens.
    let n = r.range(3, 14);
    let mut g: Vec<GTok> = (0..n).map(|_| mutate::random_tok(&ctx.dict, r)).collect();
    for i in 0..n {
        if g[i].t as usize >= FIRST_CLASS && g[i].t != UNKNOWN {
            // The same text in another class, another text in the same one.
            let t = FIRST_CLASS as u8 + r.below(NTERM - FIRST_CLASS) as u8;
            let x = GTok { t, text: g[i].text.clone() };
            let y = GTok { t: g[i].t, text: vary_name(&g[i].text, r) };
            g.push(x);
            g.push(y);
        }
    }
    let input = show(&g);
    st.distinct(input.as_bytes());
    for a in &g {
        for b in &g {
            let want = a.t == b.t && (a.text == b.text || a.t == UNKNOWN);
            st.eval();
            same(&input, "tokens", &to_token(a.t, &a.text), &to_token(b.t, &b.text).clone(), want)?;
            st.hit(if want { "equal tokens compared" } else { "different tokens compared" });
        }
    }
    // Positions of a text.
    let p = program(ctx, r, Fill::Small);
    let text = lay(&p.toks, any_mode(r), r).text;
    let mut v: Vec<SourcePosition> = vec![];
    for (a, _, b) in guard(&text, "the lexer", || lex_all(&text))?.unwrap_or_default() {
        v.push(a);
        v.push(b);
    }
    v.push(SourcePosition::start_position());
    for _ in 0..60 {
        let (a, b) = (*r.pick(&v), *r.pick(&v));
        let (x, y) = (sp(&a), sp(&b));
        st.eval();
        same(&text, "positions", &a, &b, x == y)?;
        if a.partial_cmp(&b) != Some(x.byte.cmp(&y.byte)) {
            fail!(text, "positions {:?} and {:?} are ordered {:?}", a, b, a.partial_cmp(&b));
        }
        if !a.is_valid() {
            fail!(text, "position {:?} is called invalid", a);
        }
        let k = r.below(5000);
        let e = sp(&a.with_end(x.byte + k));
        if e != (Pos { byte: x.byte + k, line: x.line, col: x.col + k }) || sp(&a) != x {
            fail!(text, "{} bytes after {:?} on the line is {:?}", k, x, e);
        }
        st.hit("positions compared");
    }
    let zero = Pos { byte: 0, line: 0, col: 0 };
    if sp(&SourcePosition::start_position()) != zero || sp(&SourcePosition::default()) != zero || SourcePosition::invalid_position().is_valid() {
        fail!("SourcePosition", "start {:?}, default {:?}, invalid {:?}", SourcePosition::start_position(), SourcePosition::default(), SourcePosition::invalid_position());
    }
    let c = Contract::default();
    if !c.name.is_empty() || !c.fields.is_empty() || !c.init_params.is_empty() || !c.transitions.is_empty() || !Field::default().name.is_empty() {
        fail!("default", "the default contract is {:?}", c);
    }
    Ok(())
}

pub fn c23(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C23", id);
    let r = &mut r;
    match r.below(10) {
        0..=3 => contracts(ctx, r, st),
        4 => types(ctx, r, st),
        5..=8 => trees(ctx, r, st),
        _ => tokens(ctx, r, st),
    }
}

// ---------------------------------------------------------------- C24

fn tree_of_text(text: &str) -> Result<Option<NodeProgram>, Viol> {
    guard(text, "ProgramParser", || ProgramParser::new().parse(&mut vec![], Lexer::new(text)).ok())
}

fn emit(input: &str, p: &NodeProgram) -> Result<Result<Contract, String>, Viol> {
    guard(input, "SrEmitter::emit", || SrEmitter::default().emit(p))
}

/// The interface of the tree is that of the text.
fn agrees(text: &str, st: &mut Stats) -> Result<Option<NodeProgram>, Viol> {
    let whole = guard(text, "Contract::from_str", || Contract::from_str(text))?;
    let Some(tree) = tree_of_text(text)? else {
        if whole.is_ok() {
            fail!(text, "it has no syntax tree, but is seen as {}", result_text(&whole));
        }
        return Ok(None);
    };
    let copy = tree.clone();
    for k in 0..2 {
        let part = emit(text, if k == 0 { &tree } else { &copy })?;
        st.eval();
        let ok = match (&part, &whole) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(Error::ParseError(b))) => a == b,
            _ => false,
        };
        if !ok {
            fail!(text, "as a text it is seen as {}, as a tree {} as {}", clip(&result_text(&whole), 500), if k == 0 { "once" } else { "twice" }, clip(&format!("{:?}", part), 500));
        }
        st.hit(if part.is_ok() { "interfaces of a tree" } else { "refusals of a tree" });
    }
    if tree != copy {
        fail!(text, "extracting the interface changes the tree");
    }
    Ok(Some(tree))
}

struct Edited {
    tree: NodeProgram,
    want: Iface,
}

type Part = (WithMetaData<NodeComponentDefinition>, Option<(String, Vec<(String, MTy)>)>);

fn parts(e: &Edited) -> Vec<Part> {
    let mut t = e.want.transitions.iter();
    e.tree
        .contract_definition
        .node
        .components
        .iter()
        .map(|c| {
            let x = matches!(c.node, NodeComponentDefinition::TransitionComponent(_)).then(|| t.next().unwrap().clone());
            (c.clone(), x)
        })
        .collect()
}

/// One change to the tree and to the interface it declares.
fn edit(a: &mut Edited, b: &Edited, r: &mut Rng) -> &'static str {
    let d = &mut a.tree.contract_definition.node;
    let e = &b.tree.contract_definition.node;
    match r.below(12) {
        0 => {
            d.contract_name = e.contract_name.clone();
            a.want.name = b.want.name.clone();
            "name taken over"
        }
        1 => {
            d.parameters = e.parameters.clone();
            a.want.params = b.want.params.clone();
            "parameters taken over"
        }
        2 => {
            let (x, y) = (&mut d.parameters.node.parameters, &mut a.want.params);
            x.reverse();
            y.reverse();
            "parameters reversed"
        }
        3 if !d.fields.is_empty() => {
            let i = r.below(d.fields.len());
            d.fields.remove(i);
            a.want.fields.remove(i);
            "field removed"
        }
        4 if !d.fields.is_empty() => {
            let (i, j) = (r.below(d.fields.len()), r.below(d.fields.len()));
            d.fields.insert(j, d.fields[i].clone());
            a.want.fields.insert(j, a.want.fields[i].clone());
            "field repeated"
        }
        5 if !e.fields.is_empty() => {
            let (i, j) = (r.below(e.fields.len()), r.below(d.fields.len() + 1));
            d.fields.insert(j, e.fields[i].clone());
            a.want.fields.insert(j, b.want.fields[i].clone());
            "field taken over"
        }
        6 if !d.fields.is_empty() && !e.fields.is_empty() => {
            let (i, j) = (r.below(d.fields.len()), r.below(e.fields.len()));
            d.fields[i].node.typed_identifier.node.annotation = e.fields[j].node.typed_identifier.node.annotation.clone();
            a.want.fields[i].1 = b.want.fields[j].1.clone();
            "type of a field taken over"
        }
        7 if !d.fields.is_empty() => {
            let i = r.below(d.fields.len());
            d.fields[i].node.typed_identifier.node.identifier_name.node = "renamed".into();
            a.want.fields[i].0 = "renamed".into();
            "field renamed"
        }
        8..=10 => {
            let mut p = parts(a);
            let q = parts(b);
            let what = match r.below(4) {
                0 if !p.is_empty() => {
                    p.remove(r.below(p.len()));
                    "component removed"
                }
                1 if !q.is_empty() => {
                    p.insert(r.below(p.len() + 1), q[r.below(q.len())].clone());
                    "component taken over"
                }
                2 if !p.is_empty() => {
                    let x = p[r.below(p.len())].clone();
                    p.insert(r.below(p.len() + 1), x);
                    "component repeated"
                }
                _ => {
                    p.reverse();
                    "components reversed"
                }
            };
            a.want.transitions = p.iter().filter_map(|x| x.1.clone()).collect();
            a.tree.contract_definition.node.components = p.into_iter().map(|x| x.0).collect();
            what
        }
        _ => {
            a.tree.version = b.tree.version.clone();
            a.tree.import_declarations = b.tree.import_declarations.clone();
            a.tree.library_definition = b.tree.library_definition.clone();
            a.tree.contract_definition.node.constraint = None;
            "surroundings taken over"
        }
    }
}

fn edited(ctx: &Ctx, r: &mut Rng, st: &mut Stats) -> R {
    let mut v = vec![];
    for _ in 0..2 {
        let fill = *r.pick(&[Fill::None, Fill::None, Fill::Small]);
        let p = program(ctx, r, fill);
        if p.toks.len() > 700 || p.iface.has_any() {
            return Ok(());
        }
        let text = lay(&p.toks, Mode::Plain, r).text;
        st.distinct(text.as_bytes());
        let Some(tree) = agrees(&text, st)? else { return Ok(()) };
        match emit(&text, &tree)? {
            Ok(c) if iface_diff(&c, &p.iface).is_none() => {}
            // C02.
            _ => return Ok(()),
        }
        v.push((Edited { tree, want: p.iface }, text));
    }
    let (b, bt) = v.pop().unwrap();
    let (mut a, at) = v.pop().unwrap();
    let mut input = format!("{}\n(* and *)\n{}", at, bt);
    for _ in 0..6 {
        let what = edit(&mut a, &b, r);
        input.push_str(&format!("\n(* {} *)", what));
        let got = emit(&input, &a.tree)?;
        st.eval();
        st.hit("edited trees");
        st.seen_str("kinds of edits", what);
        match got {
            Ok(c) => {
                if let Some(d) = iface_diff(&c, &a.want) {
                    fail!(input, "the tree edited like this is seen differently: {}", d);
                }
            }
            Err(e) => fail!(input, "the tree edited like this is refused: {}", e),
        }
    }
    Ok(())
}

/// The same tokens with any positions.
fn anywhere(ctx: &Ctx, r: &mut Rng, st: &mut Stats) -> R {
    let p = program(ctx, r, Fill::Small);
    if p.toks.len() > 1500 {
        return Ok(());
    }
    let input = show(&p.toks);
    let mut first: Option<Result<Contract, String>> = None;
    for k in 0..8 {
        let pos = if k == 0 { positions(&p.toks, r) } else { odd_positions(&p.toks, r) };
        let items: Vec<crate::real::Item> = p.toks.iter().zip(&pos).map(|(t, p)| Ok((crate::real::to_sp(p.0), to_token(t.t, &t.text), crate::real::to_sp(p.1)))).collect();
        let Some(tree) = guard(&input, "ProgramParser", || ProgramParser::new().parse(&mut vec![], items).ok())? else {
            // C08.
            return Ok(());
        };
        let got = emit(&input, &tree)?;
        st.eval();
        st.hit("trees with other positions");
        match &first {
            None => first = Some(got),
            Some(f) if *f == got => {}
            Some(f) => fail!(input, "with other positions it is seen differently: {:?} and {:?}", f, got),
        }
    }
    Ok(())
}

fn sr(t: &MTy) -> Option<SrType> {
    let mk = |n: &str, s: Vec<SrType>| SrType { main_type: n.to_string(), sub_types: s, address_type: None };
    Some(match t {
        MTy::Prim(p) => mk(p, vec![]),
        MTy::ByStr => mk("ByStr", vec![]),
        MTy::ByStr20 => mk("ByStr20", vec![]),
        MTy::ByStrX(n) => mk(&format!("ByStr{}", n), vec![]),
        MTy::Addr(k, f) => SrType { address_type: Some(AddressType { type_name: k.clone(), fields: to_fields(f)? }), ..mk("ByStr20", vec![]) },
        MTy::Map(a, b) => mk("Map", vec![sr(a)?, sr(b)?]),
        MTy::Pair(a, b) => mk("Pair", vec![sr(a)?, sr(b)?]),
        MTy::Option(a) => mk("Option", vec![sr(a)?]),
        MTy::List(a) => mk("List", vec![sr(a)?]),
        MTy::Other(s) => mk(s, vec![]),
        _ => return None,
    })
}

/// Damages the number of arguments somewhere; whether there is anything wrong then.
fn misfit(t: &mut SrType, r: &mut Rng) {
    if !t.sub_types.is_empty() && r.chance(1, 2) {
        let i = r.below(t.sub_types.len());
        return misfit(&mut t.sub_types[i], r);
    }
    if t.sub_types.is_empty() || r.chance(1, 2) {
        let n = r.pick(&["Bool", "Uint32", "Option", "X"]).to_string();
        t.push_sub_type(SrType { main_type: n, sub_types: vec![], address_type: None });
    } else {
        t.sub_types.pop();
    }
}
fn fits(t: &SrType) -> bool {
    let n = if t.main_type == "Map" { Some(2) } else { arity(&t.main_type) };
    n.is_none_or(|n| n == t.sub_types.len()) && t.sub_types.iter().all(fits)
}

fn conversions(ctx: &Ctx, r: &mut Rng, st: &mut Stats) -> R {
    for _ in 0..10 {
        let depth = r.below(5);
        let t = TyGen { d: &ctx.dict, r }.ty(depth);
        if t.has_any() {
            continue;
        }
        let Some(mut s) = sr(&t) else { continue };
        let input = format!("{:?}", s);
        let got: Type = guard(&input, "Type::from", || s.clone().into())?;
        st.eval();
        st.hit("types converted");
        st.distinct(input.as_bytes());
        if !matches(&got, &t) {
            fail!(input, "this becomes {:?}", got);
        }
        for _ in 0..4 {
            let input = format!("{:?}", s);
            let ok = guard(&input, "SrType::check_arity", || s.check_arity())?;
            if ok.is_ok() != fits(&s) || matches!(&ok, Err(e) if e.trim().is_empty()) {
                fail!(input, "the numbers of arguments are {}, the check says {:?}", if fits(&s) { "right" } else { "wrong" }, ok);
            }
            st.hit(if ok.is_ok() { "right numbers of arguments" } else { "wrong numbers of arguments" });
            guard(&input, "Type::from", || Type::from(s.clone()))?;
            misfit(&mut s, r);
        }
    }
    Ok(())
}

pub fn c24_blocks(ctx: &Ctx) -> u64 {
    ctx.corpus.len() as u64
}

pub fn c24(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C24", id);
    let r = &mut r;
    if let Some(c) = ctx.corpus.get(id as usize) {
        if c.tokens <= 12_000 {
            st.distinct(c.text.as_bytes());
            agrees(&c.text, st)?;
        }
        return Ok(());
    }
    match r.below(10) {
        0..=4 => edited(ctx, r, st),
        5 | 6 => anywhere(ctx, r, st),
        7 => conversions(ctx, r, st),
        _ => {
            let s = sentence(ctx, r, Some(ctx.g.rule("Program")), 150);
            let mut toks = s.toks;
            if r.chance(1, 3) {
                mutate::tokens(&mut toks, &[], &ctx.dict, r);
            }
            let text = lay(&toks, any_mode(r), r).text;
            if let Ok(f) = extract(&s.forest[0]) {
                st.max("largest number of entries observed", f.entries() as u64);
            } else if let Err(Refuse(_)) = extract(&s.forest[0]) {
                st.hit("inexpressible interfaces");
            }
            st.distinct(text.as_bytes());
            agrees(&text, st)?;
            Ok(())
        }
    }
}
