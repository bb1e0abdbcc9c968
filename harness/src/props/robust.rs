//! C01: parsing ends with a value or an error, whatever the text or path.

use super::bulk;
use super::long;
use super::source::{self, *};
use crate::compose::Fill;
use crate::core::*;
use crate::real::{lex_all, parse_items, parse_text, NAMES};
use oracle::gen::GTok;
use oracle::layout::{any_mode, layout, Mode};
use oracle::mutate::{self, NASTY};
use oracle::rng::Rng;
use scilla_parser::parser::lexer::Lexer;
use scilla_parser::Contract;
use std::path::Path;
use std::str::FromStr;

/// Texts with a hole.
const AROUND: &[(&str, &str)] = &[
    ("", ""),
    ("", "scilla_version 0 contract C ()"),
    ("scilla_version ", " contract C ()"),
    ("scilla_version 0", " contract C ()"),
    ("scilla_version 0 import ", " contract C ()"),
    ("scilla_version 0 import L as ", " contract C ()"),
    ("scilla_version 0 library L let x = ", " contract C ()"),
    ("scilla_version 0 library L type T = | ", " contract C ()"),
    ("scilla_version 0 library L type T = | A of ", " contract C ()"),
    ("scilla_version 0 contract ", " ()"),
    ("scilla_version 0 contract C", " ()"),
    ("scilla_version 0 contract C (", ")"),
    ("scilla_version 0 contract C (a", ": Uint32)"),
    ("scilla_version 0 contract C (a : ", ")"),
    ("scilla_version 0 contract C (a : Uint32", ")"),
    ("scilla_version 0 contract C (a : ByStr", ")"),
    ("scilla_version 0 contract C (a : Option ", ")"),
    ("scilla_version 0 contract C (a : Map ", " Uint32)"),
    ("scilla_version 0 contract C (a : Map Uint32 ", ")"),
    ("scilla_version 0 contract C (a : Map Uint32 (", "))"),
    ("scilla_version 0 contract C (a : ByStr20 with ", " end)"),
    ("scilla_version 0 contract C (a : ByStr20 with contract field ", " : Uint32 end)"),
    ("scilla_version 0 contract C (a : ByStr20 with contract field x : ", " end)"),
    ("scilla_version 0 contract C () with ", " => x"),
    ("scilla_version 0 contract C () field ", " : Uint32 = x"),
    ("scilla_version 0 contract C () field f : ", " = x"),
    ("scilla_version 0 contract C () field f : Uint32 = ", ""),
    ("scilla_version 0 contract C () field f : String = \"", "\""),
    ("scilla_version 0 contract C () field f : Uint32 = Uint32 ", ""),
    ("scilla_version 0 contract C () field f : ByStr20 = 0x", ""),
    ("scilla_version 0 contract C () transition ", " () end"),
    ("scilla_version 0 contract C () transition T (a : ", ") end"),
    ("scilla_version 0 contract C () transition T () ", " end"),
    ("scilla_version 0 contract C () transition T () x = ", " end"),
    ("scilla_version 0 contract C () transition T () x = builtin add ", " end"),
    ("scilla_version 0 contract C () transition T () match x with | ", " => end end"),
    ("scilla_version 0 contract C () transition T () x <- & ", " end"),
    ("scilla_version 0 contract C () transition T () e = { ", " : x } end"),
    ("scilla_version 0 contract C () transition T () end", ""),
    ("scilla_version 0 (* ", " *) contract C ()"),
    ("scilla_version 0 contract C () (*", ""),
    ("scilla_version 0 contract C () (* ", ""),
];

/// (prefix, repeated, suffix)
pub const REPEATED: &[(&str, &str, &str)] = &[
    ("", "x ", ""),
    ("", "(", ""),
    ("", ")", ""),
    ("", "\u{e9}", ""),
    ("", "\"", ""),
    ("", "\\\"", ""),
    ("\"", "\\\"", ""),
    ("\"", "\\", ""),
    ("\"", "\n", "\""),
    ("", "(*", ""),
    ("", "(**)", ""),
    ("(*", "*", ""),
    ("(*", "(", ")"),
    ("", "\n", ""),
    ("", "-", ">"),
    ("", "0", ""),
    ("", "0x", ""),
    ("-", "9", ""),
    ("ByStr", "9", ""),
    ("scilla_version ", "9", " contract C ()"),
    ("scilla_version 0 contract C (a : ByStr", "0", ")"),
    ("scilla_version 0 contract C (a : ByStr", "9", ")"),
    ("scilla_version 0 contract ", "C", " ()"),
    ("scilla_version 0 contract C (a : ByStr20", " with", ")"),
    ("scilla_version 0 contract C (", "a : Uint32, ", "b : Uint32)"),
    ("scilla_version 0 contract C (a : Pair ", "Uint32 ", ")"),
    ("scilla_version 0 contract C (a : Foo ", "Uint32 ", ")"),
    ("scilla_version 0 contract C (a : ByStr20 with contract ", "field a : Uint32, ", "field b : Uint32 end)"),
    ("scilla_version 0 contract C () ", "field f : Uint32 = x ", ""),
    ("scilla_version 0 contract C () ", "transition T () end ", ""),
    ("scilla_version 0 contract C () transition T () ", "x = y; ", "x = y end"),
    ("scilla_version 0 contract C () transition T () ", "accept; ", "accept end"),
    ("scilla_version 0 library L ", "let x = y ", "contract C ()"),
    ("scilla_version 0 library L type T = ", "| A of B ", "contract C ()"),
    ("scilla_version 0 import ", "L ", "contract C ()"),
];

/// (opening, middle, closing): nested.
pub const NESTED: &[(&str, &str, &str)] = &[
    ("(", "a", ")"),
    ("Option (", "Uint32", ")"),
    ("(", "Uint32", ")"),
    ("Map Uint32 ", "Uint32", ""),
    ("Map Uint32 (", "Uint32", ")"),
    ("Foo (", "Uint32", ")"),
    ("Uint32 -> ", "Uint32", ""),
    ("forall 'A. ", "Uint32", ""),
    ("(", "Uint32", ") -> Uint32"),
    ("ByStr20 with contract field a : ", "Uint32", " end"),
];

pub const NESTED_TEXTS: &[(&str, &str, &str, &str, &str)] = &[
    ("scilla_version 0 contract C () field f : Uint32 = ", "let x = ", "y", " in y", ""),
    ("scilla_version 0 contract C () field f : Uint32 = ", "let x = y in ", "y", "", ""),
    ("scilla_version 0 contract C () field f : Uint32 = ", "fun (a : Uint32) => ", "y", "", ""),
    ("scilla_version 0 contract C () field f : Uint32 = ", "tfun 'A => ", "y", "", ""),
    ("scilla_version 0 contract C () field f : Uint32 = ", "match x with | _ => ", "y", " end", ""),
    ("scilla_version 0 contract C () transition T () ", "match x with | _ => ", "accept", " end", " end"),
    ("scilla_version 0 contract C () transition T () match x with | ", "A (", "A", ")", " => end end"),
];

pub fn nested(k: usize, n: usize) -> String {
    if let Some((p, o, m, c, s)) = NESTED_TEXTS.get(k) {
        return format!("{}{}{}{}{}", p, o.repeat(n), m, c.repeat(n), s);
    }
    let (o, m, c) = NESTED[k - NESTED_TEXTS.len()];
    format!("scilla_version 0 contract C (a : {}{}{})", o.repeat(n), m, c.repeat(n))
}

const PATHS: &[&str] = &[
    "", ".", "..", "/", "//", "/dev/null", "/dev", "/nonexistent", "nonexistent", "./nonexistent/x.scilla", "/dev/null/x", "/proc/self/cmdline", "/proc/version", "/proc/self", "a\u{0}b", "\u{0}",
    "\u{e9}\u{3000}", " ", "-", "~", "*", "scilla_version 0 contract C ()", "/etc/hostname/..", "/proc/self/fd/9999",
];

const PAIR_CHARS: usize = 140;

pub fn blocks(ctx: &Ctx) -> u64 {
    (NASTY.len() + REPEATED.len() + NESTED_TEXTS.len() + NESTED.len() + ctx.corpus.len() + PAIR_CHARS + 1 + long::LAYOUT.len() + long::TOKENS.len() + bulk::LONG) as u64 + big_count(ctx)
}

/// Where a long run is put.
const WITH_RUNS: &[(&str, &str)] = &[
    ("", "scilla_version 0 contract C ()"),
    ("scilla_version 0 ", " contract C (a : Uint32)"),
    ("scilla_version 0 contract C (a : Uint32) ", ""),
    ("scilla_version 0 contract C () field f : String = ", ""),
    ("scilla_version 0 contract ", " ()"),
    ("scilla_version 0 contract C (", " : Uint32)"),
    ("scilla_version 0 contract C (a : ", ")"),
    ("scilla_version 0 contract C () transition T (a : Map Uint32 ", ") x := y end"),
    ("scilla_version 0 contract C () transition ", " () end"),
];

/// Everything that takes a text must return.
fn survive(text: &str, subs: &[&str], st: &mut Stats) -> R {
    let r = guard(text, "Contract::from_str", || match Contract::from_str(text) {
        Ok(c) => {
            let _ = format!("{:?}", c);
            for f in c.init_params.iter().chain(c.fields.iter()) {
                let _ = f.r#type.to_string();
            }
            true
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
            false
        }
    })?;
    st.eval();
    st.hit(if r { "contracts accepted" } else { "texts refused" });
    if let Err(e) = guard(text, "the lexer", || lex_all(text).map(|t| t.len()))? {
        fail!(text, "{}", e);
    }
    for s in subs {
        let ok = guard(text, &format!("{}Parser", s), || parse_text(s, text).is_ok())?;
        st.hit(if ok { "sub-parser results" } else { "sub-parser errors" });
    }
    Ok(())
}

fn subs(r: &mut Rng, n: usize) -> Vec<&'static str> {
    (0..n).map(|_| *r.pick(NAMES)).collect()
}

fn pair_char(i: usize) -> String {
    const MORE: &[char] = &['\u{80}', '\u{85}', '\u{a0}', '\u{b2}', '\u{e9}', '\u{130}', '\u{3000}', '\u{4e2d}', '\u{feff}', '\u{ff10}', '\u{1f980}', '\u{10ffff}'];
    if i < 128 {
        (i as u8 as char).to_string()
    } else {
        MORE[(i - 128) % MORE.len()].to_string()
    }
}

pub fn hostile(ctx: &Ctx, r: &mut Rng, st: &mut Stats) -> String {
    match r.below(12) {
        0 | 1 => {
            st.hit("texts: damaged contracts");
            let p = program(ctx, r, Fill::Small);
            let t = layout(&p.toks, any_mode(r), r).text;
            mutate::text(&t, &t.clone(), r)
        }
        2 => {
            st.hit("texts: contracts");
            let p = program(ctx, r, Fill::Rich);
            layout(&p.toks, any_mode(r), r).text
        }
        3 | 4 => {
            st.hit("texts: sentences of the grammar");
            let rule = if r.chance(1, 2) { Some(ctx.g.rule("Program")) } else { None };
            let s = sentence(ctx, r, rule, 120);
            note_kinds(st, &s.forest);
            layout(&s.toks, any_mode(r), r).text
        }
        5 => {
            st.hit("texts: damaged token sequences");
            let mut v = sentence(ctx, r, None, 60).toks;
            let d = v.clone();
            mutate::tokens(&mut v, &d, &ctx.dict, r);
            layout(&v, any_mode(r), r).text
        }
        6 => {
            st.hit("texts: fragments");
            mutate::soup(&ctx.dict, r)
        }
        7 => {
            st.hit("texts: random tokens");
            let n = r.range(1, 50);
            let toks: Vec<GTok> = (0..n).map(|_| mutate::random_tok(&ctx.dict, r)).collect();
            layout(&toks, any_mode(r), r).text
        }
        8 => {
            st.hit("texts: random bytes");
            let n = r.range(1, 60);
            let b: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
            String::from_utf8_lossy(&b).into_owned()
        }
        9 => {
            st.hit("texts: random characters");
            let n = r.range(1, 30);
            (0..n)
                .filter_map(|_| {
                    let top = *r.pick(&[0x100usize, 0x3100, 0x110000]);
                    char::from_u32(r.below(top) as u32)
                })
                .collect()
        }
        10 if !ctx.corpus.is_empty() => {
            st.hit("texts: damaged pieces of the repository's contracts");
            let c = &r.pick(&ctx.corpus).text;
            let mut a = if r.chance(1, 2) { 0 } else { r.below(c.len()) };
            let mut b = (a + r.range(1, 1500)).min(c.len());
            while !c.is_char_boundary(a) {
                a -= 1
            }
            while !c.is_char_boundary(b) {
                b += 1
            }
            mutate::text(&c[a..b], "", r)
        }
        _ => {
            st.hit("texts: holes filled");
            let (p, s) = *r.pick(AROUND);
            let n = r.range(1, 3);
            let mid: String = (0..n)
                .map(|_| match r.below(3) {
                    0 => r.pick(NASTY).to_string(),
                    1 => mutate::random_tok(&ctx.dict, r).text,
                    _ => format!(" {} ", source::show(&sentence(ctx, r, None, 8).toks)),
                })
                .collect();
            format!("{}{}{}", p, mid, s)
        }
    }
}

pub fn c01(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C01", id);
    let r = &mut r;
    let mut k = id as usize;
    if k < NASTY.len() {
        for (p, s) in AROUND {
            for m in [NASTY[k].to_string(), format!(" {} ", NASTY[k])] {
                let t = format!("{}{}{}", p, m, s);
                st.distinct(t.as_bytes());
                survive(&t, &[], st)?;
            }
        }
        for n in NAMES {
            survive(NASTY[k], &[n], st)?;
        }
        return Ok(());
    }
    k -= NASTY.len();
    if k < REPEATED.len() {
        let (p, m, s) = REPEATED[k];
        for n in [0usize, 1, 2, 3, 4, 8, 15, 16, 17, 18, 19, 20, 21, 38, 39, 40, 41, 63, 64, 65, 77, 78, 79, 127, 128, 129, 255, 256, 257, 300, 1000, 4000] {
            let t = format!("{}{}{}", p, m.repeat(n), s);
            st.distinct(t.as_bytes());
            let some = if n < 300 { subs(r, 3) } else { vec![] };
            survive(&t, &some, st)?;
        }
        return Ok(());
    }
    k -= REPEATED.len();
    let nn = NESTED_TEXTS.len() + NESTED.len();
    if k < nn {
        for n in [0usize, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500] {
            let t = nested(k, n);
            st.distinct(t.as_bytes());
            survive(&t, &[], st)?;
        }
        // On a thread with the usual stack.
        let t = nested(k, 60);
        let done = std::thread::Builder::new().stack_size(2 << 20).spawn(move || Contract::from_str(&t).is_ok()).unwrap().join();
        st.hit("nested texts parsed with a stack of 2 MB");
        if done.is_err() {
            fail!(nested(k, 60), "panic in a thread with the usual stack");
        }
        return Ok(());
    }
    k -= nn;
    if k < ctx.corpus.len() {
        // Contracts of the repository, cut off and damaged.
        let c = &ctx.corpus[k];
        let n = if ctx.thorough { 300_000 } else { 60_000 } / (c.text.len() + 2000) + 3;
        for i in 0..n {
            let mut a = if i == 0 { c.text.len() } else { r.below(c.text.len()) };
            while !c.text.is_char_boundary(a) {
                a -= 1;
            }
            let t = if i % 2 == 0 { c.text[..a].to_string() } else { mutate::text(&c.text, &c.text[a..], r) };
            st.distinct(t.as_bytes());
            survive(&t, &[], st)?;
        }
        return Ok(());
    }
    k -= ctx.corpus.len();
    if k < PAIR_CHARS {
        for j in 0..PAIR_CHARS {
            let t = format!("{}{}", pair_char(k), pair_char(j));
            st.distinct(t.as_bytes());
            let some = subs(r, 1);
            survive(&t, &some, st)?;
        }
        return Ok(());
    }
    k -= PAIR_CHARS;
    if k == 0 {
        for p in PATHS.iter().map(|s| s.to_string()).chain([format!("/tmp/{}", "x".repeat(300)), "x/".repeat(3000), "../".repeat(100)]) {
            let _ = guard(&format!("path {:?}", clip(&p, 80)), "Contract::parse", || Contract::parse(Path::new(&p)).map_err(|e| e.to_string()).is_ok())?;
            st.eval();
            st.hit("paths tried");
        }
        use std::os::unix::ffi::OsStrExt;
        let p = Path::new(std::ffi::OsStr::from_bytes(b"/tmp/\xff\xfe"));
        guard("path \\xff\\xfe", "Contract::parse", || Contract::parse(p).is_ok())?;
        return Ok(());
    }
    k -= 1;
    if k < long::LAYOUT.len() + long::TOKENS.len() {
        let x = long::LAYOUT.iter().chain(long::TOKENS).nth(k).unwrap();
        for n in long::lengths(ctx) {
            let m = long::run(x, *n);
            for (a, b) in WITH_RUNS {
                let t = format!("{}{}{}", a, m, b);
                st.distinct(t.as_bytes());
                survive(&t, &[], st)?;
            }
            // Never finished.
            if *n <= 300 {
                survive(&format!("contract {}{}", x.0, x.1.repeat(*n)), &[], st)?;
            }
            st.hit("long runs tried everywhere");
        }
        return Ok(());
    }
    k -= long::LAYOUT.len() + long::TOKENS.len();
    if k < bulk::LONG {
        // Contracts with one very long list, which would take long as text.
        for n in [1_025, 66_000] {
            let n = if k == 6 { n.min(17_000) } else { n };
            let got = bulk::fed(ctx, r, &format!("a contract with list {} of length {}", k, n), &bulk::long_iface(k, n))?;
            st.eval();
            st.hit(if matches!(got, Some(Ok(_))) { "long contracts accepted" } else { "long contracts refused" });
        }
        return Ok(());
    }
    k -= bulk::LONG;
    if (k as u64) < big_count(ctx) {
        let b = big(ctx, k as u64, r);
        note_big(st, &b);
        let pos = positions(&b.s.toks, r);
        let name = ctx.g.rules[b.rule].name;
        if NAMES.contains(&name) {
            let ok = guard(&b.what, name, || crate::real::parse_tokens(name, &b.s.toks, &pos).is_ok())?;
            st.eval();
            st.hit(if ok { "long and deep sentences accepted" } else { "long and deep sentences refused" });
        }
        if name == "Program" {
            bulk::contract_fed(&b.what, &b.s.toks, &pos)?.is_ok();
            st.hit("interfaces of long and deep contracts");
        } else if let Some((with, _)) = bulk::irrelevant(ctx, r, name, &b.s.toks) {
            let pos = positions(&with, r);
            let _ = bulk::contract_fed(&b.what, &with, &pos)?;
            st.hit("interfaces of long and deep contracts");
        }
        return Ok(());
    }
    let t = hostile(ctx, r, st);
    st.distinct(t.as_bytes());
    st.sample(|| format!("{:?}", clip(&t, 300)));
    let n = r.below(4);
    let some = subs(r, n);
    survive(&t, &some, st)?;
    if r.chance(1, 10) {
        // Token streams no text gives, with errors of the lexer among them.
        let n = r.range(0, 40);
        let toks: Vec<GTok> = (0..n).map(|_| mutate::random_tok(&ctx.dict, r)).collect();
        let pos = positions(&toks, r);
        let name = *r.pick(NAMES);
        let input = format!("{}: {}", name, source::show(&toks));
        guard(&input, name, || crate::real::parse_tokens(name, &toks, &pos).is_ok())?;
        guard(&input, name, || parse_items(name, Box::new(Lexer::new(&t).chain(Lexer::new("x")))).is_ok())?;
        let _ = Mode::Plain;
        st.hit("token streams tried");
    }
    Ok(())
}

// ---------------------------------------------------------------- the recorded exception

/// The inputs named in known-findings.txt.
pub const DEEP: u64 = 200_000;

pub fn parse_deep(n: usize) -> i32 {
    let t = format!("scilla_version 0 contract C (a : {}Uint32{})", "(".repeat(n), ")".repeat(n));
    match Contract::from_str(&t) {
        Ok(_) => println!("ok"),
        Err(e) => println!("err {}", clip(&e.to_string(), 60)),
    }
    0
}

/// Parses the recorded input in a process of its own and tells whether it still ends it.
pub fn deep(ctx: &Ctx, st: &mut Stats) -> R {
    use std::os::unix::process::ExitStatusExt;
    let out = std::process::Command::new("sh")
        .args(["-c", "ulimit -v 12000000; ulimit -s 8192; ulimit -c 0; exec \"$0\" oneshot \"$1\""])
        .arg(std::env::current_exe().unwrap())
        .arg(format!("deep:{}", DEEP))
        .stderr(std::process::Stdio::null())
        .output();
    let Ok(out) = out else { return Ok(()) };
    let list = std::fs::read_to_string(ctx.verif.join("known-findings.txt")).unwrap_or_default();
    let entry = format!("open: property=C01 input=nested-parentheses-{}", DEEP);
    if let Some(sig) = out.status.signal() {
        if list.lines().any(|l| l.starts_with(&entry)) {
            println!(
                "KNOWN-FINDING: property=C01 parsing the text with a type in {} nested parentheses ends the process (signal {}): the recursion over the tree exhausts the stack",
                DEEP, sig
            );
            st.hit("known findings observed");
        } else {
            fail!(format!("a type in {} nested parentheses", DEEP), "the process is ended by signal {}", sig);
        }
    }
    Ok(())
}
