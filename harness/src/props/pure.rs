//! C17: parsing is a pure function of the text.

use super::source::*;
use crate::compose::Fill;
use crate::core::*;
use crate::model::result_text;
use crate::real::{parse_text, reusable, to_sp, to_token, Item, Reusable, NAMES};
use oracle::layout::{any_mode, layout};
use oracle::mutate;
use oracle::lexref::lex;
use oracle::rng::{hash_bytes, Rng};
use scilla_parser::ast::nodes::NodeProgram;
use scilla_parser::parser::lexer::Lexer;
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::Contract;
use std::collections::HashMap;
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

/// What a caller sees of parsing a text: the contract and the tree (with positions) or the errors.
fn see(text: &str, parser: &str) -> String {
    let c = result_text(&Contract::from_str(text));
    let t = match parse_text(parser, text) {
        Ok(p) => p.debug(),
        Err(e) => format!("{:?}", e),
    };
    format!("{}\n{}", c, t)
}

fn see_with(p: &Reusable, text: &str) -> String {
    let c = result_text(&Contract::from_str(text));
    let t = match p(Box::new(Lexer::new(text))) {
        Ok(p) => p.debug(),
        Err(e) => format!("{:?}", e),
    };
    format!("{}\n{}", c, t)
}

/// Prints what is seen of the text in a file (after a line with the parser's name), in a fresh process.
pub fn oneshot(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else { return 2 };
    let Some((parser, text)) = s.split_once('\n') else { return 2 };
    println!("{:016x}", hash_bytes(see(text, parser).as_bytes()));
    0
}

/// Prints which parts of the environment a fresh process asks for, and what it sees of each text in a file (separated by
/// control characters).
pub fn oneshot_many(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else { return 2 };
    let (seen, names) = asked(|| s.split(SEPARATOR).map(|t| hash_bytes(see(t, "Program").as_bytes())).collect::<Vec<_>>());
    println!("{}", names.join(" "));
    for h in seen {
        println!("{:016x}", h);
    }
    0
}

/// In a fresh process: mostly empty texts, and around every round number of texts some that are worth parsing.
pub fn oneshot_counted(limit: u64) -> i32 {
    const WORTH: [&str; 3] = ["scilla_version 0 contract C ()", "scilla_version 0 contract C (a : Uint32) field f : String = s transition T () end", "scilla_version 0 contract C (a : Option)"];
    let near = |n: u64| {
        let round = |m: u64| (n + 6) % m <= 12 && n + 6 >= m;
        let two = (5..64).map(|k| 1u64 << k).any(|p| n + 4 >= p && n <= p + 4);
        two || (2..19).map(|k| 10u64.pow(k)).any(|p| n + 2 >= p && n <= p + 2) || (n > 60_000 && round(65_536))
    };
    let want: Vec<String> = WORTH.iter().map(|t| see(t, "Program")).collect();
    let empty = result_text(&Contract::from_str(""));
    let mut n = WORTH.len() as u64 + 1;
    while n < limit {
        n += 1;
        if near(n) {
            let k = (n % 3) as usize;
            let got = see(WORTH[k], "Program");
            if got != want[k] {
                println!("{}", WORTH[k]);
                println!("seen as the {}th text or so of a process: {} instead of {}", n, clip(&got, 300), clip(&want[k], 300));
                return 1;
            }
        } else if result_text(&Contract::from_str("")) != empty {
            println!();
            println!("the {}th text or so of a process is seen differently", n);
            return 1;
        }
    }
    println!("{}", n);
    0
}

/// The number of texts a process has parsed before makes no difference.
fn counted_alone(ctx: &Ctx, st: &mut Stats) -> R {
    let limit: u64 = if ctx.thorough { (1 << 22) + 50 } else { (1 << 17) + 50 };
    let out = std::env::current_exe().and_then(|e| std::process::Command::new(e).arg("oneshot").arg(format!("counted:{}", limit)).output());
    let Ok(out) = out else { return Ok(()) };
    let s = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut lines = s.lines();
    match out.status.code() {
        Some(0) => {
            let n: u64 = lines.next().and_then(|l| l.parse().ok()).unwrap_or(0);
            st.add("texts parsed one after the other by a fresh process", n);
            st.add("evaluations", n);
            Ok(())
        }
        Some(1) => {
            let text = lines.next().unwrap_or("").to_string();
            fail!(text, "{}", lines.collect::<Vec<_>>().join(" "))
        }
        _ => Ok(()),
    }
}

extern "C" {
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn setrlimit(what: i32, limits: *const [u64; 2]) -> i32;
    fn nice(by: i32) -> i32;
    fn setsid() -> i32;
    fn umask(mask: u32) -> u32;
}

/// What a process can be given that is no part of the text.
#[derive(Clone, Copy, Debug)]
enum Limits {
    None,
    Processors(u32),
    Memory(u64),
    Files(u64),
    Nice,
    Session,
    Mask,
}

const LIMITS: &[Limits] = &[Limits::Processors(1), Limits::Processors(2), Limits::Processors(3), Limits::Memory(2 << 30), Limits::Files(16), Limits::Nice, Limits::Session, Limits::Mask];

impl Limits {
    fn set(self, c: &mut std::process::Command) {
        use std::os::unix::process::CommandExt;
        // What the child may run on, before the fork: nothing that allocates happens after it.
        let mut now = [0u64; 16];
        unsafe { sched_getaffinity(0, 128, now.as_mut_ptr()) };
        let mut few = [0u64; 16];
        if let Limits::Processors(n) = self {
            for b in (0..1024).filter(|b| now[b / 64] >> (b % 64) & 1 == 1).take(n as usize) {
                few[b / 64] |= 1 << (b % 64);
            }
        }
        let done = |rc: i32| if rc == 0 { Ok(()) } else { Err(std::io::Error::last_os_error()) };
        unsafe {
            c.pre_exec(move || match self {
                Limits::None => Ok(()),
                Limits::Processors(_) => done(sched_setaffinity(0, 128, few.as_ptr())),
                // RLIMIT_AS, RLIMIT_NOFILE
                Limits::Memory(n) => done(setrlimit(9, &[n, n])),
                Limits::Files(n) => done(setrlimit(7, &[n, n])),
                Limits::Nice => {
                    nice(5);
                    Ok(())
                }
                Limits::Session => done((setsid() < 0) as i32),
                Limits::Mask => {
                    umask(0o777);
                    Ok(())
                }
            });
        }
    }
}

const SEPARATOR: &str = "\u{1}\u{2}\u{1}";

/// The same texts in processes that differ in their environment only.
fn environments(ctx: &Ctx, texts: &[String], id: u64, st: &mut Stats) -> R {
    let all = texts.join(SEPARATOR);
    let run_so = |env: &[(String, String)], how: Limits| -> Option<(Vec<String>, Vec<u64>)> {
        let f = ctx.verif.join("out").join(format!("many-{}-{}", std::process::id(), id));
        std::fs::create_dir_all(f.parent().unwrap()).ok()?;
        std::fs::write(&f, &all).ok()?;
        let mut c = std::process::Command::new(std::env::current_exe().ok()?);
        c.arg("oneshot").arg(format!("many:{}", f.display())).env_clear().envs(env.iter().cloned());
        how.set(&mut c);
        let out = c.output();
        let _ = std::fs::remove_file(&f);
        let out = out.ok()?;
        if !out.status.success() {
            return None;
        }
        let s = String::from_utf8_lossy(&out.stdout).into_owned();
        let mut l = s.lines();
        let names = l.next()?.split(' ').filter(|n| !n.is_empty()).map(|n| n.to_string()).collect();
        Some((names, l.map(|h| u64::from_str_radix(h, 16).unwrap_or(0)).collect()))
    };
    let run = |env: &[(String, String)]| run_so(env, Limits::None);
    let mut p = Pool { texts: texts.to_vec(), parsers: vec!["Program"; texts.len()], want: vec![] };
    for t in texts {
        st.distinct(t.as_bytes());
        p.want.push(guard(t, "parsing", || see(t, "Program"))?);
    }
    at_any_time(&p, st)?;
    let Some((names, want)) = run(&[]) else { return Ok(()) };
    for how in LIMITS {
        // Not every system lets us.
        let Some((_, got)) = run_so(&[], *how) else { continue };
        st.add("evaluations", texts.len() as u64);
        st.add("texts seen in processes with other limits", texts.len() as u64);
        st.seen_str("limits of processes", &format!("{:?}", how));
        if let Some(i) = (0..texts.len()).find(|i| got.get(*i) != want.get(*i)) {
            fail!(texts[i], "a process with other limits ({:?}) sees it differently", how);
        }
    }
    // All the names the sources mention, and each one that is asked for with what the sources mention and the usual.
    let short: Vec<&String> = ctx.dict.strings.iter().chain(&ctx.dict.words).filter(|s| s.len() < 16).collect();
    let mut envs: Vec<Vec<(String, String)>> = vec![];
    for v in ["", "0", "1", "true"] {
        let all = ctx.dict.words.iter().filter(|w| w.len() > 3 && w.bytes().all(|b| b.is_ascii_uppercase() || b == b'_' || b.is_ascii_digit()));
        envs.push(all.map(|w| (w.clone(), v.to_string())).collect());
    }
    for n in names.iter().take(20) {
        st.hit("lookups in the environment");
        for v in ["", "0", "1", "true", "yes", "on", "10", "x", "/"].map(|s| s.to_string()).iter().chain(short.iter().copied()).take(if names.len() > 3 { 12 } else { 300 }) {
            if !v.contains('\0') {
                envs.push(vec![(n.clone(), v.clone())]);
            }
        }
    }
    for env in envs {
        if env.is_empty() {
            continue;
        }
        let Some((_, got)) = run(&env) else { fail!(all, "a process with {:?} in its environment fails", env) };
        st.add("evaluations", texts.len() as u64);
        st.add("texts seen in other environments", texts.len() as u64);
        if let Some(i) = (0..texts.len()).find(|i| got.get(*i) != want.get(*i)) {
            fail!(texts[i], "a process with {} in its environment sees it differently", clip(&format!("{:?}", env), 300));
        }
    }
    Ok(())
}

/// What surrounds a process and is no part of the text.
const SURROUNDINGS: &[&[(&str, &str)]] = &[
    &[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("HOME", "/nonexistent"), ("TZ", "Asia/Kathmandu"), ("TERM", "dumb"), ("USER", "nobody")],
    &[("RUST_LOG", "trace"), ("RUST_BACKTRACE", "full"), ("DEBUG", "1"), ("CI", "true"), ("VERBOSE", "1"), ("CARGO", "x"), ("SCILLA_HOME", "/"), ("NO_COLOR", "1")],
];

/// What a new process sees of a text, in other surroundings (an empty environment if none are given).
fn elsewhere(ctx: &Ctx, parser: &str, text: &str, id: u64, env: &[(&str, &str)]) -> Option<u64> {
    start(ctx, parser, text, id, |c| {
        c.env_clear().current_dir("/");
        c.envs(env.iter().copied());
    })
}

fn fresh(ctx: &Ctx, parser: &str, text: &str, id: u64) -> Option<u64> {
    start(ctx, parser, text, id, |_| {})
}

fn start(ctx: &Ctx, parser: &str, text: &str, id: u64, set: impl Fn(&mut std::process::Command)) -> Option<u64> {
    let f = ctx.verif.join("out").join(format!("fresh-{}-{}", std::process::id(), id));
    std::fs::create_dir_all(f.parent().unwrap()).ok()?;
    std::fs::write(&f, format!("{}\n{}", parser, text)).ok()?;
    let mut c = std::process::Command::new(std::env::current_exe().ok()?);
    c.arg("oneshot").arg(&f);
    set(&mut c);
    let out = c.output();
    let _ = std::fs::remove_file(&f);
    let out = out.ok()?;
    if !out.status.success() {
        return None;
    }
    u64::from_str_radix(String::from_utf8_lossy(&out.stdout).trim(), 16).ok()
}

/// Texts that could be taken for each other: the same text with one character changed, cut, or doubled.
fn similar(text: &str, r: &mut Rng) -> String {
    let cs: Vec<char> = text.chars().collect();
    if cs.is_empty() {
        return "x".into();
    }
    let mut v = cs.clone();
    for _ in 0..20 {
        let i = r.below(v.len());
        let c = v[i];
        let to = match c {
            'a'..='y' | 'A'..='Y' | '0'..='8' => char::from_u32(c as u32 + 1).unwrap(),
            'z' => 'a',
            ' ' => *r.pick(&['\n', '\t', 'x']),
            ')' => '(',
            '(' => '*',
            _ => continue,
        };
        v[i] = to;
        if r.chance(2, 3) {
            break;
        }
    }
    v.into_iter().collect()
}

pub fn a_text(ctx: &Ctx, r: &mut Rng) -> String {
    match r.below(8) {
        0..=2 => {
            let f = *r.pick(&[Fill::None, Fill::Small, Fill::Small]);
            let p = program(ctx, r, f);
            layout(&p.toks, any_mode(r), r).text
        }
        3 | 4 => {
            let s = sentence(ctx, r, Some(ctx.g.rule("Program")), 60);
            layout(&s.toks, any_mode(r), r).text
        }
        5 => {
            let s = sentence(ctx, r, Some(ctx.g.rule("Program")), 60);
            let mut v = s.toks.clone();
            mutate::tokens(&mut v, &s.toks, &ctx.dict, r);
            layout(&v, any_mode(r), r).text
        }
        6 => {
            let p = program(ctx, r, Fill::None);
            let t = layout(&p.toks, any_mode(r), r).text;
            mutate::text(&t, "", r)
        }
        _ => {
            let s = sentence(ctx, r, None, 40);
            layout(&s.toks, any_mode(r), r).text
        }
    }
}

/// Texts that leave something open: unfinished strings, comments, brackets; refused types.
pub const OPEN: &[&str] = &[
    "",
    "scilla_version",
    "scilla_version 0 contract C (a : \"",
    "scilla_version 0 contract C (* ",
    "scilla_version 0 contract C (((((((((",
    "scilla_version 0 contract C (a : Uint32 -> Uint32)",
    "scilla_version 0 contract C (a : Option)",
    "scilla_version 0 contract C (a : Map Uint32 (Map Uint32 (Map",
    "scilla_version 0 contract C () transition T () match x with | _ => match x with | _ =>",
    "scilla_version 0 contract C () \u{e9}",
    "scilla_version 0 contract C () field f : 'A = x",
    "scilla_version 0 contract C (a : ByStr20 with contract field x : 'A end)",
];

pub fn blocks(ctx: &Ctx) -> u64 {
    16 + ctx.corpus.len() as u64 + REFUSED.len() as u64 + 6 + VARIED.len() as u64 + 3 + lists(ctx) + PLACED
}

/// Texts refused at every place that can refuse one, and a few that are accepted.
pub const REFUSED: &[&str] = &[
    "",
    "scilla_version 0 contract C (a : ByStr20 with contract field x : Uint32, field y : 'A end)",
    "scilla_version 0 contract C (a : ByStr20 with contract field x : ByStr20 with contract field y : Option end end)",
    "scilla_version 0 contract C (a : ByStr20 with contract field x : Uint32 -> Uint32 end)",
    "scilla_version 0 contract C (a : Uint32, b : Uint32 -> Uint32)",
    "scilla_version 0 contract C (a : Uint32, b : forall 'A. Uint32)",
    "scilla_version 0 contract C (a : Uint32, b : List 'A)",
    "scilla_version 0 contract C (a : Uint32, b : Map Uint32 (List 'A))",
    "scilla_version 0 contract C (a : Uint32, b : Map (ByStr20 with contract field z : 'A end) Uint32)",
    "scilla_version 0 contract C (a : Uint32, b : Pair Uint32)",
    "scilla_version 0 contract C (a : Uint32, b : Pair Uint32 (Option 'A))",
    "scilla_version 0 contract C (a : Uint32, b : Option)",
    "scilla_version 0 contract C (a : Uint32) field f : Uint32 = x field g : 'A = x",
    "scilla_version 0 contract C (a : Uint32) field f : Map Uint32 (Map Uint32 Option) = x",
    "scilla_version 0 contract C (a : Uint32) field f : Uint32 = fun (x : 'A) => x field g : 'A -> 'A = x",
    "scilla_version 0 contract C (a : Uint32) transition T (a : Uint32, b : 'A) end",
    "scilla_version 0 contract C (a : Uint32) transition T (a : Uint32) end transition U (b : Uint32 -> Uint32) end",
    "scilla_version 0 contract C (a : Uint32) procedure P (b : 'A) end transition U (b : List 'A) end",
    "scilla_version 0 contract C (a : Uint32) procedure P (b : Uint32) x = y end transition U (b : List 'A) end",
    "scilla_version 0 contract C (a : Uint32, ",
    "scilla_version 0 contract C (a : Uint32) transition T () match x with | A (B (C",
    "scilla_version 0 contract C (a : Map Uint32 (Map Uint32 (List",
    "scilla_version 0 import A B library L let x = y type T = | A of B contract C () ;",
    "scilla_version 0 contract C (a : Map Uint32 (Map Uint32 ByStr20), b : Option (List (Pair Uint32 String))) field f : ByStr20 with contract field x : Uint32 end = x transition T (a : Foo.Bar) end",
    "scilla_version 0 contract C () with x => transition T (a : Uint32) accept; x = y end procedure P () end",
];

/// What everything is probed with, again and again.
pub const PROBES: &[&str] = &[
    "scilla_version 0 library L let x = fun (a : Uint32) => a contract Probe (a : ByStr20 with contract field x : ByStr20 with contract field y : Map Uint32 (Option String) end end, b : List (Pair Int256 Foo.Bar)) with x => field f : Map ByStr20 (Map Uint32 (ByStr20 with end)) = Emp ByStr20 Uint32 field g : Bool = True procedure p (z : Uint32) accept end transition T (m : ByStr3, n : 0xab.C) match x with | A (B c) => y = { x : Uint32 3 } end end transition U () end",
    "scilla_version 0 contract C (a : Option)",
    "scilla_version 0 contract C (a : Uint32, )",
];

pub type Fed<'a> = Vec<Item<'a>>;

pub fn fed(text: &str) -> Fed<'_> {
    lex(text).toks.iter().map(|t| Ok((to_sp(t.start), to_token(t.t, t.text(text)), to_sp(t.end)))).collect()
}

pub fn program_of<'a>(items: impl Iterator<Item = Item<'a>>) -> Result<NodeProgram, String> {
    ProgramParser::new().parse(&mut vec![], items).map_err(|e| format!("{:?}", e))
}

pub fn emitted(p: &NodeProgram) -> String {
    format!("{:?}", SrEmitter::default().emit(p))
}

/// What is seen of a text whose tokens are given: the tree and what is extracted from it, or the error.
fn see_fed(items: &Fed) -> String {
    match program_of(items.iter().cloned()) {
        Ok(p) => format!("{:?} {}", p, emitted(&p)),
        Err(e) => e,
    }
}

/// The same tiny texts over and over, each result compared.
fn counted(thorough: bool, st: &mut Stats) -> R {
    let more = if thorough { 20 } else { 1 };
    for (t, times) in [("", 300_000), ("(", 150_000), (") *", 70_000), ("(*", 70_000), ("scilla_version 0 contract C ()", 1500), ("scilla_version 0 contract C (a : Option)", 1200)] {
        let want = guard(t, "parsing", || Contract::from_str(t))?;
        let shown = result_text(&want);
        for n in 0..times * more {
            let got = guard(t, "parsing", || Contract::from_str(t))?;
            let same = match (&want, &got) {
                (Ok(a), Ok(b)) => a == b,
                (Err(scilla_parser::Error::ParseError(a)), Err(scilla_parser::Error::ParseError(b))) => a == b,
                _ => false,
            };
            if !same {
                differs(&format!("after {} times, seen differently", n), t, &shown, &result_text(&got))?;
            }
        }
        st.add("evaluations", times * more);
        st.add("times a tiny text was parsed", times * more);
    }
    for name in NAMES {
        let v = reusable(name);
        let want = see_with(&v, "");
        for n in 0..3000 * more {
            let got = guard(name, "parsing nothing", || match v(Box::new(Lexer::new(""))) {
                Ok(p) => p.debug(),
                Err(e) => format!("{:?}", e),
            })?;
            if !want.ends_with(&got) {
                differs(&format!("after {} times, {} sees nothing differently", n, name), "", &want, &got)?;
            }
        }
        st.add("evaluations", 3000 * more);
    }
    Ok(())
}

fn differs(what: &str, text: &str, want: &str, got: &str) -> R {
    if want != got {
        let at = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(60).min(s.len())..(at + 200).min(s.len())]).into_owned();
        fail!(text, "{}: ...{} instead of ...{}", what, cut(got), cut(want));
    }
    Ok(())
}

/// The same text again and again, tens of thousands of times; now and then the probes, which must be seen as at first.
fn worn(text: &str, times: usize, st: &mut Stats) -> R {
    let probes: Vec<Fed> = PROBES.iter().map(|p| fed(p)).collect();
    let want: Vec<String> = guard(text, "parsing", || probes.iter().map(see_fed).collect())?;
    let items = fed(text);
    let first = guard(text, "parsing", || see_fed(&items))?;
    let mut next = 1;
    for n in 1..=times {
        guard(text, "parsing", || {
            if let Ok(p) = program_of(items.iter().cloned()) {
                let _ = SrEmitter::default().emit(&p);
            }
        })?;
        if n == next || n == times {
            next = (next * 2).min(next + 5000);
            for (p, w) in probes.iter().zip(&want) {
                let got = guard(text, "parsing", || see_fed(p))?;
                st.eval();
                differs(&format!("after {} times the same text, another one is seen differently", n), text, w, &got)?;
            }
            let got = guard(text, "parsing", || see_fed(&items))?;
            differs(&format!("seen differently after {} times", n), text, &first, &got)?;
        }
    }
    // And through the lexer.
    for _ in 0..times / 100 {
        guard(text, "parsing", || {
            let _ = Contract::from_str(text);
        })?;
    }
    for p in PROBES {
        let a = guard(p, "parsing", || result_text(&Contract::from_str(p)))?;
        let b = guard(p, "parsing in a new thread", || {
            let p = p.to_string();
            std::thread::spawn(move || result_text(&Contract::from_str(&p))).join().unwrap()
        })?;
        st.eval();
        differs(&format!("after {} times {:?}, seen differently than in a new thread", times / 100, text), p, &b, &a)?;
    }
    st.max("largest history of one thread observed", times as u64);
    st.hit("worn-out histories observed");
    Ok(())
}

/// Contracts that differ in one word: what is seen of each must be what is seen of the first, with that word in it.
const VARIED: &[(&str, &str)] = &[
    ("zzqqqqqq", "scilla_version 0 contract C (zzqqqqqq : Uint32) field zzqqqqqq : Map Uint32 Foo = zzqqqqqq transition zzqqqqqq (zzqqqqqq : ByStr20 with contract field zzqqqqqq : Uint32 end) end"),
    ("zzqqqqqq", "scilla_version 0 contract C () transition zzqqqqqq () end"),
    ("zzqqqqqq", "scilla_version 0 library L let zzqqqqqq = zzqqqqqq contract C (a : ByStr20 with contract field zzqqqqqq : Uint32, field b : Foo end) procedure zzqqqqqq () zzqqqqqq = y end"),
    ("Zzqqqqqq", "scilla_version 0 contract Zzqqqqqq () field f : Uint32 = x"),
    ("Zzqqqqqq", "scilla_version 0 contract C (a : Zzqqqqqq, b : Map Zzqqqqqq (Map Zzqqqqqq (List Zzqqqqqq)), c : Zzqqqqqq.Zzqqqqqq, d : Map Uint32 Zzqqqqqq)"),
    ("Zzqqqqqq", "scilla_version 0 import Zzqqqqqq library Zzqqqqqq type Zzqqqqqq = | Zzqqqqqq of Zzqqqqqq contract C (a : Pair Zzqqqqqq Zzqqqqqq) transition Zzqqqqqq (a : Option Zzqqqqqq) match x with | Zzqqqqqq => end end"),
    ("ByStr7654321", "scilla_version 0 contract C (a : ByStr7654321, b : Map ByStr7654321 (Option ByStr7654321), c : ByStr7654321.ByStr7654321)"),
    ("0x987654321abc", "scilla_version 0 contract C (a : 0x987654321abc.Foo) field f : Map 0x987654321abc.Foo 0x987654321abc.Bar = 0x987654321abc"),
    ("_zqqqqqq", "scilla_version 0 contract C (a : ByStr20 with contract field _zqqqqqq : Uint32 end) with _zqqqqqq => transition T () accept end"),
    ("987654321", "scilla_version 987654321 contract C () field f : Uint32 = Uint32 987654321"),
    ("\"zzqqqqqq\"", "scilla_version 0 contract C () field f : String = \"zzqqqqqq\""),
];

/// The number written into the word, which keeps its length and class.
fn word(like: &str, n: usize) -> String {
    let keep = ["ByStr", "0x", "\"z", "_z", "z", "Z"].iter().find(|p| like.starts_with(**p)).copied().unwrap_or("");
    let end = if like.starts_with('"') { "\"" } else { "" };
    let len = like.len() - keep.len() - end.len();
    let alphabet: &[u8] = match keep {
        "ByStr" | "" => b"123456789",
        "0x" => b"0123456789abcdef",
        _ => b"abcdefghijklmnopqrstuvwxyz0123456789_ABC",
    };
    let mut k = n;
    let mut digits = vec![alphabet[0]; len];
    for d in digits.iter_mut() {
        *d = alphabet[k % alphabet.len()];
        k /= alphabet.len();
    }
    if n % 2 == 1 {
        digits.reverse();
    }
    format!("{}{}{}", keep, String::from_utf8(digits).unwrap(), end)
}

fn varied(k: usize, times: usize, st: &mut Stats) -> R {
    let (like, text) = VARIED[k];
    let l = lex(text);
    // As it stands in what is printed for debugging.
    let printed = |s: &str| if s.starts_with("ByStr") { s[5..].to_string() } else { s.trim_matches('"').to_string() };
    let mut want: Option<Vec<Vec<String>>> = None;
    for n in 0..=times {
        let w = if n == 0 { like.to_string() } else { word(like, n) };
        let seen = guard(&w, "parsing", || -> Option<(String, String)> {
            let items = l.toks.iter().map(|t| {
                let s = t.text(text);
                Ok((to_sp(t.start), to_token(t.t, if s == like { &w } else { s }), to_sp(t.end)))
            });
            let p = program_of(items).ok()?;
            Some((emitted(&p), if n % 16 == 0 { format!("{:?}", p) } else { String::new() }))
        })?;
        let Some(seen) = seen else { fail!(text.replace(like, &w), "refused with {} in the place of {}", w, like) };
        let seen = [seen.0, seen.1];
        let want = want.get_or_insert_with(|| seen.iter().map(|s| s.split(&printed(like)).map(|x| x.to_string()).collect()).collect());
        for (got, want) in seen.iter().zip(want) {
            if !got.is_empty() {
                let want = want.join(&printed(&w));
                if *got != want {
                    differs(&format!("after {} others, seen differently but for {}", n, w), &text.replace(like, &w), &want, got)?;
                }
            }
        }
    }
    st.add("evaluations", times as u64);
    st.add("contracts that differ in one word", times as u64);
    st.hit("histories of ever different words");
    Ok(())
}

/// A parse inside a parse: wherever a parser asks for its next token, and wherever a converter is called, others are parsed.
fn nested(ctx: &Ctx, r: &mut Rng, st: &mut Stats) -> R {
    let outer = program(ctx, r, Fill::Small).toks;
    let l = layout(&outer, any_mode(r), r);
    let inner: Vec<String> = (0..3).map(|_| if r.chance(1, 2) { r.pick(REFUSED).to_string() } else { a_text(ctx, r) }).chain([l.text.clone()]).collect();
    let feeds: Vec<Fed> = inner.iter().map(|t| fed(t)).collect();
    let want: Vec<String> = guard(&l.text, "parsing", || feeds.iter().map(see_fed).collect())?;
    let items = fed(&l.text);
    let alone = guard(&l.text, "parsing", || see_fed(&items))?;
    let bad = std::cell::RefCell::new(None);
    let mut count = 0u64;
    let got = guard(&l.text, "parsing, with others parsed meanwhile", || {
        let mut k = 0;
        let it = items.iter().cloned().inspect(|_| {
            k += 1;
            let i = k % feeds.len();
            let s = see_fed(&feeds[i]);
            count += 1;
            if s != want[i] {
                *bad.borrow_mut() = Some((i, s));
            }
        });
        let p = program_of(it);
        match p {
            Ok(p) => format!("{:?} {}", p, emitted(&p)),
            Err(e) => e,
        }
    })?;
    st.eval();
    st.add("parses within parses observed", count);
    if let Some((i, s)) = bad.into_inner() {
        differs("a text parsed while another one is being parsed is seen differently", &inner[i], &want[i], &s)?;
    }
    differs("a text is seen differently when others are parsed while it is being parsed", &l.text, &alone, &got)?;
    // The caller's iterator gives up in the middle.
    let cut = r.below(items.len());
    let hit = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut k = 0;
        let it = items.iter().cloned().inspect(|_| {
            k += 1;
            if k > cut {
                std::panic::panic_any("given up by the caller");
            }
        });
        let _ = program_of(it);
    }));
    st.hit(if hit.is_err() { "parses given up by the caller" } else { "parses not given up" });
    let got = guard(&l.text, "parsing after one that was given up", || see_fed(&items))?;
    differs("a text is seen differently after a parse that was given up", &l.text, &alone, &got)?;
    for (i, f) in feeds.iter().enumerate() {
        let got = guard(&inner[i], "parsing", || see_fed(f))?;
        st.eval();
        differs("a text is seen differently after another one was parsed around it", &inner[i], &want[i], &got)?;
    }
    Ok(())
}

/// Many threads extract interfaces from the same trees, and parse the same tokens, all at once.
fn crowd(ctx: &Ctx, r: &mut Rng, threads: usize, rounds: usize, big: usize, st: &mut Stats) -> R {
    let mut texts: Vec<String> = PROBES.iter().chain(REFUSED).map(|s| s.to_string()).collect();
    for _ in 0..4 {
        texts.push(layout(&program(ctx, r, Fill::Small).toks, any_mode(r), r).text);
    }
    if big > 0 {
        // Large enough to be at work at the same time for certain.
        texts = vec![];
        for p in 0..4 {
            let params: Vec<String> = (0..big).map(|i| format!("p{} : Map Uint32 (Option ByStr{})", i, 1 + i % 30 + p)).collect();
            let fields: Vec<String> = (0..big).map(|i| format!("field f{} : ByStr20 with contract field a{} : Uint32 end = x", i, p)).collect();
            let tail = if p % 2 == 0 { String::new() } else { (0..big / 2).map(|i| format!("transition T{} (x : Uint{}) end ", i, 32 << (p / 2))).collect() };
            texts.push(format!("scilla_version 0 contract C{} ({}) {} {}", p, params.join(","), fields.join(" "), tail));
        }
    }
    let made: Vec<(String, Option<NodeProgram>, String)> = guard("a set of texts", "parsing", || {
        texts
            .iter()
            .map(|t| {
                let p = program_of(fed(t).into_iter()).ok();
                let w = p.as_ref().map(emitted).unwrap_or_default();
                (t.clone(), p, w)
            })
            .collect()
    })?;
    let made = Arc::new(made);
    let inside = Arc::new((AtomicUsize::new(0), AtomicUsize::new(0)));
    let barrier = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (made, inside, barrier, seed) = (made.clone(), inside.clone(), barrier.clone(), r.next());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || -> Result<u64, Viol> {
                    let mut r = Rng::new(seed);
                    barrier.wait();
                    let mut n = 0;
                    for _ in 0..rounds {
                        let (t, p, w) = r.pick(&made);
                        let Some(p) = p else { continue };
                        let now = inside.0.fetch_add(1, Ordering::SeqCst) + 1;
                        inside.1.fetch_max(now, Ordering::SeqCst);
                        let got = guard(t, "extracting an interface in a thread", || emitted(p));
                        inside.0.fetch_sub(1, Ordering::SeqCst);
                        differs("an interface is seen differently while other threads extract theirs", t, w, &got?)?;
                        n += 1;
                        if r.chance(1, 4) && t.len() < 4000 {
                            let q = guard(t, "parsing in a thread", || program_of(fed(t).into_iter()).map(|p| emitted(&p)))?;
                            differs("a text is seen differently while other threads parse", t, w, &q.unwrap_or_default())?;
                            n += 1;
                        }
                    }
                    Ok(n)
                })
                .unwrap()
        })
        .collect();
    let mut bad = None;
    for h in hs {
        match h.join() {
            Ok(Ok(n)) => {
                st.add("evaluations", n);
                st.add("extractions in threads", n);
            }
            Ok(Err(v)) => bad = Some(v),
            Err(_) => bad = Some(Viol { what: "panic in a thread".into(), input: clip(&texts.join("\n---\n"), 4000) }),
        }
    }
    st.max("largest number of threads extracting at the same time", inside.1.load(Ordering::SeqCst) as u64);
    match bad {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

/// Names of threads, the first for none.
const THREADS: &[&str] = &["", "main", "worker", "tokio-runtime-worker", "scilla-parser", "test", "a name that is rather long for a thread", "0"];

fn named(k: usize) -> std::thread::Builder {
    match THREADS[k % THREADS.len()] {
        "" => std::thread::Builder::new(),
        n => std::thread::Builder::new().name(n.into()),
    }
}

fn lists(ctx: &Ctx) -> u64 {
    2 * super::bulk::LONG as u64 + ctx.g.repetitions().len() as u64
}

/// Long lists, in threads of other names and with other stacks.
fn elsewhere_in_process(ctx: &Ctx, k: usize, r: &mut Rng, st: &mut Stats) -> R {
    use super::bulk;
    let (what, toks) = if k < 2 * bulk::LONG {
        let n = [300, 1100][k % 2];
        let f = bulk::long_iface(k / 2, n);
        let Some(toks) = around(ctx, r, &f, Fill::None) else { return Ok(()) };
        (format!("an interface with {} entries", f.entries()), toks)
    } else {
        let b = big(ctx, (k - 2 * bulk::LONG) as u64, r);
        let Some((with, _)) = bulk::irrelevant(ctx, r, ctx.g.rules[b.rule].name, &b.s.toks) else { return Ok(()) };
        (format!("{} in a contract", b.what), with)
    };
    let pos = positions(&toks, r);
    let input = format!("{}: {}", what, clip(&show(&toks), 2000));
    let feed = || -> Result<u64, Viol> {
        guard(&input, "parsing tokens and extracting the interface", || {
            let v: Fed = toks.iter().zip(&pos).map(|(t, p)| Ok((to_sp(p.0), to_token(t.t, &t.text), to_sp(p.1)))).collect();
            hash_bytes(see_fed(&v).as_bytes())
        })
    };
    let want = feed()?;
    st.distinct(what.as_bytes());
    for n in 0..THREADS.len() {
        for mb in [2, 40] {
            let got = std::thread::scope(|s| named(n).stack_size(mb << 20).spawn_scoped(s, &feed).unwrap().join());
            let Ok(got) = got else { fail!(input, "panic in a thread") };
            st.eval();
            st.hit("long lists seen in threads of other names");
            if got? != want {
                fail!(input, "a thread named {:?} with a stack of {} MB sees it differently", THREADS[n], mb);
            }
        }
    }
    Ok(())
}

/// How many blocks share the texts that are moved about in memory.
const PLACED: u64 = 16;

/// The same text at other places in memory, with something else around it.
fn placed(k: u64, r: &mut Rng, st: &mut Stats) -> R {
    let mut texts: Vec<(String, usize)> = vec![];
    for t in OPEN.iter().chain(PROBES).chain(&REFUSED[..8]) {
        texts.push((t.to_string(), 1));
    }
    for m in mutate::MARKS {
        for place in 0..4 {
            let mut t = "scilla_version 0\ncontract C ()".to_string();
            mutate::mark(&mut t, m, place, r);
            texts.push((t, if place % 2 == 0 { 1 } else { 8 }));
        }
    }
    for n in [17, 64, 256, 4096] {
        texts.push((format!("{:1$}", "scilla_version 0 contract C ()", n), 1));
        texts.push((format!("{:>1$}", "scilla_version 0 contract C ()", n), 1));
    }
    for (i, (t, step)) in texts.iter().enumerate().filter(|x| x.0 as u64 % PLACED == k) {
        let want = guard(t, "parsing", || see(t, "Program"))?;
        st.distinct(t.as_bytes());
        // What stands before and after it.
        let (before, after) = [("\0", "\0"), (" ", " "), ("(*", "*)"), ("\"", "\""), ("x", "x"), (")", "(")][(i / PLACED as usize) % 6];
        let mut buf = String::with_capacity(t.len() + 512);
        for at in (0..64).step_by(*step) {
            buf.clear();
            let from = (64 + at - buf.as_ptr() as usize % 64) % 64 + 64;
            while buf.len() < from {
                buf.push_str(&before[..before.len().min(from - buf.len())]);
            }
            buf.push_str(t);
            buf.push_str(&after.repeat(32));
            let part = &buf[from..from + t.len()];
            let got = guard(t, "parsing", || see(part, "Program"))?;
            st.eval();
            st.hit("texts seen at other places in memory");
            if got != want {
                fail!(t, "at an address that is {} more than a multiple of 64, in memory between {:?} and {:?}, it is seen differently\n{}\n{}", part.as_ptr() as usize % 64, before, after, clip(&want, 600), clip(&got, 600));
            }
        }
    }
    Ok(())
}

struct Pool {
    texts: Vec<String>,
    parsers: Vec<&'static str>,
    want: Vec<String>,
}

fn pool(ctx: &Ctx, r: &mut Rng, n: usize) -> Result<Pool, Viol> {
    let mut texts = vec![];
    for _ in 0..n {
        let t = a_text(ctx, r);
        for _ in 0..r.below(3) {
            texts.push(similar(&t, r));
        }
        texts.push(t);
    }
    for _ in 0..r.range(1, 4) {
        texts.push(r.pick(OPEN).to_string());
    }
    let parsers = texts.iter().map(|_| if r.chance(2, 3) { "Program" } else { *r.pick(NAMES) }).collect::<Vec<_>>();
    let mut want = vec![];
    for (t, p) in texts.iter().zip(&parsers) {
        want.push(guard(t, "parsing", || see(t, p))?);
    }
    Ok(Pool { texts, parsers, want })
}

fn same(p: &Pool, i: usize, got: &str, how: &str) -> R {
    if got != p.want[i] {
        let at = got.bytes().zip(p.want[i].bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(p.want[i].len()));
        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(60).min(s.len())..(at + 200).min(s.len())]).into_owned();
        fail!(p.texts[i], "parsing the same text again gives another answer ({}):\nfirst: ...{}\nagain: ...{}", how, cut(&p.want[i]), cut(got));
    }
    Ok(())
}

fn in_order(p: &Pool, r: &mut Rng, rounds: usize, st: &mut Stats) -> R {
    // One parser value of each kind, used for everything; one buffer, refilled.
    let mut values: HashMap<&str, Reusable> = HashMap::new();
    let mut buf = String::new();
    for _ in 0..rounds {
        let i = r.below(p.texts.len());
        let name = p.parsers[i];
        let how;
        let got = match r.below(3) {
            0 => {
                how = "called again";
                guard(&p.texts[i], "parsing", || see(&p.texts[i], name))?
            }
            1 => {
                how = "with a parser value used before";
                let v = values.entry(name).or_insert_with(|| reusable(name));
                guard(&p.texts[i], "parsing", || see_with(v, &p.texts[i]))?
            }
            _ => {
                how = "from a buffer used before";
                buf.clear();
                buf.push_str(&p.texts[i]);
                guard(&p.texts[i], "parsing", || see(&buf, name))?
            }
        };
        st.eval();
        same(p, i, &got, how)?;
    }
    st.hit("interleaved histories observed");
    Ok(())
}

fn in_threads(p: Pool, r: &mut Rng, rounds: usize, st: &mut Stats) -> Result<Pool, Viol> {
    const N: usize = 8;
    let p = Arc::new(p);
    let barrier = Arc::new(Barrier::new(N));
    let order = Arc::new((AtomicUsize::new(0), Mutex::new(vec![])));
    let seeds: Vec<u64> = (0..N).map(|_| r.next()).collect();
    let mut hs = vec![];
    for (k, seed) in seeds.into_iter().enumerate() {
        let (p, barrier, order) = (p.clone(), barrier.clone(), order.clone());
        let h = named(k)
            .stack_size(64 << 20)
            .spawn(move || -> Result<u64, Viol> {
                let mut r = Rng::new(seed);
                let mut values: HashMap<&str, Reusable> = HashMap::new();
                barrier.wait();
                let mut n = 0;
                for _ in 0..rounds {
                    let i = r.below(p.texts.len());
                    let name = p.parsers[i];
                    let got = if r.chance(1, 2) {
                        guard(&p.texts[i], "parsing in a thread", || see(&p.texts[i], name))?
                    } else {
                        let v = values.entry(name).or_insert_with(|| reusable(name));
                        guard(&p.texts[i], "parsing in a thread", || see_with(v, &p.texts[i]))?
                    };
                    same(&p, i, &got, "while other threads parse")?;
                    let at = order.0.fetch_add(1, Ordering::Relaxed);
                    order.1.lock().unwrap().push((at, k as u8));
                    n += 1;
                }
                Ok(n)
            })
            .unwrap();
        hs.push(h);
    }
    let mut bad = None;
    for h in hs {
        match h.join() {
            Ok(Ok(n)) => {
                st.add("evaluations", n);
                st.add("parses in threads", n);
            }
            Ok(Err(v)) => bad = Some(v),
            Err(_) => bad = Some(Viol { what: "panic in a thread".into(), input: p.texts.join("\n---\n") }),
        }
    }
    if let Some(v) = bad {
        return Err(v);
    }
    let mut o = order.1.lock().unwrap().clone();
    o.sort();
    st.seen("interleavings of threads", hash_bytes(&o.iter().map(|x| x.1).collect::<Vec<_>>()));
    Ok(Arc::try_unwrap(p).ok().unwrap())
}

pub fn c17(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C17", id);
    let r = &mut r;
    let nc = ctx.corpus.len() as u64;
    if id < nc {
        let c = &ctx.corpus[id as usize];
        let p = Pool { texts: vec![c.text.clone()], parsers: vec!["Program"], want: vec![guard(&c.text, "parsing", || see(&c.text, "Program"))?] };
        st.distinct(c.text.as_bytes());
        in_order(&p, r, 3, st)?;
        compare_fresh(ctx, &p, id, st)?;
        in_threads(p, r, 1, st)?;
        return Ok(());
    }
    if id < nc + 16 {
        // Long histories: the same text thousands of times, with others before and between.
        let p = pool(ctx, r, 1)?;
        let short = Pool { texts: vec!["scilla_version 0 contract C (a : Map Uint32 ByStr20)".into(), r.pick(OPEN).to_string()], parsers: vec!["Program", "ScillaType"], want: vec![] };
        let short = Pool { want: short.texts.iter().zip(&short.parsers).map(|(t, n)| see(t, n)).collect(), ..short };
        in_order(&short, r, if ctx.thorough { 20_000 } else { 300 }, st)?;
        in_order(&p, r, 30, st)?;
        for t in p.texts.iter().chain(&short.texts) {
            st.distinct(t.as_bytes());
        }
        st.hit("long histories observed");
        compare_fresh(ctx, &p, id, st)?;
        return Ok(());
    }
    let k = (id - nc - 16) as usize;
    if k < REFUSED.len() {
        st.distinct(REFUSED[k].as_bytes());
        return worn(REFUSED[k], if ctx.thorough { 400_000 } else if k % 5 == ctx.seed as usize % 5 { 70_000 } else { 12_000 }, st);
    }
    let k = k - REFUSED.len();
    if k < 6 {
        let more = if ctx.thorough { 60 } else { 6 };
        return match k {
            0 => crowd(ctx, r, 4, 60 * more, 1500, st),
            1 => crowd(ctx, r, 8, 20 * more, 1500, st),
            2 => crowd(ctx, r, 16, 1000 * more, 0, st),
            3 => crowd(ctx, r, 2, 2000 * more, 0, st),
            4 => crowd(ctx, r, 64, 60 * more, 0, st),
            _ => crowd(ctx, r, 8, 1000 * more, 0, st),
        };
    }
    if k < 6 + VARIED.len() {
        return varied(k - 6, if ctx.thorough { 3_000_000 } else { 80_000 }, st);
    }
    if id >= blocks(ctx) - PLACED && id < blocks(ctx) {
        return placed(blocks(ctx) - 1 - id, r, st);
    }
    if k > 6 + VARIED.len() + 2 && id < blocks(ctx) {
        return elsewhere_in_process(ctx, k - (6 + VARIED.len() + 3), r, st);
    }
    if k == 6 + VARIED.len() + 2 {
        counted_alone(ctx, st)?;
        return counted(ctx.thorough, st);
    }
    if k < 6 + VARIED.len() + 2 {
        let mut texts: Vec<String> = vec![];
        if k == 6 + VARIED.len() {
            texts.extend(REFUSED.iter().chain(PROBES).chain(OPEN).map(|t| t.to_string()));
            texts.extend((0..60).map(|_| a_text(ctx, r)).filter(|t| t.len() < 3000));
            for m in mutate::MARKS {
                texts.push(format!("scilla_version 0 contract C (){:700}{}", "\n", m));
                texts.push(format!("{}{:700}scilla_version 0 contract C ()", m, "\n"));
            }
        } else {
            for m in mutate::MARKS {
                for place in 0..4 {
                    let mut t = "scilla_version 0\nlibrary L\ncontract C (a : Uint32)\nfield f : ByStr20 = x\ntransition T () end".to_string();
                    mutate::mark(&mut t, m, place, r);
                    texts.push(t);
                }
            }
        }
        return environments(ctx, &texts, id, st);
    }
    if r.chance(1, 4) {
        return nested(ctx, r, st);
    }
    let n = r.range(1, 4);
    let p = pool(ctx, r, n)?;
    for t in &p.texts {
        st.distinct(t.as_bytes());
    }
    st.sample(|| format!("{:?}", p.texts.iter().map(|t| clip(t, 80)).collect::<Vec<_>>()));
    at_any_time(&p, st)?;
    match r.below(4) {
        0 | 1 => in_order(&p, r, 14, st)?,
        2 => {
            let rounds = 4;
            in_threads(p, r, rounds, st)?;
        }
        _ => {
            in_order(&p, r, 4, st)?;
            compare_fresh(ctx, &p, id, st)?;
        }
    }
    Ok(())
}

/// The time of day, and how fast it goes by, make no difference.
fn at_any_time(p: &Pool, st: &mut Stats) -> R {
    for (i, t) in p.texts.iter().enumerate() {
        for step in [0i64, 1, 3600, 400_000_000, -3600] {
            let (got, n) = with_clock(step, || guard(t, "parsing", || see(t, p.parsers[i])));
            st.eval();
            st.hit("texts seen with the clock watched");
            st.add("times the clock was asked", n);
            same(p, i, &got?, "with a clock that runs fast, or backwards")?;
            if n == 0 {
                break;
            }
        }
    }
    Ok(())
}

/// This process, with all that it parsed before, sees what a fresh one sees.
fn compare_fresh(ctx: &Ctx, p: &Pool, id: u64, st: &mut Stats) -> R {
    for (i, t) in p.texts.iter().enumerate().take(3) {
        if let Some(h) = fresh(ctx, p.parsers[i], t, id) {
            st.eval();
            st.hit("comparisons with a fresh process");
            if h != hash_bytes(p.want[i].as_bytes()) {
                fail!(t, "a fresh process gives another answer than this one, which gave {}", clip(&p.want[i], 600));
            }
        }
        if i > 0 {
            continue;
        }
        let mut all: Vec<Vec<(&str, &str)>> = vec![vec![], SURROUNDINGS[id as usize % SURROUNDINGS.len()].to_vec()];
        let (_, names) = asked(|| guard(t, "parsing", || see(t, p.parsers[i])));
        for n in &names {
            // Whatever it looks at in the environment must make no difference.
            st.hit("lookups in the environment");
            all.extend(["", "0", "1", "true", "strict", "10"].map(|v| vec![(n.as_str(), v)]));
        }
        for env in all.iter().take(30) {
            if let Some(h) = elsewhere(ctx, p.parsers[i], t, id, env) {
                st.eval();
                st.hit("comparisons with a process in other surroundings");
                if h != hash_bytes(p.want[i].as_bytes()) {
                    fail!(t, "a process with nothing but {:?} in its environment gives another answer than this one, which gave {}", env, clip(&p.want[i], 600));
                }
            }
        }
    }
    Ok(())
}
