//! C19: cost grows linearly.

use crate::core::*;
use crate::real::{lex_all, parse_items, to_sp, to_token, Item};
use oracle::lexref::lex;
use crate::rec::{Act, Rec, Watch};
use crate::shape::Shape;
use oracle::tree::Pos;
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::Contract;
use std::str::FromStr;

enum How {
    /// The whole contract, from its text.
    Contract,
    /// The lexer alone.
    Lex,
    /// The tree alone, from tokens made beforehand, and a walk over it.
    Tokens(&'static str),
    /// The tree of a contract from tokens made beforehand, and its interface.
    Emit,
}

struct Construct {
    name: &'static str,
    how: How,
    /// Before, repeated, between (mirrored after the middle when nested), after.
    parts: (&'static str, &'static str, &'static str, &'static str, &'static str),
    /// Repetitions at the largest size.
    max: usize,
}


macro_rules! c {
    ($name:expr, $how:expr, $max:expr, $a:expr, $o:expr, $m:expr, $c:expr, $z:expr) => {
        Construct { name: $name, how: $how, parts: ($a, $o, $m, $c, $z), max: $max }
    };
}

const RUNS: &[&str] = &[
    "\t", "\r", "\r\n", " \n", "\u{b}", "\u{c}", "\u{a0}", "\u{3000}", "\u{2028}", "\0", "7", "0x", "-", "end ", "Map ", "ByStr20 ", "_", "'", "'A", "*", "(", ")", ") ", "* ", "( *", "(*)", "\\", "\\n", "\\\"", "\\\\", "\"",
    "\"\" ", "//", "#\n", "--", ";", "\u{e9}", "\u{4e2d}", "\u{1f980}", "\u{301}", "\u{feff}", "a b\tc\n", "(* *",
];

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

fn constructs() -> Vec<Construct> {
    use How::*;
    let mut v = vec![
        // Repeated, from text.
        c!("contract parameters", Contract, 6000, "scilla_version 0 contract C (", "a : Uint32, ", "b : Bool", "", ")"),
        c!("fields", Contract, 4000, "scilla_version 0 contract C () ", "field f : Uint32 = x ", "", "", ""),
        c!("transitions", Contract, 5000, "scilla_version 0 contract C () ", "transition T () end ", "", "", ""),
        c!("transitions with parameters", Contract, 2500, "scilla_version 0 contract C () ", "transition T (a : Map Uint32 ByStr20) end ", "", "", ""),
        c!("procedures", Contract, 5000, "scilla_version 0 contract C () ", "procedure T () end ", "", "", ""),
        c!("transition parameters", Contract, 6000, "scilla_version 0 contract C () transition T (", "a : Uint32, ", "b : Bool", "", ") end"),
        c!("statements", Contract, 6000, "scilla_version 0 contract C () transition T () ", "x = y; ", "x = y", "", " end"),
        c!("address fields", Contract, 5000, "scilla_version 0 contract C (a : ByStr20 with contract ", "field a : Uint32, ", "field b : Uint32", "", " end)"),
        c!("address types", Contract, 2500, "scilla_version 0 contract C (", "a : ByStr20 with contract field b : Bool end, ", "b : Bool", "", ")"),
        c!("type arguments", Contract, 12000, "scilla_version 0 contract C (a : Foo ", "Uint32 ", "", "", ")"),
        c!("imports", Contract, 6000, "scilla_version 0 import ", "L as M ", "", "", "contract C ()"),
        c!("library definitions", Contract, 5000, "scilla_version 0 library L ", "let x = y ", "", "", "contract C ()"),
        c!("type alternatives", Contract, 5000, "scilla_version 0 library L type T = ", "| A of B ", "", "", "contract C ()"),
        c!("message entries", Contract, 5000, "scilla_version 0 contract C () field f : T = { ", "a : b; ", "a : b", "", " }"),
        c!("builtin arguments", Contract, 12000, "scilla_version 0 contract C () field f : T = builtin add ", "x ", "", "", ""),
        c!("pattern clauses", Contract, 5000, "scilla_version 0 contract C () field f : T = match x with ", "| A => x ", "", "", "end"),
        c!("statement pattern clauses", Contract, 5000, "scilla_version 0 contract C () transition T () match x with ", "| A => x = y ", "", "", "end end"),
        c!("map accesses", Contract, 5000, "scilla_version 0 contract C () transition T () m", "[a]", "", "", " := b end"),
        c!("pattern arguments", Contract, 9000, "scilla_version 0 contract C () field f : T = match x with | A ", "b ", "", "", " => x end"),
        c!("map types", Contract, 2500, "scilla_version 0 contract C (", "a : Map ByStr20 (Map Uint32 (Option Foo)), ", "b : Bool", "", ")"),
        c!("byte string types", Contract, 6000, "scilla_version 0 contract C (", "a : ByStr32, ", "b : Bool", "", ")"),
        c!("qualified types", Contract, 4000, "scilla_version 0 contract C (", "a : Lib.T, ", "b : Bool", "", ")"),
        // Nested, from text.
        c!("nested options", Contract, 1500, "scilla_version 0 contract C (a : ", "Option (", "Uint32", ")", ")"),
        c!("nested parentheses", Contract, 1500, "scilla_version 0 contract C (a : ", "(", "Uint32", ")", ")"),
        c!("nested maps", Contract, 1500, "scilla_version 0 contract C (a : ", "Map Uint32 (", "Uint32", ")", ")"),
        c!("chained maps", Contract, 1500, "scilla_version 0 contract C (a : ", "Map Uint32 ", "Uint32", "", ")"),
        c!("nested addresses", Contract, 600, "scilla_version 0 contract C (a : ", "ByStr20 with contract field a : ", "Uint32", " end", ")"),
        c!("nested pairs", Contract, 1500, "scilla_version 0 contract C (a : ", "Pair Uint32 (", "Uint32", ")", ")"),
        c!("nested lets", Contract, 1500, "scilla_version 0 contract C () field f : T = ", "let x = y in ", "y", "", ""),
        c!("nested functions", Contract, 1000, "scilla_version 0 contract C () field f : T = ", "fun (a : Uint32) => ", "y", "", ""),
        c!("nested matches", Contract, 1000, "scilla_version 0 contract C () transition T () ", "match x with | _ => ", "accept", " end", " end"),
        c!("function type (refused)", Contract, 1500, "scilla_version 0 contract C (a : ", "Uint32 -> ", "Uint32", "", ")"),
        // Refused texts.
        c!("refused: nothing but names", Contract, 6000, "", "x ", "", "", ""),
        c!("refused: parameters without end", Contract, 6000, "scilla_version 0 contract C (", "a : Uint32, ", "", "", ""),
        c!("refused: statements without end", Contract, 6000, "scilla_version 0 contract C () transition T () ", "x = y; ", "", "", ""),
        c!("refused: types without end", Contract, 2000, "scilla_version 0 contract C (a : ", "Option (", "", "", ""),
        c!("refused: at the last token", Contract, 5000, "scilla_version 0 contract C () ", "field f : Uint32 = x ", "", "", "$"),
        c!("refused: a parameter that cannot be expressed, last", Contract, 6000, "scilla_version 0 contract C (", "a : Uint32, ", "b : 'A", "", ")"),
        // Long texts of few tokens: layout, long tokens.
        c!("layout: spaces", Contract, 2_000_000, "scilla_version 0 contract C (", " ", "", "", ")"),
        c!("layout: lines", Contract, 2_000_000, "scilla_version 0 contract C (", "\n", "", "", ")"),
        c!("layout: CRLF", Contract, 1_000_000, "scilla_version 0 contract C (", "\r\n", "", "", ")"),
        c!("layout: comments", Contract, 400_000, "scilla_version 0 contract C (", "(* x *)", "", "", ")"),
        c!("layout: one comment", Contract, 2_000_000, "scilla_version 0 contract C ((*", "x\n", "", "", "*))"),
        c!("layout: stars in a comment", Contract, 1_000_000, "scilla_version 0 contract C ((*", "*", "", "", ")*))"),
        c!("layout: comment openers in a comment", Contract, 1_000_000, "scilla_version 0 contract C ((*", "(*", "", "", "*))"),
        c!("a long string", Contract, 1_000_000, "scilla_version 0 contract C () field f : T = \"", "ab", "", "", "\""),
        c!("a long string of escapes", Contract, 500_000, "scilla_version 0 contract C () field f : T = \"", "\\\"", "", "", "\""),
        c!("a long string of non-ASCII text", Contract, 500_000, "scilla_version 0 contract C () field f : T = \"", "\u{e9}\n", "", "", "\""),
        c!("a long name", Contract, 500_000, "scilla_version 0 contract C () field f", "a", "", "", " : T = x"),
        c!("a long contract name", Contract, 500_000, "scilla_version 0 contract C", "a", "", "", " ()"),
        c!("a long type name", Contract, 500_000, "scilla_version 0 contract C (a : T", "a", "", "", ")"),
        c!("a long number", Contract, 500_000, "scilla_version ", "7", "", "", " contract C ()"),
        c!("a long hexadecimal literal", Contract, 500_000, "scilla_version 0 contract C () field f : T = 0x", "aB", "", "", ""),
        c!("refused: an unterminated comment", Contract, 1_000_000, "scilla_version 0 contract C () (*", "x\n", "", "", ""),
        c!("refused: an unterminated string", Contract, 1_000_000, "scilla_version 0 contract C () field f : T = \"", "x\n", "", "", ""),
        c!("padded parameters", Contract, 1500, "scilla_version 0 contract C (", padded("a : Uint32,", 1000, ""), "b : Bool", "", ")"),
        c!("parameters with comments", Contract, 1500, "scilla_version 0 contract C (", COMMENTED, "b : Bool", "", ")"),
        c!("strings in messages", Contract, 800, "scilla_version 0 contract C () field f : T = { ", STRINGS, "a : b", "", " }"),
        // The lexer alone.
        c!("lexer: punctuation", Lex, 150_000, "", "( ) [ ] ; ", "", "", ""),
        c!("lexer: names on lines", Lex, 12_000, "", "x\n", "", "", ""),
        c!("lexer: unknown characters", Lex, 20_000, "", "$", "", "", ""),
        c!("lexer: comment openers", Lex, 1_000_000, "", "(*", "", "", ""),
        c!("lexer: quotes", Lex, 12_000, "", "\"\\\"\" ", "", "", ""),
        c!("lexer: quotes without end", Lex, 100_000, "\"", "\\\"", "", "", ""),
        c!("lexer: minus signs", Lex, 60_000, "", "- ", "", "", ""),
        c!("lexer: arrows", Lex, 60_000, "", "-> => <- := ", "", "", ""),
        c!("lexer: numbers", Lex, 12_000, "", "12 ", "", "", ""),
        c!("lexer: comments and tokens", Lex, 60_000, "", "(* x *) ( \n", "", "", ""),
        c!("lexer: wide layout", Lex, 3000, "", padded("(", 2000, ")"), "", "", ""),
    ];
    // Trees alone, far larger.
    for (name, rule, max, a, o, m, c, z) in [
        ("tree: parameters", "Program", 40_000, "scilla_version 0 contract C (", "a : Uint32, ", "b : Bool", "", ")"),
        ("tree: fields", "Program", 30_000, "scilla_version 0 contract C () ", "field f : Uint32 = x ", "", "", ""),
        ("tree: components", "Program", 40_000, "scilla_version 0 contract C () ", "transition T () end ", "", "", ""),
        ("tree: statements", "StatementBlock", 50_000, "", "x = y; ", "x = y", "", ""),
        ("tree: address fields", "AddressType", 30_000, "ByStr20 with contract ", "field a : Uint32, ", "field b : Uint32", "", " end"),
        ("tree: type arguments", "ScillaType", 80_000, "Foo ", "Uint32 ", "", "", ""),
        ("tree: imports", "ImportDeclarations", 50_000, "import ", "L as M ", "", "", ""),
        ("tree: library definitions", "LibraryDefinition", 40_000, "library L ", "let x = y ", "", "", ""),
        ("tree: type alternatives", "LibraryDefinition", 40_000, "library L type T = ", "| A of B ", "", "", ""),
        ("tree: message entries", "AtomicExpression", 40_000, "{ ", "a : b; ", "a : b", "", " }"),
        ("tree: builtin arguments", "BuiltinArguments", 80_000, "", "x ", "", "", ""),
        ("tree: pattern clauses", "FullExpression", 40_000, "match x with ", "| A => x ", "", "", "end"),
        ("tree: statement pattern clauses", "Statement", 30_000, "match x with ", "| A => x = y ", "", "", "end"),
        ("tree: map accesses", "Statement", 40_000, "m", "[a]", "", "", " := b"),
        ("tree: pattern arguments", "Pattern", 80_000, "A ", "b ", "", "", ""),
        ("tree: constructor arguments", "FullExpression", 80_000, "A ", "b ", "", "", ""),
        ("tree: contract type arguments", "ContractTypeArguments", 80_000, "{ ", "Uint32 ", "", "", "}"),
        ("tree: application arguments", "FullExpression", 80_000, "f ", "b ", "", "", ""),
        ("tree: nested types", "ScillaType", 6000, "", "Option (", "Uint32", ")", ""),
        ("tree: arrows", "ScillaType", 6000, "", "Uint32 -> ", "Uint32", "", ""),
        ("tree: nested lets", "FullExpression", 6000, "", "let x = y in ", "y", "", ""),
        ("tree: nested patterns", "Pattern", 6000, "A ", "(A ", "b", ")", ""),
        ("tree: refused at the end", "Program", 30_000, "scilla_version 0 contract C () ", "field f : Uint32 = x ", "", "", ")"),
        ("tree: cut off", "Program", 40_000, "scilla_version 0 contract C (", "a : Uint32, ", "", "", ""),
    ] {
        v.push(Construct { name, how: Tokens(rule), parts: (a, o, m, c, z), max });
    }
    // Long runs of everything in comments and strings, between tokens, and in front of what is wrong.
    for (i, run) in RUNS.iter().enumerate() {
        for (what, a, z, skip) in [
            ("in a comment", "scilla_version 0 contract C ((* ", " *))", "*)"),
            ("in a string", "scilla_version 0 contract C () field f : T = \"", "\"", "\""),
            ("between tokens", "scilla_version 0 contract C (", ")", ""),
        ] {
            // Elsewhere than in comments and strings these are tokens, which cost far more.
            let tokens = skip.is_empty() && run.chars().any(|c| !c.is_whitespace());
            if !tokens && (skip.is_empty() || !run.contains(skip)) {
                v.push(Construct { name: leak(format!("a run of {:?} {}", run, what)), how: if i % 2 == 0 { Lex } else { Contract }, parts: (a, run, "", "", z), max: 300_000 });
            }
        }
    }
    // Interfaces alone, far larger: the lexer's own memory does not hide theirs.
    let emit: Vec<Construct> = v
        .iter()
        .filter(|p| matches!(p.how, Contract) && p.max < 100_000)
        .map(|p| Construct { name: leak(format!("interface: {}", p.name)), how: Emit, parts: p.parts, max: if deep(p) { p.max * 3 } else { p.max * 8 } })
        .collect();
    v.extend(emit);
    v
}

extern "C" {
    fn mallopt(param: i32, value: i32) -> i32;
}

/// Held by everything that is measured; alone by what has to be measured with nothing else going on.
static GATE: std::sync::RwLock<()> = std::sync::RwLock::new(());

/// Whether repetitions nest.
fn deep(p: &Construct) -> bool {
    !p.parts.3.is_empty() || ["nested", "chained", "arrows", "function", "types without end"].iter().any(|w| p.name.contains(w))
}

struct Nothing;
impl Watch for Nothing {
    fn event(&mut self, _: &'static str, _: bool, _: usize, _: &dyn Shape) -> Act {
        Act::Continue
    }
    fn push(&mut self, _: Pos, _: Pos) {}
    fn pop(&mut self) {}
}

fn padded(before: &str, n: usize, after: &str) -> &'static str {
    let s = format!("{}{}{}", before, " ".repeat(n), after).replace("          ", "         \n");
    Box::leak(s.into_boxed_str())
}
const COMMENTED: &str = "(* a comment of some length, which is repeated together with the parameter that follows it, so that there is much text between few tokens, as in real contracts\n   on several lines * * ( ) \u{e9} \"quoted\" and so on and so forth, until it is long enough to matter *) a : Uint32,\n";
const STRINGS: &str = "a : \"a string of some length, which is repeated together with the entry it stands in; it has \\\"escapes\\\", lines\n and \u{e9}, and goes on and on until it is long enough to matter, which takes some more words\";\n";

fn build(p: &Construct, n: usize) -> String {
    let (a, o, m, c, z) = p.parts;
    format!("{}{}{}{}{}", a, o.repeat(n), m, c.repeat(n), z)
}

/// (bytes allocated, CPU microseconds, answer)
fn measure(p: &Construct, text: &str) -> (u64, u64, bool) {
    match p.how {
        How::Contract => {
            let (b, t) = (allocated(), cpu_us());
            let r = Contract::from_str(text);
            let ok = r.is_ok();
            drop(r);
            (allocated() - b, cpu_us() - t, ok)
        }
        How::Lex => {
            let (b, t) = (allocated(), cpu_us());
            let r = lex_all(text);
            let ok = r.is_ok();
            drop(r);
            (allocated() - b, cpu_us() - t, ok)
        }
        How::Tokens(rule) => {
            let l = lex(text);
            let v: Vec<Item> = l.toks.iter().map(|t| Ok((to_sp(t.start), to_token(t.t, t.text(text)), to_sp(t.end)))).collect();
            let (b, t) = (allocated(), cpu_us());
            let r = parse_items(rule, Box::new(v.into_iter()));
            let ok = match &r {
                Ok(tree) => tree.walk(&mut Rec(&mut Nothing)).is_ok(),
                Err(_) => false,
            };
            drop(r);
            (allocated() - b, cpu_us() - t, ok)
        }
        How::Emit => {
            let l = lex(text);
            let v: Vec<Item> = l.toks.iter().map(|t| Ok((to_sp(t.start), to_token(t.t, t.text(text)), to_sp(t.end)))).collect();
            let (b, t) = (allocated(), cpu_us());
            let ok = match ProgramParser::new().parse(&mut vec![], v.into_iter()) {
                Ok(p) => SrEmitter::default().emit(&p).is_ok(),
                Err(_) => false,
            };
            (allocated() - b, cpu_us() - t, ok)
        }
    }
}

pub fn blocks(ctx: &Ctx) -> u64 {
    constructs().len() as u64 * if ctx.thorough { 2 } else { 1 }
}

pub fn c19(_: &Ctx, id: u64, st: &mut Stats) -> R {
    // What is freed is kept for the next measurement: no time goes by for getting it from the system again.
    unsafe {
        const TRIM_THRESHOLD: i32 = -1;
        const MMAP_THRESHOLD: i32 = -3;
        mallopt(TRIM_THRESHOLD, 1 << 30);
        mallopt(MMAP_THRESHOLD, 1 << 25);
    }
    let measuring = GATE.read().unwrap_or_else(|e| e.into_inner());
    let all = constructs();
    let p = &all[id as usize % all.len()];
    let nested = deep(p);
    let scale = if id as usize >= all.len() && !nested { 3 } else { 1 };
    // Small sizes first: what grows exponentially never gets to the large ones.
    let small = [1usize, 2, 4, 8, 16, 24, 32, 48, 64];
    let mut last = 0;
    for n in small {
        let t = build(p, n.min(p.max));
        let (b, _, _) = guard(&t, p.name, || measure(p, &t))?;
        st.eval();
        if last > 200_000 && b > 8 * last {
            fail!(clip(&t, 400), "{}: {} bytes allocated for {} repetitions, {} before", p.name, b, n, last);
        }
        last = b;
    }
        // As large as some seconds allow, by what a moderate size takes.
    let some = (p.max / 16).clamp(1, 1500);
    let t = build(p, some);
    let mut c = u64::MAX;
    for _ in 0..2 {
        c = c.min(guard(&t, p.name, || measure(p, &t))?.1.max(1));
    }
    let room = if scale > 1 { 6_000_000 } else { 1_000_000 };
    let max = (p.max * scale).min(((room as f64 / c as f64) * some as f64) as usize).max(p.max.min(800)) & !15;
    let sizes: Vec<usize> = (0..5).rev().map(|k| max >> k).collect();
    let texts: Vec<String> = sizes.iter().map(|n| build(p, *n)).collect();
    let first = clip(&texts[0], 400);
    let mut bytes = vec![];
    let mut cpu = vec![];
    for t in &texts {
        let (b, c, _) = guard(&first, p.name, || measure(p, t))?;
        st.eval();
        st.hit("measurements");
        bytes.push(b);
        cpu.push(c.max(1));
        st.max("largest text measured", t.len() as u64);
        st.max("largest number of bytes allocated", b);
    }
    st.distinct(format!("{} {}", p.name, scale).as_bytes());
    if std::env::var_os("HARNESS_SHOW").is_some() {
        eprintln!("{} {}: {:?} repetitions, {:?} bytes, {:?} us", id, p.name, sizes, bytes, cpu);
    }
    st.sample(|| format!("{}: {:?} repetitions, {:?} bytes, {:?} us", p.name, sizes, bytes, cpu));
    // Memory: exact, up to what doubling buffers make of it.
    for k in 1..5 {
        if bytes[k] > 100_000 && bytes[k] as f64 > 2.9 * bytes[k - 1] as f64 {
            fail!(first, "{}: {:?} repetitions allocate {:?} bytes", p.name, sizes, bytes);
        }
    }
    if bytes[4] > 400_000 && bytes[4] as f64 > 24.0 * bytes[0] as f64 {
        fail!(first, "{}: {:?} repetitions allocate {:?} bytes", p.name, sizes, bytes);
    }
    // CPU time: only suspected here, as it depends on caches and on what else runs.
    if cpu[4] > 30_000 && cpu[4] as f64 > 2.5 * cpu[3] as f64 {
        st.hit("suspicious times measured again, at larger sizes");
        drop(measuring);
        // Alone: nothing else is measured meanwhile.
        let alone = GATE.write().unwrap_or_else(|e| e.into_inner());
        let sizes: Vec<usize> = if nested { vec![max / 4, max, max * 4] } else { vec![max / 4, max, max * 4, max * 12] };
        let mut best = vec![u64::MAX; sizes.len()];
        for round in 0..4 {
            for k in 0..sizes.len() {
                let t = build(p, sizes[k]);
                let (_, c, _) = guard(&first, p.name, || measure(p, &t))?;
                best[k] = best[k].min(c.max(1));
                // Linear: 4 and 16 times as much, or somewhat more where caches end. With a quadratic part that is
                // half of it at the size where it was suspected: 10 and 64 times as much.
                if k == 2 && ((best[2] as f64) < 8.5 * best[1] as f64 || (best[2] as f64) < 54.0 * best[0] as f64) {
                    return Ok(());
                }
                // Three times as large again: 3 times as much if linear, more than 7 times as much otherwise.
                if k == 3 && (best[3] as f64) < 5.5 * best[2] as f64 {
                    return Ok(());
                }
            }
            if std::env::var_os("HARNESS_SHOW").is_some() {
                eprintln!("{} {}: {:?} repetitions, {:?} us at best", id, p.name, sizes, best);
            }
            std::thread::sleep(std::time::Duration::from_millis(200 * (round + 1)));
        }
        drop(alone);
        fail!(first, "{}: {:?} repetitions take {:?} us of CPU time, measured four times", p.name, sizes, best);
    }
    Ok(())
}
