//! Workloads to be run in a build with a sanitizer: every entry point, in many threads that share all that can be
//! shared and never wait for each other, so that nothing orders their accesses but the code under test.

use super::pure::{emitted, fed, program_of, PROBES, REFUSED};
use super::source::*;
use crate::compose::Fill;
use crate::core::*;
use crate::model::result_text;
use crate::real::{parse_text, to_sp, to_token};
use oracle::layout::{any_mode, layout, Mode};
use oracle::lexref::lex;
use oracle::rng::{hash_bytes, Rng};
use scilla_parser::ast::nodes::NodeProgram;
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::{Contract, Error};
use std::collections::HashMap;
use std::path::PathBuf;
use std::str::FromStr;
use std::time::{Duration, Instant};

struct Shared {
    texts: Vec<(String, &'static str)>,
    /// Those short enough to be read by the lexer, which is slow, and slower here.
    short: Vec<usize>,
    files: Vec<PathBuf>,
    trees: Vec<NodeProgram>,
    contracts: Vec<Contract>,
    parser: ProgramParser,
}

/// One thing done with what is shared; what it is, and what is seen.
fn step(s: &Shared, r: &mut Rng) -> Option<((u8, usize), String)> {
    Some(match r.below(16) {
        0 | 1 => {
            let i = *r.pick(&s.short);
            ((0, i), result_text(&Contract::from_str(&s.texts[i].0)))
        }
        2 => {
            let i = r.below(s.files.len());
            ((1, i), result_text(&Contract::parse(&s.files[i])))
        }
        3..=5 => {
            let i = *r.pick(&s.short);
            let (t, p) = &s.texts[i];
            let seen = match parse_text(p, t) {
                Ok(p) => p.debug(),
                Err(e) => format!("{:?}", e),
            };
            ((2, i), seen)
        }
        6..=9 => {
            let i = r.below(s.texts.len());
            let seen = match program_of(fed(&s.texts[i].0).into_iter()) {
                Ok(p) => emitted(&p),
                Err(e) => e,
            };
            ((3, i), seen)
        }
        10 | 11 => {
            let i = r.below(s.texts.len());
            let items: Vec<_> = lex(&s.texts[i].0).toks.iter().map(|t| Ok((to_sp(t.start), to_token(t.t, t.text(&s.texts[i].0)), to_sp(t.end)))).collect();
            let mut errors = vec![];
            let seen = match s.parser.parse(&mut errors, items) {
                Ok(p) => format!("{:?}", p),
                // As a caller of Contract::from_str gets it
                Err(e) => format!("{}", Error::from(e)),
            };
            ((4, i), seen)
        }
        12..=14 => {
            let i = r.below(s.trees.len());
            ((5, i), emitted(&s.trees[i]))
        }
        _ => {
            let i = r.below(s.contracts.len());
            let c = &s.contracts[i];
            let types: Vec<String> = c.init_params.iter().chain(c.fields.iter()).chain(c.transitions.iter().flat_map(|t| t.params.iter())).map(|f| f.r#type.to_string()).collect();
            ((6, i), types.join(" "))
        }
    })
}

/// Runs the workload; 0 if all threads saw the same.
pub fn main(seed: u64, secs: u64, threads: u64) -> i32 {
    let ctx = Ctx::load(seed, false);
    let mut r = ctx.rng("races", 0);
    let r = &mut r;
    let mut texts: Vec<(String, &'static str)> = PROBES.iter().chain(REFUSED).map(|s| (s.to_string(), "Program")).collect();
    for _ in 0..30 {
        texts.push((layout(&program(&ctx, r, Fill::Small).toks, any_mode(r), r).text, "Program"));
    }
    for _ in 0..60 {
        let rule = any_rule(&ctx, r);
        let s = sentence(&ctx, r, Some(rule), 60);
        texts.push((layout(&s.toks, Mode::Plain, r).text, ctx.g.rules[rule].name));
    }
    let mut s = Shared {
        short: (0..texts.len()).filter(|i| lex(&texts[*i].0).toks.len() <= 25).collect(),
        files: ctx.corpus.iter().take(2).map(|c| PathBuf::from("/repo/tests/contracts").join(&c.name)).collect(),
        trees: vec![],
        contracts: vec![],
        parser: ProgramParser::new(),
        texts,
    };
    for t in ctx.corpus.iter().map(|c| &c.text).chain(s.texts.iter().map(|t| &t.0)) {
        if let Ok(p) = program_of(fed(t).into_iter()) {
            if let Ok(c) = scilla_parser::simplified_representation::emitter::SrEmitter::default().emit(&p) {
                s.contracts.push(c);
            }
            s.trees.push(p);
        }
    }
    let end = Instant::now() + Duration::from_secs(secs);
    let (s, mut seen, mut steps) = (&s, HashMap::<(u8, usize), u64>::new(), 0);
    let mut bad = 0;
    std::thread::scope(|scope| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let mut r = Rng::new(r.next());
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let (mut own, mut n) = (Vec::new(), 0u64);
                        while Instant::now() < end {
                            if let Some((what, got)) = step(s, &mut r) {
                                own.push((what, hash_bytes(got.as_bytes())));
                                n += 1;
                            }
                        }
                        (own, n)
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok((own, n)) => {
                    steps += n;
                    for (what, hash) in own {
                        if *seen.entry(what).or_insert(hash) != hash {
                            bad = 3;
                            println!("mismatch: {:?} is seen differently by different threads: {}", what, s.texts.get(what.1).map_or("", |t| &t.0));
                        }
                    }
                }
                Err(_) => {
                    bad = 4;
                    println!("panic: {}", last_panic());
                }
            }
        }
    });
    println!("steps={} things={} threads={}", steps, seen.len(), threads);
    bad
}

/// Runs the build with this sanitizer, if there is one.
pub fn sanitized(ctx: &Ctx, kind: &str, threads: u64, secs: u64, st: &mut Stats) -> R {
    let bin = ctx.verif.join("target").join(kind).join("x86_64-unknown-linux-gnu/debug/harness");
    let run = |args: &[&str], secs: u64| {
        std::process::Command::new("timeout")
            .args(["-k", "5", &secs.to_string()])
            .arg(&bin)
            .args(args)
            .env("TSAN_OPTIONS", "halt_on_error=1 exitcode=66 history_size=5 detect_deadlocks=0 report_signal_unsafe=0")
            .env("ASAN_OPTIONS", "halt_on_error=1 exitcode=66 detect_leaks=0 detect_stack_use_after_return=0")
            .stdin(std::process::Stdio::null())
            .output()
    };
    // A build that is missing, or cannot run here, observes nothing.
    if !matches!(run(&["races", "1", "0", "1"], 60), Ok(o) if o.status.success()) {
        st.hit("sanitizer builds that cannot run here");
        return Ok(());
    }
    let Ok(out) = run(&["races", &ctx.seed.to_string(), &secs.to_string(), &threads.to_string()], secs * 4 + 60) else { return Ok(()) };
    let (o, e) = (String::from_utf8_lossy(&out.stdout).into_owned(), String::from_utf8_lossy(&out.stderr).into_owned());
    if let Some(at) = e.find("WARNING: ThreadSanitizer").or(e.find("ERROR: AddressSanitizer")) {
        fail!("texts parsed by several threads that share nothing but the library", "{}", clip(&e[at..], 3000));
    }
    match out.status.code() {
        Some(0) => {
            let n = |k: &str| o.split_whitespace().find_map(|w| w.strip_prefix(k)).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
            st.add("evaluations", n("steps="));
            st.add(if kind == "thread" { "steps of threads watched for data races" } else { "steps watched for memory errors" }, n("steps="));
        }
        Some(3) | Some(4) => fail!("texts parsed by several threads that share nothing but the library", "{}", clip(&o, 2000)),
        _ => st.hit("runs with a sanitizer that gave no answer"),
    }
    Ok(())
}

/// What C01 does once: the workload in one thread, watched for memory errors, then the deep nests.
pub fn memory(ctx: &Ctx, st: &mut Stats) -> R {
    if ctx.thorough {
        sanitized(ctx, "address", 1, 120, st)?;
    }
    super::robust::deep(ctx, st)
}

pub fn threads(ctx: &Ctx, st: &mut Stats) -> R {
    sanitized(ctx, "thread", 8, if ctx.thorough { 120 } else { 15 }, st)
}
