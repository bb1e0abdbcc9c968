//! Runs the monitors: `harness run <property>`, `harness replay <file>`.

#[macro_use]
mod core;
mod compose;
mod model;
mod props;
mod real;
mod rec;
mod shape;

use crate::core::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: Counting = Counting;

const STACK: usize = 512 << 20;

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn find(id: &str) -> &'static Prop {
    props::all().iter().find(|p| p.id == id).unwrap_or_else(|| die(&format!("no property {}", id)))
}
fn die(m: &str) -> ! {
    eprintln!("harness error: {}", m);
    std::process::exit(2)
}

/// Runs a function on a thread with a large stack.
fn big<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    match std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join() {
        Ok(v) => v,
        Err(_) => die(&format!("panic in the harness: {}", last_panic())),
    }
}

/// One case; a panic outside of guarded code is an error of the harness.
fn one(p: &Prop, ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    st.cur = id;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(ctx, id, st))) {
        Ok(r) => r,
        Err(_) => die(&format!("case {} of {} (seed {}): {}", id, p.id, ctx.seed, last_panic())),
    }
}

struct WorkerArgs {
    prop: &'static Prop,
    seed: u64,
    thorough: bool,
    from: u64,
    step: u64,
    cases: u64,
    secs: u64,
    out: PathBuf,
    progress: PathBuf,
}

fn worker(a: WorkerArgs) {
    let ctx = Ctx::load(a.seed, a.thorough);
    let start = Instant::now();
    let f = std::fs::File::create(&a.progress).unwrap();
    let mut st = Stats::default();
    let blocks = (a.prop.blocks)(&ctx);
    let mut id = a.from;
    let mut v: Option<(u64, Viol)> = None;
    while id < blocks + a.cases {
        let t = start.elapsed().as_secs();
        if (id >= blocks && t >= a.secs) || t >= a.secs.max(480) {
            break;
        }
        f.write_at(&id.to_le_bytes(), 0).unwrap();
        if id < blocks {
            st.hit("systematic cases");
        } else {
            st.hit("random cases");
        }
        if let Err(e) = one(a.prop, &ctx, id, &mut st) {
            v = Some((id, e));
            break;
        }
        id += a.step;
    }
    if id < blocks && v.is_none() {
        st.add("systematic cases left out", (blocks - id) / a.step + 1);
    }
    let mut w = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    for (k, n) in &st.counts {
        writeln!(w, "C\t{}\t{}", n, k).unwrap();
    }
    for (k, s) in &st.sets {
        for x in s {
            writeln!(w, "H\t{:x}\t{}", x, k).unwrap();
        }
    }
    for s in &st.samples {
        writeln!(w, "S\t{}", esc(s)).unwrap();
    }
    if let Some((id, e)) = v {
        writeln!(w, "V\t{}\t{}\t{}", id, esc(&e.what), esc(&clip(&e.input, 200_000))).unwrap();
    }
    writeln!(w, "E").unwrap();
    w.flush().unwrap();
}

fn self_cmd(limit: &str) -> Command {
    let mut c = Command::new("sh");
    c.arg("-c").arg(format!("{}; exec \"$0\" \"$@\"", limit)).arg(std::env::current_exe().unwrap());
    c
}

struct Slot {
    child: Option<Child>,
    from: u64,
    last: u64,
    since: Instant,
    restarts: u32,
}

#[derive(Default)]
struct Merged {
    counts: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    samples: Vec<String>,
    viols: Vec<(u64, String, String)>,
}

fn merge(m: &mut Merged, out: &Path) -> bool {
    let Ok(s) = std::fs::read_to_string(out) else { return false };
    if !s.ends_with("E\n") {
        return false;
    }
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "C" => {
                let n: u64 = f[1].parse().unwrap();
                let c = m.counts.entry(f[2].into()).or_insert(0);
                *c = if f[2].starts_with("largest") { (*c).max(n) } else { *c + n };
            }
            "H" => {
                m.sets.entry(f[2].into()).or_default().insert(u64::from_str_radix(f[1], 16).unwrap());
            }
            "S" => m.samples.push(unesc(f[1])),
            "V" => m.viols.push((f[1].parse().unwrap(), unesc(f[2]), unesc(f[3]))),
            _ => {}
        }
    }
    let _ = std::fs::remove_file(out);
    true
}

fn tier_name(thorough: bool) -> &'static str {
    if thorough {
        "thorough"
    } else {
        "quick"
    }
}

fn run(prop: &'static Prop, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let ctx = Ctx::load(seed, thorough);
    let (cases, secs) = if thorough { prop.thorough } else { prop.quick };
    let cases: u64 = std::env::var("HARNESS_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(cases);
    let secs: u64 = std::env::var("HARNESS_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(secs);
    let outdir = ctx.verif.join("out");
    std::fs::create_dir_all(&outdir).unwrap();
    let tmp = outdir.join(format!("run-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let n = 8u64;
    let mut m = Merged::default();

    if let Some(once) = prop.once {
        let mut st = Stats::default();
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| once(&ctx, &mut st))) {
            Ok(r) => r,
            Err(_) => die(&format!("{}: {}", prop.id, last_panic())),
        };
        if let Err(v) = r {
            m.viols.push((u64::MAX, v.what, v.input));
        }
        m.counts = st.counts;
        m.sets = st.sets;
        m.samples = st.samples;
    }

    let spawn = |w: u64, from: u64, secs: u64| -> Child {
        self_cmd("ulimit -v 12000000")
            .arg("worker")
            .args([prop.id, &seed.to_string(), tier_name(thorough), &from.to_string(), &n.to_string(), &cases.to_string(), &secs.to_string()])
            .arg(tmp.join(format!("{}.out", w)))
            .arg(tmp.join(format!("{}.at", w)))
            .stdin(Stdio::null())
            .spawn()
            .unwrap()
    };
    let mut slots: Vec<Slot> = (0..n)
        .map(|w| Slot { child: if m.viols.is_empty() { Some(spawn(w, w, secs)) } else { None }, from: w, last: u64::MAX, since: Instant::now(), restarts: 0 })
        .collect();
    let mut error: Option<String> = None;
    let mut unconfirmed = 0u64;
    while slots.iter().any(|s| s.child.is_some()) {
        std::thread::sleep(Duration::from_millis(30));
        for w in 0..n {
            let s = &mut slots[w as usize];
            let Some(c) = s.child.as_mut() else { continue };
            let at = tmp.join(format!("{}.at", w));
            let cur = std::fs::read(&at).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(s.from);
            if cur != s.last {
                s.last = cur;
                s.since = Instant::now();
            }
            let mut suspect: Option<(u64, String)> = None;
            match c.try_wait().unwrap() {
                Some(st) if st.success() => {
                    if !merge(&mut m, &tmp.join(format!("{}.out", w))) {
                        error = Some(format!("worker {} left no result", w));
                    }
                    s.child = None;
                }
                Some(st) => match st.signal() {
                    Some(sig) => suspect = Some((cur, format!("the process ends with signal {}", sig))),
                    None => {
                        error = Some(format!("worker {} exits with {:?}", w, st.code()));
                        s.child = None;
                    }
                },
                None if s.since.elapsed() > Duration::from_secs(60) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    suspect = Some((cur, "no answer".into()));
                }
                None => {}
            }
            if let Some((id, why)) = suspect {
                s.child = None;
                match confirm(prop.id, seed, thorough, id) {
                    Some(how) => m.viols.push((id, format!("{} ({})", how, why), describe(prop.id, seed, thorough, id))),
                    None => {
                        unconfirmed += 1;
                        s.restarts += 1;
                        if s.restarts > 3 {
                            error = Some(format!("worker {} keeps ending: {}", w, why));
                        } else {
                            s.from = id + n;
                            s.last = u64::MAX;
                            s.since = Instant::now();
                            s.child = Some(spawn(w, id + n, secs.saturating_sub(t0.elapsed().as_secs())));
                        }
                    }
                }
            }
        }
        if !m.viols.is_empty() || error.is_some() {
            for s in &mut slots {
                if let Some(c) = s.child.as_mut() {
                    let _ = c.kill();
                    let _ = c.wait();
                    s.child = None;
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    if unconfirmed > 0 {
        m.counts.insert("worker endings that did not happen again".into(), unconfirmed);
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(prop, &ctx, &m, wall);
    if let Some((id, what, input)) = m.viols.iter().min_by_key(|v| v.0) {
        let path = outdir.join(format!("{}-seed{}-case{}.replay", prop.id, seed, id));
        let body = format!("property={}\nseed={}\ntier={}\ncase={}\nwhat={}\ninput={}\n", prop.id, seed, tier_name(thorough), id, esc(what), esc(input));
        std::fs::write(&path, body).unwrap();
        println!("{}: {}", prop.id, clip(what, 2000));
        println!("input: {}", clip(input, 2000));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    if let Some(e) = error {
        eprintln!("harness error: {}", e);
        return 2;
    }
    let ev = m.counts.get("evaluations").copied().unwrap_or(0);
    let di = m.sets.get("distinct").map_or(0, |s| s.len());
    if ev == 0 || di == 0 {
        eprintln!("harness error: nothing was observed");
        return 2;
    }
    println!("{}: held on {} evaluations, {} distinct non-trivial cases, {:.0} s ({} tier, seed {})", prop.id, ev, di, wall, tier_name(thorough), seed);
    0
}

/// Runs one case alone; tells how it ends if that is not an answer.
fn confirm(id: &str, seed: u64, thorough: bool, case: u64) -> Option<String> {
    let mut c = self_cmd("ulimit -v 12000000; ulimit -t 90")
        .arg("case")
        .args([id, &seed.to_string(), tier_name(thorough), &case.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return match (st.code(), st.signal()) {
                (Some(1), _) => Some("violation".into()),
                (_, Some(24)) | (_, Some(9)) if t.elapsed().as_secs() > 60 => Some("does not terminate: more than 90 s of CPU time".into()),
                (_, Some(9)) => None,
                (_, Some(s)) => Some(format!("the process is ended by signal {}", s)),
                _ => None,
            };
        }
        if t.elapsed() > Duration::from_secs(200) {
            let _ = c.kill();
            let _ = c.wait();
            return Some("no answer within 200 s, run alone".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn describe(id: &str, seed: u64, thorough: bool, case: u64) -> String {
    format!("case {} of {}: harness case {} {} {} {}", case, id, id, seed, tier_name(thorough), case)
}

fn evidence(p: &Prop, ctx: &Ctx, m: &Merged, wall: f64) {
    let mut o = String::new();
    let get = |k: &str| m.counts.get(k).copied().unwrap_or(0);
    o.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        json(p.id),
        json(tier_name(ctx.thorough)),
        ctx.seed,
        json(p.level),
        get("evaluations"),
        m.sets.get("distinct").map_or(0, |s| s.len()),
        json(p.rule)
    ));
    for (k, s) in &m.sets {
        if k != "distinct" {
            o.push_str(&format!("  {}: {},\n", json(&format!("distinct {}", k)), s.len()));
        }
    }
    for (k, n) in &m.counts {
        if k != "evaluations" {
            o.push_str(&format!("  {}: {},\n", json(k), n));
        }
    }
    let s: Vec<String> = m.samples.iter().take(4).map(|s| json(s)).collect();
    o.push_str(&format!("  \"samples\": [{}]\n }},\n", s.join(", ")));
    o.push_str(" \"assumptions\": [\"The reference grammar, lexical rules and type model in /verif/oracle state what is documented\"],\n");
    o.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, m.viols.len()));
    let dir = ctx.verif.join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{}.json", p.id)), o).unwrap();
}

fn run_case(p: &'static Prop, seed: u64, thorough: bool, id: u64, quiet: bool) -> i32 {
    big(move || {
        let ctx = Ctx::load(seed, thorough);
        let mut st = Stats::default();
        let t = Instant::now();
        let r = if id == u64::MAX { (p.once.unwrap())(&ctx, &mut st) } else { one(p, &ctx, id, &mut st) };
        match r {
            Ok(()) => {
                if !quiet {
                    println!("case {}: held, {:?} {:?}", id, st.counts, t.elapsed());
                }
                0
            }
            Err(v) => {
                println!("{}\ninput: {}", v.what, v.input);
                1
            }
        }
    })
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or_else(|| die("missing argument"));
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or_else(|_| die("bad number"));
    let code = match arg(1) {
        "run" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = a.get(3).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let p = find(arg(2));
            let th = tier == "thorough";
            big(move || run(p, seed, th))
        }
        "worker" => {
            let w = WorkerArgs {
                prop: find(arg(2)),
                seed: num(3),
                thorough: arg(4) == "thorough",
                from: num(5),
                step: num(6),
                cases: num(7),
                secs: num(8),
                out: arg(9).into(),
                progress: arg(10).into(),
            };
            big(move || worker(w));
            0
        }
        "case" => run_case(find(arg(2)), num(3), arg(4) == "thorough", num(5), false),
        "replay" => {
            let s = std::fs::read_to_string(arg(2)).unwrap_or_else(|e| die(&e.to_string()));
            let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).map(unesc).unwrap_or_else(|| die("bad replay file"));
            println!("recorded: {}", get("what"));
            let p = find(&get("property"));
            let c = run_case(p, get("seed").parse().unwrap(), get("tier") == "thorough", get("case").parse().unwrap(), false);
            if c == 1 {
                println!("VIOLATION property={} replay={}", p.id, arg(2));
            }
            c
        }
        "races" => props::races::main(num(2), num(3), num(4)),
        "oneshot" => props::oneshot(arg(2)),
        _ => die("usage: harness run PROPERTY [quick|thorough] | replay FILE | case PROPERTY SEED TIER ID"),
    };
    std::process::exit(code)
}
