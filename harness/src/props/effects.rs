//! C21: parsing leaves nothing behind. System calls are watched by a filter in the kernel (seccomp), memory by the
//! counting allocator.

use super::pure::{a_text, program_of, OPEN, PROBES, REFUSED};
use super::robust::{hostile, REPEATED};
use super::source::*;
use crate::core::*;
use crate::real::{lex_all, parse_items, parse_text, to_sp, to_token, NAMES};
use crate::rec::{Act, Rec, Watch};
use crate::shape::Shape;
use oracle::lexref::lex;
use oracle::rng::{hash_bytes, Rng};
use oracle::tree::Pos;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::{Contract, Type};
use std::io::Write;
use std::path::Path;
use std::str::FromStr;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::sync::Once;

// ---------------------------------------------------------------- system calls

#[repr(C)]
#[derive(Clone, Copy)]
struct Bpf {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct Prog {
    len: u16,
    filter: *const Bpf,
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
}

/// The last call that was refused, and how many were.
static REFUSED_CALL: AtomicI64 = AtomicI64::new(-1);
/// Whether the filter works here.
static WORKS: AtomicBool = AtomicBool::new(false);
static TRY: Once = Once::new();

extern "C" fn refused(_sig: i32, info: *const u8, context: *mut u8) {
    // SAFETY: siginfo_t and ucontext_t of x86_64 Linux: the number of the call, and the register with its result.
    unsafe {
        let nr = *(info.add(24) as *const i32);
        if *(info.add(4) as *const i32) == SPIED as i32 {
            return spied(nr as i64, context);
        }
        if nr == 257 {
            // The C library looks there when it gives memory back, and regex when it is used for the first time.
            let path = *(context.add(40 + 9 * 8) as *const *const std::ffi::c_char);
            if std::ffi::CStr::from_ptr(path).to_bytes().starts_with(b"/proc/") {
                *(context.add(40 + 13 * 8) as *mut i64) = -1;
                return;
            }
        }
        REFUSED_CALL.store(nr as i64, SeqCst);
        *(context.add(40 + 13 * 8) as *mut i64) = -1;
    }
}

/// What memory, threads that end, and hash maps need. Nothing that can be seen from outside.
const QUIET: &[u32] = &[
    9, 10, 11, 12, 25, 28, // mmap mprotect munmap brk mremap madvise
    14, 15, 131, // rt_sigprocmask rt_sigreturn sigaltstack
    24, 39, 186, 202, // sched_yield getpid gettid futex
    60, 96, 98, 228, 318, // exit gettimeofday getrusage clock_gettime getrandom
    273, 334, 324, // set_robust_list rseq membarrier
    204, 157, // sched_getaffinity prctl
];
/// What reading a file needs.
const READS: &[u32] = &[0, 3, 4, 5, 6, 8, 17, 19, 21, 72, 79, 89, 221, 262, 267, 332, 439, 16];

fn filter(files: bool) -> Vec<Bpf> {
    const LD: u16 = 0x20;
    const JEQ: u16 = 0x15;
    const JSET: u16 = 0x45;
    const RET: u16 = 0x06;
    const ALLOW: u32 = 0x7fff_0000;
    const TRAP: u32 = 0x0003_0000;
    let op = |code, jt, jf, k| Bpf { code, jt, jf, k };
    let mut v = vec![op(LD, 0, 0, 0)];
    let all: Vec<u32> = QUIET.iter().chain(if files { READS } else { &[] }).copied().collect();
    for nr in all {
        v.push(op(JEQ, 0, 1, nr));
        v.push(op(RET, 0, 0, ALLOW));
    }
    if files {
        // openat, unless for writing, creating or truncating
        v.push(op(JEQ, 0, 4, 257));
        v.push(op(LD, 0, 0, 16 + 2 * 8));
        v.push(op(JSET, 1, 0, 0o1 | 0o2 | 0o100 | 0o1000 | 0o2000));
        v.push(op(RET, 0, 0, ALLOW));
        v.push(op(RET, 0, 0, TRAP));
    }
    v.push(op(RET, 0, 0, TRAP));
    v
}

/// From here on, this thread is refused all other calls; they are noted.
fn confine(files: bool) -> bool {
    let f = filter(files);
    let p = Prog { len: f.len() as u16, filter: f.as_ptr() };
    // SAFETY: PR_SET_NO_NEW_PRIVS, then PR_SET_SECCOMP with a filter that outlives the call.
    unsafe { prctl(38, 1, 0, 0, 0) == 0 && prctl(22, 2, &p as *const Prog as u64, 0, 0) == 0 }
}

// ---------------------------------------------------------------- paths looked at

/// What the filter says of a call that is to be noted and then made.
const SPIED: u32 = 1;
/// The sixth argument of a call the handler makes itself.
const MINE: u32 = 0x5c11_1a5e;
/// Calls with a path in their first argument, and in their second.
const PATH_FIRST: &[u32] = &[2, 4, 6, 21, 89, 59, 85];
const PATH_SECOND: &[u32] = &[257, 262, 332, 267, 269, 439, 437];

/// Those that open what is there.
const OPENS: &[u32] = &[2, 85, 257, 437];
/// What stands before a path noted.
const LOOKED: u8 = 1;
const OPENED: u8 = 2;

const NOTES: usize = 1 << 16;
struct Notes(std::cell::UnsafeCell<[u8; NOTES]>);
// SAFETY: written by the handler at places it has reserved, read when the threads watched have ended.
unsafe impl Sync for Notes {}
static NOTED: Notes = Notes(std::cell::UnsafeCell::new([0; NOTES]));
static NOTED_LEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Notes the path of the call, and makes the call.
unsafe fn spied(nr: i64, context: *mut u8) {
    let reg = |k: usize| *(context.add(40 + k * 8) as *const u64);
    let (rdi, rsi, rdx, r10, r8) = (reg(8), reg(9), reg(12), reg(2), reg(0));
    let path = if PATH_FIRST.contains(&(nr as u32)) { rdi } else { rsi } as *const std::ffi::c_char;
    let mut note: *mut u8 = std::ptr::null_mut();
    if !path.is_null() {
        let b = std::ffi::CStr::from_ptr(path).to_bytes_with_nul();
        if b.len() > 1 {
            let at = NOTED_LEN.fetch_add(b.len() + 1, SeqCst);
            if at + b.len() < NOTES {
                note = (NOTED.0.get() as *mut u8).add(at);
                *note = LOOKED;
                std::ptr::copy_nonoverlapping(b.as_ptr(), note.add(1), b.len());
            }
        }
    }
    let mut ret = nr;
    #[cfg(target_arch = "x86_64")]
    std::arch::asm!("syscall", inlateout("rax") ret, in("rdi") rdi, in("rsi") rsi, in("rdx") rdx, in("r10") r10, in("r8") r8, in("r9") MINE as u64, lateout("rcx") _, lateout("r11") _);
    if ret >= 0 && OPENS.contains(&(nr as u32)) && !note.is_null() {
        *note = OPENED;
    }
    *(context.add(40 + 13 * 8) as *mut i64) = ret;
}

fn noting() -> bool {
    let op = |code, jt, jf, k| Bpf { code, jt, jf, k };
    let mut f = vec![op(0x20, 0, 0, 0)];
    for nr in PATH_FIRST.iter().chain(PATH_SECOND) {
        // Unless the handler makes it
        f.push(op(0x15, 0, 4, *nr));
        f.push(op(0x20, 0, 0, 16 + 5 * 8));
        f.push(op(0x15, 0, 1, MINE));
        f.push(op(0x06, 0, 0, 0x7fff_0000));
        f.push(op(0x06, 0, 0, 0x0003_0000 | SPIED));
    }
    f.push(op(0x06, 0, 0, 0x7fff_0000));
    let p = Prog { len: f.len() as u16, filter: f.as_ptr() };
    // SAFETY: as in confine
    unsafe { prctl(38, 1, 0, 0, 0) == 0 && prctl(22, 2, &p as *const Prog as u64, 0, 0) == 0 }
}

/// Runs something in a thread of its own, and tells which paths it looked at, and whether they were opened; None if that
/// cannot be told here.
pub fn paths_of<T: Send>(f: impl FnOnce() -> T + Send) -> (std::thread::Result<T>, Option<Vec<(Vec<u8>, bool)>>) {
    let able = works();
    NOTED_LEN.store(0, SeqCst);
    let on = AtomicBool::new(false);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || {
                on.store(able && noting(), SeqCst);
                f()
            })
            .unwrap()
            .join()
    });
    if !on.load(SeqCst) {
        return (r, None);
    }
    let n = NOTED_LEN.load(SeqCst);
    // SAFETY: the thread has ended.
    let all = unsafe { &(&*NOTED.0.get())[..n.min(NOTES)] };
    let mut v: Vec<(Vec<u8>, bool)> = all.split(|b| *b == 0).filter(|p| p.len() > 1).map(|p| (p[1..].to_vec(), p[0] == OPENED)).collect();
    v.sort();
    v.dedup();
    (r, Some(v))
}

fn works() -> bool {
    TRY.call_once(|| {
        // What is set up once is not watched.
        for p in PROBES {
            use_text(p, &["Program"]);
        }
        let a = SigAction { handler: refused as usize, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
        // SAFETY: the handler touches only what it is given, and an atomic.
        if unsafe { sigaction(31, &a, std::ptr::null_mut()) } != 0 {
            return;
        }
        let ok = std::thread::spawn(|| {
            if !confine(false) {
                return false;
            }
            let denied = std::fs::read_dir("/").is_err();
            denied && REFUSED_CALL.swap(-1, SeqCst) >= 0
        });
        if cfg!(all(target_os = "linux", target_arch = "x86_64")) && ok.join().unwrap_or(false) {
            WORKS.store(true, SeqCst);
        }
        REFUSED_CALL.store(-1, SeqCst);
    });
    WORKS.load(SeqCst)
}

fn environment() -> u64 {
    let mut v: Vec<_> = std::env::vars_os().collect();
    v.sort();
    hash_bytes(format!("{:?} {:?}", v, std::env::current_dir()).as_bytes())
}

/// Runs something in a thread that may make no other system calls.
fn watched<T: Send>(input: &str, files: bool, st: &mut Stats, f: impl FnOnce() -> Result<T, Viol> + Send) -> Result<T, Viol> {
    let watch = works();
    st.hit(if watch { "threads with system calls watched" } else { "threads without a watch on system calls" });
    let before = environment();
    REFUSED_CALL.store(-1, SeqCst);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, move || {
                let on = watch && confine(files);
                let r = f();
                if on {
                    // What was printed and not yet written
                    let _ = std::io::stdout().flush();
                }
                r
            })
            .unwrap()
            .join()
    });
    let call = REFUSED_CALL.swap(-1, SeqCst);
    if call >= 0 {
        fail!(input, "parsing makes system call {} ({}), of which it has no need", call, name_of(call));
    }
    st.eval();
    if environment() != before {
        fail!(input, "parsing changes the environment or the working directory of the process");
    }
    if !hook_in_place() {
        install_hook();
        fail!(input, "parsing changes what the process does when it panics");
    }
    match r {
        Ok(r) => r,
        Err(_) => fail!(input, "panic: {}", last_panic()),
    }
}

fn name_of(call: i64) -> &'static str {
    match call {
        0 => "read",
        1 => "write",
        2 | 257 => "open",
        20 => "writev",
        35 | 230 => "sleep",
        41 | 42 => "socket",
        56 | 57 | 58 | 435 => "new process or thread",
        59 => "execve",
        80 => "chdir",
        82 | 83 | 84 | 86 | 87 | 88 | 263 | 264 | 316 => "change of a directory",
        13 => "signal handler",
        62 | 200 | 234 => "signal",
        231 => "exit of the process",
        _ => "another one",
    }
}

// ---------------------------------------------------------------- what is done with a text

struct Quiet(u64);
impl Watch for Quiet {
    fn event(&mut self, _: &'static str, _: bool, _: usize, _: &dyn Shape) -> Act {
        self.0 += 1;
        Act::Continue
    }
    fn push(&mut self, _: Pos, _: Pos) {}
    fn pop(&mut self) {}
}

fn print_types(c: &Contract) -> usize {
    fn all(t: &Type) -> usize {
        t.to_string().len() + t.clone().to_string().len()
    }
    c.init_params.iter().chain(c.fields.iter()).chain(c.transitions.iter().flat_map(|t| t.params.iter())).map(|f| all(&f.r#type)).sum()
}

/// All a caller can do with a text; everything is dropped.
fn use_text(text: &str, subs: &[&str]) {
    match Contract::from_str(text) {
        Ok(c) => drop((print_types(&c), format!("{:?}", c))),
        Err(e) => drop((e.to_string(), format!("{:?}", e))),
    }
    for name in subs {
        match parse_text(name, text) {
            Ok(p) => drop((p.walk(&mut Rec(&mut Quiet(0))).is_ok(), p.printed(), p.debug())),
            Err(e) => drop(format!("{:?}", e)),
        }
    }
    if let Ok(v) = lex_all(text) {
        for (_, t, _) in v {
            drop(String::from(t));
        }
    }
}

/// The same, with the tokens given: much faster.
fn use_tokens(text: &str, name: &str) {
    let items: Vec<_> = lex(text).toks.iter().map(|t| Ok((to_sp(t.start), to_token(t.t, t.text(text)), to_sp(t.end)))).collect();
    if name == "Program" {
        if let Ok(p) = program_of(items.into_iter()) {
            if let Ok(c) = SrEmitter::default().emit(&p) {
                print_types(&c);
            }
        }
        return;
    }
    if let Ok(p) = parse_items(name, Box::new(items.into_iter())) {
        let _ = p.walk(&mut Rec(&mut Quiet(0)));
    }
}

/// Doing the same again and again must not need more memory each time. (What is kept once, for good, is no leak.)
fn keeps(input: &str, f: &dyn Fn()) -> R {
    let rounds = |n: usize| {
        let before = held();
        for _ in 0..n {
            guard(input, "parsing", f)?;
        }
        Ok(held() - before)
    };
    rounds(2)?;
    if rounds(2)? <= 0 {
        return Ok(());
    }
    // Something may have been kept for the future.
    let mut last = 0;
    for _ in 0..4 {
        last = rounds(25)?;
        if last < 25 {
            return Ok(());
        }
    }
    fail!(input, "every time this is parsed, {} bytes of memory are not given back", last / 25)
}

// ---------------------------------------------------------------- many different texts

/// The n-th of endlessly many texts that have next to nothing in common.
fn nth(kind: usize, n: u64) -> String {
    match kind % 8 {
        0 => format!("scilla_version 0 contract C{n} (p{n} : T{n}) field f{n} : M{n}.T{n} = x transition R{n} (q{n} : 0x{n}.T{n}) end"),
        1 => format!("scilla_version {n} library L{n} let x{n} = fun (y{n} : 'A{n}) => z{n} contract C () procedure p{n} () send m{n} end"),
        2 => format!("scilla_version 0 contract C (a : 'A{n})"),
        3 => format!("scilla_version 0 contract C (a : ByStr20 with contract field f{n} : Pair{n} end, b : Pair X{n})"),
        4 => format!("scilla_version 0 contract C{n} \"{n}\""),
        5 => format!("scilla_version 0 contract C (a : ByStr{}, b : Map ByStr20 (List N{n}), c : Option (D{n}.E{n}))", n % 1_000_000),
        6 => format!("scilla_version 0 contract C () transition T () m = {{ e{n} : Uint32 {n}; g{n} : \"{n}\" }} end x{n}"),
        _ => format!("scilla_version 0 contract C () # {n}"),
    }
}

fn accumulates(kind: usize, lexed: bool, thorough: bool) -> R {
    let first: u64 = if lexed { 300 } else { 8_000 } * if thorough { 4 } else { 1 };
    let what = || format!("different texts, one after the other, such as {:?}", nth(kind, 7));
    let mut n = 0;
    let mut upto = |to: u64| -> Result<i64, Viol> {
        let before = held();
        while n < to {
            let t = nth(kind, n);
            guard(&t, "parsing", || if lexed { drop(Contract::from_str(&t)) } else { use_tokens(&t, "Program") })?;
            n += 1;
        }
        Ok(held() - before)
    };
    upto(first)?;
    let mut to = first;
    let mut last = 0;
    for _ in 0..6 {
        last = upto(to * 2)?;
        if last < to as i64 {
            return Ok(());
        }
        to *= 2;
    }
    fail!(what(), "memory in use grows with the number of texts parsed: by {} bytes from {} to {} texts", last, to / 2, to)
}

const LARGE: &[usize] = &[4000, 9000, 17_000, 33_000, 66_000, 132_000, 263_000, 525_000, 1_050_000, 4_200_000];

pub fn blocks(ctx: &Ctx) -> u64 {
    (16 + PROBES.len() + REFUSED.len() + OPEN.len() + REPEATED.len() + ctx.corpus.len()) as u64 + big_count(ctx) + 8 + LARGE.len() as u64
}

pub fn c21(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C21", id);
    let r = &mut r;
    let mut k = id as usize;
    if k < 16 {
        st.hit("histories of different texts observed");
        st.distinct(format!("history {}", k).as_bytes());
        let (lexed, thorough) = (k >= 8, ctx.thorough);
        return watched(&nth(k, 7), false, st, || accumulates(k, lexed, thorough));
    }
    k -= 16;
    let fixed: Vec<&str> = PROBES.iter().chain(REFUSED).chain(OPEN).copied().collect();
    if k < fixed.len() {
        return text(fixed[k], &["Program", "ScillaType", "ContractDefinition"], st);
    }
    k -= fixed.len();
    if k < REPEATED.len() {
        let (a, b, c) = REPEATED[k];
        for n in [1, 17, 257] {
            text(&format!("{}{}{}", a, b.repeat(n), c), &["Program"], st)?;
        }
        return Ok(());
    }
    k -= REPEATED.len();
    if k < ctx.corpus.len() {
        let t = &ctx.corpus[k].text;
        st.distinct(t.as_bytes());
        return watched(t, false, st, || {
            keeps(t, &|| use_tokens(t, "Program"))?;
            guard(t, "parsing", || use_text(t, &[]))
        });
    }
    k -= ctx.corpus.len();
    if (k as u64) < big_count(ctx) {
        let b = big(ctx, k as u64, r);
        note_big(st, &b);
        let t = show(&b.s.toks);
        st.distinct(t.as_bytes());
        let name = ctx.g.rules[b.rule].name;
        return watched(&b.what, false, st, || keeps(&b.what, &|| use_tokens(&t, name)));
    }
    k -= big_count(ctx) as usize;
    if k < LARGE.len() {
        // Large texts of few tokens.
        let n = LARGE[k];
        for (a, z) in [("(*", "*)"), ("(* ", " *) )"), ("field f : String = \"", "\""), ("", "")] {
            let t = format!("scilla_version 0 contract C (a : Uint32) {}{}{}", a, " ".repeat(n), z);
            st.distinct(t.as_bytes());
            st.max("largest text observed", t.len() as u64);
            watched(&clip(&t, 100), false, st, || keeps(&clip(&t, 100), &|| use_text(&t, &["Program"])))?;
        }
        return Ok(());
    }
    k -= LARGE.len();
    if k < 8 || r.chance(1, 12) {
        return files(ctx, id, r, st);
    }
    let t = if r.chance(1, 2) { a_text(ctx, r) } else { hostile(ctx, r, st) };
    let subs = [if r.chance(1, 2) { "Program" } else { *r.pick(NAMES) }];
    st.sample(|| clip(&t, 200));
    if t.len() > 1500 {
        st.distinct(t.as_bytes());
        return watched(&t, false, st, || keeps(&t, &|| use_tokens(&t, subs[0])));
    }
    text(&t, &subs, st)
}

fn text(t: &str, subs: &[&str], st: &mut Stats) -> R {
    st.distinct(t.as_bytes());
    watched(t, false, st, || keeps(t, &|| use_text(t, subs)))
}

/// Parsing a file opens it for reading, and that is all.
fn files(ctx: &Ctx, id: u64, r: &mut Rng, st: &mut Stats) -> R {
    let f = ctx.verif.join("out").join(format!("effects-{}-{}", std::process::id(), id));
    std::fs::create_dir_all(f.parent().unwrap()).unwrap();
    let mut t = a_text(ctx, r);
    if r.chance(1, 5) {
        t = PROBES[0].into();
    }
    std::fs::write(&f, &t).unwrap();
    let missing = f.with_extension("missing");
    let dir = f.parent().unwrap().to_path_buf();
    let paths: Vec<&Path> = vec![&f, &missing, &dir, Path::new("")];
    st.hit("files parsed while watched");
    st.distinct(t.as_bytes());
    let res = watched(&t, true, st, || keeps(&t, &|| paths.iter().for_each(|p| drop(Contract::parse(p)))));
    let _ = std::fs::remove_file(&f);
    res
}
