//! What every check is made of: the context, cases, what was observed, violations, resource counters.

use oracle::dict::Dict;
use oracle::earley::Earley;
use oracle::grammar::Grammar;
use oracle::rng::{hash_bytes, mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- memory and CPU

pub struct Counting;
thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn add(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
    let _ = LIVE.try_with(|b| b.set(b.get() + n as i64));
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|b| b.set(b.get() - n as i64));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        sub(l.size());
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
}
/// Bytes this thread has asked for so far.
pub fn allocated() -> u64 {
    BYTES.with(|b| b.get())
}

/// Bytes this thread holds, if it gives back what it asked for itself.
pub fn held() -> i64 {
    LIVE.with(|b| b.get())
}

// ---------------------------------------------------------------- environment

thread_local! {
    static ASKED: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}
extern "C" {
    static environ: *const *const std::ffi::c_char;
}
/// In place of the C library's: notes the names asked for while something is observed.
///
/// # Safety
/// As that of the C library.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const std::ffi::c_char) -> *const std::ffi::c_char {
    let want = std::ffi::CStr::from_ptr(name).to_bytes();
    let _ = ASKED.try_with(|a| {
        if let Ok(mut a) = a.try_borrow_mut() {
            if let Some(v) = a.as_mut() {
                v.push(String::from_utf8_lossy(want).into_owned());
            }
        }
    });
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > want.len() && e.starts_with(want) && e[want.len()] == b'=' {
            return (*p).add(want.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

/// The environment variables asked for while this runs in this thread.
pub fn asked<T>(f: impl FnOnce() -> T) -> (T, Vec<String>) {
    ASKED.with(|a| *a.borrow_mut() = Some(vec![]));
    let r = f();
    let mut v = ASKED.with(|a| a.borrow_mut().take()).unwrap_or_default();
    v.sort();
    v.dedup();
    (r, v)
}

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn syscall(nr: i64, ...) -> i64;
}
const CLOCK_GETTIME: i64 = 228;

thread_local! {
    /// While something is observed: how often the time was asked for, and how far the clock is off, which grows each time.
    static CLOCK: Cell<Option<(u64, i64, i64)>> = const { Cell::new(None) };
}
/// In place of the C library's: the clock of a thread can be made to run wild.
///
/// # Safety
/// As that of the C library.
#[no_mangle]
unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    let r = syscall(CLOCK_GETTIME, id as i64, t) as i32;
    let _ = CLOCK.try_with(|c| {
        if let Some((n, off, step)) = c.get() {
            c.set(Some((n + 1, off + step, step)));
            if r == 0 && !t.is_null() {
                (*t).s = ((*t).s + off).max(0);
            }
        }
    });
    r
}
/// How often the time is asked for while this runs in this thread, which is `step` seconds later each time.
pub fn with_clock<T>(step: i64, f: impl FnOnce() -> T) -> (T, u64) {
    CLOCK.with(|c| c.set(Some((0, 0, step))));
    let r = f();
    (r, CLOCK.with(|c| c.take()).map_or(0, |x| x.0))
}
/// CPU time of this thread in microseconds.
pub fn cpu_us() -> u64 {
    let mut t = Timespec { s: 0, n: 0 };
    // SAFETY: the clock of CPU time of this thread, into a local.
    unsafe { syscall(CLOCK_GETTIME, 3i64, &mut t as *mut Timespec) };
    t.s as u64 * 1_000_000 + t.n as u64 / 1000
}

// ---------------------------------------------------------------- context

pub struct Contract {
    pub name: String,
    pub text: String,
    /// Number of tokens by the lexical rules.
    pub tokens: usize,
}

pub struct Ctx {
    pub g: Grammar,
    pub dict: Dict,
    pub earley: Earley,
    /// The contracts that come with the repository, smallest first.
    pub corpus: Vec<Contract>,
    pub seed: u64,
    pub thorough: bool,
    pub verif: PathBuf,
}

impl Ctx {
    pub fn load(seed: u64, thorough: bool) -> Ctx {
        let g = Grammar::load();
        let earley = Earley::new(&g);
        let dict = Dict::load(Path::new("/repo/src"));
        let mut corpus = vec![];
        if let Ok(d) = std::fs::read_dir("/repo/tests/contracts") {
            for f in d.flatten() {
                if let Ok(text) = std::fs::read_to_string(f.path()) {
                    let tokens = oracle::lexref::lex(&text).toks.len();
                    corpus.push(Contract { name: f.file_name().to_string_lossy().into_owned(), text, tokens });
                }
            }
        }
        corpus.sort_by(|a, b| (a.tokens, &a.name).cmp(&(b.tokens, &b.name)));
        Ctx { g, dict, earley, corpus, seed, thorough, verif: PathBuf::from(std::env::var("VERIF_HOME").unwrap_or("/verif".into())) }
    }
    pub fn rng(&self, prop: &str, id: u64) -> Rng {
        Rng::new(mix(self.seed ^ hash_bytes(prop.as_bytes())).wrapping_add(mix(id)))
    }
}

// ---------------------------------------------------------------- what was observed

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<String>,
    pub cur: u64,
}

const SET_CAP: usize = 3_000_000;

impl Stats {
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(c) => *c += n,
            None => {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
    /// Kept as a maximum: the name starts with "largest".
    pub fn max(&mut self, k: &str, n: u64) {
        assert!(k.starts_with("largest"));
        let c = self.counts.entry(k.to_string()).or_insert(0);
        *c = (*c).max(n);
    }
    /// One evaluation of the oracle.
    pub fn eval(&mut self) {
        self.add("evaluations", 1);
    }
    /// One distinct non-trivial case.
    pub fn distinct(&mut self, key: &[u8]) {
        self.seen("distinct", hash_bytes(key));
    }
    pub fn seen(&mut self, set: &str, x: u64) {
        if let Some(s) = self.sets.get_mut(set) {
            if s.len() < SET_CAP {
                s.insert(x);
            }
        } else {
            self.sets.insert(set.to_string(), HashSet::from([x]));
        }
    }
    pub fn seen_str(&mut self, set: &str, x: &str) {
        self.seen(set, hash_bytes(x.as_bytes()))
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(clip(&s, 700));
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}... [{} bytes]", &s[..i], s.len())
}

// ---------------------------------------------------------------- verdicts

#[derive(Debug, Clone)]
pub struct Viol {
    pub what: String,
    pub input: String,
}
pub type R = Result<(), Viol>;

pub fn viol<T>(input: impl AsRef<str>, what: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { what: what.into(), input: input.as_ref().to_string() })
}

#[macro_export]
macro_rules! fail {
    ($input:expr, $($a:tt)*) => {
        return $crate::core::viol(&$input, format!($($a)*))
    };
}

thread_local! {
    static IN_GUARD: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or("?".into());
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{}{}", clip(&msg, 300), at));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Whether a panic still reaches the hook above.
pub fn hook_in_place() -> bool {
    let _ = LAST_PANIC.try_with(|p| p.borrow_mut().clear());
    let _ = catch_unwind(|| panic!("is anybody there"));
    let there = last_panic().starts_with("is anybody there");
    let _ = LAST_PANIC.try_with(|p| p.borrow_mut().clear());
    there
}

/// Runs code under test; a panic in it is a violation.
pub fn guard<T>(input: &str, what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    IN_GUARD.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_GUARD.with(|g| g.set(g.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(_) => viol(input, format!("panic in {}: {}", what, last_panic())),
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    /// Number of systematic cases (ids below it), tried before the random ones.
    pub blocks: fn(&Ctx) -> u64,
    pub case: fn(&Ctx, u64, &mut Stats) -> R,
    /// (cases, seconds) of a quick and of a thorough run.
    pub quick: (u64, u64),
    pub thorough: (u64, u64),
    /// Runs once, in the supervisor, before the cases.
    pub once: Option<fn(&Ctx, &mut Stats) -> R>,
}
