//! C18: parsing files.

use super::source::*;
use crate::compose::Fill;
use crate::core::*;
use crate::model::result_text;
use oracle::layout::{any_mode, layout, Mode};
use oracle::mutate;
use oracle::rng::{hash_bytes, Rng};
use scilla_parser::{Contract, Error};
use std::collections::BTreeMap;
use std::ffi::{CString, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, MetadataExt};
use std::path::{Path, PathBuf};
use std::str::FromStr;

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
    fn setfsuid(user: u32) -> i32;
    fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32;
    fn signal(number: i32, handler: usize) -> usize;
    fn siginterrupt(number: i32, on: i32) -> i32;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
}

/// Parses a path without being able to open any file, and tells whether that is reported as it should be.
pub fn oneshot_files(path: &str) -> i32 {
    // Whatever has to be loaded for it is, by now.
    let _ = Contract::parse(Path::new(path));
    const NOFILE: i32 = 7;
    unsafe { setrlimit(NOFILE, &[3, 3]) };
    let (want, got) = (std::fs::read_to_string(path), Contract::parse(Path::new(path)));
    match (&want, &got) {
        (Err(a), Err(Error::IoError(b))) if a.kind() == b.kind() && a.raw_os_error() == b.raw_os_error() => println!("same {:?}", a.kind()),
        _ => println!("reading it fails with {:?}, parsing it gives {}", want.err(), clip(&result_text(&got), 400)),
    }
    0
}

/// Parses a path while signals arrive all the time.
pub fn oneshot_signals(path: &str) -> i32 {
    extern "C" fn nothing(_: i32) {}
    const ALRM: i32 = 14;
    unsafe {
        signal(ALRM, nothing as *const () as usize);
        siginterrupt(ALRM, 1);
        setitimer(0, &[0, 500, 0, 500], std::ptr::null_mut());
    }
    let got = Contract::parse(Path::new(path));
    unsafe { setitimer(0, &[0; 4], std::ptr::null_mut()) };
    println!("{}", result_text(&got));
    0
}

fn child(what: &str, p: &Path) -> std::process::Command {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("oneshot").arg(format!("{}:{}", what, p.display())).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
    c
}

/// Failures that come from the system.
fn system_failures(ctx: &Ctx, dir: &Path, r: &mut Rng, st: &mut Stats) -> R {
    use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
    let t = contents(ctx, r);
    let file = dir.join("c.scilla");
    std::fs::write(&file, &t).unwrap();
    // Another user may not read it, nor look into a directory.
    let locked = dir.join("locked");
    std::fs::create_dir(&locked).unwrap();
    std::fs::write(locked.join("c.scilla"), &t).unwrap();
    let secret = dir.join("secret.scilla");
    std::fs::write(&secret, &t).unwrap();
    std::fs::set_permissions(&secret, std::fs::Permissions::from_mode(0)).unwrap();
    std::fs::set_permissions(&locked, std::fs::Permissions::from_mode(0)).unwrap();
    let before = snapshot(dir);
    const NOBODY: u32 = 65534;
    for (how, p) in [("unreadable", secret.clone()), ("in a locked directory", locked.join("c.scilla")), ("locked directory", locked.clone())] {
        // Only for this thread.
        let me = unsafe { setfsuid(NOBODY) };
        let r = equals_failure(&p, how, st);
        unsafe { setfsuid(me as u32) };
        r?;
    }
    unchanged(dir, &before)?;
    std::fs::set_permissions(&locked, std::fs::Permissions::from_mode(0o700)).unwrap();
    // A socket; a file that can be opened, but not read.
    let socket = dir.join("socket");
    if let Ok(_s) = std::os::unix::net::UnixListener::bind(&socket) {
        equals_failure(&socket, "socket", st)?;
    }
    equals_failure(Path::new("/proc/self/mem"), "unreadable contents", st)?;
    // No file can be opened any more.
    if let Ok(out) = child("files", &file).output() {
        let out = String::from_utf8_lossy(&out.stdout).into_owned();
        st.eval();
        if out.starts_with("same ") {
            st.seen_str("kinds of failures", "no more files can be opened");
        } else if !out.is_empty() {
            fail!(t, "when no file can be opened: {}", out);
        }
    }
    // Signals that interrupt every call.
    for k in 0..3 {
        let fifo = dir.join(format!("fifo{}", k));
        let c = CString::new(fifo.as_os_str().as_bytes()).unwrap();
        if unsafe { mkfifo(c.as_ptr(), 0o600) } != 0 {
            continue;
        }
        let t = program(ctx, r, Fill::None);
        let t = layout(&t.toks, Mode::Plain, r).text;
        let Ok(mut kid) = child("signals", &fifo).spawn() else { continue };
        // Whoever reads has to have opened it first.
        const NONBLOCK: i32 = 0o4000;
        let mut w = None;
        for _ in 0..20_000 {
            w = std::fs::File::options().write(true).custom_flags(NONBLOCK).open(&fifo).ok();
            if w.is_some() || !matches!(kid.try_wait(), Ok(None)) {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        if let Some(mut w) = w {
            use std::io::Write;
            for c in t.as_bytes().chunks(t.len().div_ceil(12)) {
                let _ = w.write_all(c);
                std::thread::sleep(std::time::Duration::from_millis(3));
            }
        } else {
            let _ = kid.kill();
        }
        let Ok(out) = kid.wait_with_output() else { continue };
        if !out.status.success() {
            st.hit("processes with signals that ended early");
            continue;
        }
        let got = String::from_utf8_lossy(&out.stdout).trim_end().to_string();
        let want = guard(&t, "Contract::from_str", || result_text(&Contract::from_str(&t)))?;
        st.eval();
        st.hit("pipes parsed while signals arrive");
        if got != want.trim_end() {
            fail!(t, "parsing a pipe while signals arrive gives {}\nparsing its text gives {}", clip(&got, 500), clip(&want, 500));
        }
    }
    Ok(())
}

/// A directory of its own, removed at the end.
struct Scratch(PathBuf);
impl Scratch {
    fn new(ctx: &Ctx, id: u64) -> Scratch {
        let d = ctx.verif.join("out").join(format!("files-{}-{}", std::process::id(), id));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Scratch(std::fs::canonicalize(d).unwrap())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

type Snap = BTreeMap<PathBuf, (u32, u64, i64, i64, u64)>;

/// Every entry below a directory: mode, size, time of modification, contents.
fn snapshot(d: &Path) -> Snap {
    let mut out = Snap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(p) = todo.pop() {
        let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
        let h = if m.is_file() { std::fs::read(&p).map(|b| hash_bytes(&b)).unwrap_or(0) } else { 0 };
        out.insert(p.clone(), (m.mode(), m.size(), m.mtime(), m.mtime_nsec(), h));
        if m.is_dir() {
            if let Ok(rd) = std::fs::read_dir(&p) {
                todo.extend(rd.flatten().map(|e| e.path()));
            }
        }
    }
    out
}

fn open_files() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

fn shown(p: &Path) -> String {
    clip(&format!("{:?}", p), 200)
}

/// The path is readable and holds this text.
fn equals_text(p: &Path, text: &str, how: &str, st: &mut Stats) -> R {
    let input = format!("{} ({}) with contents {:?}", shown(p), how, clip(text, 600));
    let got = guard(&input, "Contract::parse", || Contract::parse(p))?;
    let want = guard(&input, "Contract::from_str", || Contract::from_str(text))?;
    st.eval();
    st.seen_str("spellings of paths", how);
    st.hit(if want.is_ok() { "files that hold a contract" } else { "files that hold no contract" });
    let (g, w) = (result_text(&got), result_text(&want));
    if g != w {
        fail!(input, "parsing the file gives {}\nparsing its text gives {}", clip(&g, 500), clip(&w, 500));
    }
    Ok(())
}

/// Reading fails: so must parsing, in the same way.
fn equals_failure(p: &Path, how: &str, st: &mut Stats) -> R {
    let input = format!("{} ({})", shown(p), how);
    let Err(want) = std::fs::read_to_string(p) else { return Ok(()) };
    let got = guard(&input, "Contract::parse", || Contract::parse(p))?;
    st.eval();
    st.seen_str("kinds of failures", &format!("{:?}", want.kind()));
    st.hit("failures observed");
    st.distinct(format!("{} {:?}", how, p.file_name()).as_bytes());
    match got {
        Err(Error::IoError(e)) if e.kind() == want.kind() && e.raw_os_error() == want.raw_os_error() => Ok(()),
        other => fail!(input, "reading it fails with {:?}, parsing it gives {}", want, clip(&result_text(&other), 500)),
    }
}

/// Parsing a path depends on what is there, and on nothing beside it: whatever else is looked at is made to hold a
/// contract, and must make no difference.
fn nothing_else(dir: &Path, p: &Path, how: &str, st: &mut Stats) -> R {
    let input = format!("{} ({})", shown(p), how);
    let (r, paths) = super::effects::paths_of(|| guard(&input, "Contract::parse", || result_text(&Contract::parse(p))));
    let Some(paths) = paths else {
        st.hit("files parsed without a watch on paths");
        return Ok(());
    };
    match r {
        Ok(r) => r?,
        Err(_) => fail!(input, "panic: {}", last_panic()),
    };
    st.hit("files parsed with every path they make looked at noted");
    let same = |q: &Path| match (std::fs::metadata(p), std::fs::metadata(q)) {
        (Ok(a), Ok(b)) => (a.dev(), a.ino()) == (b.dev(), b.ino()),
        _ => false,
    };
    for (q, opened) in paths {
        let q = PathBuf::from(OsString::from_vec(q));
        if q == p {
            st.hit("lookups of the path itself");
            continue;
        }
        // Only below the scratch directory, and only what can be replaced
        let (Some(parent), Some(name)) = (q.parent(), q.file_name()) else { continue };
        let parent = if parent.as_os_str().is_empty() { Path::new(".") } else { parent };
        let Ok(parent) = std::fs::canonicalize(parent) else { continue };
        if !parent.starts_with(dir) || !parent.is_dir() || same(&q) || q.is_dir() {
            continue;
        }
        let q = parent.join(name);
        if p.parent().and_then(|d| std::fs::canonicalize(d).ok()).map(|d| d.join(p.file_name().unwrap_or_default())).as_deref() == Some(&q) {
            continue;
        }
        let old = std::fs::symlink_metadata(&q).ok();
        if old.as_ref().is_some_and(|m| !m.is_file()) {
            continue;
        }
        st.hit("lookups of something else");
        if opened {
            fail!(input, "another file is read: {}", shown(&q));
        }
        let was = std::fs::read(&q).ok();
        std::fs::write(&q, "scilla_version 0 contract Planted (p : Bool)").unwrap();
        let want = std::fs::read_to_string(p);
        let (got, paths) = super::effects::paths_of(|| guard(&input, "Contract::parse", || Contract::parse(p)));
        let got = got.unwrap_or_else(|_| fail!(input, "panic: {}", last_panic()));
        let read = paths.unwrap_or_default().into_iter().any(|(x, opened)| {
            let same = |x: &Path| x.parent().and_then(|d| std::fs::canonicalize(d).ok()).map(|d| d.join(x.file_name().unwrap_or_default())).as_deref() == Some(&q);
            opened && same(Path::new(&OsString::from_vec(x)))
        });
        match was {
            Some(b) => std::fs::write(&q, b).unwrap(),
            None => std::fs::remove_file(&q).unwrap(),
        }
        st.eval();
        if read {
            fail!(input, "another file is read: {}", shown(&q));
        }
        match (want, got?) {
            (Ok(t), got) => {
                let want = guard(&input, "Contract::from_str", || Contract::from_str(&t))?;
                if result_text(&got) != result_text(&want) {
                    fail!(input, "with a contract in {}, it is parsed as {}", shown(&q), clip(&result_text(&got), 500));
                }
            }
            (Err(e), Err(Error::IoError(f))) if e.kind() == f.kind() => {}
            (Err(e), got) => fail!(input, "reading it fails with {:?}; with a contract in {}, parsing it gives {}", e, shown(&q), clip(&result_text(&got), 500)),
        }
    }
    Ok(())
}

fn contents(ctx: &Ctx, r: &mut Rng) -> String {
    let f = *r.pick(&[Fill::None, Fill::Small, Fill::Small, Fill::Rich]);
    let p = program(ctx, r, f);
    let t = layout(&p.toks, any_mode(r), r).text;
    match r.below(16) {
        0 => format!("\u{feff}{}", t),
        1 => t.replace('\n', "\r\n"),
        2 => format!("{}\n", t.trim_end()),
        3 => t.trim_end().to_string(),
        4 => format!("\n\n\n{}\n\n", t),
        5 => String::new(),
        6 => (*r.pick(&["\n", " ", "\u{0}", "\u{feff}", "\r", "x", "(*", "#!/usr/bin/env scilla\n"])).to_string(),
        7 => format!("{}\u{0}", t),
        8 => format!("{}\u{1a}", t),
        9 => mutate::text(&t, "", r),
        10 => format!("(* {} *)\n{}", "\u{e9}\u{4e2d} ".repeat(r.below(4000)), t),
        11 => format!("{}{}", t, " ".repeat(*r.pick(&[4095usize, 4096, 8191, 8192, 8193, 65536, 70_000]))),
        _ => t,
    }
}

const FILE_NAMES: &[&str] = &[
    "c.scilla", "c", "C.SCILLA", "contract.scillib", "c.txt", "a b.scilla", "\u{e9}\u{4e2d}.scilla", ".hidden", "-x", "c.scilla.gz", "..c", "c.", "%41.scilla", "~", "*", "a\nb", "'q'", "\"d\"", "a\\b", "$HOME", "con", "http:", "#", " ",
    "c.json", "library.scilla",
];

/// Bytes that are no UTF-8, at various places.
fn broken(r: &mut Rng, t: &str) -> Vec<u8> {
    let mut b = t.as_bytes().to_vec();
    let bad: &[&[u8]] = &[b"\xff", b"\xfe\xff", b"\x80", b"\xc3", b"\xe4\xb8", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xf0\x9f\xa6", b"\xe9"];
    let x = *r.pick(bad);
    match r.below(5) {
        0 => {
            b.splice(0..0, x.iter().copied());
        }
        1 => b.extend(x),
        2 => {
            // In a comment after a complete contract.
            b.extend(b"\n(* ");
            b.extend(std::iter::repeat(b' ').take(*r.pick(&[0usize, 8190, 65_536])));
            b.extend(x);
            b.extend(b" *)");
        }
        3 => {
            // UTF-16 of the text.
            return t.encode_utf16().flat_map(|u| u.to_le_bytes()).chain([0, 0xd8]).collect();
        }
        _ => {
            let i = r.below(b.len() + 1);
            b.splice(i..i, x.iter().copied());
        }
    }
    if std::str::from_utf8(&b).is_ok() {
        b.push(0xff);
    }
    b
}

const CONTRACT_NAMES: usize = 16;

/// What a contract is named, and whether its file is named like it, makes no difference.
fn contract_names(ctx: &Ctx, dir: &Path, part: usize, st: &mut Stats) -> R {
    let lits = oracle::dict::literals();
    let near = oracle::dict::near_names();
    let mut names: Vec<&String> = lits.iter().map(|l| &l.1).chain(&near).chain(&ctx.dict.words).filter(|n| n.len() < 12 && oracle::dict::is_token(n, oracle::lexref::CID)).collect();
    names.sort();
    names.dedup();
    for (i, n) in names.into_iter().enumerate() {
        if i % CONTRACT_NAMES != part {
            continue;
        }
        let more = ["", " field f : ByStr20 = x", " transition T ( ) end"][i / CONTRACT_NAMES % 3];
        for (file, more) in [("c.scilla".to_string(), ""), (format!("{}.scilla", n), more), (n.to_string(), " field f : ByStr20 = x transition T ( ) end")] {
            let t = format!("scilla_version 0 contract {} ( ){}", n, more);
            let p = dir.join(file);
            std::fs::write(&p, &t).unwrap();
            st.distinct(t.as_bytes());
            equals_text(&p, &t, "contract of a name of a list", st)?;
            std::fs::remove_file(&p).unwrap();
        }
    }
    Ok(())
}

pub fn blocks(ctx: &Ctx) -> u64 {
    (ctx.corpus.len() + FILE_NAMES.len() + 3 + 5 + CONTRACT_NAMES + 1) as u64
}

/// What a file has besides its contents makes no difference, whatever the contents look like.
fn attributes(dir: &Path, place: usize, r: &mut Rng, st: &mut Stats) -> R {
    use std::os::unix::fs::{chown, PermissionsExt};
    use std::time::{Duration, SystemTime};
    const NAMES: &[&str] = &["c.scilla", "c.scillib", "c", "c.gz", "c.md", "c.json", "c.txt", "c.b64", ".c", "c.hex", "c.SCILLA", "c.scilla.bak", "library.scillib", "c.patch"];
    let modes = [0o644, 0o400, 0o755, 0o777, 0o4755, 0o2755, 0o1644, 0o111, 0, 0o666];
    for (i, m) in oracle::mutate::MARKS.iter().enumerate() {
        let mut t = "scilla_version 0\ncontract C ()".to_string();
        oracle::mutate::mark(&mut t, m, place, r);
        if place == 4 {
            t = format!("{}{}{}", m, t, m);
        }
        st.distinct(t.as_bytes());
        let p = dir.join(NAMES[(i + place) % NAMES.len()]);
        std::fs::write(&p, &t).unwrap();
        for mode in modes {
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).unwrap();
            if std::fs::read_to_string(&p).is_ok() {
                equals_text(&p, &t, "file with another mode", st)?;
            }
        }
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o644)).unwrap();
        let f = std::fs::File::options().write(true).open(&p).unwrap();
        for at in [SystemTime::UNIX_EPOCH, SystemTime::now() + Duration::from_secs(1_000_000_000), SystemTime::UNIX_EPOCH + Duration::from_secs(1_600_000_000)] {
            if f.set_modified(at).is_ok() {
                equals_text(&p, &t, "file of another age", st)?;
            }
        }
        drop(f);
        // Not everybody may give files away.
        if chown(&p, Some(65534), Some(65534)).is_ok() {
            equals_text(&p, &t, "file of another user", st)?;
        }
        std::fs::hard_link(&p, dir.join("other name")).unwrap();
        equals_text(&p, &t, "file with two names", st)?;
        std::fs::remove_file(dir.join("other name")).unwrap();
        std::fs::remove_file(&p).unwrap();
    }
    for (i, name) in NAMES.iter().enumerate() {
        for k in 0..12 {
            let m = oracle::mutate::MARKS[(i * 12 + k + place * 31) % oracle::mutate::MARKS.len()];
            let mut t = "scilla_version 0\ncontract C ()".to_string();
            oracle::mutate::mark(&mut t, m, k % 4, r);
            let p = dir.join(name);
            std::fs::write(&p, &t).unwrap();
            equals_text(&p, &t, "file with another name", st)?;
        }
    }
    Ok(())
}

pub fn c18(ctx: &Ctx, id: u64, st: &mut Stats) -> R {
    let mut r = ctx.rng("C18", id);
    let r = &mut r;
    let nc = ctx.corpus.len() as u64;
    if id < nc {
        let c = &ctx.corpus[id as usize];
        let p = Path::new("/repo/tests/contracts").join(&c.name);
        st.distinct(c.text.as_bytes());
        return equals_text(&p, &c.text, "contract of the repository", st);
    }
    let s = Scratch::new(ctx, id);
    let dir = &s.0;
    let k = id - nc;
    if k < FILE_NAMES.len() as u64 {
        let t = contents(ctx, r);
        let p = dir.join(FILE_NAMES[k as usize]);
        std::fs::write(&p, &t).unwrap();
        st.distinct(format!("{} {}", k, t).as_bytes());
        let before = snapshot(dir);
        equals_text(&p, &t, "odd file name", st)?;
        unchanged(dir, &before)?;
        nothing_else(dir, &p, "odd file name", st)?;
        std::fs::remove_file(&p).unwrap();
        nothing_else(dir, &p, "odd name of a missing file", st)?;
        return Ok(());
    }
    if k == FILE_NAMES.len() as u64 {
        // Large files.
        let p = program(ctx, r, Fill::None);
        let t = layout(&p.toks, Mode::Plain, r).text;
        let huge = if ctx.thorough { 140 << 20 } else { 34 << 20 };
        for (i, n) in [1usize << 16, (1 << 20) + 1, 5_000_000, huge].into_iter().enumerate() {
            let big = format!("{} (*{}*)", t, "x\u{e9}\n".repeat(n / 4));
            let f = dir.join(format!("big{}", i));
            std::fs::write(&f, &big).unwrap();
            st.distinct(big.as_bytes());
            equals_text(&f, &big, "large file", st)?;
            // The contract last.
            let big = format!("(*{}*) {}", "x\u{e9}\n".repeat(n / 4), t);
            std::fs::write(&f, &big).unwrap();
            equals_text(&f, &big, "large file", st)?;
            std::fs::remove_file(&f).unwrap();
            st.max("largest file parsed", big.len() as u64);
        }
        return Ok(());
    }
    if k == FILE_NAMES.len() as u64 + 1 {
        // Files that tell no size.
        for f in ["/proc/version", "/proc/self/cgroup", "/proc/filesystems", "/dev/null"] {
            if let Ok(t) = std::fs::read_to_string(f) {
                equals_text(Path::new(f), &t, "file that tells no size", st)?;
                st.distinct(f.as_bytes());
            }
        }
        return Ok(());
    }
    if k == FILE_NAMES.len() as u64 + 2 {
        return system_failures(ctx, dir, r, st);
    }
    if k >= FILE_NAMES.len() as u64 + 3 && id < blocks(ctx) - 1 {
        let k = (k - FILE_NAMES.len() as u64 - 3) as usize;
        if k >= 5 {
            return contract_names(ctx, dir, k - 5, st);
        }
        return attributes(dir, k, r, st);
    }
    one(ctx, dir, r, st)
}

fn unchanged(dir: &Path, before: &Snap) -> R {
    let after = snapshot(dir);
    for (p, a) in &after {
        match before.get(p) {
            None => fail!(shown(p), "parsing created {}", shown(p)),
            Some(b) if a != b => fail!(shown(p), "parsing changed {}: {:?} instead of {:?}", shown(p), a, b),
            _ => {}
        }
    }
    for p in before.keys() {
        if !after.contains_key(p) {
            fail!(shown(p), "parsing removed {}", shown(p));
        }
    }
    Ok(())
}

fn one(ctx: &Ctx, dir: &Path, r: &mut Rng, st: &mut Stats) -> R {
    let t = contents(ctx, r);
    let file = dir.join("c.scilla");
    std::fs::write(&file, &t).unwrap();
    let sub = dir.join("sub");
    std::fs::create_dir(&sub).unwrap();
    symlink(&file, dir.join("link")).unwrap();
    symlink("link", dir.join("link2")).unwrap();
    symlink("nowhere", dir.join("dangling")).unwrap();
    symlink("loop", dir.join("loop")).unwrap();
    symlink(".", dir.join("here")).unwrap();
    std::fs::hard_link(&file, dir.join("hard")).unwrap();
    let odd = dir.join(OsString::from_vec(b"\xff\xfe.scilla".to_vec()));
    std::fs::write(&odd, &t).unwrap();
    std::fs::write(dir.join("empty"), "").unwrap();
    let bad = dir.join("bad.scilla");
    let bad_bytes = broken(r, &t);
    std::fs::write(&bad, &bad_bytes).unwrap();
    // Another file that a wrong path could find.
    std::fs::write(sub.join("c.scilla"), "scilla_version 0 contract Wrong (a : Bool)").unwrap();
    std::fs::write(dir.join("c"), "scilla_version 0 contract Wrong ()").unwrap();

    let before = snapshot(dir);
    let fds = open_files();
    st.distinct(t.as_bytes());
    st.sample(|| format!("{:?}", clip(&t, 300)));

    let up = "../".repeat(std::env::current_dir().map(|d| d.components().count()).unwrap_or(1));
    let d = dir.to_str().unwrap();
    let spellings: Vec<(&str, PathBuf)> = vec![
        ("absolute", file.clone()),
        ("with dots", PathBuf::from(format!("{}/./sub/../c.scilla", d))),
        ("with slashes", PathBuf::from(format!("//{}///c.scilla", d))),
        ("relative", PathBuf::from(format!("{}{}/c.scilla", up, &d[1..]))),
        ("relative with a dot", PathBuf::from(format!("./{}{}/c.scilla", up, &d[1..]))),
        ("symbolic link", dir.join("link")),
        ("link to a link", dir.join("link2")),
        ("through a linked directory", PathBuf::from(format!("{}/here/here/c.scilla", d))),
        ("hard link", dir.join("hard")),
        ("name that is no UTF-8", odd.clone()),
    ];
    let n = r.range(2, 5);
    for _ in 0..n {
        let (how, p) = r.pick(&spellings).clone();
        equals_text(&p, &t, how, st)?;
    }
    equals_text(&dir.join("empty"), "", "empty file", st)?;

    let failures: Vec<(&str, PathBuf)> = vec![
        ("not UTF-8", bad.clone()),
        ("missing", dir.join("missing.scilla")),
        ("missing", dir.join("c.scill")),
        ("missing", dir.join("c.scilla ")),
        ("missing", dir.join("nodir/c.scilla")),
        ("missing", dir.join("C.scilla")),
        ("directory", dir.to_path_buf()),
        ("directory", sub.clone()),
        ("dangling link", dir.join("dangling")),
        ("loop of links", dir.join("loop")),
        ("file used as a directory", PathBuf::from(format!("{}/c.scilla/x", d))),
        ("file with a slash", PathBuf::from(format!("{}/c.scilla/", d))),
        ("empty path", PathBuf::new()),
        ("long name", dir.join("x".repeat(300))),
        ("long path", PathBuf::from("x/".repeat(5000))),
        ("NUL in the path", PathBuf::from(format!("{}/c.scilla\0", d))),
        ("standard input", PathBuf::from("-")),
        ("URL", PathBuf::from(format!("file://{}", file.display()))),
        ("URL", PathBuf::from("http://localhost/c.scilla")),
        ("home", PathBuf::from("~/c.scilla")),
        ("pattern", PathBuf::from(format!("{}/c*", d))),
        ("with a fragment", PathBuf::from(format!("{}/c.scilla#1", d))),
        ("with a line", PathBuf::from(format!("{}/c.scilla:1", d))),
        ("quoted", PathBuf::from(format!("\"{}\"", file.display()))),
        ("spaces around", PathBuf::from(format!(" {} ", file.display()))),
        ("trailing newline", PathBuf::from(format!("{}\n", file.display()))),
        ("backslashes", PathBuf::from(file.display().to_string().replace('/', "\\"))),
        ("escaped", PathBuf::from(format!("{}/c%2escilla", d))),
        ("variable", PathBuf::from("$PWD/c.scilla")),
        ("list", PathBuf::from(format!("{}:{}", file.display(), file.display()))),
        ("text as path", PathBuf::from("scilla_version 0 contract C ()")),
    ];
    equals_failure(&bad, "not UTF-8", st)?;
    let n = r.range(4, 9);
    for _ in 0..n {
        let (how, p) = r.pick(&failures).clone();
        equals_failure(&p, how, st)?;
    }
    unchanged(dir, &before)?;
    for (how, p) in [r.pick(&spellings).clone(), r.pick(&failures).clone()] {
        nothing_else(dir, &p, how, st)?;
    }

    // Contents that change between two calls, in size and time alike.
    if r.chance(1, 3) {
        let m = std::fs::metadata(&file).unwrap();
        let other: String = t.chars().map(|c| if c == 'a' { 'b' } else if c == 'C' { 'D' } else { c }).collect();
        std::fs::write(&file, &other).unwrap();
        let f = std::fs::File::options().write(true).open(&file).unwrap();
        f.set_modified(m.modified().unwrap()).unwrap();
        drop(f);
        equals_text(&file, &other, "rewritten in place", st)?;
        equals_text(&dir.join("link"), &other, "rewritten in place, through a link", st)?;
        std::fs::write(&file, &bad_bytes).unwrap();
        equals_failure(&file, "rewritten, not UTF-8", st)?;
        std::fs::remove_file(&file).unwrap();
        equals_failure(&file, "removed after it was parsed", st)?;
        std::fs::write(&file, &t).unwrap();
        equals_text(&file, &t, "written again", st)?;
    }
    // A pipe.
    if r.chance(1, 6) {
        let f = dir.join("fifo");
        let c = CString::new(f.as_os_str().as_bytes()).unwrap();
        if unsafe { mkfifo(c.as_ptr(), 0o600) } == 0 {
            let f2 = f.clone();
            let t2 = t.clone();
            let w = std::thread::spawn(move || {
                use std::io::Write;
                if let Ok(mut h) = std::fs::File::options().write(true).open(&f2) {
                    for c in t2.as_bytes().chunks(1000) {
                        if h.write_all(c).is_err() {
                            break;
                        }
                    }
                }
            });
            let got = guard(&t, "Contract::parse of a pipe", || Contract::parse(&f))?;
            // Nobody may be left waiting, should the pipe not have been read.
            use std::os::unix::fs::OpenOptionsExt;
            let _ = std::fs::File::options().read(true).custom_flags(0o4000).open(&f);
            let _ = w.join();
            st.eval();
            st.seen_str("spellings of paths", "pipe");
            let want = Contract::from_str(&t);
            if result_text(&got) != result_text(&want) {
                fail!(t, "parsing a pipe gives {}\nparsing its text gives {}", result_text(&got), result_text(&want));
            }
        }
    }
    let now = open_files();
    if now > fds {
        fail!(shown(dir), "{} files are open after parsing, {} before", now, fds);
    }
    Ok(())
}
