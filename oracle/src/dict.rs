//! Names, numbers and strings the workloads draw from; also mined from the sources under test, so that
//! values the code treats specially are tried.

use crate::lexref::*;
use crate::rng::Rng;
use std::path::Path;

#[derive(Clone, Debug, Default)]
pub struct Dict {
    pub words: Vec<String>,
    pub ints: Vec<u64>,
    pub strings: Vec<String>,
    ids: Vec<String>,
    cids: Vec<String>,
    spids: Vec<String>,
    tids: Vec<String>,
    hexes: Vec<String>,
    numbers: Vec<String>,
    lits: Vec<String>,
    bystrs: Vec<String>,
}

/// Type names with a meaning of their own, or close to one.
pub const TYPE_NAMES: &[&str] = &[
    "Int32", "Int64", "Int128", "Int256", "Uint32", "Uint64", "Uint128", "Uint256", "String", "BNum", "Bool",
    "Option", "List", "Pair", "Message", "Unit", "Nat", "Foo", "T",
];
const NEAR_NAMES: &[&str] = &[
    "Int3", "Int320", "Int", "INT32", "Uint", "Uint256x", "Strings", "BNum_", "Bool2", "Boolean", "Options", "Optional",
    "Lists", "Pairs", "Maps", "Map_", "MapKey", "Emps", "Emp_", "Events", "Event_", "Event2", "ByStrX", "ByStr_", "ByStr20_", "ByStr20x",
    "ByStr20Foo", "ByStr3_2", "BystR20", "By", "ByStrs", "Contract", "Library", "End", "With", "Forall", "A", "Z9", "A_", "Some", "None",
    "True", "False", "Cons", "Nil", "Zero", "Succ", "ProcedureName", "BLOCKNUMBER", "TIMESTAMP", "X_1_y",
];
const ID_NAMES: &[&str] = &[
    "a", "b", "x", "y", "z", "n", "foo", "bar", "to", "amount", "owner", "x1", "a_b", "aB", "lengthyIdentifier_0123456789",
    "forall_", "forallx", "builtins", "builtin_", "library2", "imports", "lets", "let_", "inn", "in_", "inx", "matches", "match1", "within", "with_",
    "ends", "end_", "endx", "fund", "fun1", "tfuns", "contracts", "contract_", "transitions", "sender", "sends", "events", "event_", "fields", "field1",
    "accepted", "exists_", "deleted", "throws", "scilla_version2", "types", "type_", "off", "of_", "as_", "asx", "procedures", "map", "emp", "byStr", "event1",
    "o", "i", "t", "e", "f", "le", "fo", "wit", "fu", "acc", "field_", "library_", "address", "type_name", "main_type", "string", "int", "eq", "concat",
];
const SPID_NAMES: &[&str] = &["_x", "_sender", "_amount", "_origin", "_balance", "_this_address", "__", "_0", "_A", "_contract", "_library", "_recipient", "_tag", "_eventname", "_X1_", "_codehash", "_nonce"];

/// Every name one edit away from one that has a meaning.
pub fn near_names() -> Vec<String> {
    let mut v = vec![];
    for w in TYPE_NAMES.iter().chain(&["ByStr", "ByStr20", "ByStr32", "ByStr0", "Event", "Map", "Emp"]) {
        let b: Vec<char> = w.chars().collect();
        for i in 0..=b.len() {
            for c in "_012xXsAr".chars() {
                let mut n = b.clone();
                n.insert(i, c);
                v.push(n.iter().collect::<String>());
            }
            if i < b.len() {
                let mut n = b.clone();
                n.remove(i);
                v.push(n.iter().collect());
                let mut n = b.clone();
                n.insert(i, b[i]);
                v.push(n.iter().collect());
                let mut n = b.clone();
                n[i] = if b[i].is_ascii_uppercase() { b[i].to_ascii_lowercase() } else { b[i].to_ascii_uppercase() };
                v.push(n.iter().collect());
                if i + 1 < b.len() {
                    let mut n = b.clone();
                    n.swap(i, i + 1);
                    v.push(n.iter().collect());
                }
            }
        }
        for affix in ["__", "_20", "0x20", "x20", "Type", "_Type", "Foo", "1_1", "000"] {
            v.push(format!("{}{}", w, affix));
        }
        v.push(w.to_uppercase());
        v.push(format!("{}{}", w, w));
        for o in ["Bool", "ByStr20", "Int32", "Map", "Option"] {
            v.push(format!("{}{}", w, o));
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|s| (is_token(s, CID) || is_token(s, BYSTRN)) && !TYPE_NAMES.contains(&s.as_str()) && seen.insert(s.clone()));
    v
}

fn is_name(s: &str) -> bool {
    !s.is_empty() && s.len() < 60 && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_')
}

/// The text is exactly one token of this class.
pub fn is_token(s: &str, t: T) -> bool {
    let l = lex(s);
    l.open_from.is_none() && l.toks.len() == 1 && l.toks[0].t == t && l.toks[0].start.byte == 0 && l.toks[0].end.byte == s.len()
}

/// Powers of two and ten and their neighbours, in decimal.
fn round_numbers() -> Vec<String> {
    let mut v = vec![];
    let add = |d: &[u8], k: i8| -> String {
        // d: digits, the last one first
        let mut d = d.to_vec();
        let mut c = k;
        for x in d.iter_mut() {
            let y = *x as i8 + c;
            *x = y.rem_euclid(10) as u8;
            c = y.div_euclid(10);
        }
        if c > 0 {
            d.push(c as u8);
        }
        let s: String = d.iter().rev().map(|x| (b'0' + x) as char).collect();
        let s = s.trim_start_matches('0');
        if s.is_empty() { "0".into() } else { s.into() }
    };
    let mut d = vec![1u8];
    for p in 0..260 {
        if p < 10 || [15, 16, 30, 31, 32, 33, 47, 48, 52, 53, 54, 62, 63, 64, 65, 95, 96, 127, 128, 129, 159, 160, 255, 256, 257].contains(&p) {
            for k in [-1, 0, 1] {
                v.push(add(&d, k));
            }
        }
        let mut c = 0;
        for x in d.iter_mut() {
            let y = *x * 2 + c;
            *x = y % 10;
            c = y / 10;
        }
        if c > 0 {
            d.push(c);
        }
    }
    for n in 0..40 {
        v.push(format!("1{}", "0".repeat(n)));
        v.push("9".repeat(n + 1));
    }
    v.extend((0..140).map(|n| n.to_string()));
    v
}

/// Many texts of each class of tokens, always the same.
pub fn literals() -> Vec<(T, String)> {
    let mut v: Vec<(T, String)> = vec![];
    let pieces = ["\\t", "\\n", "\\\\", "\\\"", "a", " ", "\u{e9}", "(*", "*)", "'", "\t", "\n", "\r", "\\b", "\\f", "\\r", "\\u0041", "\\x41", "\\0", "0x", "//", "end", "7", "\u{1F980}", "\u{feff}", "e\u{301}", "A", "_", "$", "\\a", "\\'", "\u{a0}", "\u{130}"];
    v.push((STRING, "\"\"".into()));
    for (i, a) in pieces.iter().enumerate() {
        v.push((STRING, format!("\"{}\"", a)));
        for (j, b) in pieces.iter().enumerate() {
            v.push((STRING, format!("\"{}{}\"", a, b)));
            if i < 7 && j < 7 {
                for c in &pieces[..7] {
                    v.push((STRING, format!("\"{}{}{}\"", a, b, c)));
                }
            }
        }
        for n in [3, 4, 5, 8, 16, 32, 64] {
            v.push((STRING, format!("\"{}\"", a.repeat(n))));
        }
    }
    for n in 0..=70 {
        for x in ["0", "f", "F", "9", "aB", "0F"] {
            let s = x.repeat(140)[..2 * n].to_string();
            v.push((HEX, format!("0x{}", s)));
        }
        if n > 0 {
            v.push((HEX, format!("0x{}1", "0".repeat(2 * n - 1))));
            v.push((HEX, format!("0x1{}", "0".repeat(2 * n - 1))));
            v.push((HEX, format!("0X{}", "aB".repeat(n))));
        }
    }
    for n in round_numbers() {
        for p in ["", "-", "0", "-0", "00"] {
            v.push((NUMBER, format!("{}{}", p, n)));
        }
        v.push((BYSTRN, format!("ByStr{}", n)));
        v.push((BYSTRN, format!("ByStr0{}", n)));
    }
    for n in 1..=130 {
        for x in ["a", "_", "Z", "9", "xY_0"] {
            let s = x.repeat(130)[..n - 1].to_string();
            v.push((ID, format!("x{}", s)));
            v.push((CID, format!("C{}", s)));
            v.push((SPID, format!("_{}", s)));
            v.push((TID, format!("'A{}", s)));
        }
    }
    for a in b'a'..=b'z' {
        let a = a as char;
        let u = a.to_ascii_uppercase();
        for b in ["", "0", "_", "a", "A", "z9", "__", "_1", "_a"] {
            v.push((ID, format!("{}{}", a, b)));
            v.push((CID, format!("{}{}", u, b)));
            v.push((SPID, format!("_{}{}", a, b)));
            v.push((TID, format!("'{}{}", u, b)));
        }
    }
    for w in TYPE_NAMES.iter().chain(NEAR_NAMES) {
        v.push((CID, w.to_string()));
        v.push((TID, format!("'{}", w)));
        v.push((ID, w.to_ascii_lowercase()));
        v.push((SPID, format!("_{}", w)));
    }
    for w in ID_NAMES {
        v.push((ID, w.to_string()));
        v.push((SPID, format!("_{}", w)));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|(t, s)| is_token(s, *t) && seen.insert(s.clone()));
    v
}

impl Dict {
    pub fn load(src: &Path) -> Dict {
        let mut d = Dict::default();
        let mut files = vec![src.to_path_buf()];
        let mut texts = vec![];
        while let Some(f) = files.pop() {
            if f.is_dir() {
                let mut v: Vec<_> = std::fs::read_dir(&f).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
                v.sort();
                files.extend(v);
            } else if matches!(f.extension().and_then(|e| e.to_str()), Some("rs") | Some("lalrpop")) {
                if let Ok(s) = std::fs::read_to_string(&f) {
                    texts.push(s);
                }
            }
        }
        for t in &texts {
            d.mine(t);
        }
        d.words.sort();
        d.words.dedup();
        d.ints.sort();
        d.ints.dedup();
        d.strings.sort();
        d.strings.dedup();
        d.fill();
        d
    }

    fn mine(&mut self, text: &str) {
        for line in text.lines() {
            let l = line.trim_start();
            if l.starts_with("//") {
                continue;
            }
            let b = line.as_bytes();
            let mut i = 0;
            while i < b.len() {
                match b[i] {
                    b'"' => {
                        let mut k = i + 1;
                        while k < b.len() && b[k] != b'"' {
                            k += if b[k] == b'\\' { 2 } else { 1 };
                        }
                        if k < b.len() {
                            let s = &line[i + 1..k];
                            if s.len() < 80 {
                                self.strings.push(s.to_string());
                                for w in s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
                                    if is_name(w) {
                                        self.words.push(w.to_string());
                                    }
                                }
                            }
                        }
                        i = k + 1;
                    }
                    c if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) => {
                        let k = i + b[i..].iter().take_while(|c| c.is_ascii_alphanumeric() || **c == b'_').count();
                        let w = line[i..k].replace('_', "");
                        let v = if let Some(h) = w.strip_prefix("0x") {
                            u64::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok()
                        } else {
                            let digits: String = w.chars().take_while(|c| c.is_ascii_digit()).collect();
                            digits.parse().ok()
                        };
                        if let Some(v) = v {
                            self.ints.push(v);
                        }
                        i = k;
                    }
                    _ => i += 1,
                }
            }
        }
    }

    fn fill(&mut self) {
        let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        let mined: Vec<String> = self.words.clone();
        let mut ids = own(ID_NAMES);
        let mut cids = own(TYPE_NAMES);
        cids.extend(own(NEAR_NAMES));
        let mut spids = own(SPID_NAMES);
        for w in &mined {
            ids.push(w.clone());
            cids.push(w.clone());
            spids.push(w.clone());
            spids.push(format!("_{}", w));
            let mut c = w.clone();
            c[..1].make_ascii_uppercase();
            cids.push(c);
            let mut c = w.clone();
            c[..1].make_ascii_lowercase();
            ids.push(c);
        }
        let keep = |v: Vec<String>, t: T| {
            let mut v: Vec<String> = v.into_iter().filter(|s| is_token(s, t)).collect();
            let mut seen = std::collections::HashSet::new();
            v.retain(|s| seen.insert(s.clone()));
            v
        };
        self.ids = keep(ids, ID);
        self.cids = keep(cids, CID);
        self.spids = keep(spids, SPID);
        self.tids = keep(own(&["'A", "'B", "'T", "'Foo", "'A_b1", "'ByStr20", "'Event", "'Map", "'X9"]), TID);
        self.hexes = keep(own(&["0x", "0X", "0x00", "0x1234", "0XaB", "0xdeadBEEF", "0x1234567890123456789012345678901234567890", "0xffffffffffffffffffffffffffffffffffffffff"]), HEX);
        let mut nums = own(&["0", "1", "-1", "00", "007", "-0", "42", "2147483648", "-9223372036854775809", "340282366920938463463374607431768211456", "115792089237316195423570985008687907853269984665640564039457584007913129639936"]);
        let mut bs: Vec<String> = [0u64, 1, 2, 4, 19, 20, 21, 32, 33, 64, 65, 200, 255, 256, 1000, 65535, 65536, 4294967295, 4294967296, u64::MAX].iter().map(|n| format!("ByStr{}", n)).collect();
        for i in &self.ints {
            for v in [*i, i.wrapping_add(1), i.wrapping_sub(1)] {
                nums.push(v.to_string());
                nums.push(format!("-{}", v));
                bs.push(format!("ByStr{}", v));
            }
        }
        self.numbers = keep(nums, NUMBER);
        self.bystrs = keep(bs, BYSTRN);
        let mut lits = own(&[
            "\"\"", "\"a\"", "\"hello world\"", "\"a\\\"b\"", "\"\\\\\"", "\"\\n\\t\"", "\"(* not a comment *)\"", "\"*)\"", "\"a\nb\"", "\"  \"", "\"\t\"",
            "\"h\u{e9}llo \u{1F600}\"", "\"\u{3000}\"", "\"end transition\"", "\"ends with backslash \\\\\"", "\"\\u0041\"", "\"'\"", "\"\r\n\"", "\"(*\"",
        ]);
        for s in &self.strings {
            lits.push(format!("\"{}\"", s));
        }
        self.lits = keep(lits, STRING);
        // Keep only real mined words for later use.
        self.words.retain(|w| is_name(w));
    }

    pub fn id(&self, r: &mut Rng) -> String {
        self.text(ID, r)
    }
    pub fn cid(&self, r: &mut Rng) -> String {
        self.text(CID, r)
    }

    fn random_name(&self, r: &mut Rng, first: &[u8]) -> String {
        let rest = b"abcxyzABCXYZ0189__st";
        let n = if r.chance(1, 12) { r.range(10, 70) } else { r.range(0, 6) };
        let mut s = String::new();
        s.push(*r.pick(first) as char);
        for _ in 0..n {
            s.push(*r.pick(rest) as char);
        }
        s
    }

    /// A long text of the given terminal.
    pub fn long_text(&self, t: T, r: &mut Rng) -> String {
        let n = *r.pick(&[30, 31, 32, 33, 39, 40, 62, 63, 64, 65, 77, 78, 80, 81, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 512, 513, 1025]) as usize;
        let few = |r: &mut Rng, from: &[u8]| -> String { (0..n).map(|_| *r.pick(from) as char).collect() };
        let names: &[&[u8]] = &[b"a", b"_", b"9", b"Z", b"aB_0", b"xyzXYZ019_"];
        let from = *r.pick(names);
        match t {
            ID => format!("{}{}", r.pick(&["x", "a", "z", "field", "end_"]), few(r, from)),
            CID => format!("{}{}", r.pick(&["T", "A", "Z", "Event", "Int32", "ByStr20x"]), few(r, from)),
            SPID => format!("_{}", few(r, from)),
            TID => format!("'{}{}", r.pick(&["A", "Z"]), few(r, from)),
            NUMBER => {
                let digits: &[&[u8]] = &[b"0", b"9", b"01", b"0123456789"];
                let from = *r.pick(digits);
                format!("{}{}{}{}", r.pick(&["", "", "-"]), r.pick(&["", "1", "0", "7"]), few(r, from), r.pick(&["", "1", "0"]))
            }
            HEX => {
                let digits: &[&[u8]] = &[b"0", b"f", b"F", b"aB", b"0123456789abcdefABCDEF"];
                let from = *r.pick(digits);
                format!("{}{}{}", r.pick(&["0x", "0x", "0X"]), few(r, from), r.pick(&["", "1", "0", "c"]))
            }
            STRING => {
                let mut s = "\"".to_string();
                let k = *r.pick(&["a", " ", "\\\"", "\\n", "(*", "*)", "\n", "\u{e9}", "\u{1F980}", "'", "0x1 "]);
                while s.len() < n {
                    s.push_str(k);
                    if r.chance(1, 9) {
                        s.push_str(r.pick(&["b", " ", "\t", "\u{4e2d}"]));
                    }
                }
                s.push('"');
                s
            }
            _ => "ByStr1".into(),
        }
    }

    /// A text of the given terminal.
    pub fn text(&self, t: T, r: &mut Rng) -> String {
        if (t as usize) < FIRST_CLASS {
            return TERMS[t as usize].to_string();
        }
        if r.chance(1, 60) {
            let s = self.long_text(t, r);
            if is_token(&s, t) {
                return s;
            }
        }
        for _ in 0..20 {
            let s = match t {
                ID => match r.below(4) {
                    0 => self.random_name(r, b"abcefgilmostwz"),
                    _ => r.pick(&self.ids).clone(),
                },
                CID => match r.below(6) {
                    0 => self.random_name(r, b"ABCEIMSUZ"),
                    5 => {
                        let mut s: Vec<char> = r.pick(TYPE_NAMES).chars().collect();
                        for _ in 0..r.range(1, 2) {
                            let i = r.range(0, s.len());
                            s.insert(i, *r.pick(b"_012xXsABoy") as char);
                        }
                        s.into_iter().collect()
                    }
                    1 | 2 => r.pick(TYPE_NAMES).to_string(),
                    _ => r.pick(&self.cids).clone(),
                },
                SPID => match r.below(4) {
                    0 => self.random_name(r, b"_"),
                    _ => r.pick(&self.spids).clone(),
                },
                TID => match r.below(3) {
                    0 => format!("'{}", self.random_name(r, b"ABCTXYZ")),
                    _ => r.pick(&self.tids).clone(),
                },
                NUMBER => match r.below(3) {
                    0 => format!("{}{}", if r.chance(1, 3) { "-" } else { "" }, r.next() >> r.below(64)),
                    _ => r.pick(&self.numbers).clone(),
                },
                HEX => match r.below(5) {
                    // Addresses, hashes, keys, signatures
                    0 => {
                        let n = *r.pick(&[2usize, 4, 8, 16, 20, 20, 20, 32, 32, 33, 48, 64, 65]);
                        match r.below(6) {
                            0 => format!("0x{}", "00".repeat(n)),
                            1 => format!("0x{}", "ff".repeat(n)),
                            2 => format!("0x{}1", "0".repeat(2 * n - 1)),
                            3 => format!("0x{}", "aB".repeat(n)),
                            _ => format!("0x{}", (0..2 * n).map(|_| *r.pick(b"0123456789abcdefABCDEF") as char).collect::<String>()),
                        }
                    }
                    1 | 2 => {
                        let mut s = if r.chance(1, 4) { "0X".to_string() } else { "0x".to_string() };
                        for _ in 0..2 * r.range(0, 22) {
                            s.push(*r.pick(b"0123456789abcdefABCDEF") as char);
                        }
                        s
                    }
                    _ => r.pick(&self.hexes).clone(),
                },
                STRING => match r.below(3) {
                    0 => {
                        let mut s = "\"".to_string();
                        for _ in 0..r.range(0, 12) {
                            s.push_str(*r.pick(&["a", "B", "7", " ", "\\\"", "\\\\", "\\n", "(*", "*)", "\n", "\t", "\u{e9}", "\u{1F980}", "'", ":=", "end"]));
                        }
                        s.push('"');
                        s
                    }
                    _ => r.pick(&self.lits).clone(),
                },
                BYSTRN => match r.below(3) {
                    0 => format!("ByStr{}", r.next() >> r.range(30, 63)),
                    1 => "ByStr20".to_string(),
                    _ => r.pick(&self.bystrs).clone(),
                },
                _ => unreachable!(),
            };
            if is_token(&s, t) {
                return s;
            }
        }
        match t {
            ID => "x",
            CID => "T",
            SPID => "_x",
            TID => "'A",
            NUMBER => "0",
            HEX => "0x",
            STRING => "\"\"",
            _ => "ByStr1",
        }
        .to_string()
    }
}
