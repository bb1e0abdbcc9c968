//! Damaging token sequences and texts.

use crate::dict::Dict;
use crate::gen::GTok;
use crate::lexref::{NTERM, T};
use crate::rng::Rng;

pub fn random_tok(d: &Dict, r: &mut Rng) -> GTok {
    let t = r.below(NTERM) as T;
    GTok { t, text: d.text(t, r) }
}

/// One to three edits of a token sequence.
pub fn tokens(toks: &mut Vec<GTok>, donor: &[GTok], d: &Dict, r: &mut Rng) {
    let n = *r.pick(&[1, 1, 1, 1, 2, 3]);
    for _ in 0..n {
        let len = toks.len();
        if len == 0 {
            toks.push(random_tok(d, r));
            continue;
        }
        let i = r.below(len);
        match r.below(12) {
            0 | 1 => {
                toks.remove(i);
            }
            2 | 3 => toks.insert(r.below(len + 1), random_tok(d, r)),
            4 => toks[i] = random_tok(d, r),
            5 => {
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            6 => {
                let j = if r.chance(1, 2) { (i + 1) % len } else { r.below(len) };
                toks.swap(i, j);
            }
            7 => toks.truncate(i),
            8 => {
                let t = toks[r.below(len)].clone();
                toks.insert(i, t);
            }
            9 => {
                // Remove or repeat a short run.
                let j = (i + r.range(1, 6)).min(len);
                if r.chance(1, 2) {
                    toks.drain(i..j);
                } else {
                    let run: Vec<GTok> = toks[i..j].to_vec();
                    toks.splice(i..i, run);
                }
            }
            10 if !donor.is_empty() => {
                let a = r.below(donor.len());
                let b = (a + r.range(1, 8)).min(donor.len());
                toks.splice(i..i, donor[a..b].iter().cloned());
            }
            10 => toks.push(random_tok(d, r)),
            _ => {
                let at = len.saturating_sub(r.below(3));
                toks.insert(at, random_tok(d, r));
            }
        }
    }
}

pub const NASTY: &[&str] = &[
    "\u{0}", "\u{1}", "\u{7f}", "\u{80}", "\u{e9}", "\u{df}", "\u{130}", "\u{300}", "\u{3b1}", "\u{4e2d}", "\u{ff10}", "\u{660}", "\u{2002}", "\u{200b}", "\u{200d}", "\u{202e}", "\u{feff}",
    "\u{fffd}", "\u{fffe}", "\u{10ffff}", "\u{1F980}", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{b2}", "\u{bd}", "\u{2160}", "\r", "\n", "\r\n", "\t", "\u{b}", "\u{c}", " ",
    "\"", "\\", "\\\"", "'", "(*", "*)", "(", ")", "*", "-", "->", "-1", "-\u{660}", "<", "<-", ">", "=", "=>", ":", ":=", "0x", "0X1", "0x1", "+1", "_", "__", ".", "..", "@", "#", "$", "%", "^", "!", "~", "`", "?", "/",
    "\\\n", "ByStr", "ByStr1", "Event", "Map", "Emp", "forall", "in", "end", "with", "type", "a", "A", "'A", "'a", "1", "0",
];

/// What has a meaning of its own in texts of other kinds, here none.
pub const MARKS: &[&str] = &[
    "#!/usr/bin/env scilla\n", "#!", "#! x\n", "\u{feff}", "//", "// c\n", "-- c\n", "# c\n", "; c\n", "/* c */", "{- c -}", "<!-- c -->", "% c\n", "--\n", "---\n", "...\n",
    "<?xml?>", "\u{1a}", "\u{4}", "\0", "\0\0\0\0", "__END__\n", "#include \"x\"\n", "#line 7\n", "#if 0\n#endif\n", "\\\n", "\\", "@charset \"utf-8\";", "```\n", "~~~\n", "\u{c}", "\u{1b}[0m", "\u{200b}",
    "\u{ad}", "\u{2060}", "\u{180e}", "\u{fffe}", "&nbsp;", "%20", "\\u0041", "\\x41", "$x", "${x}", "{{x}}", "<%= x %>", "!", "!!", "??", "&&", "||", "==", "::", "..", "(*", "*)", "(*)", "(**)", "(***)", "(* (* *)", "''", "\"\"", "\"",
    "\r", "\u{2028}", "\u{85}", "ByStr ", "Event.", ";;", ",,", "()", ";",
];

/// A mark at the start of the text, of a line, at the end, or anywhere.
pub fn mark(s: &mut String, m: &str, place: usize, r: &mut Rng) {
    match place {
        0 => s.insert_str(0, m),
        1 => {
            let at: Vec<usize> = s.match_indices('\n').map(|x| x.0 + 1).collect();
            let at = if at.is_empty() { 0 } else { *r.pick(&at) };
            s.insert_str(at, m)
        }
        2 => s.push_str(m),
        3 => {
            s.push('\n');
            s.push_str(m)
        }
        _ => {
            let i = boundary(s, r);
            s.insert_str(i, m)
        }
    }
}

fn boundary(s: &str, r: &mut Rng) -> usize {
    let mut i = r.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// One to four edits of a text.
pub fn text(s: &str, donor: &str, r: &mut Rng) -> String {
    let mut s = s.to_string();
    for _ in 0..1 + r.geo(1, 2, 3) {
        let i = boundary(&s, r);
        match r.below(11) {
            0 | 1 => s.insert_str(i, *r.pick(NASTY)),
            2 => {
                if let Some(c) = s[i..].chars().next() {
                    s.replace_range(i..i + c.len_utf8(), "");
                }
            }
            3 => {
                if let Some(c) = s[i..].chars().next() {
                    s.replace_range(i..i + c.len_utf8(), *r.pick(NASTY));
                }
            }
            4 => s.truncate(i),
            5 => {
                let j = boundary(&s, r);
                let (a, b) = (i.min(j), i.max(j));
                let b = if b - a > 60 { a } else { b };
                let run = s[a..b].to_string();
                s.insert_str(a, &run);
            }
            6 => {
                let j = boundary(&s, r);
                let (a, b) = (i.min(j), i.max(j));
                if b - a < 200 {
                    s.replace_range(a..b, "");
                }
            }
            7 if !donor.is_empty() => {
                let a = boundary(donor, r);
                let mut b = (a + r.range(1, 40)).min(donor.len());
                while !donor.is_char_boundary(b) {
                    b += 1;
                }
                s.insert_str(i, &donor[a..b]);
            }
            9 | 10 => {
                let place = r.below(5);
                mark(&mut s, r.pick(MARKS), place, r)
            }
            _ => {
                let c = *r.pick(NASTY);
                let n = r.range(1, 6);
                s.insert_str(i, &c.repeat(n));
            }
        }
    }
    s
}

/// A text made of fragments, mostly not a program.
pub fn soup(d: &Dict, r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(0, 40) {
        match r.below(4) {
            0 => s.push_str(*r.pick(NASTY)),
            1 => s.push_str(&random_tok(d, r).text),
            2 => s.push_str(&crate::layout::separator(r, false)),
            _ => {
                s.push_str(&random_tok(d, r).text);
                s.push(' ');
            }
        }
        if r.chance(1, 60) {
            let c = char::from_u32(r.below(0x110000) as u32).unwrap_or('x');
            s.push(c);
        }
    }
    s
}
